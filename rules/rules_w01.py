"""W01: a word is scored by the recurrent network in the context of its own path."""
from dfl import *
from model import *
from pathcut import after, strip, place, executes, edge_facts
from harness import *
from rules_y01 import fns, loops, innermost, turn, rel, facts_at, deep, last, vids, consts
from rules_l01 import inner_turn

GB, IR, MI, MC = ("src/core/analysis/rnn_scorer_gbeam.cc", "src/core/analysis/rnn_id_resolver.cc", "src/rnn/mikolov_rnn_impl.h", "src/rnn/mikolov_rnn.cc")
FILES = (GB, IR, MI, MC, "src/core/analysis/rnn_id_resolver.h", "src/rnn/mikolov_rnn.h")
LISTS = {"scores": "next", "node": "nextInBnd"}


def ty(t):
    return last(re.sub(r"[&*]|\bconst\b|\bstruct\b", "", t or "").strip())


class Paths:
    """access path of a value: members from the parameter, field or call it comes from; a variable which walks a list is W(head)link"""

    def __init__(self, P):
        self.P = P

    def of(self, n, env=None, depth=14):
        x = peel(n)
        if x is None or depth < 0:
            return "?"
        if x.k in CTORS and len(x.c) == 1:
            return self.of(x.c[0], env, depth - 1)
        if x.k == "InitListExpr" and len(x.c) == 1:
            return self.of(x.c[0], env, depth - 1)
        if x.v is not None:
            return "#%s" % x.v
        if x.k == "CXXThisExpr":
            return "this"
        if is_field(x):
            return self.of(x.c[0], env, depth - 1) + "." + x.m if x.c else "this." + x.m
        if x.k == "UnaryOperator" and x.op in ("*", "&"):
            return self.of(x.c[0], env, depth - 1)
        if x.k == "CXXOperatorCallExpr" and x.op in ("->", "*") and len(x.args) == 1:
            return self.of(x.args[0], env, depth - 1)
        if x.k == "CXXOperatorCallExpr" and x.op == "[]" and len(x.args) == 2:
            return "%s.at(%s)" % (self.of(x.args[0], env, depth - 1), self.of(x.args[1], env, depth - 1))
        if x.k == "ArraySubscriptExpr":
            return "%s.at(%s)" % (self.of(x.c[0], env, depth - 1), self.of(x.c[1], env, depth - 1))
        if x.k == "DeclRefExpr":
            v = x.get("vid")
            if env and v in env:
                return env[v]
            if x.get("dk") == "parm":
                return "<%s>%s" % (ty(x.t), v)
            ds = var_defs(x.fn).get(v, [])
            if v in stepped(x.fn):
                return "<%s>%s" % (ty(x.t), v)
            if len(ds) == 1 and v not in vids(ds[0]):
                return self.of(ds[0], env, depth - 1)
            own = [d for d in ds if v in vids(d)]
            oth = [d for d in ds if v not in vids(d)]
            if own and len(oth) == 1:
                e2 = dict(env or {})
                e2[v] = "W"
                steps = {self.of(d, e2, depth - 1) for d in own}
                if len(steps) == 1 and re.fullmatch(r"W(\.\w+)+", list(steps)[0]):
                    return "W(%s)%s" % (self.of(oth[0], env, depth - 1), list(steps)[0][1:].replace(".", "/"))
            return "<%s>%s" % (ty(x.t), v)
        if x.is_call():
            ts = [t for t in self.P.targets(x) if t.cfg is not None]
            if len(ts) == 1 and depth > 2 and not (last(x.q) in ("at", "row", "operator[]") and ts[0].file.startswith("src/util/")):
                r = [y for y in ts[0].all_nodes() if y.k == "ReturnStmt" and y.c]
                if len(r) == 1 and not loops(ts[0]):
                    e2 = {p["vid"]: self.of(a, env, depth - 2) for p, a in zip(ts[0].params, x.args) if p.get("vid") is not None}
                    s = self.of(r[0].c[0], e2, depth - 2)
                    o = self.of(x.obj, env, depth - 1) if x.obj is not None else ""
                    if "?" not in s and not re.search(r"<\w+>\d", re.sub(r"<\w+>\d+", lambda m: "" if m.group(0) in "".join(e2.values()) else m.group(0), s)):
                        return re.sub(r"\bthis\b", lambda m: o, s) if o and o != "this" else s
            if x.obj is not None:
                return "%s.%s(%s)" % (self.of(x.obj, env, depth - 1), last(x.q), ",".join(self.of(a, env, depth - 1) for a in x.args))
            return "%s(%s)" % (last(x.q), ",".join(self.of(a, env, depth - 1) for a in x.args))
        return "?"


def stepped(f):
    d = f.__dict__.get("_stepped")
    if d is None:
        d = f._stepped = {strip(n.c[0]).get("vid") for n in f.all_nodes() if n.k == "UnaryOperator" and n.op in ("++", "--")}
    return d


def wfns(P, *files):
    for f in P.fns.values():
        if f.cfg is not None and f.file in (files or FILES):
            yield f


def walkers(f):
    """(variable, declaration type, assignments which advance it along a link of its own type)"""
    out = {}
    for t, v, s in assigns(f):
        t = strip(t)
        if v is None or t.k != "DeclRefExpr" or t.get("dk") not in ("local", "parm"):
            continue
        pv = peel(v)
        if pv is not None and pv.k == "ConditionalOperator":
            arms = [a for a in pv.c[1:] if not (peel(a).k == "DeclRefExpr" and peel(a).get("vid") == t.get("vid"))]
            v = arms[0] if len(arms) == 1 else v
        fs, root = field_chain(v)
        if fs and root is not None and root.get("vid") == t.get("vid"):
            out.setdefault(t.get("vid"), []).append((s, list(reversed(fs))))
    return out


def heads(f, v):
    return [d for d in var_defs(f).get(v, []) if v not in vids(d)]


# ---------------------------------------------------------------- lists of a boundary
def list_loops(P, f):
    """(loop, variable, link, head path) for loops over the words or the scores of a boundary"""
    A = Paths(P)
    ws = walkers(f)
    for lp in loops(f):
        for v, adv in ws.items():
            a = [s for s, _ in adv if s.inside(lp) and innermost(s) is lp]
            h = heads(f, v)
            if not a or len(h) != 1:
                continue
            t = {tuple(l) for s, l in adv if s in a}
            hp = A.of(h[0])
            if ty(var_type(f, v)) == "RnnScorePtr" or any("nextInBnd" in l for l in t) or hp.endswith(".node"):
                yield lp, v, a, t, hp


def var_type(f, v):
    for n in f.all_nodes():
        if n.k in ("VarDecl", "DeclRefExpr") and n.get("vid") == v:
            return n.t
    return ""


def walk(P, R):
    R.rule("walk", "every word and every score of a boundary is visited once")
    for f in wfns(P, GB):
        for lp, v, adv, links, hp in list_loops(P, f):
            kind = "scores" if ty(var_type(f, v)) == "RnnScorePtr" else "node"
            m = re.search(r"\.(\w+)$", hp)
            if m and m.group(1) in ("next", "nextInBnd", "prev") or hp.startswith("W("):
                R.ob("walk", lp.loc, False, "%s|%s|head" % (f.q, kind), "%s does not begin with the first %s of the boundary" % (f.where, kind))
            if m and m.group(1) == ("node" if kind == "scores" else "scores"):
                R.ob("walk", lp.loc, False, "%s|%s|list" % (f.q, kind), "%s walks the other list" % f.where)
            for l in links:
                R.ob("walk", lp.loc, l == (LISTS[kind],), "%s|%s|step" % (f.q, kind), "%s goes along %s and not to what is next in the boundary" % (f.where, ".".join(l)))
            # the condition: as long as there is one
            for a, p in branch_facts(lp.role("cond"), True):
                x = strip(a)
                r = rel(a, p)
                y = x if p and r is None else None
                if r is not None and r[0] == "!=":
                    y = next((z for z in r[1:] if v in vids(z)), None)
                if y is not None and v in vids(y):
                    fs, root = field_chain(y)
                    R.ob("walk", lp.loc, not (set(fs) & {"next", "nextInBnd", "prev"}), "%s|%s|last" % (f.q, kind), "%s leaves the last of the %s out" % (f.where, kind))
            # nothing ends the walk but the end of the list
            inl = {x.i for x in lp.walk()}
            cnd = lp.role("cond")
            ci = {x.i for x in cnd.walk()}
            nul = lambda a, p: (r := rel(a, p)) is not None and r[0] == "==" and any(y is not None and (y.k == "CXXNullPtrLiteralExpr" or consts(y) == 0) for y in r[1:]) or \
                not p and "*" in (strip(a).t or "")
            for n in f.all_nodes():
                if n.i not in inl or n.k not in ("BreakStmt", "ReturnStmt", "ContinueStmt") or enclosing(n, {"SwitchStmt", "LambdaExpr"}) is not None:
                    continue
                if n.k == "BreakStmt" and innermost(n) is not lp:
                    continue
                if n.k == "ContinueStmt":
                    continue
                fc = facts_at(f, n)
                if any(nul(a, p) for a, p in fc):
                    continue
                if n.k == "ReturnStmt" and n.c and any(z.is_call() and last(z.q) not in ("Ok",) and "Status" in (z.t or "") for z in n.walk()):
                    continue
                R.ob("walk", n.loc, False, "%s|%s|%s" % (f.q, kind, n.k), "%s stops before the end of the %s" % (f.where, kind))
            R.ob("walk", lp.loc, True, "%s|%s" % (f.q, kind), "")


def is_walk(p, kind):
    return re.match(r"W\(.*\.%s\)/%s" % (kind, LISTS[kind]), p)


def counter_ok(f, lp, x):
    """problem of a counter as the number of the turn, or None"""
    v = strip(x).get("vid")
    ds = [d for d in f.all_nodes() if d.k == "VarDecl" and d.get("vid") == v]
    if not ds or not ds[0].c:
        return None
    if ds[0].inside(lp) and lp.role("init") is not None and ds[0].inside(lp.role("init")):
        inner = True
    elif ds[0].inside(lp):
        return "starts again in every turn"
    if consts(ds[0].c[0]) not in (0, None):
        return "starts with %s" % consts(ds[0].c[0])
    ups = [n for n in f.all_nodes() if n.k == "UnaryOperator" and n.op in ("++", "--") and strip(n.c[0]).get("vid") == v]
    ups += [n for n in f.all_nodes() if n.k == "CompoundAssignOperator" and strip(n.c[0]).get("vid") == v]
    ups += [n for n in f.all_nodes() if n.k == "BinaryOperator" and n.op == "=" and strip(n.c[0]).get("vid") == v]
    if any(n.k == "BinaryOperator" for n in ups):
        return None
    if not ups:
        return "is never advanced"
    for n in ups:
        if n.op == "--" or n.op == "-=" or n.k == "CompoundAssignOperator" and consts(n.c[1]) not in (1, None):
            return "does not advance by one"
        if not n.inside(lp):
            return None
    w = [u for u in ups if innermost(u) is lp or u.inside(lp)]
    ids, nxt = inner_turn(f, lp, None, lambda n: n.i in {u.i for u in w})
    if nxt:
        return "does not advance in every turn"
    for u in w:
        ids2 = after(f, u, None, lambda n: n.i in {c.i for c in lp.role("cond").walk()})
        if {z.i for z in w} & ids2:
            return "advances twice"
        post = u.k == "UnaryOperator" and not u.get("pre")
        if place(f.cfg, x) is not None and executes(ids2, x) and x not in list(u.walk()):
            return "is used after it was advanced"
    return None


def rows(P, R):
    R.rule("row", "what belongs to one word or score is at one row of every array: a word at its index, the n-th score at n")
    A = Paths(P)
    for f in wfns(P, GB):
        for lp, v, adv, links, hp in list_loops(P, f):
            kind = "scores" if ty(var_type(f, v)) == "RnnScorePtr" else "node"
            for n in f.calls():
                if not n.inside(lp) or last(n.q) not in ("at", "row", "operator[]") and n.op != "[]":
                    continue
                if innermost(n) is not lp:
                    continue
                base = n.obj if n.obj is not None else n.args[0]
                ix = n.args[-1]
                if ty(base.t) in ("",) or "map" in (base.t or "").lower():
                    continue
                bp = A.of(base)
                x = strip(ix)
                if re.search(r"(^|\.)contexts(\.|$)|nodeScores|beamLeft|boundaries_|mbeddings", bp):
                    continue
                if not re.search(r"Buf|<(MutableArraySlice|ArraySlice|Sliceable|ConstSliceable)>|MutableArraySlice\(|subset", bp + " " + ty(base.t)) and "Slice" not in (base.t or ""):
                    continue
                ip = A.of(ix)
                if kind == "node":
                    bad = ip.endswith(".prev.idx") or re.search(r"\.(id|boundary|length)$", ip) or x.k == "DeclRefExpr" and is_count(f, x)
                    R.ob("row", n.loc, not bad, "%s|node" % f.q, "%s takes a row which is not the one of the word's index" % f.where)
                else:
                    if ip.endswith(".idx") or re.search(r"\.(id|boundary|length)$", ip):
                        R.ob("row", n.loc, False, "%s|scores" % f.q, "%s takes the row of a word for a score" % f.where)
                    elif x.k == "DeclRefExpr" and x.get("dk") == "local":
                        w = counter_ok(f, lp, x)
                        R.ob("row", n.loc, w is None, "%s|counter" % f.q, "%s takes a row by a number which %s" % (f.where, w))
        # loops by index: from the begin to the end, the same row on both sides
        for lp in loops(f):
            if lp.k != "ForStmt":
                continue
            cp = [n for n in f.calls() if n.inside(lp) and last(n.q) == "copy_buffer" and len(n.args) == 2]
            for n in cp:
                s, d = A.of(n.args[0]), A.of(n.args[1])
                iv = {strip(x).get("vid") for x in lp.role("inc").walk() if x.k == "DeclRefExpr"} if lp.role("inc") is not None else set()
                if len(iv) != 1:
                    continue
                for x in f.all_nodes():
                    if x.inside(lp) and x.is_call() and (last(x.q) in ("at", "row") or x.op == "[]") and vids(x.args[-1]) & iv:
                        y = peel(x.args[-1])
                        if y.k == "DeclRefExpr":
                            w = counter_ok(f, lp, y)
                            R.ob("row", x.loc, w is None, "%s|each" % f.q, "%s takes a row by a number which %s" % (f.where, w))
                        elif y.k == "BinaryOperator" and y.op in ("+", "-") and any(consts(z) for z in y.c):
                            R.ob("row", x.loc, False, "%s|each" % f.q, "%s takes another row than the one of the word" % f.where)
                for a, p in branch_facts(lp.role("cond"), True):
                    r = rel(a, p)
                    if r is not None and iv & (vids(r[1]) | vids(r[2])):
                        o = r[2] if iv & vids(r[1]) else r[1]
                        bad = r[0] in ("<=", ">=") and peel(o).is_call() or peel(o).k == "BinaryOperator" and peel(o).op == "-" and consts(peel(o).c[1])
                        R.ob("row", lp.loc, not bad, "%s|all" % f.q, "%s does not go over all words" % f.where)


def is_count(f, x):
    v = x.get("vid")
    return x.get("dk") == "local" and any(n.k == "UnaryOperator" and n.op == "++" and strip(n.c[0]).get("vid") == v or
                                          n.k == "CompoundAssignOperator" and strip(n.c[0]).get("vid") == v for n in f.all_nodes())


# ---------------------------------------------------------------- what is put in the rows
def inside_fns(P, f, depth=2):
    yield f
    if depth:
        for c in f.calls():
            for t in P.targets(c):
                if t.cfg is not None and t.file == f.file and t is not f:
                    yield from inside_fns(P, t, depth - 1)


ROLE = {"ParallelContextData": ("context", "leftEmbeds", "newContext"), "ParallelStepData": ("contextIds", "rightIds", "context", "nceEmbeds", "scores")}


def packs(P):
    """(function, node of the initializer, struct, {field: value})"""
    for f in wfns(P, GB):
        for n in f.all_nodes():
            if n.k == "InitListExpr" and ty(n.t) in ROLE:
                names = ROLE[ty(n.t)]
                if len(n.c) == len(names):
                    yield f, n, ty(n.t), dict(zip(names, n.c))
        by = {}
        for t, v, s in assigns(f):
            t = strip(t)
            if is_field(t) and t.c and ty(t.c[0].t) in ROLE and v is not None:
                by.setdefault((ty(t.c[0].t), strip(t.c[0]).get("vid")), {})[t.m] = v
        for (k, _), d in by.items():
            yield f, list(d.values())[0], k, d


def maker(P, f, v):
    a = alias(v)
    while a is not None and a.k in CTORS and len(a.c) == 1:
        a = alias(a.c[0])
    if a is not None and a.is_call():
        ts = [t for t in P.targets(a) if t.cfg is not None and t.file == f.file]
        if len(ts) == 1:
            return ts[0], a
    return None, a


def stored(P, g):
    """(value which is stored in a row, node) in a function which fills an array"""
    for n in g.calls():
        if last(n.q) == "copy_buffer" and len(n.args) == 2:
            yield n.args[0], n.args[1], n
    for t, v, s in assigns(g):
        t = strip(t)
        if v is not None and t.is_call() and (last(t.q) == "at" or t.op == "[]") and s.k in ("BinaryOperator",):
            yield v, t, s


def filling(P, R):
    R.rule("filled", "the arrays which the network is given hold what they are for: the states the words come from, embeddings of the words, embeddings for their scores")
    A = Paths(P)
    src = {"context": r"contexts", "leftEmbeds": r"(?<![eE])embeddings\b|\bembeddings\b", "nceEmbeds": r"nceEmbeddings"}
    for f, n, k, d in packs(P):
        bufs = {}
        for role, v in d.items():
            g, call = maker(P, f, v)
            if g is None:
                continue
            for h in inside_fns(P, g, 1):
                for x in h.all_nodes():
                    if is_field(x) and x.m in ("ctxIdBuf", "rightIdBuf", "contextBuf", "embBuf", "scoreBuf"):
                        bufs.setdefault(x.m, set()).add(role)
            if role in src:
                ps = {A.of(v2) for h in inside_fns(P, g, 1) for v2, t2, s2 in stored(P, h)}
                known = [p for p in ps if re.search(r"contexts|mbeddings", p)]
                if known:
                    R.ob("filled", n.loc, all(re.search(src[role], p) for p in known), "%s|%s" % (k, role),
                         "%s gives the network %s for %s" % (f.where, known[0], role))
            elif role == "contextIds":
                ps = {A.of(v2) for h in inside_fns(P, g, 1) for v2, t2, s2 in stored(P, h)}
                if ps:
                    R.ob("filled", n.loc, not any(re.search(r"\.(idx|length|boundary|hash)$", p) for p in ps), "%s|%s" % (k, role), "%s gives the network something else than ids" % f.where)
        for b, rs in bufs.items():
            R.ob("filled", n.loc, len(rs) == 1, "%s|%s" % (k, b), "%s has %s in one buffer" % (f.where, " and ".join(sorted(rs))))
        # the embeddings are those of the ids which are scored
        if k == "ParallelStepData" and {"rightIds", "nceEmbeds", "scores"} <= set(d):
            g, call = maker(P, f, d["nceEmbeds"])
            if g is not None and call.args:
                a, b = alias(call.args[0]), alias(d["rightIds"])
                same = struct(a) == struct(b)
                ids = {last(x.q) for x in (a, b) if x is not None and x.is_call()}
                R.ob("filled", n.loc, same or len(ids) < 2, "%s|ids" % k, "%s takes the embeddings of other words than are scored" % f.where)
    # ids of words
    for f in wfns(P, GB):
        for lp, v, adv, links, hp in list_loops(P, f):
            for val, t, s in stored(P, f):
                if not s.inside(lp) or innermost(s) is not lp:
                    continue
                p = A.of(val)
                if "<int>" in p or not p.startswith("W("):
                    continue
                if (val.t or "").replace("const ", "") in ("int", "i32", "jumanpp::i32"):
                    ok = re.fullmatch(r"W\([^()]*(\([^()]*\))*[^()]*\)/(nextInBnd\.id|next\.rnn\.id)", p)
                    R.ob("filled", s.loc, ok, "%s|id" % f.q, "%s takes %s for the id of the word" % (f.where, p.split(")", 1)[-1]))


def context(P, R):
    R.rule("context", "the state before a word is the one after the word which precedes it in its path")
    A = Paths(P)
    for f in wfns(P, GB):
        for n in f.calls():
            if last(n.q) != "row" or n.obj is None:
                continue
            p = A.of(n.obj)
            m = re.match(r"(?:this|<\w+>\d+)\.contexts\.at\((.*)\)$", p)
            if not m:
                continue
            b, i = m.group(1), A.of(n.args[0])
            if "?" in b + i:
                continue
            b0, _, bf = b.rpartition(".")
            i0, _, jf = i.rpartition(".")
            if not bf or not jf:
                continue
            R.ob("context", n.loc, (bf, jf) == ("boundary", "idx") and b0 == i0, "%s|pair" % f.q, "%s looks a state up by %s and %s" % (f.where, bf, jf))
            w = b0.rsplit(")", 1)[-1] if b0.startswith("W(") else None
            if w is not None:
                R.ob("context", n.loc, w in ("/nextInBnd.prev", "/next.rnn.prev"), "%s|prev" % f.q, "%s takes the state of another word than the preceding one" % f.where)
            elif re.match(r"<\w+>\d+$", b0):
                for c in P.callers.get(f.key, []):
                    ix = [j for j, q in enumerate(f.params) if b0.endswith(">%s" % q.get("vid"))]
                    call = c[1] if isinstance(c, tuple) else c
                    if ix and hasattr(call, "args") and ix[0] < len(call.args):
                        q = A.of(call.args[ix[0]])
                        if q.startswith("W("):
                            R.ob("context", call.loc, q.rsplit(")", 1)[-1] in ("/nextInBnd.prev", "/next.rnn.prev"), "%s|prev" % f.q, "%s takes the state of another word than the preceding one" % f.where)
        for t, v, s in assigns(f):
            p = A.of(t)
            m = re.match(r"this\.contexts\.at\((.*)\)$", p)
            if not m or v is None:
                continue
            q = A.of(v)
            if "bosState" in q:
                R.ob("context", s.loc, m.group(1) == "#1", "bos", "%s puts the state of the begin of the sentence elsewhere than at boundary 1" % f.where)
            elif m.group(1).startswith("#"):
                R.ob("context", s.loc, False, "fixed|%s" % f.q, "%s puts states at a fixed boundary" % f.where)
    # the new states of a boundary are put at this boundary
    for f, n, k, d in packs(P):
        if k != "ParallelContextData" or "newContext" not in d:
            continue
        g, call = maker(P, f, d["newContext"])
        rb = [x for x in f.calls() if last(x.q) == "rnnBoundary"]
        if g is None or len(rb) != 1:
            continue
        put = [t for t, v, s in assigns(g) if re.match(r"this\.contexts\.at\(", A.of(t))]
        R.ob("context", n.loc, bool(put) or bool([t for t, v, s in assigns(f) if re.match(r"this\.contexts\.at\(", A.of(t))]), "%s|kept" % f.q, "%s does not keep the states of the boundary" % f.where)
        for t in put:
            ix = t if t.is_call() else peel(t)
            q = strip(ix.args[-1])
            j = [i for i, pp in enumerate(g.params) if pp.get("vid") == q.get("vid")]
            if j and j[0] < len(call.args):
                R.ob("context", call.loc, struct(alias(call.args[j[0]])) == struct(alias(rb[0].args[0])), "%s|at" % f.q, "%s keeps the states at another boundary" % f.where)
            elif q.k == "BinaryOperator":
                R.ob("context", t.loc, not any(consts(z) for z in q.c), "%s|at" % f.q, "%s keeps the states at another boundary" % g.where)


def history(P, R):
    R.rule("history", "the words before a word are taken from its own path, the nearest first")
    A = Paths(P)
    for f, n, k, d in packs(P):
        if "contextIds" not in d:
            continue
        g, call = maker(P, f, d["contextIds"])
        if g is None:
            continue
        for h in inside_fns(P, g, 1):
            ws = walkers(h)
            for val, t, s in stored(P, h):
                lp = innermost(s)
                x = peel(val)
                fs, root = field_chain(x)
                if lp is None or root is None or fs != ["id"] or root.k != "DeclRefExpr":
                    continue
                v = root.get("vid")
                R.ob("history", s.loc, v in ws, "walk", "%s takes the same word for every place of the history" % h.where)
                if v not in ws:
                    continue
                for a, l in ws[v]:
                    R.ob("history", a.loc, l == ["prev"], "step", "%s goes along %s and not to the preceding word" % (h.where, ".".join(l)))
                hs = {A.of(y) for y in heads(h, v)}
                for q in hs:
                    if q.startswith("W("):
                        R.ob("history", s.loc, q.rsplit(")", 1)[-1] in ("/next.rnn.prev",), "head", "%s does not begin with the preceding word" % h.where)
                adv = {a.i for a, l in ws[v]}
                if innermost([a for a, l in ws[v]][0]) is lp:
                    # first the id, then the step; a step in every turn unless there is no word before
                    ok = lambda a, p: no_prev(a, p, v)
                    ids, nxt = inner_turn(h, lp, ok, lambda y: y.i in adv)
                    R.ob("history", s.loc, not nxt, "each", "%s does not go to the preceding word" % h.where)
                    for a, l in ws[v]:
                        ids = after(h, a, None, lambda y: y.i in {c.i for c in lp.role("cond").walk()})
                        R.ob("history", s.loc, not executes(ids, s), "order", "%s begins the history with the word after the nearest" % h.where)
                    decl = [y for y in h.all_nodes() if y.k == "VarDecl" and y.get("vid") == v]
                    R.ob("history", s.loc, not (decl and decl[0].inside(lp)), "restart", "%s takes the same word for every place of the history" % h.where)
                    out = innermost(lp)
                    if out is not None and decl:
                        R.ob("history", s.loc, decl[0].inside(out) or any(a.inside(out) and not a.inside(lp) for t2, v2, a in assigns(h) if strip(t2).get("vid") == v),
                             "own", "%s goes on with the history of another word" % h.where)
                # the cells in order
                tx = strip(t)
                ix = strip(tx.args[-1]) if tx.is_call() else None
                if ix is not None and ix.k == "DeclRefExpr":
                    w = counter_ok2(h, lp, ix)
                    R.ob("history", s.loc, w is None, "cell", "%s puts the history at places whose number %s" % (h.where, w))
                elif ix is not None and ix.k == "BinaryOperator":
                    R.ob("history", s.loc, False if ix.op in ("+", "-") and any(consts(z) for z in ix.c) else True, "cell", "%s puts the history at other places" % h.where)


def no_prev(a, p, v):
    r = rel(a, p)
    if r is not None:
        return r[0] == "==" and any(field_chain(y)[0][:1] == ["prev"] for y in r[1:])
    x = strip(a)
    return not p and is_field(x) and x.m == "prev"


def counter_ok2(f, lp, ix):
    v = ix.get("vid")
    d = [y for y in f.all_nodes() if y.k == "VarDecl" and y.get("vid") == v]
    if d and d[0].c and consts(d[0].c[0]) not in (0, None):
        return "starts with %s" % consts(d[0].c[0])
    out = innermost(lp)
    if out is not None and d and not d[0].inside(out) and not any(strip(t).get("vid") == v and s.inside(out) and not s.inside(lp) for t, vv, s in assigns(f) if vv is not None) \
            and not (lp.role("init") is not None and any(strip(t).get("vid") == v for t, vv, s in assigns(f) if s.inside(lp.role("init")))):
        return "is not reset"
    for y in f.all_nodes():
        if y.k == "UnaryOperator" and y.op == "--" and strip(y.c[0]).get("vid") == v:
            return "goes down"
        if y.k == "CompoundAssignOperator" and strip(y.c[0]).get("vid") == v and (y.op != "+=" or consts(y.c[1]) not in (1, None)):
            return "does not advance by one"
    return None


def order(P, R):
    R.rule("order", "words are made known before states, all states are computed before scores, and no boundary with words is left out")
    for f in wfns(P, GB):
        cs = {}
        for c in f.calls():
            cs.setdefault(last(c.q), []).append(c)
        res = cs.get("resolveIdsAtGbeam", [])
        lps = loops(f)
        role, anyc = {}, {}
        for c in f.calls():
            for t in P.targets(c):
                if t.cfg is None or t.file != GB:
                    continue
                names = {last(y.q) for h in inside_fns(P, t, 2) for y in h.calls()}
                for k, w in (("state", "computeNewParCtx"), ("score", "applyParallel")):
                    if w in names:
                        anyc.setdefault(k, []).append(c)
                        for lp in lps:
                            if c.inside(lp):
                                role.setdefault(k, []).append((lp, c))
        if res and anyc:
            R.ob("order", f.where, set(anyc) == {"state", "score"}, "both", "%s does not compute both states and scores" % f.where)
            for k, v in anyc.items():
                for c in v:
                    ids = after(f, c, None, None)
                    for r in res:
                        R.ob("order", c.loc, not executes(ids, r), "resolve|" + k, "%s makes the words known after their %s" % (f.where, k))
        for c in anyc.get("score", []):
            for c2 in anyc.get("state", []):
                ids = after(f, c, None, None)
                R.ob("order", c.loc, not executes(ids, c2) or c is c2, "states-first", "%s computes scores before all states (they share buffers)" % f.where)
        for k, v in role.items():
            for lp, c in v:
                # every turn
                ids, nxt = inner_turn(f, lp, None, lambda y: y.i == c.i)
                R.ob("order", c.loc, not nxt, "each|" + k, "%s leaves boundaries out" % f.where)
                iv = None
                for a, p in branch_facts(lp.role("cond"), True):
                    r = rel(a, p)
                    if r is None:
                        continue
                    iv = next((y for y in r[1:] if y.k == "DeclRefExpr" and y.get("dk") == "local" and is_count(f, y)), None)
                    if iv is None:
                        continue
                    d = [y for y in f.all_nodes() if y.k == "VarDecl" and y.get("vid") == iv.get("vid")]
                    st = consts(d[0].c[0]) if d and d[0].c else None
                    R.ob("order", lp.loc, st in (2, None) or st < 2 and k != "state", "first|" + k, "%s begins with boundary %s" % (f.where, st))
                    o = next(y for y in r[1:] if y is not iv)
                    op = r[0] if r[1] is iv else {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(r[0], r[0])
                    off = off_count(o)
                    if off is None:
                        continue
                    lastb = off - 1 if op in ("<", "!=") else off if op == "<=" else None
                    if lastb is not None:
                        R.ob("order", lp.loc, lastb == -1 if k == "score" else lastb in (-1, -2), "last|" + k, "%s ends %d boundaries after the last" % (f.where, lastb + 1))
                    if c.args:
                        q = alias(c.args[0])
                        R.ob("order", c.loc, q.get("vid") == iv.get("vid") or q.k != "BinaryOperator", "arg|" + k, "%s takes another boundary than the one of the turn" % f.where)
        # memory of the last sentence is given back before anything is made, not after
        for c in f.calls():
            if last(c.q) == "reset" and c.obj is not None and mentions_field(c.obj, "alloc", "manager"):
                for r in res:
                    ids = after(f, r, None, None)
                    R.ob("order", c.loc, not executes(ids, c), "reset", "%s gives memory back which is in use" % f.where)


def mentions_field(n, *names):
    return any(x.k == "MemberExpr" and x.m in names for x in n.walk())


def off_count(n, depth=4):
    """k when the value is the number of boundaries + k"""
    x = peel(n)
    if x is None or not depth:
        return None
    if x.is_call() and last(x.q) == "createdBoundaryCount":
        return 0
    if x.k == "BinaryOperator" and x.op in ("+", "-"):
        a, b = off_count(x.c[0], depth), consts(x.c[1])
        if a is not None and b is not None:
            return a + b if x.op == "+" else a - b
        return None
    if x.k == "DeclRefExpr" and x.get("dk") == "local":
        ds = var_defs(x.fn).get(x.get("vid"), [])
        return off_count(ds[0], depth - 1) if len(ds) == 1 else None
    return None


# ---------------------------------------------------------------- the words of the paths
KNOWN = {"boundary", "right", "left", "beam", "position", "length", "idx", "id", "rnnId", "nodeCnt", "scoreCnt", "hash"}
FROM = {
    "RnnNode": {"id": {"rnnId", "id"}, "boundary": {"boundary"}, "length": {"length"}, "idx": {"nodeCnt", "idx"}},
    "RnnCoordinate": {"boundary": {"boundary"}, "rnnId": {"rnnId", "id"}, "length": {"length"}},
    "ConnectionPtr": {"boundary": {"boundary"}, "right": {"right", "position"}, "left": {"left"}, "beam": {"beam"}},
}


def field_of(n):
    """name of the field or getter a value comes from, without arithmetic"""
    a = peel(n)
    while a is not None and a.k in CTORS and len(a.c) == 1:
        a = peel(a.c[0])
    if a is not None and a.k == "DeclRefExpr" and a.get("dk") == "local":
        a = alias(a)
    if is_field(a):
        return a.m
    if a is not None and a.is_call() and a.obj is not None and not a.args:
        return last(a.q)
    return None


def parts(P, R):
    R.rule("parts", "the parts of a word of the network's lattice are those of the word of the path it stands for")
    for f in wfns(P, IR):
        for t, v, s in assigns(f):
            t = strip(t)
            if v is None or not is_field(t) or not t.c or s.k == "CompoundAssignOperator":
                continue
            o = ty(t.c[0].t)
            if o in FROM and t.m in FROM[o]:
                m = field_of(v)
                R.ob("parts", s.loc, m not in KNOWN or m in FROM[o][t.m], "%s|%s|%s" % (f.q, o, t.m), "%s takes %s for the %s of a %s" % (f.where, m, t.m, o))
            elif o == "RnnScorePtr" and t.m == "next" or o == "RnnNode" and t.m == "nextInBnd":
                m = field_of(v)
                w = "scores" if t.m == "next" else "node"
                if m is not None and ty(v.t) == o:
                    R.ob("parts", s.loc, m == w, "%s|%s|%s" % (f.q, o, t.m), "%s takes %s for what is %s" % (f.where, m, t.m))
        # a word which is made has all of them
        for c in f.calls():
            if not last(c.q).startswith("allocate") or ty(c.t) not in ("RnnNode", "RnnScorePtr", "ConnectionPtr") or "*" not in (c.t or ""):
                continue
            need = {"RnnNode": ("id", "boundary", "prev"), "RnnScorePtr": ("latPtr", "rnn", "next"), "ConnectionPtr": ("previous", "boundary", "left", "right", "beam")}[ty(c.t)]
            tv = [strip(t) for t, v, s in assigns(f) if v is not None and any(x is c for x in v.walk())]
            vs = {t.get("vid") for t in tv if t.k == "DeclRefExpr"} | {x.get("vid") for x in f.all_nodes() if x.k == "VarDecl" and any(y is c for y in x.walk())}
            if any(x.is_call() and any(vids(a) & vs for a in x.args) and any(t.cfg is not None and t.file == IR and t.name not in ("addScore",) for t in P.targets(x)) for x in f.calls()):
                continue
            hashed = f.name != "addBos"
            more = ("hash", "length") if ty(c.t) == "RnnNode" and any(is_field(strip(t)) and strip(t).m == "length" for g in wfns(P, IR) for t, v, s in assigns(g)) and any(
                x.m in ("rnnId",) for x in f.all_nodes()) else ()
            for m in need + more:
                st = {s.i for t, v, s in assigns(f) if is_field(strip(t)) and strip(t).m == m and ty(strip(t).c[0].t if strip(t).c else "") == ty(c.t)}
                if not st and not any(is_field(strip(t)) and strip(t).m in need for t, v, s in assigns(f)):
                    continue
                ids = after(f, c, None, lambda x: x.i in st)
                R.ob("parts", c.loc, "exit" not in ids, "%s|%s|set %s" % (f.q, ty(c.t), m), "%s makes a %s whose %s is not set" % (f.where, ty(c.t), m))


def publish(P, R):
    R.rule("publish", "each word of each path is made known once at its boundary, and each of its connections has a score of its own")
    A = Paths(P)
    for f in wfns(P, IR):
        # the head of a list changes after what is behind it was linked; a number is taken before it is given away
        for hd, lk, o in (("scores", "next", "RnnScorePtr"), ("node", "nextInBnd", "RnnNode")):
            hs = [(t, v, s) for t, v, s in assigns(f) if is_field(strip(t)) and strip(t).m == hd and strip(t).c and ty(strip(t).c[0].t) == "RnnBoundary" and v is not None]
            ls = [(t, v, s) for t, v, s in assigns(f) if is_field(strip(t)) and strip(t).m == lk and v is not None and field_of(v) == hd]
            cn = [s for t, v, s in assigns(f) if is_field(strip(t)) and strip(t).m == ("scoreCnt" if hd == "scores" else "nodeCnt") and s.op in ("++", "+=")]
            ix = [s for t, v, s in assigns(f) if is_field(strip(t)) and strip(t).m == "idx" and v is not None and field_of(v) == "nodeCnt"]
            allc = [s for t, v, s in assigns(f) if is_field(strip(t)) and strip(t).m == ("scoreCnt" if hd == "scores" else "nodeCnt")]
            for t, v, s in hs:
                lp = innermost(s)
                stop = (lambda x: x.i in {c.i for c in lp.role("cond").walk()}) if lp is not None else None
                ids = after(f, s, None, stop)
                for t2, v2, s2 in ls:
                    w2 = strip(v2)
                    if w2.k == "DeclRefExpr" and w2.get("dk") == "local":
                        d2 = [z for z in f.all_nodes() if z.k == "VarDecl" and z.get("vid") == w2.get("vid")]
                        if d2 and "&" not in (d2[0].t or ""):
                            s2 = peel(d2[0].c[0]) if d2[0].c else s2
                    if struct(strip(t).c[0]) == struct(alias(v2).c[0]) or A.of(strip(t).c[0]) == A.of(alias(v2).c[0]):
                        R.ob("publish", s2.loc, not executes(ids, s2), "%s|%s|link" % (f.q, hd), "%s loses the %s which the boundary had" % (f.where, hd))
                if f.name != "addBos" and hs and not any("nodeCnt" in (x.m or "") and consts(v3) is not None for t3, v3, s3 in assigns(f) for x in [strip(t3)] if v3 is not None and s3.op == "="):
                    here = {x.i for x in allc}
                    pre = after(f, None, None, lambda x: x.i in here or x is s)
                    ok = not ("exit" in after(f, s, None, lambda x: x.i in here or stop is not None and stop(x)) or lp is not None and any(
                        c.i in after(f, s, None, lambda x: x.i in here or stop is not None and stop(x)) for c in lp.role("cond").walk()))
                    before = any(executes(after(f, c, None, stop), s) for c in allc)
                    R.ob("publish", s.loc, ok or before, "%s|%s|count" % (f.q, hd), "%s does not count a %s" % (f.where, hd))
            for c in cn:
                R.ob("publish", c.loc, c.k != "CompoundAssignOperator" or consts(c.c[1]) in (1, None), "%s|%s|one" % (f.q, hd), "%s counts more than one %s" % (f.where, hd))
                lp = innermost(c)
                ids = after(f, c, None, (lambda x: x.i in {y.i for y in lp.role("cond").walk()}) if lp is not None else None)
                for i in ix:
                    if hd == "node":
                        R.ob("publish", i.loc, not executes(ids, i) or i is c, "%s|idx" % f.q, "%s gives a word the number of the next one" % f.where)
        # the loop over a new path
        ws = walkers(f)
        for lp in loops(f):
            if not any(is_field(strip(t)) and strip(t).m == "nextInBnd" and s.inside(lp) and innermost(s) is lp for t, v, s in assigns(f)) and not any(
                    c.inside(lp) and any(is_field(strip(t2)) and strip(t2).m == "nextInBnd" for g in P.targets(c) if g.cfg is not None and g.file == IR for t2, v2, s2 in assigns(g) if innermost(s2) is None) for c in f.calls()):
                continue
            def does(pred):
                out = []
                for n in f.all_nodes():
                    if not n.inside(lp):
                        continue
                    if pred(f, n):
                        out.append(n)
                    elif n.is_call():
                        for g in P.targets(n):
                            if g.cfg is not None and g.file == IR and any(pred(g, y) for y in g.all_nodes()):
                                out.append(n)
                return out
            asg = lambda g, n, m: n.k in ("BinaryOperator", "CXXOperatorCallExpr", "CompoundAssignOperator", "UnaryOperator") and n.op in ("=", "+=", "++") and any(
                is_field(strip(t)) and strip(t).m == m and s is n for t, v, s in assigns(g))
            crd = lambda g, n: n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.op == "=" and any(x.m == "crdCache_" for x in n.c[0].walk()) if n.c else False
            scr = lambda g, n: asg(g, n, "scores")
            for nm, pred in (("idx", lambda g, n: asg(g, n, "idx")), ("nextInBnd", lambda g, n: asg(g, n, "nextInBnd")), ("node", lambda g, n: asg(g, n, "node")),
                             ("nodeCnt", lambda g, n: asg(g, n, "nodeCnt")), ("score", scr), ("crdCache_", crd)):
                w = does(pred)
                if nm == "crdCache_":
                    w += [n for n in f.calls() if n.inside(lp) and any(x.m == "crdCache_" for x in n.walk()) and last(n.q) in ("emplace", "insert", "insert_or_assign")]
                wi = {x.i for x in w}
                ids, nxt = inner_turn(f, lp, None, lambda x: x.i in wi)
                R.ob("publish", lp.loc, bool(w) and not nxt, "%s|each %s" % (f.q, nm), "%s does not give every new word its %s" % (f.where, nm))
            # the connection goes back together with the word
            for v, adv in ws.items():
                a = [s for s, l in adv if s.inside(lp) and innermost(s) is lp]
                if not a:
                    continue
                ai = {x.i for x in a}
                ids, nxt = inner_turn(f, lp, None, lambda x: x.i in ai)
                R.ob("publish", lp.loc, not nxt, "%s|back %s" % (f.q, ty(var_type(f, v))), "%s goes back on one of word and connection only" % f.where)
                for s, l in adv:
                    if s in a:
                        R.ob("publish", s.loc, l in (["prev"], ["previous"]), "%s|along %s" % (f.q, ty(var_type(f, v))), "%s goes along %s" % (f.where, ".".join(l)))
                        if lp.role("inc") is not None and s.inside(lp.role("inc")):
                            continue
                        ids2 = after(f, s, None, lambda x: x.i in {c.i for c in lp.role("cond").walk()})
                        for c in f.calls():
                            if c.inside(lp) and v in {y for z in c.args for y in vids(z)} and any(t.cfg is not None and t.file == IR for t in P.targets(c)):
                                R.ob("publish", c.loc, not executes(ids2, c), "%s|late %s" % (f.q, last(c.q)), "%s takes the connection of the preceding word" % f.where)
        collapse(P, R, f)
        caches(P, R, f)


def collapse(P, R, f):
    for n in f.all_nodes():
        if n.k != "BinaryOperator" or n.op not in ("==", "!="):
            continue
        l, r = strip(n.c[0]), strip(n.c[1])
        side = next((x for x in (l, r) if is_field(x) and x.m == "hash" and x.c), None)
        if side is None or enclosing(n, set(LOOPK)) is None:
            continue
        cv = strip(side.c[0]).get("vid")
        hit = lambda a, p: strip(a) is n and p != (n.op == "==")
        sc = {c.i for c in f.calls() if last(c.q) == "addScore" or any(t.cfg is not None and t.file == IR and any(is_field(strip(t2)) and strip(t2).m == "scores" for t2, v2, s2 in assigns(t)) for t in P.targets(c))}
        ids = after(f, n, hit, lambda x: x.i in sc)
        R.ob("publish", n.loc, "exit" not in ids, "%s|collapse score" % f.q, "%s gives no score to a connection whose word is known" % f.where)
        ids = after(f, n, hit, None)
        al = lambda x: cv in vids(x) or any(cv in vids(d) for y in x.walk() if y.k == "DeclRefExpr" for d in var_defs(f).get(y.get("vid"), []) if d is not None)
        node_t = lambda x: ty(x.t) == "RnnNode"
        made = {x.get("vid") for x in f.all_nodes() if x.k == "DeclRefExpr" and node_t(x)}
        for c in f.calls():
            if c.i in sc and c.i in ids and c.args:
                if not executes(after(f, n, lambda a, p: strip(a) is n and p == (n.op == "=="), None), c):
                    a = next((x for x in c.args if ty(x.t) == "RnnNode"), None)
                    if a is not None and strip(a).k == "DeclRefExpr":
                        R.ob("publish", c.loc, al(a), "%s|collapse node" % f.q, "%s gives the score to another word than the known one" % f.where)
        for rt in f.all_nodes():
            if rt.k == "ReturnStmt" and rt.c and rt.i in ids and not executes(after(f, n, lambda a, p: strip(a) is n and p == (n.op == "=="), None), rt):
                refs = [x for x in rt.walk() if x.k == "DeclRefExpr" and node_t(x)] + [x for x in rt.walk() if is_field(x) and node_t(x)]
                if refs:
                    R.ob("publish", rt.loc, all(al(x) for x in refs), "%s|collapse result" % f.q, "%s goes on with another word than the known one" % f.where)
        # what is compared: the words up to here, this word
        h = r if side is l else l
        names = {x.m for x in deep(h, 4) if x.k == "MemberExpr"}
        if names & {"rnnId", "length", "hash"}:
            for m, w in (("rnnId", "word"), ("length", "length"), ("hash", "words before it")):
                R.ob("publish", n.loc, m in names, "%s|hash %s" % (f.q, m), "%s takes words for the same which differ in the %s" % (f.where, w))
    # a known word is the same up to here
    for v, adv in walkers(f).items():
        for s, l in adv:
            lp = innermost(s)
            if l != ["nextInBnd"] or lp is None or not any(x.m == "crdCache_" for h in heads(f, v) for x in deep(h, 4)):
                continue
            for c in f.calls():
                if not c.inside(lp) or last(c.q) != "addScore":
                    continue
                names = {x.m for a, p in facts_at(f, c) for r in [rel(a, p)] if r is not None and r[0] == "==" for y in r[1:] if is_field(y) and v in vids(y) for x in [y]}
                R.ob("publish", c.loc, not names or "hash" in names, "%s|same" % f.q, "%s takes a word for the same which has the same %s only" % (f.where, ", ".join(sorted(names))))
    # a chain is its first and its last word
    A = Paths(P)
    for t, v, s in assigns(f):
        t = strip(t)
        if is_field(t) and t.m == "prev" and v is not None:
            p = A.of(v)
            if "addPrevChain(" in p:
                R.ob("publish", s.loc, not p.endswith(".first"), "%s|prev" % f.q, "%s puts a word after the first of the chain" % f.where)
    for rt in f.all_nodes():
        if rt.k == "ReturnStmt" and rt.c:
            for c in rt.walk():
                if c.is_call() and last(c.q) == "make_pair" and len(c.args) == 2:
                    p = [A.of(a) for a in c.args]
                    if "addPrevChain(" in p[0] and "addPrevChain(" not in p[1]:
                        R.ob("publish", rt.loc, not p[0].endswith(".second"), "%s|first" % f.q, "%s loses the words which are new before this one" % f.where)


LOOPK = ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt")


def caches(P, R, f):
    cl = {}
    for c in f.calls():
        if last(c.q).startswith("clear") and c.obj is not None:
            o = strip(c.obj)
            if is_field(o) and o.m in ("crdCache_", "ptrCache_", "nodeCache_", "boundaries_"):
                cl.setdefault(o.m, set()).add(c.i)
    if len(cl) < 2:
        return
    for m in ("crdCache_", "ptrCache_", "nodeCache_", "boundaries_"):
        w = cl.get(m, set()) | {s.i for t, v, s in assigns(f) if is_field(strip(t)) and strip(t).m == m} | \
            {c.i for c in f.calls() if last(c.q) in ("assign", "swap") and c.obj is not None and is_field(strip(c.obj)) and strip(c.obj).m == m}
        ids = after(f, None, None, lambda x: x.i in w)
        R.ob("publish", f.where, "exit" not in ids, "reset|%s" % m, "%s keeps %s of the last sentence" % (f.where, m))
        for c in cl.get(m, ()):
            for c2 in f.calls():
                fill = any(t.cfg is not None and t.file == IR and any(x.m == m for x in t.all_nodes()) for t in P.targets(c2))
                if fill:
                    ids = after(f, c2, None, None)
                    R.ob("publish", f.where, c not in ids, "reset|%s|after" % m, "%s removes from %s what was put there" % (f.where, m))
    bos = [c for c in f.calls() if any(t.cfg is not None and t.file == IR and any(x.m == "crdCache_" for x in t.all_nodes()) for t in P.targets(c))]
    own = any(x.m == "crdCache_" and any(s.op == "=" for t, v, s in assigns(f) if any(y is x for y in t.walk())) for x in f.all_nodes())
    R.ob("publish", f.where, bool(bos) or own, "reset|bos", "%s does not make the begin of the sentence known" % f.where)
    eos = [s for t, v, s in assigns(f) if any(x.m == "nodeCache_" for x in t.walk())] + [c for c in f.calls() if last(c.q) in ("emplace", "insert") and any(x.m == "nodeCache_" for x in c.walk())]
    other = [c for c in f.calls() if c not in bos and any(t.cfg is not None and t.file == IR for t in P.targets(c))]
    R.ob("publish", f.where, bool(eos) or bool(other), "reset|eos", "%s does not make the end of the sentence known" % f.where)


# ---------------------------------------------------------------- which word of the network a word is
def known(P, R):
    R.rule("known", "a word of the dictionary is looked up among the dictionary's words and another one by its characters; what is not found is unknown")
    for f in wfns(P, IR):
        for n in f.all_nodes():
            if is_field(n) and n.m in ("knownIndex_", "unkIndex_"):
                up = n.p
                while up is not None and up.k in ("ImplicitCastExpr", "ParenExpr", "MemberExpr"):
                    up = up.p
                if up is None or not up.is_call() or last(up.q) != "traversal":
                    continue
                fc = [(a, p) for a, p in facts_at(f, n) if any(x.is_call() and last(x.q) in ("isDic", "isSpecial") for x in deep(a, 2))]
                for a, p in fc:
                    x = next((y for y in deep(a, 2) if y.is_call() and last(y.q) in ("isDic", "isSpecial")), None)
                    if strip(a) is not x and alias(a) is not x:
                        continue
                    dic = p == (last(x.q) == "isDic")
                    R.ob("known", n.loc, dic == (n.m == "knownIndex_"), "%s|%s" % (f.q, n.m), "%s looks %s up among the %s" % (f.where, "a word of the dictionary" if dic else "another word", "other words" if dic else "words of the dictionary"))
        for t, v, s in assigns(f):
            t = strip(t)
            if not is_field(t) or t.m != "rnnId" or v is None:
                continue
            fc = []
            for a, p in facts_at(f, s):
                r = rel(a, p)
                if r is not None and r[0] in ("==", "!="):
                    e = next((y for y in r[1:] if y.k == "DeclRefExpr" and y.get("dk") == "enum"), None)
                    if e is not None and last(e.q) == "Ok":
                        fc.append(r[0] == "==")
            if not fc:
                continue
            w = {last(x.q) for x in v.walk() if x.is_call()} | {x.m for x in v.walk() if x.k == "MemberExpr"}
            if "value" in w:
                R.ob("known", s.loc, fc[0], "%s|value" % f.q, "%s takes the id of a word which was not found" % f.where)
                # of the index which was asked
                ob = next((strip(x.obj) for x in v.walk() if x.is_call() and last(x.q) == "value" and x.obj is not None), None)
                asked = {strip(y.obj).get("vid") for a, p in facts_at(f, s) for y in a.walk() if y.is_call() and last(y.q) == "step" and y.obj is not None}
                if ob is not None and ob.k == "DeclRefExpr" and asked:
                    R.ob("known", s.loc, ob.get("vid") in asked, "%s|asked" % f.q, "%s takes the id from an index which was not asked" % f.where)
            elif w & {"unkId", "unkId_"}:
                R.ob("known", s.loc, not fc[0], "%s|unk" % f.q, "%s takes a word which was found for unknown" % f.where)
        # the representation which is looked up
        for n in f.calls():
            if last(n.q) in ("addInt", "addString") and n.args:
                fc = [(rel(a, p)) for a, p in facts_at(f, n)]
                for r in fc:
                    if r is None:
                        continue
                    z = [consts(y) for y in r[1:]]
                    if 0 in z and r[0] in (">=", "<", ">", "<="):
                        o, lft = r[0], z[1] == 0
                        neg = (o in ("<", "<=")) if lft else (o in (">", ">="))
                        if last(n.q) == "addInt":
                            R.ob("known", n.loc, not neg and not (o in (">",) and lft), "%s|int" % f.q, "%s takes the number of a word which is not in the dictionary" % f.where)
                        else:
                            R.ob("known", n.loc, neg and not (o == "<=" and lft), "%s|string" % f.q, "%s takes the characters of a word of the dictionary" % f.where)
            # building
            if last(n.q) == "add" and n.obj is not None and is_field(strip(n.obj)) and strip(n.obj).m in ("knownBuilder", "unkBuilder"):
                fc = [p for a, p in facts_at(f, n) if (strip(a).t or "") == "bool" and strip(a).k == "DeclRefExpr"]
                if fc:
                    R.ob("known", n.loc, fc[-1] == (strip(n.obj).m == "knownBuilder"), "build|%s" % strip(n.obj).m, "%s puts a word in the wrong index" % f.where)
            if last(n.q) == "plunder" and n.obj is not None and n.args:
                a, b = {x.m for x in n.obj.walk()}, {x.m for x in n.args[0].walk()}
                if a & {"knownIndex_", "unkIndex_"} and b & {"knownBuilder", "unkBuilder"}:
                    R.ob("known", n.loc, ("knownIndex_" in a) == ("knownBuilder" in b), "plunder|%s" % sorted(a & {"knownIndex_", "unkIndex_"}), "%s takes the wrong index" % f.where)
        # paths of the global beam: same number
        if any(last(c.q) == "fakeConnection" for c in f.calls()):
            for c in f.calls():
                if last(c.q) != "fakeConnection" or len(c.args) != 3:
                    continue
                A = Paths(P)
                ix = [re.search(r"\.at\(([^()]*)\)$", A.of(a)) for a in c.args[1:]]
                if all(ix):
                    R.ob("known", c.loc, ix[0].group(1) == ix[1].group(1), "%s|pair" % f.q, "%s takes the connection of another path" % f.where)
                lp = innermost(c)
                if lp is not None:
                    ids, nxt = inner_turn(f, lp, None, lambda x: x.is_call() and last(x.q) == "addPath")
                    R.ob("known", lp.loc, not nxt, "%s|each" % f.q, "%s leaves paths out" % f.where)
                    iv = next((x for a, p in branch_facts(lp.role("cond"), True) for r in [rel(a, p)] if r is not None for x in r[1:] if x.k == "DeclRefExpr" and is_count(f, x)), None)
                    if iv is not None:
                        d = [x for x in f.all_nodes() if x.k == "VarDecl" and x.get("vid") == iv.get("vid")]
                        R.ob("known", lp.loc, not d or not d[0].c or consts(d[0].c[0]) in (0, None), "%s|first" % f.q, "%s does not begin with the first path" % f.where)


# ---------------------------------------------------------------- what the lattice gets
def scores(P, R):
    R.rule("score", "the score of the network is put where the lattice keeps this scorer's score of this connection; an unknown word has the score which the settings give it")
    A = Paths(P)
    for f in wfns(P, GB):
        for t, v, s in assigns(f):
            p = A.of(t)
            m = re.search(r"nodeScores\((.*)\)\.beamLeft\((.*),(.*?)\)\.at\((.*)\)$", p)
            if not m or v is None:
                continue
            for k, nm in zip((1, 2, 3), ("right", "beam", "left")):
                w = re.search(r"\.(\w+)$", m.group(k))
                if w and w.group(1) in KNOWN:
                    R.ob("score", s.loc, w.group(1) == nm, "place|%s" % nm, "%s takes %s for the %s of the connection" % (f.where, w.group(1), nm))
            R.ob("score", s.loc, not re.match(r"#", m.group(4)), "place|scorer", "%s writes the score of a fixed scorer" % f.where)
            lp = innermost(s)
            if lp is not None:
                ids, nxt = inner_turn(f, lp, None, lambda x: x.i == s.i)
                R.ob("score", s.loc, not nxt, "each", "%s leaves scores out" % f.where)
        for n in f.all_nodes():
            if n.k == "MemberExpr" and n.m in ("unkConstantTerm", "unkLengthPenalty") and n.p is not None and any(x.m == "unkId" or last(x.q) == "unkId" for x in f.all_nodes()):
                fc = [r for a, p in facts_at(f, n) for r in [rel(a, p)] if r is not None and any(last(x.q) == "unkId" for y in r[1:] for x in deep(y, 2))]
                R.ob("score", n.loc, not fc or fc[0][0] == "==", "unk|%s" % n.m, "%s gives a known word the score of an unknown one" % f.where)
                b = n.p
                while b is not None and b.k != "BinaryOperator" and not (b.k == "CXXOperatorCallExpr"):
                    b = b.p if b.k not in ("CompoundStmt",) else None
                if b is not None and b.op in ("+", "-", "*", "/"):
                    if n.m == "unkLengthPenalty":
                        R.ob("score", n.loc, b.op == "*", "unk|times", "%s does not multiply the length of an unknown word" % f.where)
                        if b.op == "*":
                            names = {x.m for c in b.c for x in deep(c, 2) if x.k == "MemberExpr"}
                            if not names & {"length"} and names & (KNOWN | {"size", "scoreCnt"}):
                                R.ob("score", n.loc, False, "unk|length", "%s takes %s for the length" % (f.where, sorted(names & KNOWN)))
                            up = b.p
                            while up is not None and up.k not in ("BinaryOperator", "CompoundStmt"):
                                up = up.p
                            if up is not None and up.k == "BinaryOperator" and up.op in ("+", "-", "*", "/"):
                                R.ob("score", n.loc, up.op == "+", "unk|sum", "%s does not add the penalty" % f.where)
        # a known word
        for t, v, s in assigns(f):
            if v is None:
                continue
            fc = [r for a, p in facts_at(f, s) for r in [rel(a, p)] if r is not None and any(last(x.q) == "unkId" for y in r[1:] for x in deep(y, 2))]
            if fc and re.match(r"<(MutableArraySlice|ArraySlice)>\d+\.at", A.of(v)):
                R.ob("score", s.loc, fc[0][0] == "!=", "known", "%s gives an unknown word the score of the network" % f.where)


# ---------------------------------------------------------------- the network itself
def reads(P, f, depth=2):
    """field names which occur in a function and the functions of the same file it calls"""
    return {x.m for h in inside_files(P, f, depth) for x in h.all_nodes() if x.k == "MemberExpr"}


def inside_files(P, f, depth):
    yield f
    if depth:
        for c in f.calls():
            for t in P.targets(c):
                if t.cfg is not None and t.file in FILES and t is not f:
                    yield from inside_files(P, t, depth - 1)


def writes_scores(P, g):
    """'=' when the function sets the scores, '+=' or '-=' when it changes them"""
    out = set()
    for h in inside_files(P, g, 2):
        for n in h.all_nodes():
            if n.op in ("=", "+=", "-=") and (n.k in ("BinaryOperator", "CompoundAssignOperator", "CXXOperatorCallExpr") or n.is_call()):
                out.add(n.op)
    return out


def network(P, R):
    R.rule("network", "a score is the product of state and embedding, plus the weights of the word after its history, minus the constant")
    for f in wfns(P, MI):
        part = {}
        for c in f.calls():
            for t in P.targets(c):
                if t.cfg is None or t.file != MI or t is f:
                    continue
                names = {x.m for x in t.all_nodes() if x.k == "MemberExpr"}
                if "rnnNceConstant" in names:
                    part.setdefault("nce", []).append(c)
                elif "maxentWeights" in names:
                    part.setdefault("maxent", []).append(c)
                elif names & {"rightEmbeddings", "nceEmbeds"} and "scores" in names:
                    part.setdefault("product", []).append(c)
                elif names & {"beamContext", "newContext"} and "weights" in names:
                    part.setdefault("state", []).append(c)
        if "product" not in part and "maxent" not in part and "nce" not in part or len(part) < 2:
            continue
        need = {"nce", "maxent", "product"} | ({"state"} if any(ty(p["t"]) == "StepData" for p in f.params) else set())
        for k in sorted(need):
            w = {c.i for c in part.get(k, [])}
            ids = after(f, None, None, lambda x: x.i in w)
            R.ob("network", f.where, "exit" not in ids, "apply|%s|%s" % (f.cls.split("::")[-1], k), "%s leaves out a part of the score: %s" % (f.where, k))
        for c in part.get("product", []):
            ids = after(f, c, None, None)
            for k in ("maxent", "nce", "state"):
                for c2 in part.get(k, []):
                    if k == "state":
                        R.ob("network", c.loc, not executes(ids, c2), "order|state", "%s uses states before they are computed" % f.where)
                    else:
                        R.ob("network", c2.loc, executes(ids, c2), "order|%s" % k, "%s sets the score after %s was added" % (f.where, k))
        for k, cs in part.items():
            R.ob("network", f.where, len(cs) == 1, "once|%s|%s" % (f.cls.split("::")[-1], k), "%s adds %s more than once" % (f.where, k))
    for f in wfns(P, MI):
        # the constant is subtracted
        for n in f.all_nodes():
            if is_field(n) and n.m == "rnnNceConstant":
                b = enclosing(n, {"CXXOperatorCallExpr", "CXXMemberCallExpr", "CompoundAssignOperator", "BinaryOperator"})
                if b is not None:
                    op = b.op or last(b.q).replace("operator", "")
                    if op in ("+=", "-=", "*=", "/=", "="):
                        R.ob("network", n.loc, op == "-=", "nce|%s" % f.cls.split("::")[-1], "%s does not subtract the constant" % f.where)
            if n.is_call() and last(n.q) == "exp" and n.args:
                neg = any(x.k in ("CXXOperatorCallExpr", "UnaryOperator") and x.op == "-" and len(x.c) <= 2 or last(x.q) == "operator-" for x in n.args[0].walk())
                R.ob("network", n.loc, neg, "sigmoid|%s" % f.cls.split("::")[-1], "%s computes another function than the sigmoid" % f.where)
            if n.k == "CXXOperatorCallExpr" and n.op == "*" and len(n.args) == 2:
                src = [{x.m for x in deep(a, 3) if x.k == "MemberExpr"} for a in n.args]
                if any("weights" in s for s in src):
                    R.ob("network", n.loc, any(last(x.q) == "transpose" for x in deep(n.args[0], 2)) and "weights" in src[0], "matrix|%s" % f.cls.split("::")[-1], "%s multiplies with another matrix" % f.where)
                    R.ob("network", n.loc, not ("leftEmbeds" in src[1] or "leftEmbedding" in src[1]), "matrix|%s|ctx" % f.cls.split("::")[-1], "%s takes the embedding for the state" % f.where)
            if n.k == "CXXOperatorCallExpr" and n.op in ("+=", "-=", "=") and len(n.args) == 2 or n.k == "CXXMemberCallExpr" and last(n.q) in ("operator+=", "operator-=") and n.args:
                rhs = n.args[-1]
                names = {x.m for x in deep(rhs, 3) if x.k == "MemberExpr"}
                op = n.op or last(n.q).replace("operator", "")
                if names & {"leftEmbeds", "leftEmbedding"} and not names & {"context"}:
                    R.ob("network", n.loc, op == "+=", "embed|%s" % f.cls.split("::")[-1], "%s does not add the embedding of the word" % f.where)
    for f in wfns(P, MI):
        if any("newContext" == x.m or "beamContext" == x.m for x in f.all_nodes()) and any(x.m == "weights" for x in f.all_nodes() if is_field(x)):
            used = {x.get("vid") for x in f.all_nodes() if x.k == "DeclRefExpr"}
            for d in f.all_nodes():
                if d.k == "VarDecl" and d.c and any(x.m in ("leftEmbeds", "leftEmbedding") for x in d.c[0].walk() if x.k == "MemberExpr"):
                    R.ob("network", d.loc, d.get("vid") in used, "embed|%s|used" % f.cls.split("::")[-1], "%s does not add the embedding of the word" % f.where)
    maxent(P, R)


def linear(n):
    """(indexes of the constant subscripts of indices, hashed by hashMax, word added) of an index expression"""
    x = peel(n)
    if x is not None and x.k == "DeclRefExpr" and x.get("dk") == "local":
        ds = var_defs(x.fn).get(x.get("vid"), [])
        return linear(ds[0]) if len(ds) == 1 else None
    if x is None or x.k != "BinaryOperator" or x.op != "%":
        return None
    sub = [y for y in x.c[0].walk() if (y.k == "CXXOperatorCallExpr" and y.op == "[]" or y.is_call() and last(y.q) == "at") and
           is_field(strip(y.obj if y.obj is not None else y.args[0])) and strip(y.obj if y.obj is not None else y.args[0]).m == "indices"]
    if len(sub) != 1:
        return None
    add = peel(x.c[0])
    return consts(sub[0].args[-1]), any(y.m == "hashMax" for y in x.c[1].walk()), add.k == "BinaryOperator" and add.op == "+" and any(
        y.k == "DeclRefExpr" and y.get("dk") in ("parm", "local") for c in add.c for y in c.walk() if "int" in (y.t or "") or "i32" in (y.t or ""))


def summed(P, f):
    """indices whose weights a function adds up"""
    out = []
    for n in f.all_nodes():
        if (n.k == "CXXOperatorCallExpr" and n.op == "[]" or n.is_call() and last(n.q) == "at") and (n.obj is not None or n.args):
            b = strip(n.obj if n.obj is not None else n.args[0])
            if is_field(b) and b.m == "weights" and "MikolovScoreCalculator" in (b.q or ""):
                out.append((n, linear(n.args[-1])))
    return out


def maxent(P, R):
    from pathcut import case_values
    byk = {}
    for f in fns(P, "::MikolovScoreCalculator"):
        w = summed(P, f)
        if not w or any(l is None for n, l in w) or loops(f):
            continue
        ks = [l[0] for n, l in w] + [l[0] if l else None for c in f.calls() for t in P.targets(c) if t.cls == f.cls and t is not f and t.cfg is not None for n, l in summed(P, t)]
        byk[f.key] = ks
        R.ob("network", f.where, None in ks or sorted(ks) == list(range(len(ks))), "sum|%s" % f.name, "%s adds the weight of one order up twice, or leaves one out" % f.where)
        for n, l in w:
            R.ob("network", n.loc, l[1], "sum|%s|mod" % f.name, "%s goes beyond the table of weights" % f.where)
            R.ob("network", n.loc, l[2], "sum|%s|word" % f.name, "%s does not take the weight of the word" % f.where)
            b = n.p
            while b is not None and b.k in ("ImplicitCastExpr", "ParenExpr"):
                b = b.p
            if b is not None and b.k == "BinaryOperator" and b.op in ("+", "-", "*"):
                R.ob("network", n.loc, b.op == "+", "sum|%s|plus" % f.name, "%s does not add the weights" % f.where)
    for f in fns(P, "::MikolovScoreCalculator"):
        for bid, b in enumerate(f.cfg.b):
            if isinstance(f.cfg.b, dict):
                bid = b
            blk = f.cfg.b[bid]
            for i, s in enumerate(blk.s):
                cv = case_values(f, bid, i)
                if not cv or not cv[1] or s < 0:
                    continue
                vals = {consts(v) for v in cv[1]}
                if len(vals) != 1 or not any(x.m == "indices" for x in deep(cv[0], 2)):
                    continue
                k = vals.pop()
                first = next((f.nodes[e] for e in f.cfg.b[s].e), None)
                if first is None:
                    continue
                brk = set()
                ids = after(f, first, None, None) | {first.i}
                for c in f.calls():
                    if c.i in ids:
                        for t in P.targets(c):
                            if t.key in byk and None not in byk[t.key]:
                                R.ob("network", c.loc, len(byk[t.key]) == k, "case|%s" % k, "%s adds the weights of %d orders for %s" % (f.where, len(byk[t.key]), k))
        for n in f.all_nodes():
            if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ("=", "+=", "-=") and any(P_t.key in byk for c in n.walk() if c.is_call() for P_t in P.targets(c)):
                t = strip(n.c[0])
                if t.is_call():
                    R.ob("network", n.loc, n.op == "+=", "add|%s" % f.name, "%s does not add the weights to the score" % f.where)
                    ix = {strip(x.args[-1]).get("vid") for x in n.walk() if x.is_call() and (last(x.q) == "at" or x.op == "[]") and x.args and strip(x.args[-1]).k == "DeclRefExpr"}
                    R.ob("network", n.loc, len(ix) < 2, "add|%s|same" % f.name, "%s gives the score to another word" % f.where)
    # history
    for f in fns(P, "::MikolovIndexCalculator"):
        for n in f.all_nodes():
            if not (n.is_call() and (last(n.q) == "at" or n.op == "[]")) or not n.args:
                continue
            b = strip(n.obj if n.obj is not None else n.args[0])
            if b.k != "DeclRefExpr" or b.get("dk") != "parm" or ty(b.t) == "" or "i32" not in (b.t or "") and "int" not in (b.t or "") or "Mutable" in (b.t or ""):
                continue
            lp = innermost(n)
            if lp is None or innermost(lp) is None:
                continue
            x = peel(n.args[-1])
            off = 0
            if x.k == "BinaryOperator" and x.op in ("+", "-") and consts(x.c[1]) is not None:
                off = consts(x.c[1]) * (1 if x.op == "+" else -1)
                x = peel(x.c[0])
            if x.k != "DeclRefExpr":
                continue
            d = [y for y in f.all_nodes() if y.k == "VarDecl" and y.get("vid") == x.get("vid")]
            if not d or not d[0].c or consts(d[0].c[0]) is None or not d[0].inside(lp):
                continue
            st = consts(d[0].c[0])
            R.ob("network", n.loc, st + off == 0, "history|first", "%s does not begin with the nearest word" % f.where)
            for a, p in branch_facts(lp.role("cond"), True):
                r = rel(a, p)
                if r is None or x.get("vid") not in vids(r[1]) | vids(r[2]):
                    continue
                o = r[2] if x.get("vid") in vids(r[1]) else r[1]
                op = r[0] if x.get("vid") in vids(r[1]) else {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(r[0], r[0])
                if o.k == "DeclRefExpr" and op in ("<", "<=", "!="):
                    od = [y for y in f.all_nodes() if y.k == "VarDecl" and y.get("vid") == o.get("vid")]
                    if od and od[0].c and consts(od[0].c[0]) == 0:
                        cnt = (0 if op in ("<", "!=") else 1) - st
                        R.ob("network", lp.loc, cnt == 0, "history|count", "%s takes %s words than the order has" % (f.where, "more" if cnt > 0 else "fewer"))
        for t, v, s in assigns(f):
            t = strip(t)
            if t.is_call() and (last(t.q) == "at" or t.op == "[]") and v is not None and innermost(s) is not None and innermost(innermost(s)) is None:
                x = peel(v)
                if x.k == "DeclRefExpr":
                    x = alias(x)
                R.ob("network", s.loc, not (x.k == "DeclRefExpr") or any(y.m == "hashMax" for y in deep(v, 3)), "history|mod", "%s does not keep the index in the table" % f.where)
        for m, v in inits(f):
            if m == "hashMax" and v is not None:
                x = peel(v)
                if (x.k in CTORS or x.k == "InitListExpr") and len(x.c) == 1:
                    x = peel(x.c[0])
                if x.k == "DeclRefExpr" and len(f.params) == 2 and x.get("dk") == "parm":
                    R.ob("network", f.where, False, "hashMax", "%s computes the size of the table otherwise" % f.where)
                if x.k == "BinaryOperator" and len(f.params) == 2:
                    o = [strip(c).get("vid") for c in x.c]
                    R.ob("network", f.where, x.op == "-" and o == [p.get("vid") for p in f.params], "hashMax", "%s computes the size of the table otherwise" % f.where)
    # the items of one turn belong together
    for f in wfns(P, MI):
        for c in f.calls():
            if last(c.q) != "addScores" or len(c.args) != 4:
                continue
            lp = innermost(c)
            if lp is None:
                continue
            iv = {strip(x).get("vid") for x in lp.role("inc").walk() if x.k == "DeclRefExpr"} if lp.role("inc") is not None else set()
            if len(iv) != 1:
                continue
            v = list(iv)[0]
            bad = None
            for i in (0, 1, 3):
                for x in deep(c.args[i], 4):
                    if x.k == "BinaryOperator" and x.op in ("+", "-") and v in vids(x) and any(consts(y) for y in x.c):
                        bad = x
            dep = [any(y.k == "DeclRefExpr" and y.get("vid") == v for y in deep(c.args[i], 4)) for i in (0, 3)]
            R.ob("network", c.loc, bad is None and all(dep), "item|%s" % f.cls.split("::")[-1], "%s takes the history, word or score of another item" % f.where)
            par = any(ty(p["t"]) == "ParallelStepData" for p in f.params)
            if par:
                R.ob("network", c.loc, any(y.k == "DeclRefExpr" and y.get("vid") == v for y in deep(c.args[1], 4)), "item|word", "%s takes the same words for every item" % f.where)
            ids, nxt = inner_turn(f, lp, None, lambda x: x.i == c.i)
            R.ob("network", c.loc, not nxt, "item|%s|each" % f.cls.split("::")[-1], "%s leaves items out" % f.where)
            nm = {x.m for x in deep(c.args[2], 3) if x.k == "MemberExpr"}
            R.ob("network", c.loc, not nm & {"weights"} or "maxentWeights" in nm, "item|%s|weights" % f.cls.split("::")[-1], "%s takes other weights" % f.where)


def inits(f):
    for x, n in f.inits or []:
        m = x.get("m") or x.get("field") or x.get("q")
        if m and n is not None:
            yield m.split("::")[-1], n



def limits(P, R):
    """a network whose order or table the score calculator can not handle is refused"""
    def holds(op, a, b):
        return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
    size = set()
    for f in fns(P, "::MikolovIndexCalculator"):
        for n in f.all_nodes():
            m = re.search(r"array<.*,\s*(\d+)(?:UL)?>", n.t or "") if n.k == "VarDecl" else None
            if m:
                size.add(int(m.group(1)))
    for f in fns(P, "::MikolovRnn", "init"):
        keep = [s for t, v, s in assigns(f) if is_field(strip(t)) and strip(t).m in ("weights", "header")]
        if not keep:
            continue
        def val(x, env):
            x = peel(x)
            if x is None:
                return None
            if x.v is not None:
                return x.v
            if is_field(x) and x.m in env:
                return env[x.m]
            x2 = alias(x)
            return env[x2.m] if is_field(x2) and x2.m in env else None
        def cutter(env):
            def cut(a, p):
                r = rel(a, p)
                if r is None:
                    return False
                l, rr = val(r[1], env), val(r[2], env)
                return l is not None and rr is not None and not holds(r[0], l, rr)
            return cut
        for o in [0] + ([max(size) + 1] if len(size) == 1 else []):
            ids = after(f, None, cutter({"maxentOrder": o, "maxentSize": 10 ** 6, "vocabSize": 10}), None)
            R.ob("file", f.where, not any(executes(ids, s) for s in keep), "limit|order %d" % o, "%s takes a network of order %d" % (f.where, o))
        for n in (9, 10):
            ids = after(f, None, cutter({"maxentOrder": 2, "maxentSize": n, "vocabSize": 10}), None)
            R.ob("file", f.where, not any(executes(ids, s) for s in keep), "limit|table %d" % (n - 10), "%s takes a network whose table is not larger than its dictionary" % f.where)
        ids = after(f, None, cutter({"maxentOrder": 3, "maxentSize": 1000, "vocabSize": 10}), None)
        R.ob("file", f.where, any(executes(ids, s) for s in keep), "limit|usable", "%s refuses a network which it can use" % f.where)


# ---------------------------------------------------------------- the files
LEAFS = {"matrixData": "weights", "weights": "weights", "embeddingData": "embeddings", "nceEmbeddingData": "nceEmbeddings", "nceEmbedData": "nceEmbeddings", "embeddings": "embeddings", "nceEmbeddings": "nceEmbeddings",
         "maxentWeightData": "maxentWeights", "maxentWeights": "maxentWeights", "knownIndex_": "known", "unkIndex_": "unk", "codedBuf_": "header"}


def leafs(P, n, depth=3):
    """which of the network's tables a value or a place is, looking through getters and locals"""
    out = set()
    for x in n.walk():
        if x.k == "MemberExpr" and x.m in LEAFS:
            out.add(LEAFS[x.m])
        elif x.is_call() and depth:
            for t in P.targets(x):
                if t.cfg is not None and t.file in FILES and len(t.params) == 0 or t.cfg is not None and t.file in FILES and last(x.q) in ("loadFromMemory",):
                    for r in t.all_nodes():
                        if r.k == "ReturnStmt" and r.c:
                            out |= leafs(P, r.c[0], depth - 1)
    if not out and depth:
        for x in n.walk():
            if x.k == "DeclRefExpr" and x.get("dk") == "local":
                for d in var_defs(x.fn).get(x.get("vid"), []):
                    out |= leafs(P, d, depth - 1)
    return out


def sink(P, f, x, depth=3):
    """tables which a value is put in when it is given to a call or assigned"""
    out = set()
    call = x.p
    while call is not None and not (call.is_call() and any(y is x for a in call.args for y in a.walk())):
        call = call.p
    if call is None:
        return out
    for i, a in enumerate(call.args):
        if not any(y is x for y in a.walk()):
            continue
        for t in P.targets(call):
            if t.cfg is None or t.file not in FILES or i >= len(t.params):
                continue
            v = t.params[i].get("vid")
            for t2, v2, s2 in assigns(t):
                if v2 is not None and v in vids(v2) and is_field(strip(t2)) and strip(t2).m in LEAFS:
                    out.add(LEAFS[strip(t2).m])
            for c in t.calls():
                if any(v in vids(b) for b in c.args) and c.obj is not None:
                    out |= leafs(P, c.obj, 0)
                for j, b in enumerate(c.args):
                    if v in vids(b):
                        pass
            # handed out through a pointer
            outs = [j for j, q in enumerate(t.params) if "*" in q["t"] and j != i and j < len(call.args)]
            if len(outs) == 1 and any(strip(t2).k == "UnaryOperator" and strip(t2).op == "*" or strip(t2).k == "CXXOperatorCallExpr" for t2, v2, s2 in assigns(t)):
                o = call.args[outs[0]]
                out |= leafs(P, o, 0)
                o2 = strip(o)
                while o2 is not None and o2.k == "UnaryOperator":
                    o2 = strip(o2.c[0])
                if o2 is not None and o2.k == "DeclRefExpr" and depth:
                    for y in f.all_nodes():
                        if y.k == "DeclRefExpr" and y.get("vid") == o2.get("vid") and not any(z is y for z in call.walk()):
                            out |= sink(P, f, y, depth - 1)
    return out


def files(P, R):
    R.rule("file", "what is written of a network is read again as the same, and the parts of the file of a network are taken in their order")
    order_, where = [], None
    for f in wfns(P, GB):
        ps = [c for c in f.calls() if last(c.q) in ("push_back", "emplace_back") and c.args and c.obj is not None and any(x.m == "data" for x in c.obj.walk())]
        if len(ps) > 3 and all(innermost(c) is None for c in ps):
            order_, where = [leafs(P, c.args[0]) for c in ps], f
            first = [c for c in f.calls() if last(c.q) == "save"]
            for c in first:
                ids = after(f, ps[0], None, None)
                R.ob("file", c.loc, not executes(ids, c), "header", "%s writes the header after it was taken" % f.where)
    if order_:
        flat_ = [sorted(x)[0] for x in order_ if len(x) == 1]
        R.ob("file", where.where, len(flat_) == len(set(flat_)), "parts", "%s writes a part twice" % where.where)
        for f in wfns(P, GB):
            for n in f.all_nodes():
                if not (n.k == "CXXOperatorCallExpr" and n.op == "[]" or n.is_call() and last(n.q) == "at") or consts(n.args[-1] if n.args else None) is None:
                    continue
                b = n.obj if n.obj is not None else n.args[0]
                if not is_field(strip(b)) or strip(b).m != "data" or "ModelPart" not in (strip(b).q or ""):
                    continue
                k = consts(n.args[-1])
                got = sink(P, f, n)
                if 0 <= k < len(order_) and len(order_[k]) == 1 and got:
                    R.ob("file", n.loc, got == order_[k], "part|%d" % k, "%s reads part %d as %s, it is written as %s" % (f.where, k, sorted(got)[0], sorted(order_[k])[0]))
            for a, p in [(a, p) for b in f.cfg.b for a, p in []]:
                pass
    # the network's own file
    want = ["embeddings", "nceEmbeddings", "weights", "maxentWeights"]
    for f in wfns(P, MC):
        cp = [c for c in f.calls() if last(c.q) == "copyArray" and len(c.args) == 4 and innermost(c) is None]
        if len(cp) == 4:
            cp.sort(key=lambda c: sum(1 for d in cp if d is not c and executes(after(f, d, None, None), c)))
            got = [leafs(P, c.args[1]) for c in cp]
            for i, g in enumerate(got):
                if len(g) == 1:
                    R.ob("file", cp[i].loc, g == {want[i]}, "order|%d" % i, "%s reads %s where %s are" % (f.where, sorted(g)[0], want[i]))
            for c, w in zip(cp, want):
                nm = {x.m for x in deep(c.args[2], 3) if x.k == "MemberExpr"} & {"layerSize", "vocabSize", "maxentSize", "maxentOrder"}
                exp = {"embeddings": {"layerSize", "vocabSize"}, "nceEmbeddings": {"layerSize", "vocabSize"}, "weights": {"layerSize"}, "maxentWeights": {"maxentSize"}}[w]
                if nm:
                    R.ob("file", c.loc, nm == exp, "size|%s" % w, "%s reads another number of %s than the header has" % (f.where, w))
        for t in (x for x in [f] if x.name == "copyArray"):
            mv = [s for t2, v2, s in assigns(f) if s.op == "+=" and "*" in (strip(t2).t or "") or s.op == "+=" and strip(t2).k == "UnaryOperator"]
            st = {s.i for s in mv}
            rd = [c for c in f.calls() if last(c.q) in ("memcpy", "copy")]
            for c in rd:
                ids = after(f, c, None, lambda x: x.i in st)
                R.ob("file", c.loc, "exit" not in ids, "advance", "%s does not advance in the file" % f.where)
        # header
        tm = [c for c in f.calls() if last(c.q) == "toMember"]
        if len(tm) > 4:
            names = []
            for c in sorted(tm, key=lambda c: sum(1 for d in tm if d is not c and executes(after(f, d, None, None), c))):
                m = next((x for x in c.args[0].walk() if x.k == "DeclRefExpr"), None)
                names.append(last(m.q) if m is not None else None)
            exp = ["sizeVersion", "maxEntTableSize", "maxentOrder", "useNce", "nceLnz", "reversedSentence", "layerType", "layerCount", "hsArity"]
            for i, (a, b) in enumerate(zip(names, exp)):
                if a in exp:
                    R.ob("file", tm[0].loc, a == b, "header|%d" % i, "%s reads %s where %s is" % (f.where, a, b))
        for t, v, s in assigns(f):
            t = strip(t)
            if is_field(t) and t.c and ty(t.c[0].t) == "MikolovRnnModelHeader" and v is not None:
                nm = {x.m for x in deep(v, 2) if x.k == "MemberExpr"} & {"sizeVersion", "maxEntTableSize", "maxentOrder", "nceLnz", "layerCount", "hsArity"}
                exp = {"layerSize": {"sizeVersion"}, "maxentSize": {"maxEntTableSize"}, "maxentOrder": {"maxentOrder"}, "nceLnz": {"nceLnz"}}.get(t.m)
                if nm and exp:
                    R.ob("file", s.loc, nm == exp, "header|%s" % t.m, "%s takes %s for %s" % (f.where, sorted(nm)[0], t.m))
    for f in fns(P, "::MikolovModelReader"):
        w = {"rnnMatrix": "weights", "maxentWeights": "maxentWeights", "embeddings": "embeddings", "nceEmbeddings": "nceEmbeddings"}.get(f.name)
        if w and not f.params:
            for r in f.all_nodes():
                if r.k == "ReturnStmt" and r.c:
                    g = leafs(P, r.c[0])
                    if len(g) == 1:
                        R.ob("file", r.loc, g == {w}, "get|%s" % f.name, "%s gives %s" % (f.where, sorted(g)[0]))
    for f in wfns(P, GB):
        for t, v, s in assigns(f):
            t = strip(t)
            if is_field(t) and t.m in ("embeddings", "nceEmbeddings") and v is not None:
                g = leafs(P, v)
                if len(g) == 1:
                    R.ob("file", s.loc, g == {t.m}, "made|%s" % t.m, "%s takes %s for %s" % (f.where, sorted(g)[0], t.m))
    for f in fns(P, "::MikolovRnn", "init"):
        pv = {p.get("vid"): i for i, p in enumerate(f.params)}
        for t, v, s in assigns(f):
            t = strip(t)
            if is_field(t) and t.m in ("weights", "maxentWeights") and v is not None and strip(v).get("vid") in pv:
                R.ob("file", s.loc, pv[strip(v).get("vid")] == (1 if t.m == "weights" else 2), "init|%s" % t.m, "%s takes other weights for %s" % (f.where, t.m))
    limits(P, R)
    # a constant of the settings is not lost
    for f in wfns(P, GB):
        ini = [c for c in f.calls() if last(c.q) == "init" and any(t.cls.endswith("::MikolovRnn") for t in P.targets(c))]
        for c in ini:
            ids = after(f, c, None, None)
            nce = [d for d in f.calls() if last(d.q) == "setNceConstant" or any(t.cfg is not None and t.file == GB and any(last(e.q) == "setNceConstant" for e in t.calls()) for t in P.targets(d))]
            R.ob("file", c.loc, any(executes(ids, d) for d in nce), "nce|%s" % f.name, "%s does not take the constant of the settings" % f.where)
            bos = [d for d in f.calls() if last(d.q) == "computeBosState" or any(t.cfg is not None and t.file == GB and any(is_field(strip(t2)) and strip(t2).m == "bosState" for t2, v2, s2 in assigns(t)) for t in P.targets(d))]
            R.ob("file", c.loc, any(executes(ids, d) for d in bos), "bos|%s" % f.name, "%s does not compute the state of the begin of a sentence" % f.where)
            for d in bos:
                i2 = after(f, d, None, None)
                R.ob("file", d.loc, not executes(i2, c), "bos|%s|order" % f.name, "%s computes the state of the begin of a sentence before there is a network" % f.where)
                for t, v, s in assigns(f):
                    if is_field(strip(t)) and strip(t).m == "embeddings":
                        R.ob("file", d.loc, not executes(i2, s), "bos|%s|embed" % f.name, "%s computes the state of the begin of a sentence before there are embeddings" % f.where)
                if d.args and consts(d.args[0]) is not None:
                    R.ob("file", d.loc, consts(d.args[0]) == 0, "bos|%s|id" % f.name, "%s begins sentences with another word" % f.where)


def run(P, R):
    walk(P, R)
    rows(P, R)
    filling(P, R)
    context(P, R)
    history(P, R)
    order(P, R)
    parts(P, R)
    publish(P, R)
    known(P, R)
    scores(P, R)
    network(P, R)
    files(P, R)

"""Y01: training compares with the whole annotation."""
from dfl import *
from model import *
from pathcut import after, strip, place, edge_facts
from guards import constant
from harness import *
import itertools

LOOPS = ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt")
TAE, UAF = "::TrainingExampleAdapter", "::UnkAllowedField"


def fns(P, cls=None, name=None, file=None):
    for f in P.fns.values():
        if f.cfg is None or testfile(f.file) or not f.file.startswith("src/"):
            continue
        if cls is not None and not f.cls.endswith(cls):
            continue
        if name is not None and f.name != name:
            continue
        if file is not None and f.file != file:
            continue
        yield f


def loops(f):
    return [n for n in f.all_nodes() if n.k in LOOPS and n.role("cond") is not None]


def innermost(n):
    return enclosing(n, set(LOOPS))


def consts(n):
    n = peel(n)
    return n.v if n is not None else None


def turn(f, lp, cut, stop=None, start=None):
    """ids which can execute in one turn of the loop (from the test of its condition, or from start); the id of the
    condition is among them when another turn can begin"""
    c = lp.role("cond")
    ci = c.i
    atom = {x.i for x in c.walk()}
    conds = leaf_conds(f, c)

    def cut2(a, p):
        if start is None and not p and a.i in atom:
            return True
        return cut is not None and cut(a, p)
    seen = after(f, start if start is not None else conds[0], cut2,
                 lambda n: n.i in {x.i for x in conds} or stop is not None and stop(n))
    nxt = any(x.i in seen for x in conds)
    return seen, nxt


def leaf_conds(f, c):
    w = place(f.cfg, c)
    c2 = c
    while c2 is not None and f.cfg.where(c2) is None and c2.c:
        c2 = c2.c[0]
    return [c2 if f.cfg.where(c2) is not None else c]


def rel(a, p):
    """(op, left, right) of a comparison fact, or None"""
    a = strip(a)
    if a is None:
        return None
    if a.k == "BinaryOperator" and a.op in ("==", "!=", "<", ">", "<=", ">="):
        l, r = a.c
    elif a.k == "CXXOperatorCallExpr" and a.op in ("==", "!=", "<", ">", "<=", ">=") and len(a.args) == 2:
        l, r = a.args
    else:
        return None
    op = a.op
    if not p:
        op = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[op]
    if constant(l) and not constant(r):
        l, r, op = r, l, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    return op, strip(l), strip(r)


def mentions(n, *names):
    """a field, method or function of one of the names occurs (looking through local variables)"""
    return any(last(x.q) in names or x.m in names for x in deep(n))


def last(q):
    return re.sub(r"<.*>", "", q or "").split("::")[-1]


def deep(n, depth=3):
    if n is None:
        return
    for x in n.walk():
        yield x
        if depth and x.k == "DeclRefExpr" and x.get("dk") == "local":
            for d in var_defs(x.fn).get(x.get("vid"), []):
                if d is not None:
                    yield from deep(d, depth - 1)


def vids(n):
    return {x.get("vid") for x in n.walk() if x.k == "DeclRefExpr" and x.get("vid") is not None}


def facts_at(f, n):
    out = []
    for c, p in edges_to(f, n):
        out += branch_facts(c, p)
    return out


def end_cmp(r):
    return r is not None and any(x.is_call() and last(x.q) in ("end", "cend") for y in r[1:] for x in deep(y, 1))


# ---------------------------------------------------------------- predicates which have to hold for every field
def all_fields(P, R):
    R.rule("every-field", "a word matches the annotation only if every field which counts agrees, and a word which agrees in all of them matches")
    for f in list(fns(P, TAE)) + list(fns(P, UAF)):
        if not re.match(r"(const )?bool$", f.ret or ""):
            continue
        for lp in loops(f):
            if innermost(lp) is not None:
                continue
            inside = {x.i for x in lp.walk()}
            rets = [n for n in f.all_nodes() if n.k == "ReturnStmt" and n.c]
            rin = [r for r in rets if r.i in inside]
            rout = [r for r in rets if r.i not in inside]
            if not rin or any(consts(r.c[0]) not in (0, 1) for r in rets):
                continue
            if [r for r in rout if consts(r.c[0]) == 1] == []:
                continue
            skip = lambda a, p: (r := rel(a, p)) is not None and r[0] == "==" and any(consts(y) == 0 for y in r[1:]) and any(
                mentions(y, "weight") for y in r[1:])

            def agree(a, p):
                r = rel(a, p)
                return r is not None and r[0] == "==" and not end_cmp(r) and not any(
                    strip(y).v is not None for y in r[1:]) and not skip(a, p)

            def differ(a, p):
                r = rel(a, p)
                return r is not None and (r[0] == "!=" and not any(strip(y).v is not None for y in r[1:]) and not end_cmp(r)
                                          or r[0] == "==" and end_cmp(r))
            unknown = any(n.is_call() and re.search(r"\bbool\b", n.t or "") and not n.op and n.i in inside and P.targets(n) for n in f.all_nodes())
            if not unknown:
                _, nxt = turn(f, lp, lambda a, p: agree(a, p) or skip(a, p))
                R.ob("every-field", lp.loc, not nxt, "%s|compared" % f.q, "%s goes on to the next field without having compared this one" % f.where)
            ids, _ = turn(f, lp, None)
            R.ob("every-field", lp.loc, not any(r.i in ids for r in rin if consts(r.c[0]) == 1), "%s|early" % f.q,
                 "%s accepts before all fields were compared" % f.where)
            ids, _ = turn(f, lp, differ)
            R.ob("every-field", lp.loc, unknown or not any(r.i in ids for r in rin if consts(r.c[0]) == 0), "%s|reject" % f.q,
                 "%s rejects although the field agrees" % f.where)
            # an unknown value is compared by the hash of the surface, a known one by its number
            for n in f.all_nodes():
                if n.i not in inside or rel(n, True) is None or rel(n, True)[0] not in ("==", "!="):
                    continue
                hashed = any(x.is_call() and last(x.q) in ("hashUnkString",) for y in rel(n, True)[1:] for x in deep(y))
                neg = None
                for a, p in facts_at(f, n):
                    r = rel(a, p)
                    if r is not None and consts(r[2]) == 0 and r[0] in ("<", ">="):
                        neg = r[0] == "<"
                if neg is not None:
                    R.ob("every-field", n.loc, hashed == neg, "%s|hash" % f.q,
                         "%s compares a value which is%s a hash with %s" % (f.where, "" if neg else " not", "a hash" if hashed else "a number"))


# ---------------------------------------------------------------- the node which is found
MATCH = {"matchUnkNodeData": "unk", "isAllowed": "unk", "matchDicNodeData": "dic"}


def found_node(P, R):
    R.rule("found-node", "an existing word is taken for an annotated one only after it was compared with it, exact matches first")
    for f in fns(P, TAE):
        for lp in loops(f):
            body = {x.i for x in lp.walk()}
            seeds = [n for n in f.all_nodes() if n.i in body and n.k == "VarDecl" and "LatticeNodeSeed" in (n.t or "") and n.c]
            if not seeds:
                continue
            ix = set()
            for s in seeds:
                ix |= {x.get("vid") for x in s.walk() if x.k == "DeclRefExpr" and x.get("dk") == "local" and re.match(r"(const )?(unsigned )?(int|long|size_t)", x.t or "")}
            for r in f.all_nodes():
                if r.k != "ReturnStmt" or r.i not in body or not r.c or strip(r.c[0]).v is not None:
                    continue
                x = peel(r.c[0])
                facts = facts_at(f, r)
                ms = [(last(strip(a).q), p, strip(a)) for a, p in facts if strip(a).is_call() and re.search(r"\bbool\b", strip(a).t or "") and not strip(a).op]
                known = [(m, p, a) for m, p, a in ms if m in MATCH]
                other = [m for m, p, a in ms if m not in MATCH and m not in ("isSpecial", "isDic")]
                R.ob("found-node", r.loc, bool(other) or any(p for m, p, a in known), "%s|compared" % f.q,
                     "%s answers with a word which does not match the annotation" % f.where)
                if x.k == "DeclRefExpr" and ix:
                    R.ob("found-node", r.loc, x.get("vid") in ix, "%s|which" % f.q, "%s answers with another word than the one it has compared" % f.where)
                for m, p, a in known:
                    kind = MATCH[m]
                    if kind == "unk":
                        same = any((q := rel(b, pp)) is not None and q[0] == "==" and any(mentions(y, "surface") for y in q[1:]) for b, pp in facts)
                        R.ob("found-node", r.loc, same or bool(other), "%s|surface|%s" % (f.q, m), "%s takes an unknown word with another surface" % f.where)
                    want = "isSpecial" if kind == "unk" else "isDic"
                    k = [(strip(b).q.split("::")[-1] == want) == pp for b, pp in facts if strip(b).is_call() and last(strip(b).q) in ("isSpecial", "isDic")
                         and strip(b).obj is not None and mentions(strip(b).obj, "entryPtr")]
                    R.ob("found-node", r.loc, bool(other) or any(k) and all(k), "%s|kind|%s" % (f.q, m), "%s compares the wrong kind of word" % f.where)
                    if kind == "dic":
                        ld = {n.i for n in f.calls() if any(last(t.q) == "loadDicSeedData" or any(last(c.q) == "fill" for c in t.calls()) for t in P.targets(n))}
                        if "fill" in {last(n.q) for n in f.calls()}:
                            ld |= {n.i for n in f.calls() if last(n.q) == "fill"}
                        ids, nxt = turn(f, lp, None, lambda n: n.i in ld)
                        R.ob("found-node", a.loc, a.i not in ids, "%s|loaded" % f.q, "%s compares with the data of another word" % f.where)
        exact = [n for n in f.calls() if last(n.q) == "matchUnkNodeData"]
        loose = [n for n in f.calls() if last(n.q) == "isAllowed"]
        for a in loose:
            for b in exact:
                R.ob("found-node", a.loc, not f.cfg.path_exists(a, {b.i}), "%s|exact-first" % f.q,
                     "%s looks for a word which is merely allowed before it has looked for one which agrees" % f.where)


# ---------------------------------------------------------------- the golden path
def golden(P, R):
    R.rule("golden-path", "every annotated word gets exactly one place on the golden path: the word which was found, or the one which is added")
    for f in fns(P, TAE):
        adds = [n for n in f.calls() if last(n.q) == "addGoldNode"]
        if not adds:
            continue
        ai = {n.i for n in adds}
        for lp in loops(f):
            if not any(n.inside(lp) for n in adds):
                continue
            _, nxt = turn(f, lp, None, lambda n: n.i in ai)
            R.ob("golden-path", lp.loc, not nxt, "%s|once" % f.q, "%s can go on to the next word without a place for this one" % f.where)
            for n in adds:
                ids, _ = turn(f, lp, None, None, start=n)
                R.ob("golden-path", n.loc, not (ai & ids), "%s|twice" % f.q, "%s adds a word to the golden path twice" % f.where)
            c = rel(lp.role("cond"), True)
            if lp.k == "ForStmt" and c is not None:
                init = [d for d in (lp.role("init").walk() if lp.role("init") is not None else []) if d.k == "VarDecl" and d.c]
                if c[2].k == "DeclRefExpr" and c[2].get("vid") in {d.get("vid") for d in init}:
                    c = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(c[0], c[0]), c[2], c[1]
                R.ob("golden-path", lp.loc, all(consts(d.c[0]) in (0, None) for d in init) and c[0] in ("<", "!=") and strip(c[2]).k != "BinaryOperator",
                     "%s|range" % f.q, "%s does not go over all words" % f.where)
        app = [n for n in f.calls() if last(n.q) == "appendSeed"]
        for n in adds:
            neg = None
            for a, p in facts_at(f, n):
                r = rel(a, p)
                if r is not None and consts(r[2]) == 0 and r[0] in ("<", ">="):
                    neg = r[0] == "<"
                if r is not None and consts(r[2]) == -1 and r[0] in ("==", "!="):
                    neg = r[0] == "=="
            if neg is None:
                continue
            pos = n.args[-1]
            if neg:
                src = [x for x in deep(pos) if x.k == "MemberExpr" and x.m == "startCount"]
                ok = bool(src) or not mentions(pos, "nodeSeedExists")
                for s in src:
                    for a in app:
                        if f.cfg.path_exists(a, {s.i}) and not f.cfg.path_exists(s, {a.i}):
                            ok = False
                        if any(s.inside(w) for w in f.all_nodes() if w.k == "VarDecl") and any(
                                w.k == "VarDecl" and s.inside(w) and (w.t or "").rstrip().endswith("&") for w in f.all_nodes()) and \
                                (n.i in turn(f, innermost(n), None, None, start=a)[0] if innermost(n) is not None and a.inside(innermost(n)) else
                                 f.cfg.path_exists(a, {n.i}) and not f.cfg.path_exists(n, {a.i})):
                            ok = False
                        lp = innermost(s)
                        if lp is not None:
                            ids, _ = turn(f, lp, None, None, start=a)
                            if s.i in ids:
                                ok = False
                R.ob("golden-path", n.loc, ok, "%s|place" % f.q, "%s does not give the added word the place behind the words which are there" % f.where)
                lp = innermost(n)
                if lp is not None and app:
                    before, _ = turn(f, lp, None, lambda m: m.i in {a.i for a in app})
                    _, nxt = turn(f, lp, None, lambda m: m.i in {a.i for a in app}, start=n)
                    R.ob("golden-path", n.loc, not (n.i in before and nxt), "%s|added" % f.q, "%s puts a word on the golden path which it does not add" % f.where)
            else:
                R.ob("golden-path", n.loc, not mentions(pos, "startCount"), "%s|found" % f.q, "%s does not use the word which was found" % f.where)
        for a in app:
            if len(a.args) < 3:
                continue
            R.ob("golden-path", a.loc, mentions(a.args[2], "length") and mentions(a.args[2], "number"), "%s|end" % f.q,
                 "%s adds a word which does not end at its start plus its length" % f.where)
            told = {peel(r.c[0]).get("vid") for r in f.all_nodes() if r.k == "ReturnStmt" and r.c and peel(r.c[0]).k == "DeclRefExpr" and peel(r.c[0]).get("dk") == "local"}
            flag = [st.i for t, v, st in assigns(f) if strip(t).k == "DeclRefExpr" and st.k != "VarDecl" and strip(t).get("vid") in told
                    and (v is None or consts(v) not in (0,) and (consts(v) == 1 or strip(t).get("vid") in vids(v)))]
            flag += [n.i for n in f.all_nodes() if n.k == "CompoundAssignOperator" and vids(n.c[0]) & told]
            known = all(d is not None and consts(d) == 0 for v in told for d in var_defs(f).get(v, [])[:1])
            if told and known and re.match(r"bool", f.ret or ""):
                lp = innermost(a)
                if lp is not None:
                    b, _ = turn(f, lp, None, lambda m: m.i in flag)
                    _, nxt = turn(f, lp, None, lambda m: m.i in flag, start=a)
                    R.ob("golden-path", a.loc, not (a.i in b and nxt), "%s|told" % f.q, "%s does not tell that it has added a word" % f.where)


# ---------------------------------------------------------------- words which are made
def made_words(P, R):
    R.rule("made-word", "a word which is made gets all fields of its header before it is used, and each of its values")
    heads = {}
    for c in P.classes.values():
        if last(c["q"]) in ("UnkNodeHeader", "AliasNodeHeader"):
            heads[last(c["q"])] = {x["n"] for x in c["fields"]}
    for f in fns(P):
        st = {}
        for t, v, s in assigns(f):
            x = strip(t)
            if is_field(x) and x.q.split("::")[-2:-1] and x.q.split("::")[-2] in heads:
                base = struct(x.c[0]) if x.c else None
                st.setdefault((x.q.split("::")[-2], base), {}).setdefault(x.m, []).append(s)
        for (h, base), got in st.items():
            if len(heads[h]) < 2 or f.is_ctor:
                continue
            for m in heads[h]:
                if m not in got:
                    R.ob("made-word", f.where, False, "%s|%s" % (f.q, m), "%s makes a word without setting its %s" % (f.where, m))
                    continue
                # where the last of the others is set this one is set too
                ids = after(f, None, None, lambda n: n.i in {s.i for s in got[m]})
                other = [s for k, ss in got.items() if k != m for s in ss]
                bad = [s for s in other if s.i in ids and "exit" in after(f, s, None, lambda n: n.i in {x.i for x in got[m]})]
                R.ob("made-word", f.where, not bad, "%s|%s" % (f.q, m), "%s can make a word without setting its %s" % (f.where, m))
    for f in fns(P, TAE):
        mk = [n for n in f.calls() if last(n.q) in ("makeZeroedUnk", "makeUnk")]
        if not mk:
            continue
        for lp in loops(f):
            stores = {s.i for t, v, s in assigns(f) if s.inside(lp) and s.k != "VarDecl" and strip(t).k != "DeclRefExpr"}
            stores |= {n.i for n in f.calls() if n.inside(lp) and n.args and P.targets(n) and last(n.q) != "hashUnkString" and (n.t or "") == "void"}
            if not stores:
                continue
            _, nxt = turn(f, lp, None, lambda n: n.i in stores)
            R.ob("made-word", lp.loc, not nxt, "%s|value" % f.q, "%s can leave a value of the annotation out of the word it makes" % f.where)
            for t, v, s in assigns(f):
                if not s.inside(lp) or v is None:
                    continue
                neg = None
                for a, p in facts_at(f, s):
                    r = rel(a, p)
                    if r is not None and consts(r[2]) == 0 and r[0] in ("<", ">="):
                        neg = r[0] == "<"
                hashed = any(x.is_call() and last(x.q) == "hashUnkString" for x in deep(v))
                if neg is not None:
                    R.ob("made-word", s.loc, hashed == neg, "%s|hash" % f.q, "%s stores %s" % (f.where, "a hash for a known value" if hashed else "the number of an unknown value"))


# ---------------------------------------------------------------- partial annotations: the constraints of a word
def partial(P, R):
    R.rule("constraints", "a word violates a partial annotation exactly when it begins or ends where no boundary may be, spans a given boundary, or differs from a given word")
    for f in fns(P, "::PartialExample"):
        if "PartialViolation" in (f.ret or ""):
            violation(R, f)
        if f.name == "validBoundary":
            for lp in loops(f):
                mine = [p["vid"] for p in f.params]
                for region, want in (("<", "next"), ("=", "no"), (">", "any")):
                    got = loop_regions(f, lp, {mine[0]: {"<": -1, "=": 0, ">": 1}[region]} if mine else {}, None)
                    if got is None:
                        continue
                    nxt, rets, left = got
                    bad = [r for r in rets if want == "no" and consts(r.c[0]) != 0 or want != "no" and consts(r.c[0]) == 0] or \
                        want == "no" and (nxt or left) or want == "next" and left
                    R.ob("constraints", lp.loc, not bad, "%s|%s" % (f.q, region), "%s judges a boundary wrongly which lies %s a forbidden one" % (
                        f.where, {"<": "behind", "=": "on", ">": "before"}[region]))
        if f.name == "doesNodeMatch":
            for r in f.all_nodes():
                if r.k == "ReturnStmt" and r.c:
                    x = strip(r.c[0])
                    neg = False
                    while x is not None and x.k == "UnaryOperator" and x.op == "!":
                        neg, x = not neg, strip(x.c[0])
                    if x is not None and x.is_call() and last(x.q) in ("isNone", "doesNodeMatch"):
                        R.ob("constraints", r.loc, not neg, "%s|polarity" % f.q, "%s answers the opposite" % f.where)
        if f.name == "isNone":
            pass
    for f in fns(P, "::PartialViolation", "isNone"):
        for r in f.all_nodes():
            if r.k == "ReturnStmt" and r.c:
                q = rel(r.c[0], True)
                if q is not None and any(x.get("dk") == "enum" for y in q[1:] for x in y.walk()):
                    none = any(last(x.q) == "None" for y in q[1:] for x in y.walk() if x.get("dk") == "enum")
                    R.ob("constraints", r.loc, (q[0] == "==") == none if none else False, "%s" % f.q, "%s takes a violation for none" % f.where)


def loop_regions(f, lp, pos, end):
    """walk one turn with the loop's item compared to variables of known relative position.
    pos: vid -> sign of (item - variable).  (another turn possible, return statements reached, loop left)"""
    var = lp.role("var")
    if lp.k != "CXXForRangeStmt" or var is None:
        return None
    item = next((x.get("vid") for x in var.walk() if x.k == "VarDecl"), None)
    if item is None:
        return None

    def cut(a, p):
        r = rel(a, p)
        if r is None:
            return False
        op, l, x = r
        l, x = strip(l), strip(x)
        if l.k != "DeclRefExpr" or x.k != "DeclRefExpr":
            return False
        if l.get("vid") == item and x.get("vid") in pos:
            d = pos[x.get("vid")]
        elif x.get("vid") == item and l.get("vid") in pos:
            d = -pos[l.get("vid")]
        else:
            return False
        return not {"==": d == 0, "!=": d != 0, "<": d < 0, ">": d > 0, "<=": d <= 0, ">=": d >= 0}[op]
    ids, nxt = turn(f, lp, cut)
    body = lp.role("body")
    inb = {x.i for x in body.walk()}
    rets = [n for n in f.all_nodes() if n.k == "ReturnStmt" and n.i in ids and n.i in inb]
    left = any(isinstance(i, int) and i not in {x.i for x in lp.walk()} for i in ids) or "exit" in ids and not rets
    return nxt, rets, left


def kind_of(r):
    return next((last(x.q) for x in r.walk() if x.k == "DeclRefExpr" and x.get("dk") == "enum"), None)


def violation(R, f):
    # end = start + length
    start = next((p["vid"] for p in f.params if p["n"] in ("boundary", "bnd", "bndIdx")), f.params[-2]["vid"] if len(f.params) > 1 else None)
    end = None
    for vid, ds in var_defs(f).items():
        if len(ds) == 1 and ds[0] is not None:
            d = strip(ds[0])
            if d.k == "BinaryOperator" and d.op == "+" and start in vids(d) and mentions(d, "numCodepoints"):
                end = vid
    if start is None or end is None:
        return
    for lp in loops(f):
        rng = lp.role("range")
        if rng is None or lp.k != "CXXForRangeStmt":
            continue
        nm = next((x.m for x in rng.walk() if is_field(x)), None)
        kinds = {kind_of(r) for r in f.all_nodes() if r.k == "ReturnStmt" and r.inside(lp)}
        if kinds & {"WordStart", "WordEnd"}:
            want = {"before": (None, "on"), "start": ("WordStart", None), "inside": (None, "on"), "end": ("WordEnd", None), "behind": (None, "any")}
        elif kinds & {"NoBoundary"}:
            want = {"before": (None, "on"), "start": (None, "on"), "inside": ("NoBoundary", None), "end": (None, "any"), "behind": (None, "any")}
        else:
            continue
        sign = {"before": (-1, -1), "start": (0, -1), "inside": (1, -1), "end": (1, 0), "behind": (1, 1)}
        for region, (kind, go) in want.items():
            a, b = sign[region]
            got = loop_regions(f, lp, {start: a, end: b}, None)
            if got is None:
                continue
            nxt, rets, left = got
            ks = {kind_of(r) for r in rets}
            if kind:
                ok = ks == {kind} and not nxt and not left
            else:
                ok = not ks - {"None"} and (go == "any" and not (ks and left) or not ks and nxt and not left)
            R.ob("constraints", lp.loc, ok, "%s|%s|%s" % (f.q, nm, region), "%s judges %s wrongly which lies %s" % (
                f.where, "a place without boundary" if "WordStart" in kinds | {None} and "NoBoundary" not in kinds else "a boundary",
                {"before": "before the word", "start": "where the word begins", "inside": "inside the word", "end": "where the word ends", "behind": "behind the word"}[region]))
    for lp in loops(f):
        rets = [r for r in f.all_nodes() if r.k == "ReturnStmt" and r.inside(lp)]
        if {kind_of(r) for r in rets} != {"Tag"}:
            continue
        agree = lambda a, p: (r := rel(a, p)) is not None and r[0] == "==" and any(mentions(y, "value") for y in r[1:])
        differ = lambda a, p: (r := rel(a, p)) is not None and r[0] == "!=" and any(mentions(y, "value") for y in r[1:])
        ids, nxt = turn(f, lp, agree)
        R.ob("constraints", lp.loc, not nxt, "%s|tag" % f.q, "%s goes on to the next tag although this one differs" % f.where)
        ids, _ = turn(f, lp, differ)
        R.ob("constraints", lp.loc, not any(r.i in ids for r in rets), "%s|tagok" % f.q, "%s reports a tag which agrees" % f.where)
        c0 = leaf_conds(f, lp.role("cond"))[0]
        ids = after(f, c0, lambda a, p: not p and a.i in {x.i for x in lp.role("cond").walk()}, lambda n: n.i == c0.i)
        out = [i for i in ids if isinstance(i, int) and i not in {x.i for x in lp.walk()}]
        R.ob("constraints", lp.loc, not out, "%s|tagall" % f.q, "%s does not look at all tags" % f.where)
    # nothing is accepted before all three kinds of constraints were looked at
    checks = {}
    for lp in loops(f):
        ks = {kind_of(r) for r in f.all_nodes() if r.k == "ReturnStmt" and r.inside(lp)}
        for k in ks:
            checks.setdefault(k, []).append(lp)
    none = [r for r in f.all_nodes() if r.k == "ReturnStmt" and kind_of(r) == "None"]
    missing = lambda a, p: (r := rel(a, p)) is not None and r[0] == "==" and end_cmp(r) and not any("__" in (x.get("n") or x.q or "") for y in r[1:] for x in y.walk() if x.k == "DeclRefExpr")
    for k, lps in checks.items():
        ci = {x.i for lp in lps for x in leaf_conds(f, lp.role("cond"))}
        ids = after(f, None, missing if k == "Tag" else None, lambda n: n.i in ci)
        R.ob("constraints", lps[0].loc, not any(r.i in ids for r in none), "%s|all|%s" % (f.q, k), "%s accepts a word without looking at all constraints" % f.where)
    # a word which is not constrained is one without an entry for its start
    for n in f.all_nodes():
        if n.k == "ReturnStmt" and kind_of(n) == "WordEnd" and innermost(n) is None:
            facts = facts_at(f, n)
            q = [rel(a, p) for a, p in facts]
            R.ob("constraints", n.loc, any(x is not None and x[0] == "!=" and any(mentions(y, "length") for y in x[1:]) for x in q), "%s|length" % f.q,
                 "%s reports a word whose length agrees" % f.where)


# ---------------------------------------------------------------- partial training: candidates and violations
def matchcalls(P, f, n, memo={}):
    """what is known to match where n executes: arguments of doesNodeMatch / isValid calls which answered yes"""
    out = set()
    for a, p in facts_at(f, n):
        a = strip(a)
        if a.is_call() and p and last(a.q) in ("doesNodeMatch", "isValid"):
            if last(a.q) == "isValid":
                out |= {"t0", "t1", "t2"}
            else:
                out.add(str(struct(alias(a.args[-1]))))
    return out


def candidates(P, R):
    R.rule("candidates", "only paths which agree with the annotation are learned from, and all of those which were found")
    for f in fns(P, "::PartialTrainer"):
        if f.name == "isValid":
            for r in f.all_nodes():
                if r.k != "ReturnStmt" or not r.c or strip(r.c[0]).v == 0:
                    continue
                cs = [x for x in r.walk() if x.is_call() and last(x.q) == "doesNodeMatch"]
                x = strip(r.c[0])
                known = matchcalls(P, f, r)
                if x.v == 1 or not cs:
                    R.ob("candidates", r.loc, len(known) >= 3, "%s|three" % f.q, "%s accepts a path without looking at all three words" % f.where)
                    continue
                disj = any(y.k == "BinaryOperator" and y.op == "||" or y.k == "UnaryOperator" and y.op == "!" for y in r.walk())
                a = {str(struct(alias(c.args[-1]))) for c in cs} | known
                a2 = {(str(struct(alias(c.args[-1]))), str(struct(alias(c.args[-2])))) for c in cs}
                R.ob("candidates", r.loc, len(a) >= 3 and not disj, "%s|three" % f.q, "%s accepts a path without looking at all three words" % f.where)
                for c in cs:
                    b0 = {str(struct(alias(y.c[0]))) for z in c.args[-2:] for y in [peel(z)] if y.k == "MemberExpr" and y.c}
                    R.ob("candidates", c.loc, len(b0) <= 1, "%s|same" % f.q, "%s mixes the boundary and the place of different words" % f.where)
            continue
        for n in f.calls():
            if last(n.q) != "pushItem" or not n.args:
                continue
            lp = innermost(n)
            if lp is None:
                continue
            # what comes from another candidate list was tested there
            rng = lp.role("range") if lp.k == "CXXForRangeStmt" else None
            if rng is not None and any(x.is_call() and last(x.q) == "finalize" for x in rng.walk()):
                got = None
            else:
                got = matchcalls(P, f, n)
                need = 2 if f.name == "handleEos" else 3
                helper = any(strip(a).is_call() and p and not strip(a).op and re.search(r"\bbool\b", strip(a).t or "") and last(strip(a).q) not in ("doesNodeMatch", "isValid", "isFake")
                             for a, p in facts_at(f, n))
                R.ob("candidates", n.loc, helper or len(got) >= need, "%s|valid" % f.q, "%s takes a path as annotated which was not compared at all of its words" % f.where)
            def cut(a, p):
                a = strip(a)
                if a.is_call() and re.search(r"\bbool\b", a.t or "") and not a.op:
                    return (not p) if last(a.q) != "isFake" else p
                return False
            ids, nxt = turn(f, lp, cut, lambda m: m is n)
            R.ob("candidates", n.loc, not nxt, "%s|kept" % f.q, "%s drops a path which agrees with the annotation" % f.where)
        for lp in loops(f):
            # a loop which makes candidates hands each of them on
            els = [x for x in f.calls() if innermost(x) is lp and last(x.q) == "allocate"]
            push = {n.i for n in f.calls() if last(n.q) == "pushItem"}
            for e in els:
                _, nxt = turn(f, lp, None, lambda m: m.i in push, start=e)
                R.ob("candidates", e.loc, not nxt, "%s|made" % f.q, "%s makes a candidate and drops it" % f.where)


KINDS = {"NoBoundary": ({"candidatesEndingOn"}, "parameter"), "WordStart": ({"findCandidatesSpanning"}, "start"),
         "WordEnd": ({"findCandidatesSpanning"}, "end"), "Tag": ({"candidatesStartingOn"}, "start")}


def violations(P, R):
    R.rule("violations", "each violation adds to the loss and is answered with the candidates for its kind and place, along the whole path")
    for f in fns(P, "::PartialTrainer"):
        adds = [n for n in f.calls() if last(n.q) == "addFeatures"]
        sws = [n for n in f.all_nodes() if n.k == "SwitchStmt"]
        if not adds or not sws:
            continue
        from enums import case_regions, enum_of
        for sw in sws:
            for lab, blocks in case_regions(f, sw):
                if lab.k != "CaseStmt":
                    continue
                e = next((enum_of(c, None) for c in lab.c if c.r == "lhs"), None)
                if e not in KINDS:
                    continue
                names, where = KINDS[e]
                cs = [n for n in f.calls() if (w := f.cfg.where(n)) is not None and w[0] in blocks]
                cand = [n for n in cs if last(n.q) in ("candidatesEndingOn", "candidatesStartingOn", "findCandidatesSpanning")]
                ad = [n for n in cs if n in adds]
                R.ob("violations", lab.loc, len({n.i for n in ad}) == 1, "%s|answer|%s" % (f.q, e), "%s answers a violation of kind %s %d times" % (f.where, e, len({n.i for n in ad})))
                for n in cand:
                    R.ob("violations", n.loc, last(n.q) in names, "%s|kind|%s" % (f.q, e), "%s looks for the wrong candidates for %s" % (f.where, e))
                    a = n.args[0]
                    names_ = {x.get("n") or last(x.q) for x in a.walk() if x.k == "DeclRefExpr"}
                    if where == "parameter":
                        R.ob("violations", n.loc, mentions(a, "parameter"), "%s|place|%s" % (f.q, e), "%s looks for candidates at the wrong place for %s" % (f.where, e))
                    elif len(sws) == 1:
                        v = step_vars(f)
                        if v:
                            w = {x.get("vid") for x in deep(a, 0) if x.k == "DeclRefExpr"}
                            R.ob("violations", n.loc, v[where] in w or not (w & set(v.values())), "%s|place|%s" % (f.q, e),
                                 "%s looks for candidates at the wrong end of the word for %s" % (f.where, e))
                v = step_vars(f)
                for n in ad:
                    if v and len(n.args) >= 4:
                        order = [peel(a).get("vid") for a in n.args[1:4]]
                        R.ob("violations", n.loc, not (set(order) & set(v.values())) or order == [v["start"], v["end"], v["prev"]], "%s|path|%s" % (f.q, e),
                             "%s takes the words of the analysis in the wrong order" % f.where)
        v = step_vars(f)
        loss = [st for t, x, st in assigns(f) if is_field(strip(t)) and strip(t).m.startswith("loss") and innermost(st) is not None]
        loss += [n for n in f.all_nodes() if n.k == "CompoundAssignOperator" and is_field(strip(n.c[0])) and strip(n.c[0]).m.startswith("loss") and innermost(n) is not None]
        loss = list({x.i: x for x in loss}.values())
        for sw in sws:
            lp = innermost(sw)
            if lp is None:
                continue
            li = {x.i for x in loss}
            isnone = lambda a, p: strip(a).is_call() and last(strip(a).q) == "isNone" and p or (
                (r := rel(a, p)) is not None and r[0] == "==" and any(last(x.q) == "None" for y in r[1:] for x in y.walk() if x.get("dk") == "enum"))
            # the loss counts in every turn with a violation
            _, nxt = turn(f, lp, isnone, lambda m: m.i in li)
            R.ob("violations", sw.loc, not nxt, "%s|loss" % f.q, "%s does not count a violation in the loss" % f.where)
            none = lambda a, p: strip(a).is_call() and last(strip(a).q) == "isNone" and not p
            for x in loss:
                guarded = any(strip(a).is_call() and last(strip(a).q) == "isNone" and not p or (r := rel(a, p)) is not None and r[0] == "!=" and any(
                    last(y.q) == "None" for z in r[1:] for y in z.walk() if y.get("dk") == "enum") for a, p in facts_at(f, x))
                R.ob("violations", x.loc, guarded or any(x.inside(s) for s in sws), "%s|noloss" % f.q, "%s counts words without a violation in the loss" % f.where)
            if v:
                for k in ("start", "end", "prev"):
                    mv = {st.i for t, x, st in assigns(f) if strip(t).k == "DeclRefExpr" and strip(t).get("vid") == v[k] and st.inside(lp)}
                    _, nxt = turn(f, lp, None, lambda m: m.i in mv)
                    R.ob("violations", lp.loc, not nxt, "%s|moves|%s" % (f.q, k), "%s does not move along the path in every turn" % f.where)


def step_vars(f):
    """the three places which move along the path: prev = end; end = start; start = start->previous"""
    start = None
    moves = {}
    for t, x, st in assigns(f):
        a = strip(t)
        if a.k != "DeclRefExpr" or x is None or innermost(st) is None:
            continue
        b = peel(x)
        if b.k == "MemberExpr" and b.m == "previous" and a.get("vid") in vids(b):
            start = a.get("vid")
        elif b.k == "DeclRefExpr":
            moves[a.get("vid")] = b.get("vid")
    if start is None:
        return None
    end = next((k for k, w in moves.items() if w == start), None)
    prev = next((k for k, w in moves.items() if w == end and end is not None), None)
    if end is None or prev is None:
        return None
    return {"start": start, "end": end, "prev": prev}


# ---------------------------------------------------------------- comparison of the golden path with the best one
def comparison(P, R):
    R.rule("comparison", "the two paths are compared step by step: each side moves on exactly when its word was compared, and each step says all that is read from it")
    flds = set()
    for c in P.classes.values():
        if last(c["q"]) == "ComparisonStep":
            flds = {x["n"] for x in c["fields"]}
    if not flds:
        return
    own = {}

    def sets(f, kind=None):
        """fields of a step which f sets on every path (for a factory of that name)"""
        out = set()
        for t, v, st in assigns(f):
            x = strip(t)
            if is_field(x) and x.q.split("::")[-2:-1] == ["ComparisonStep"]:
                ids = after(f, None, None, lambda n: n.i == st.i)
                rets = [r for r in f.all_nodes() if r.k == "ReturnStmt" and r.i in ids and not (r.c and strip(r.c[0]).v == 0)]
                if not rets and ("exit" not in ids or any(r.k == "ReturnStmt" for r in f.all_nodes())):
                    out.add(x.m)
        return out
    for f in fns(P, "::ComparisonStep"):
        if f.is_ctor and not any("ComparisonStep" in (p["t"] or "") for p in f.params):
            own.setdefault("ctor", set()).update(x.get("m") for x, e in f.inits if e is not None and x.get("m"))
    for f in fns(P, "::LossCalculator"):
        steps = [n for n in f.all_nodes() if n.k == "VarDecl" and "ComparisonStep" in (n.t or "") and not (n.t or "").rstrip().endswith(("&", "*")) and n.c]
        if not steps:
            continue
        for s in steps:
            vid = s.get("vid")
            mk = next((x for x in s.walk() if x.is_call() and P.targets(x)), None)
            base = set(own.get("ctor", set()))
            if mk is not None:
                for t in P.targets(mk):
                    base |= sets(t)
            push = [n for n in f.calls() if last(n.q) in ("push_back", "emplace_back") and n.args and vid in vids(n.args[0])]
            for pn in push:
                for m in sorted(flds - base):
                    here = {st.i for t, v, st in assigns(f) if is_field(strip(t)) and strip(t).m == m and vid in vids(strip(t))}
                    for n in f.calls():
                        if any(vid in vids(a) for a in n.args) and n is not pn:
                            if any(m in sets(t) for t in P.targets(n)):
                                here.add(n.i)
                    ids = after(f, s, None, lambda n: n.i in here)
                    R.ob("comparison", pn.loc, pn.i not in ids, "%s|%s|%s" % (f.q, last(mk.q) if mk is not None else "", m),
                         "%s stores a step without setting its %s" % (f.where, m))
            # which side moves
            kind = last(mk.q) if mk is not None else ""
            lp = innermost(s)
            if lp is None or kind not in ("both", "topOnly", "goldOnly"):
                continue
            top = {n.i for n in f.calls() if last(n.q) == "nextBoundary" and n.inside(lp)}
            gold = {n.i for n in f.all_nodes() if n.inside(lp) and (n.k == "UnaryOperator" and n.op in ("++", "--") or n.k == "CompoundAssignOperator" and n.op == "+=")
                    and "int" in (n.c[0].t or "")}
            for side, ns in (("analysis", top), ("annotation", gold)):
                want = kind == "both" or (kind == "topOnly") == (side == "analysis")
                ids, nxt = turn(f, lp, None, lambda m: m.i in ns, start=s)
                moved = bool(ns & ids)
                R.ob("comparison", s.loc, (not nxt) if want else not moved, "%s|%s|%s" % (f.q, kind, side),
                     "%s %s the %s after a step of kind %s" % (f.where, "does not move" if want else "moves", side, kind))
            pi = {n.i for n in push}
            ids, nxt = turn(f, lp, None, lambda m: m.i in pi, start=s)
            R.ob("comparison", s.loc, not nxt, "%s|%s|pushed" % (f.q, kind), "%s makes a step and drops it" % f.where)
            # the kind of the step
            for a, p in facts_at(f, s):
                r = rel(a, p)
                if r is None or not mentions(r[1], "boundary") and not mentions(r[2], "boundary"):
                    continue
                g1 = mentions(r[1], "boundary") and r[1].k == "MemberExpr"
                op = r[0]
                if not g1:
                    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                want = {"both": {"=="}, "topOnly": {">", ">=", "!="}, "goldOnly": {"<", "<=", "!="}}[kind]
                R.ob("comparison", s.loc, op in want, "%s|%s|kind" % (f.q, kind), "%s calls a step %s where the boundary of the annotation is %s that of the analysis" % (f.where, kind, op))
        # scores are those of the word which is compared
        for t, v, st in assigns(f):
            x = strip(t)
            if is_field(x) and x.q.split("::")[-2:-1] == ["ComparisonStep"] and x.m == "violation" and v is not None:
                b = strip(v)
                if b.k == "BinaryOperator" and b.op == "-":
                    l, r = b.c
                    okl = any(y.k == "MemberExpr" and y.m == "totalScore" for y in deep(l)) and not any(y.k == "MemberExpr" and y.m == "goldScores" for y in deep(l))
                    R.ob("comparison", st.loc, okl, "%s|violation" % f.q, "%s computes the violation with the sides swapped" % f.where)
    for f in fns(P, "::LossCalculator"):
        if f.name == "computeLoss":
            for n in f.calls():
                if last(n.q) not in ("addGoldNgrams", "addTopNgrams"):
                    continue
                lim = [rel(a, p) for a, p in facts_at(f, n)]
                till = f.params[0]["vid"] if f.params else None
                lim = [r for r in lim if r is not None and till in (vids(r[1]) | vids(r[2]))]
                for r in lim:
                    op = r[0] if till in vids(r[2]) else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(r[0], r[0])
                    R.ob("comparison", n.loc, op in ("<", "!="), "%s|till" % f.q, "%s uses steps behind the one it was told to stop before" % f.where)
        if f.name == "isGoldStillInBeam":
            for r in f.all_nodes():
                if r.k == "ReturnStmt" and r.c and strip(r.c[0]).v == 1 and innermost(r) is not None:
                    got = set()
                    for a, p in facts_at(f, r):
                        q = rel(a, p)
                        if q is not None and q[0] == "==":
                            for m in ("boundary", "right"):
                                if any(mentions(y, m) for y in q[1:]):
                                    got.add(m)
                    R.ob("comparison", r.loc, got == {"boundary", "right"}, "%s|same" % f.q, "%s takes another word for the annotated one" % f.where)
        if f.name == "findWorstTopNode":
            mx = {}
            for t, v, st in assigns(f):
                x = strip(t)
                if x.k == "DeclRefExpr" and x.get("dk") == "local" and v is not None and innermost(st) is not None:
                    for a, p in facts_at(f, st):
                        r = rel(a, p)
                        if r is None or r[0] not in ("<", ">", "<=", ">="):
                            continue
                        l, rr = peel(r[1]), peel(r[2])
                        if l.k == "DeclRefExpr" and rr.k == "DeclRefExpr" and x.get("vid") in (l.get("vid"), rr.get("vid")):
                            val = peel(v)
                            up = r[0] in ("<", "<=") if x.get("vid") == l.get("vid") else r[0] in (">", ">=")
                            if val.k == "DeclRefExpr" and val.get("vid") in (l.get("vid"), rr.get("vid")):
                                R.ob("comparison", st.loc, up, "%s|worst" % f.q, "%s does not keep the worst word" % f.where)
                                # all that belongs to it changes with it
                                mx[x.get("vid")] = st
            for t, v, st in assigns(f):
                x, val = strip(t), peel(v) if v is not None else None
                lp = innermost(st)
                if x.k != "DeclRefExpr" or val is None or val.k != "DeclRefExpr" or lp is None or st.k == "VarDecl":
                    continue
                a0, b0 = x.get("vid"), val.get("vid")
                cmpd = [q for n in f.all_nodes() if n.inside(lp) and n.k == "BinaryOperator" and (q := rel(n, True)) is not None
                        and q[0] in ("<", ">", "<=", ">=") and {peel(q[1]).get("vid"), peel(q[2]).get("vid")} == {a0, b0}]
                if not cmpd:
                    continue

                def less(a, p):     # contradicts: what was kept is less than what is there now
                    q = rel(a, p)
                    if q is None or {peel(q[1]).get("vid"), peel(q[2]).get("vid")} != {a0, b0}:
                        return False
                    return q[0] in ("==", ">", ">=") if peel(q[1]).get("vid") == a0 else q[0] in ("==", "<", "<=")
                _, nxt = turn(f, lp, less, lambda n: n.i == st.i)
                R.ob("comparison", st.loc, not nxt, "%s|kept" % f.q, "%s does not keep a word which is worse" % f.where)
            for vid, st in mx.items():
                w = f.cfg.where(st)
                blk = set(e for e in f.cfg.b[w[0]].e if isinstance(e, int)) if w else set()
                outer = [strip(t) for t, v, s2 in assigns(f) if s2.i in blk and strip(t).k == "DeclRefExpr"]
                need = set()
                for t, v, s2 in assigns(f):
                    x = strip(t)
                    if is_field(x) and "ComparisonStep" in x.q and v is not None and peel(v).k == "DeclRefExpr" and peel(v).get("dk") == "local" and len(var_defs(f).get(peel(v).get("vid"), [])) > 1:
                        need.add(peel(v).get("vid"))
                got = {o.get("vid") for o in outer}
                R.ob("comparison", st.loc, need <= got, "%s|together" % f.q, "%s keeps the data of different words" % f.where)
    for f in fns(P, "::LossCalculator", "fallOffBeam"):
        for r in f.all_nodes():
            if r.k == "ReturnStmt" and innermost(r) is not None:
                fs = [(strip(a), p) for a, p in facts_at(f, r)]
                g = [p for a, p in fs if is_field(a) and a.m == "goldInBeam"]
                R.ob("comparison", r.loc, g == [] or g[0] is False, "%s|fall" % f.q, "%s stops where the annotation is still in the beam" % f.where)
    for f in fns(P, "::LossCalculator", "maxViolation"):
        for t, v, st in assigns(f):
            x = strip(t)
            if x.k == "DeclRefExpr" and v is not None and innermost(st) is not None and mentions(v, "violation"):
                for a, p in facts_at(f, st):
                    r = rel(a, p)
                    if r is not None and any(y.k == "MemberExpr" and y.m == "violation" for y in r[1].walk()):
                        R.ob("comparison", st.loc, r[0] in (">", ">="), "%s|max" % f.q, "%s does not look for the largest violation" % f.where)
                    elif r is not None and any(y.k == "MemberExpr" and y.m == "violation" for y in r[2].walk()):
                        R.ob("comparison", st.loc, r[0] in ("<", "<="), "%s|max" % f.q, "%s does not look for the largest violation" % f.where)


def run(P, R):
    all_fields(P, R)
    found_node(P, R)
    golden(P, R)
    made_words(P, R)
    partial(P, R)
    candidates(P, R)
    violations(P, R)
    comparison(P, R)

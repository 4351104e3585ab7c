"""P01: readers of training and annotated data report malformed input, know where the input ends, and lose no example."""
from guards import ret_ok, relation, SWAP
from pathcut import *
from rules_o01 import may_succeed, loops

NEXT = "CsvReader::nextLine"
APPEND = re.compile(r"::(push_back|emplace_back|append|insert|emplace|assignTo|operator\+=)$")


def scope(f):
    return f.file.startswith("src/") and not testfile(f.file) and f.cfg is not None and f.body is not None


def status_fn(f):
    return bool(re.search(r"\bStatus$", f.ret or ""))


class Next:
    """calls which advance a CsvReader to its next line"""

    def __init__(self, P):
        self.P = P
        w = {g.key for g in P.fns.values() if g.q.endswith(NEXT)}
        self.direct = set(w)
        while True:
            more = set()
            for g in src_fns(P):
                if g.key in w or g.cfg is None:
                    continue
                rs = [n for n in g.all_nodes() if n.k == "ReturnStmt" and n.c]
                if rs and all(any(x.is_call() and any(t.key in w for t in P.targets(x)) for x, _ in norm_cond(r.c[0], True)) for r in rs):
                    more.add(g.key)
            if not more:
                break
            w |= more
        self.keys = w

    def is_(self, n):
        return n.is_call() and (n.q.endswith(NEXT) or any(t.key in self.keys for t in self.P.targets(n)))

    def cut_true(self, a, p):
        return p and self.is_(strip(a))

    def cut_false(self, a, p):
        return not p and self.is_(strip(a))


def reaching(P, name):
    """functions which call one whose name ends so"""
    w = {g.key for g in P.fns.values() if g.q.endswith(name)}
    while True:
        more = {c.fn.key for k in w for c in P.callers[k] if scope(c.fn)} - w
        if not more:
            return w
        w |= more


def returns(f):
    return [n for n in f.all_nodes() if n.k == "ReturnStmt" and n.fn is f]


def run(P, R):
    R.rule("malformed", "when there is no next line a reader only succeeds after asking whether the data ended or was malformed")
    R.rule("advance", "a malformed line is not consumed, and whether anything is left decides if the data was malformed")
    R.rule("end", "a reader says the input has ended exactly when there is no next line")
    R.rule("last", "the last example is handed out although no terminating line follows it")
    R.rule("consumer", "an example is used iff the input had not ended, and nothing is read after the end")
    R.rule("rewind", "a reader which starts over has not ended")
    N = Next(P)
    fin = reaching(P, "CsvReader::finish")
    flags = {}
    for f in src_fns(P):
        if not scope(f) or f.key in N.keys:
            continue
        ns = [n for n in f.calls() if N.is_(n)]
        if not ns:
            continue
        if status_fn(f):
            for n in ns:
                malformed(P, R, N, f, n, fin)
        ends(P, R, N, f, ns, flags)
    silent(P, R, N, flags)
    csv(P, R)
    consumers(P, R, N, flags)
    rewinds(P, R, flags)
    R.need("malformed", 6)


def is_finish(P, n, fin):
    return n.is_call() and (n.q.endswith("CsvReader::finish") or any(t.key in fin for t in P.targets(n)))


def malformed(P, R, N, f, n, fin, depth=2):
    ok = unasked(P, f, n, fin, N.cut_true, depth)
    R.ob("malformed", n.loc, not ok, "%s|finish" % f.q,
         "%s succeeds when there is no next line without asking whether the data was malformed" % f.where)


def unasked(P, f, n, fin, cut, depth):
    ids = after(f, n, cut, lambda x: is_finish(P, x, fin))
    for r in returns(f):
        if may_succeed(f, r) and executes(ids, r) and not any(is_finish(P, x, fin) for x in r.walk()):
            if depth > 0:
                cs = [c for c in P.callers[f.key] if scope(c.fn) and c.fn is not f]
                if cs and all(status_fn(c.fn) and not unasked(P, c.fn, c, fin, None, depth - 1) for c in cs):
                    continue
            return True
    return False


# ------------------------------------------------------------------ the CSV reader itself
def csv(P, R):
    for f in P.fns.values():
        if not scope(f):
            continue
        if f.q.endswith(NEXT):
            pos = [s for t, v, s in assigns(f) if is_field(strip(t)) and strip(t).m == "position_"]
            if not pos:
                continue
            ps = {x.i for x in pos}
            hit = lambda x: x.i in ps or any(y.i in ps for y in x.walk())
            free = after(f, None, None, hit)
            moved = set()
            for x in pos:
                moved |= after(f, x)
            for r in returns(f):
                if ret_ok(r) is False:
                    R.ob("advance", r.loc, not executes(moved, r), "%s|moved" % f.q,
                         "%s says there is no next line after moving past it" % f.where)
                else:
                    R.ob("advance", r.loc, not executes(free, r), "%s|stays" % f.q,
                         "%s gives a line without moving past it" % f.where)
        if f.q.endswith("CsvReader::finish"):
            def at_end(a, p):
                r = relation(strip(a), p)
                if r is None or r[1] not in ("==", ">="):
                    return False
                ms = {strip(x).m for x in (r[0], r[2]) if is_field(strip(x))}
                return ms == {"position_", "end_"}
            ids = after(f, None, at_end)
            for r in returns(f):
                if may_succeed(f, r):
                    R.ob("advance", r.loc, not executes(ids, r), "%s|end" % f.q,
                         "%s reports success although some of the data was not read" % f.where)


# ------------------------------------------------------------------ end of the input
def flag_writes(f):
    """flag -> [(value, statement)]: booleans written through a parameter or into a field"""
    out = defaultdict(list)
    for t, v, s in assigns(f):
        x = strip(t)
        if v is None:
            continue
        if x.k == "UnaryOperator" and x.op == "*":
            y = strip(x.c[0])
            if y.k == "DeclRefExpr" and y.get("dk") in ("parm", "param") and re.match(r"bool\b", (x.t or "")):
                out[("parm", y.get("vid"))].append((v, s))
        elif x.k == "DeclRefExpr" and x.get("dk") in ("parm", "param") and (x.t or "") == "bool":
            for p in f.params:
                if p["vid"] == x.get("vid") and p["t"].endswith("&"):
                    out[("parm", x.get("vid"))].append((v, s))
        elif is_field(x) and (x.t or "") == "bool" and x.c and strip(x.c[0]).k == "CXXThisExpr":
            out[("field", x.q)].append((v, s))
    for p in f.params:
        if re.match(r"bool\s*[*&]$", p["t"]):
            out.setdefault(("parm", p["vid"]), [])
    return out


def const_bool(f, v):
    x = strip(v)
    if x.k == "CXXBoolLiteralExpr" or x.v is not None:
        return bool(x.v)
    if x.k == "DeclRefExpr" and x.get("dk") == "local":
        ds = var_defs(f).get(x.get("vid"), [])
        if len(ds) == 1:
            return const_bool(f, ds[0])
    return None


def derived(N, f, v):
    """+1: the value is nextLine(), -1: its negation, 0: something else"""
    for a, p in expand(f, branch_facts(v, True)):
        if N.is_(strip(a)):
            return 1 if p else -1
    return 0


def ends(P, R, N, f, ns, flags):
    cls = f.cls or ""
    if cls.endswith("CsvReader"):
        return
    for key, ws in flag_writes(f).items():
        named = key[0] == "parm" and any(p["vid"] == key[1] and re.search(r"eof|end|finish|done|last", p["n"], re.I) for p in f.params)
        if not named and not any(const_bool(f, v) is True or derived(N, f, v) or empties(f, v) for v, _ in ws):
            continue
        flags.setdefault(key[1] if key[0] == "field" else (f.key, key[1]), []).append(f)
        sids = {s.i: (v, s) for v, s in ws}
        if key[0] == "parm":
            ids = after(f, None, None, lambda x: x.i in sids)
            for r in returns(f):
                if may_succeed(f, r) and executes(ids, r):
                    R.bad("end", "%s|unset" % f.q, r.loc, "%s succeeds without saying whether the input has ended" % f.where)
        before = after(f, None, N.cut_false)
        for v, s in ws:
            c = const_bool(f, v)
            d = derived(N, f, v)
            if d:
                R.ob("end", s.loc, d < 0, "%s|negated" % f.q, "%s says the input has ended when there is a next line" % f.where)
                continue
            if c is True or c is None:
                R.ob("end", s.loc, not executes(before, s), "%s|early" % f.q,
                     "%s can say the input has ended although there are lines left" % f.where)
            if c is None:
                kept(P, R, N, f, ns, empties(f, v), s)
            elif c is True:
                kept(P, R, N, f, ns, empty_guard(f, s, True), s)
        # what the flag says when the lines have run out
        for n in ns:
            for r, last in last_values(f, n, N, sids):
                if not may_succeed(f, r):
                    continue
                c = None if last is None else const_bool(f, sids[last][0])
                if c is not None and empty_guard(f, sids[last][1], c):
                    continue            # decided by whether something was read
                R.ob("end", r.loc, last is not None and c is not False, "%s|late" % f.q,
                     "%s succeeds without saying that the input has ended when there is no next line" % f.where)
                if last is None:
                    continue
                if c is True or derived(N, f, sids[last][0]):
                    a = accumulates(P, f, n, N)
                    R.ob("last", sids[last][1].loc, a is None, "%s|lost" % f.q,
                         "%s says the input has ended when it still holds what it has read (%s)" % (f.where, a and a.loc))


def silent(P, R, N, flags):
    """functions which read with the reader of a flag and never write the flag"""
    for fl, fs in flags.items():
        if isinstance(fl, tuple):
            continue
        rd = {strip(n.obj).q for g in fs for n in g.calls() if N_obj(n) and derives_flag(g, n, fl)}
        for f in src_fns(P):
            if not scope(f) or f in fs or f.cls != fl.rsplit("::", 1)[0] or not status_fn(f):
                continue
            for n in f.calls():
                if not N_obj(n) or strip(n.obj).q not in rd:
                    continue
                bad = [r for r, last in last_values(f, n, N, {}) if may_succeed(f, r)]
                if bad and helper_sets(P, f, fl):
                    continue
                R.ob("end", n.loc, not bad, "%s|late" % f.q,
                     "%s succeeds without saying that the input has ended when there is no next line" % f.where)


def helper_sets(P, f, fl):
    return any(t.cfg is not None and any(is_field(strip(a)) and strip(a).q == fl for a, v, s in assigns(t))
               for c in f.calls() for t in P.targets(c))


def last_values(f, n, N, sids):
    """(return, last assignment of the flag) pairs on the paths where n found no next line"""
    cfg = f.cfg
    w = place(cfg, n)
    if w is None:
        return []
    out = set()
    rets = {}
    for r in returns(f):
        x = place(cfg, r)
        if x:
            rets[x] = r
    seen = set()
    st = [(w[0], w[1], None)]
    # the assignment which holds the call itself
    while st:
        b, i0, cur = st.pop()
        for i, e in enumerate(cfg.b[b].e):
            if i < i0:
                continue
            if isinstance(e, int) and e in sids:
                cur = e
            if (b, i) in rets:
                out.add((rets[(b, i)].i, cur))
        for i, s in enumerate(cfg.b[b].s):
            if s < 0 or (s, cur) in seen:
                continue
            if any(N.cut_true(a, p) for a, p in edge_facts(f, b, i)):
                continue
            seen.add((s, cur))
            st.append((s, 0, cur))
    return [(f.nodes[a], c) for a, c in sorted(out, key=str)]


def result_parms(f):
    return {p["vid"] for p in f.params if re.search(r"[*&]$", p["t"]) and not re.match(r"(const |bool)", p["t"]) and "CsvReader" not in p["t"]}


def mutations(P, f, vids):
    """calls which add data to the result (other than its comment)"""
    for c in f.calls():
        if APPEND.search(c.q):
            o = c.obj if not c.q.endswith("assignTo") else (c.args[0] if c.args else None)
            if c.op == "+=" and c.args:
                o = c.args[0]
            ch, root = field_chain(peel(o)) if o is not None else ([], None)
            root = alias(root) if root is not None else None
            if root is not None and is_field(root):
                c2, root = field_chain(root)
                ch = ch + c2
            if ch and root is not None and root.k == "DeclRefExpr" and root.get("vid") in vids and not any("comment" in m for m in ch):
                yield c, ch[0], True
            continue
        if any(re.search(r"CsvReader", c.q) for _ in (0,)):
            continue
        for i, a in enumerate(c.args):
            x = peel(a)
            if x is not None and x.k == "DeclRefExpr" and x.get("vid") in vids and re.search(r"\*$", x.t or "") or \
                    x is not None and x.k == "DeclRefExpr" and x.get("vid") in vids and a.k != "ImplicitCastExpr":
                for t in P.targets(c):
                    if t.cfg is not None and i < len(t.params) and not t.params[i]["t"].startswith("const"):
                        inner = list(mutations(P, t, {t.params[i]["vid"]}))
                        for m in sorted({m for _, m, _ in inner}):
                            at = {x.i for x, m2, must in inner if m2 == m and must}
                            ids = after(t, None, None, lambda x: x.i in at or any(y.i in at for y in x.walk()))
                            rs = [r for r in returns(t) if not status_fn(t) or may_succeed(t, r)]
                            must = not any(executes(ids, r) for r in rs) if rs else "exit" not in ids
                            yield c, m, must


def accumulates(P, f, n, N):
    """an element which adds to the result on a path from n back to n"""
    vids = result_parms(f)
    for c, m, _ in mutations(P, f, vids):
        if executes(after(f, n, N.cut_false), c) and executes(after(f, c, N.cut_false), n):
            return c
    return None


def empty_atom(a, p):
    """(container, is it empty) of a condition"""
    x = strip(a)
    if x.is_call() and x.q.endswith("::empty") and x.obj is not None:
        return (field_chain(root_alias(x.obj))[0][:1] or ["?"])[0], p
    r = relation(x, p)
    if r is not None:
        for l, o, op in ((r[0], r[2], r[1]), (r[2], r[0], SWAP[r[1]])):
            l, o = strip(l), strip(o)
            if l.k == "DeclRefExpr" and l.get("dk") == "local":
                ds = var_defs(l.fn).get(l.get("vid"), [])
                l = strip(ds[0]) if len(ds) == 1 else l
            if o.v in (0, 1) and l.is_call() and re.search(r"::(size|length|numNodes)$", l.q) and l.obj is not None:
                e = {("==", 0): True, ("<=", 0): True, ("<", 1): True, ("!=", 0): False, (">", 0): False, (">=", 1): False}.get((op, o.v))
                if e is not None:
                    return (field_chain(root_alias(l.obj))[0][:1] or ["?"])[0], e
    return None


def root_alias(o):
    x = peel(o)
    m = alias(x) if x is not None else None
    return peel(m) if m is not None else x


def empties(f, v):
    """the container whose emptiness the value tells"""
    for a, p in expand(f, branch_facts(v, True)):
        e = empty_atom(a, p)
        if e is not None and e[1]:
            return [e[0]]
    return None


def empty_guard(f, s, want):
    """the container which is known to be empty (want) / not empty where s is executed"""
    for c, pol in edges_to(f, s):
        for a, p in expand(f, branch_facts(c, pol)):
            e = empty_atom(a, p)
            if e is not None and e[1] == want:
                return [e[0]]
    return None


def kept(P, R, N, f, ns, e, s):
    """the flag tells whether nothing was read: the container it looks at grows with every line which is not a comment"""
    if e is None or e == ["?"]:
        return
    vids = result_parms(f)
    for n in ns:
        ms = list(mutations(P, f, vids))
        if not ms or accumulates(P, f, n, N) is None:
            continue
        grow = {c.i for c, m, must in ms if m == e[0] and must}
        known = {m for _, m, _ in ms}
        if not grow:
            R.ob("last", s.loc, not known, "%s|other" % f.q,
                 "%s decides that nothing was read by %s which stays empty for some examples" % (f.where, e[0]))
            continue
        is_g = lambda x: x.i in grow or any(y.i in grow for y in x.walk())
        pre = after(f, n, N.cut_false, is_g)
        for c, m, _ in ms:
            if c.i in grow:
                continue
            miss = executes(pre, c) and executes(after(f, c, N.cut_false, is_g), n)
            R.ob("last", c.loc, not miss, "%s|part|%s" % (f.q, m),
                 "%s can read data into %s while %s stays empty, and then says nothing was read" % (f.where, m, e[0]))


# ------------------------------------------------------------------ users of the readers
def accessors(P, fields):
    """functions which just return the flag"""
    out = {}
    for g in P.fns.values():
        if g.cfg is None or g.params:
            continue
        rs = returns(g)
        if len(rs) == 1 and rs[0].c:
            x = strip(rs[0].c[0])
            if is_field(x) and x.q in fields:
                out[g.key] = x.q
    return out


def grows(n):
    if n.is_call() and re.search(r"::(push_back|emplace_back|insert|emplace)$", n.q) and n.obj is not None:
        return True
    return n.k == "UnaryOperator" and n.op == "++" or n.k == "CXXOperatorCallExpr" and n.op == "++"


def consumers(P, R, N, flags):
    # flags handed out through a parameter
    todo = [(k[0], k[1]) for k in flags if isinstance(k, tuple)]
    done = set()
    while todo:
        fk, vid = todo.pop()
        if (fk, vid) in done:
            continue
        done.add((fk, vid))
        f = P.fns[fk]
        idx = next((i for i, p in enumerate(f.params) if p["vid"] == vid), None)
        for c in P.callers[fk]:
            g = c.fn
            if not scope(g) or idx is None or idx >= len(c.args):
                continue
            a = peel(c.args[idx])
            if a is None or a.k != "DeclRefExpr":
                continue
            if a.get("dk") in ("parm", "param"):
                todo.append((g.key, a.get("vid")))
                continue
            v = a.get("vid")

            def cut(x, p, v=v):
                x = strip(x)
                return not p and x.k == "DeclRefExpr" and x.get("vid") == v

            def yes(x, p, v=v):
                x = strip(x)
                return p and x.k == "DeclRefExpr" and x.get("vid") == v
            user(P, R, g, c, cut, yes, True)
    # flags kept in a field
    fields = {k for k in flags if not isinstance(k, tuple)}
    acc = accessors(P, fields)

    def tests(x):
        x = strip(x)
        if is_field(x) and x.q in fields:
            return True
        return x.is_call() and any(t.key in acc for t in P.targets(x))

    cut = lambda x, p: not p and tests(x)
    yes = lambda x, p: p and tests(x)
    level = {f.key for k in fields for f in flags[k]}
    seen = set(level)
    untested = set(level)
    sets = resetters(P, fields)
    while level:
        nxt = set()
        for k in level:
            for c in P.callers[k]:
                g = c.fn
                if not scope(g):
                    continue
                has = any(tests(x) for x in g.all_nodes())
                user(P, R, g, c, cut, yes, k in untested and has, stop=lambda x: x.is_call() and any(t.key in sets for t in P.targets(x)))
                if not has and k in untested:
                    untested.add(g.key)
                if g.key not in seen:
                    nxt.add(g.key)
        seen |= nxt
        level = nxt


def resetters(P, fields):
    w = set()
    for g in src_fns(P):
        if g.cfg is None:
            continue
        for t, v, s in assigns(g):
            x = strip(t)
            if is_field(x) and x.q in fields and v is not None and const_bool(g, v) is False:
                w.add(g.key)
    while True:
        more = {c.fn.key for k in w for c in P.callers[k] if scope(c.fn)} - w
        if not more:
            return w
        w |= more


def user(P, R, g, c, cut, yes, uses, stop=None):
    ids = after(g, c, cut, stop)
    again = executes(ids, c) and not (g.name or "").startswith("operator")
    R.ob("consumer", c.loc, not again, "%s|again" % g.q, "%s reads again although the input may have ended" % g.where)
    if not uses:
        return
    for n in g.all_nodes():
        if grows(n) and executes(ids, n):
            R.bad("consumer", "%s|use" % g.q, n.loc, "%s uses an example which was not read because the input had ended" % g.where)
    # when it had not ended the example is used before the next one is read
    late = after(g, c)
    gs = {n.i for n in g.all_nodes() if grows(n) and executes(late, n)}
    if not gs:
        return
    skip = after(g, c, yes, lambda x: x.i in gs or any(y.i in gs for y in x.walk()))
    ts = {t.key for t in P.targets(c)}
    more = [x for x in g.calls() if x is c or ts & {t.key for t in P.targets(x)}]
    R.ob("consumer", c.loc, not any(executes(skip, x) for x in more), "%s|skip" % g.q, "%s can read the next example without using the one before it" % g.where)


# ------------------------------------------------------------------ starting over
def rewinds(P, R, flags):
    fields = {k for k in flags if not isinstance(k, tuple)}
    classes = {k.rsplit("::", 1)[0]: k for k in fields}
    for f in src_fns(P):
        if not scope(f) or f.cls not in classes:
            continue
        fl = classes[f.cls]
        ws = [(v, s) for t, v, s in assigns(f) if is_field(strip(t)) and strip(t).q == fl]
        rd = {strip(n.obj).q for g in flags[fl] for n in g.calls() if N_obj(n)}
        for c in f.calls():
            if not re.search(r"CsvReader::init\w*$", c.q) or c.obj is None or strip(c.obj).q not in rd:
                continue
            first = [n for g in flags[fl] for n in g.calls() if N_obj(n) and any(derives_flag(g, n, fl) for _ in (0,))]
            if first and strip(c.obj).q not in {strip(n.obj).q for n in first}:
                continue
            off = {s.i for v, s in ws if const_bool(f, v) is False}
            if off:
                stop = lambda x: x.i in off
                a = after(f, None, None, stop)
                b = after(f, c, None, stop)
                bad = executes(a, c) and any(executes(b, r) and (not status_fn(f) or may_succeed(f, r)) for r in returns(f)) or \
                    executes(a, c) and not returns(f) and "exit" in b
            else:
                bad = not helper_resets(P, f, fl)
            R.ob("rewind", c.loc, not bad, "%s|reset" % f.q, "%s starts over but still says that the input has ended" % f.where)
        on = [s for v, s in ws if const_bool(f, v) is True]
        if on and not any(N_obj(n) for n in f.calls()) and any(re.search(r"CsvReader::init\w*$", c.q) for c in f.calls()):
            R.bad("rewind", "%s|set" % f.q, on[0].loc, "%s starts over and says that the input has ended" % f.where)


def helper_resets(P, f, fl):
    for c in f.calls():
        for t in P.targets(c):
            if t.cfg is not None and any(is_field(strip(a)) and strip(a).q == fl and v is not None and const_bool(t, v) is False
                                         for a, v, s in assigns(t)):
                return True
    return False


def N_obj(n):
    return n.is_call() and n.q.endswith(NEXT) and n.obj is not None and is_field(strip(n.obj))


def derives_flag(g, n, fl):
    """n decides the value of the flag: it is written after n found no next line, outside the turn of another reader"""
    cut = lambda a, p: p and strip(a) is n
    ids = after(g, n, cut)
    ws = [s for t, v, s in assigns(g) if is_field(strip(t)) and strip(t).q == fl]
    return any(executes(ids, s) or s.inside(n) or any(x is n for x in s.walk()) for s in ws)

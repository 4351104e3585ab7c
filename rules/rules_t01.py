"""T01: training moves the weights towards the annotation."""
from pathcut import *
from terms import *
from guards import relation, constant

GOLD = re.compile(r"gold|good", re.I)
TOP = re.compile(r"top|bad", re.I)
NS = "jumanpp::core::training::"


def fns(P):
    return [f for f in src_fns(P) if f.q.startswith(NS) and f.cfg is not None]


def leaf(q):
    return q.split("::")[-1]


def run(P, R):
    R.rule("step", "the weight update is the soft confidence weighted one: direction, variance, confidence")
    R.rule("polarity", "annotation features are added with positive, analysis features with negative sign")
    R.rule("case", "each kind of difference contributes the features of its own side")
    R.rule("order", "n-gram features are those of a node and its predecessors, in order")
    R.rule("mask", "feature numbers are reduced to the size of the weight table before they are ordered")
    R.rule("merge", "no contribution is lost when the two sides are merged and equal features are added up")
    R.rule("apply", "a processed example contributes its own loss and difference, once")
    R.rule("batch", "every example of a batch takes part")
    R.rule("live", "the trained weights are the ones used for scoring and the ones exported, all of them")
    step_rule(P, R)
    polarity(P, R)
    cases(P, R)
    consume(P, R)
    order(P, R)
    mask(P, R)
    merge(P, R)
    accumulate(P, R)
    apply(P, R)
    batch(P, R)
    live(P, R)
    # losing most of the sites means the code was reorganised beyond what the rule understands
    R.rule("epoch", "the loss of an epoch is that of all its batches, and training goes on while it changes")
    epoch(P, R)
    R.need("step", 3)
    R.need("polarity", 2)


# ---------------------------------------------------------------- the update
def learner(P):
    """(class, weight vector field, other float vector fields) of the object which updates the weights"""
    for f in fns(P):
        for n in f.calls():
            if leaf(n.q) == "setWeightsTo" and n.args:
                a = alias(n.args[0])
                if a is not None and a.k in CTORS and a.c:
                    a = alias(a.c[0])
                if is_field(a) and a.q.rsplit("::", 1)[0] == f.cls:
                    return f.cls, a.q
    return None, None


def step_rule(P, R):
    cls, W = learner(P)
    if cls is None:
        return
    methods = [f for f in fns(P) if f.cls == cls]
    T = Terms(P)
    for f in methods:
        if f.d.get("ctor"):
            for x, e in f.inits:
                if x.get("written") and re.match(r"(const )?(double|float)$", next((n.t for n in [e]), "") or ""):
                    e2 = e.c[0] if e.k == "InitListExpr" and len(e.c) == 1 else e
                    t = T.term(e2)
                    if t is not None:
                        ats = t.atoms()
                        if len(ats) == 1 and t.same(atom(next(iter(ats)))) and "." in next(iter(ats)):
                            t = atom("#" + next(iter(ats)).split(".")[-1])
                        T.fields[x["q"]] = t
    phi = next((t for q, t in T.fields.items() if repr(t).endswith("#phi")), None)
    C = next((t for q, t in T.fields.items() if repr(t).endswith("#C")), None)
    if phi is None:
        return
    wn = "f:" + leaf(W)

    def shape(t):
        """(sign, exponent of weight, of diagonal, of score, rest) of a product over the elements of features"""
        m = t.mono() if t is not None else None
        if m is None:
            return None
        c, d = m
        ew = ed = es = 0
        idx = set()
        rest = {}
        for a, e in d.items():
            if a.endswith(".score"):
                es += e
                idx.add(a[:-6])
            elif a.startswith("1*") and "[" in a or "[" in a:
                base, ix = a.split("[", 1)
                ix = ix.rstrip("]")
                ix = re.sub(r"^1\*", "", ix)
                if not ix.endswith(".feature"):
                    return None
                idx.add(ix[:-8])
                if base.endswith(wn):
                    ew += e
                else:
                    ed += e
            else:
                rest[a] = e
        if len(idx) > 1:
            return None
        return (c > 0) - (c < 0), ew, ed, es, rest, c
    margin, variance = set(), set()
    for f in methods:
        accs = []
        refs = {d.get("vid") for d in f.all_nodes() if d.k == "VarDecl" and (d.t or "").rstrip().endswith("&")}
        for x, t, s, e in deltas(f):
            v = strip(t)
            if v.k != "DeclRefExpr" or v.get("vid") in refs or not re.search("float|double", v.t or ""):
                continue
            tt = T.term(e)
            if tt is None or not any(a.endswith(".score") or ".feature]" in a for a in tt.atoms()):
                continue
            accs.append((x, s, tt))
        for x, s, tt in accs:
            sh = shape(tt)
            ok = sh is not None and not sh[4] and sh[0] * s > 0 and sh[5] == 1
            kind = sh and (sh[1], sh[2], sh[3])
            if ok and kind == (1, 0, 1):
                margin.add(f.q)
            elif ok and kind == (0, 1, 2):
                variance.add(f.q)
            else:
                ok = False
            R.ob("step", x.loc, ok, "%s|sum" % f.q, "%s adds up %r, which is neither the score nor the variance of a difference" % (f.where, tt))
    T2 = Terms(P, margin | variance)
    T2.fields = T.fields
    # where the alpha comes from: a function of the variance and the margin with several results
    for f in methods:
        for n in f.calls():
            ts = [t for t in P.targets(n) if t.cls == cls and t.body is not None]
            if len(ts) != 1 or ts[0].q in margin | variance:
                continue
            g = ts[0]
            args = [T2.term(a) for a in n.args]
            if None in args:
                continue
            va = [i for i, t in enumerate(args) if any(a.startswith("call:" + leaf(v) + "(") for v in variance for a in t.atoms())]
            ma = [i for i, t in enumerate(args) if any(a.startswith("call:" + leaf(v) + "(") for v in margin for a in t.atoms())]
            if not va or not ma or len(args) != 2 or va == ma:
                continue
            T2.opaque.add(g.q)
            m = args[ma[0]].mono()
            ok = m is not None and m[0] == 1 and sorted(m[1].values()) == [1, 1]
            R.ob("step", n.loc, ok, "%s|margin" % f.q, "%s takes %r as the margin, not the loss times the score of the difference" % (f.where, args[ma[0]]))
            sym = [None, None]
            sym[va[0]], sym[ma[0]] = atom("V"), atom("M")
            alpha_formula(R, T2, g, sym, phi, C)
    # the changes
    for f in methods:
        upd = [n for n in f.calls() if any(t.cls == cls and changes(t, W) for t in P.targets(n))]
        tops = [(f, None)] if changes(f, W) and not any(callers_in(P, f, cls)) else [(f, n) for n in upd]
        for u, call in tops:
            A = None
            todo = [(u, None)] if call is None else [(t, call) for t in P.targets(call) if t.cls == cls]
            for t, cl in todo:
                env = {}
                if cl is not None:
                    env = {(t.key, p["vid"]): T2.term(a) for p, a in zip(t.params, cl.args)}
                    env = {k: v for k, v in env.items() if v is not None}
                for x, tgt, s, e in deltas(t):
                    pl = T2.place(tgt, env, 5)
                    if not re.match(r"(1\*)?%s\[" % re.escape(wn), pl):
                        continue
                    sh = shape(T2.term(e, env))
                    tt = T2.term(e, env)
                    ok = sh is not None and sh[0] * s > 0 and sh[1] == 0 and sh[2] == 1 and sh[3] == 1 and same_elem(pl, tt) and \
                        all(v == 1 for v in sh[4].values()) and sh[5] == 1 and len(sh[4]) == 2
                    R.ob("step", x.loc, ok, "%s|weights" % t.q,
                         "%s changes a weight by %s%r, not by alpha, the loss, the confidence and the sign of the feature" % (t.where, "-" if s < 0 else "", tt))
                    if ok:
                        A = [a for a in sh[4] if a.startswith("call:")]
            if A and call is not None:
                # the confidence is updated with the same alpha
                for n in u.calls():
                    for t in P.targets(n):
                        if t.cls != cls or t.body is None or changes(t, W):
                            continue
                        env = {(t.key, p["vid"]): T2.term(a) for p, a in zip(t.params, n.args)}
                        env = {k: v for k, v in env.items() if v is not None}
                        for x, tgt, s, e in deltas(t):
                            pl = T2.place(tgt, env, 5)
                            if ".feature]" not in pl or wn in pl:
                                continue
                            tt = T2.term(e, env)
                            beta_formula(R, T2, t, x, s, tt, A[0], phi, pl)
                # order of the two: both after the early returns, weights first (they use the old confidence)
                conf = [n for n in u.calls() if any(t.cls == cls and t.body is not None and not changes(t, W) and
                                                    any(".feature]" in T2.place(tg, {}, 5) and wn not in T2.place(tg, {}, 5) for _, tg, _, _ in deltas(t))
                                                    for t in P.targets(n))]
                for n in conf:
                    ids = after(u, n)
                    R.ob("step", n.loc, not executes(ids, call), "%s|order" % u.q, "%s changes the confidence before the weights which need it" % u.where)
                    ids = after(u, call, None, lambda x: x.i == n.i)
                    R.ob("step", n.loc, "exit" not in ids, "%s|both" % u.q, "%s can change the weights without changing the confidence" % u.where)
                # skipped only for a zero loss or variance
                skip(P, R, u, call, variance)


def same_elem(pl, tt):
    i = re.sub(r"^1\*", "", pl.split("[", 1)[1].rstrip("]"))
    return any(re.sub(r"^1\*", "", a.split("[", 1)[1].rstrip("]")) == i for a in tt.atoms() if "[" in a)


def callers_in(P, f, cls):
    for c in P.callers.get(f.key, ()):
        yield c


def changes(f, W):
    if f.d.get("ctor"):
        return False
    for x, t, s, e in deltas(f):
        n = strip(t)
        if n.k in ("CXXOperatorCallExpr", "ArraySubscriptExpr"):
            b = alias(n.args[0] if n.k == "CXXOperatorCallExpr" else n.c[0])
            if is_field(b) and b.q == W:
                return True
    return False


def clamp(n, C, T):
    """look through min/max with the limits"""
    n = strip(n)
    while n is not None and n.is_call() and leaf(n.q) in ("min", "max") and len(n.args) == 2:
        ts = [T.term(a) for a in n.args]
        lim = num(0) if leaf(n.q) == "max" else C
        i = next((i for i, t in enumerate(ts) if t is not None and lim is not None and t.same(lim)), None)
        if i is None:
            return n
        n = strip(n.args[1 - i])
        if n.k == "DeclRefExpr":
            d = single_def(n)
            if d is not None and strip(d).is_call():
                n = strip(d)
    return n


def alpha_formula(R, T, g, sym, phi, C):
    env = {(g.key, p["vid"]): a for p, a in zip(g.params, sym)}
    V, M = atom("V"), atom("M")
    f2 = phi * phi
    ref_root = T.root(M * M * f2 * f2 / num(4) + V * f2 * (num(1) + f2))
    ref = (ref_root - M * (num(1) + f2 / num(2))) / (V * (num(1) + f2))
    for r in [n for n in g.all_nodes() if n.k == "ReturnStmt" and n.c]:
        e = clamp(r.c[0], C, T)
        t = T.term(e, env)
        if t is None:
            continue
        fs = [(strip(a), p) for c, pol in edges_to(g, r) for a, p in branch_facts(c, pol)]
        rel = [q for a, p in fs for q in [relation(a, p)] if q is not None]

        def holds(op, limit):
            for l, o, rr in rel:
                for x, oo, y in ((l, o, rr), (rr, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o), l)):
                    tx, ty = T.term(x, env), T.term(y, env)
                    if tx is not None and ty is not None and ty.same(limit) and tx.same(ref) and oo in op:
                        return True
            return False
        if t.const() is not None:
            ok = t.const() == 0 and holds(("<", "<="), num(0))
            R.ob("step", r.loc, ok, "%s|low" % g.q, "%s answers %r without the step being negative" % (g.where, t))
        elif C is not None and t.same(C):
            R.ob("step", r.loc, holds((">", ">="), C), "%s|high" % g.q, "%s limits the step although it is not above the limit" % g.where)
        else:
            R.ob("step", r.loc, t.same(ref), "%s|alpha" % g.q, "%s computes the step as %r" % (g.where, t))


def beta_formula(R, T, f, x, s, tt, A, phi, pl):
    if tt is None:
        return
    vs = {a for a in tt.atoms() if a.startswith("call:") and a != A}
    roots = [a for a in tt.atoms() if a.startswith("sqrt#")]
    for r in roots:
        q = T.roots[int(r[5:])]
        vs |= {a for a in q.atoms() if a.startswith("call:") and a != A}
    if len(vs) != 1:
        R.ob("step", x.loc, not vs and not roots, "%s|confidence" % f.q, "%s changes the confidence by %r" % (f.where, tt))
        return
    a, v = atom(A), atom(next(iter(vs)))
    D = [b for b in tt.atoms() if ".feature]" in b]
    S = [b for b in tt.atoms() if b.endswith(".score")]
    if len(D) != 1 or len(S) != 1:
        R.ob("step", x.loc, False, "%s|confidence" % f.q, "%s changes the confidence by %r" % (f.where, tt))
        return
    root = T.root(a * a * v * v * phi * phi + num(4) * v)
    t = root - a * v * phi
    u = t * t / num(4)
    beta = a * phi / (T.root(u) + v * a * phi)
    ref = beta * atom(D[0]) * atom(D[0]) * atom(S[0]) * atom(S[0])
    R.ob("step", x.loc, s < 0 and tt.same(ref) and re.sub(r"^1\*", "", D[0]) == re.sub(r"^1\*", "", pl), "%s|confidence" % f.q,
         "%s changes the confidence by %s%r" % (f.where, "" if s > 0 else "-", tt))


def skip(P, R, u, call, variance):
    """the update is left out only because there is no loss or no variance"""
    for b in u.cfg.b.values():
        if b.cond is None or len(b.s) != 2:
            continue
        w = place(u.cfg, call)
        for i, s in enumerate(b.s):
            o = b.s[1 - i]
            if s < 0 or o < 0:
                continue
            if not u.cfg.dominates_block(b.id, w[0]) or reaches(u.cfg, s, w[0], b.id) or not reaches(u.cfg, o, w[0], b.id):
                continue
            ok = False
            for a, p in edge_facts(u, b.id, i):
                q = relation(strip(a), p)
                if q is None:
                    continue
                for x, op, y in ((q[0], q[1], q[2]), (q[2], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(q[1], q[1]), q[0])):
                    y = strip(y)
                    small = y.v == 0 or y.get("fv") is not None and 0 <= float(y.get("fv")) <= 1e-3
                    if small and op in ("<", "<=", "=="):
                        ok = True
            R.ob("step", f_loc(u, b), ok, "%s|skip" % u.q, "%s leaves an example out although it has a loss" % u.where)


def f_loc(f, b):
    return f.nodes[b.cond].loc


# ---------------------------------------------------------------- signs
def origin(n, depth=6):
    """name of the container an element comes from: +1 gold, -1 top, None"""
    n = strip(n)
    while depth > 0 and n is not None:
        depth -= 1
        if n.k == "DeclRefExpr":
            if n.get("vid") is None or n.get("dk") == "parm":
                return side(n.get("n"))
            d = defs_of(n)
            if len(d) != 1:
                return None
            v = d[0]
            if v is LOOP:
                rng = loop_range(n)
                return side_of(rng) if rng is not None else None
            n = strip(v)
            continue
        if n.k == "ArraySubscriptExpr" or n.k == "CXXOperatorCallExpr" and n.op in ("[]", "*"):
            return side_of(n.args[0] if n.k == "CXXOperatorCallExpr" else n.c[0])
        if n.k == "CXXMemberCallExpr" and leaf(n.q) in ("at", "back", "front"):
            return side_of(n.obj)
        if n.k == "UnaryOperator" and n.op == "*":
            n = strip(n.c[0])
            continue
        return None
    return None


LOOP = object()


def defs_of(n):
    out = []
    for x in n.fn.all_nodes():
        if x.k == "VarDecl" and x.get("vid") == n.get("vid"):
            if loop_range(n) is not None:
                out.append(LOOP)
            elif x.c:
                out.append(x.c[0])
        if x.k == "BinaryOperator" and x.op == "=":
            t = strip(x.c[0])
            if t.k == "DeclRefExpr" and t.get("vid") == n.get("vid"):
                out.append(x.c[1])
    return out


def loop_range(n):
    """the container a range-for variable runs over"""
    for x in n.fn.all_nodes():
        if x.k == "CXXForRangeStmt":
            var = next((c for c in x.c if c.r == "var"), None)
            if var is not None and any(y.k == "VarDecl" and y.get("vid") == n.get("vid") for y in var.walk()):
                rng = next((c for c in x.c if c.r == "range"), None)
                for y in rng.walk():
                    if y.k == "VarDecl" and y.c:
                        return y.c[0]
    return None


def side(name):
    if not name:
        return None
    g, t = bool(GOLD.search(name)), bool(TOP.search(name))
    return None if g == t else 1 if g else -1


def side_of(c):
    c = alias(c)
    if is_field(c):
        return side(c.m)
    if c is not None and c.k == "DeclRefExpr":
        return side(c.get("n"))
    return None


def sign(n, depth=5):
    """sign of a number: 1 (not negative), -1 (not positive), None"""
    n = strip(n)
    if n is None or depth == 0:
        return None
    fv = n.get("fv") if n.get("fv") is not None else (n.v if not isinstance(n.v, str) else None)
    if fv is not None:
        fv = float(fv)
        return 1 if fv > 0 else -1 if fv < 0 else 0
    if n.k == "UnaryOperator" and n.op in ("-", "+"):
        s = sign(n.c[0], depth - 1)
        return None if s is None else -s if n.op == "-" else s
    if n.k == "BinaryOperator" and n.op in ("*", "/"):
        a, b = sign(n.c[0], depth - 1), sign(n.c[1], depth - 1)
        return None if a is None or b is None else a * b if n.op == "*" else a * (b or 1)
    if re.match(r"(const )?(unsigned|size_t|u32|u64|bool)", n.t or ""):
        return 1
    if n.k == "DeclRefExpr":
        if n.get("dk") == "parm":
            return None
        ds = defs_of(n)
        ss = {sign(d, depth - 1) for d in ds if d is not LOOP} - {0}
        if len(ss) == 1:
            return ss.pop()
    if n.k in CTORS and len(n.c) == 1:
        return sign(n.c[0], depth - 1)
    return None


def emissions(P, f):
    """(node, feature expr, score expr): where a scored feature is produced"""
    for n in f.calls():
        name = leaf(n.q)
        if name in ("push_back", "emplace_back") and n.args and n.obj is not None and "ScoredFeature" in (n.obj.t or ""):
            a = n.args
            if len(a) == 2:
                yield n, a[0], a[1]
                continue
            x = strip(a[0])
            while x.k in CTORS and len(x.c) == 1:
                x = strip(x.c[0])
            if x.k in ("InitListExpr",) + tuple(CTORS) and len(x.c) == 2:
                yield n, x.c[0], x.c[1]
        elif len(n.args) == 2 and re.match(r"(const )?(unsigned int|u32)", n.args[0].t or "") and re.search("float|double", n.args[1].t or "") and \
                any(t.q.startswith(NS) and t.body is not None for t in P.targets(n)):
            yield n, n.args[0], n.args[1]


def polarity(P, R):
    for f in fns(P):
        for n, feat, sc in emissions(P, f):
            pairs = []
            v, w = strip(feat), strip(sc)
            if v.k == "DeclRefExpr" and w.k == "DeclRefExpr" and v.get("dk") == "local" and w.get("dk") == "local":
                # values given together
                da = [x for x in f.all_nodes() if x.k == "BinaryOperator" and x.op == "=" and strip(x.c[0]).get("vid") == v.get("vid") and strip(x.c[0]).k == "DeclRefExpr"]
                db = [x for x in f.all_nodes() if x.k == "BinaryOperator" and x.op == "=" and strip(x.c[0]).get("vid") == w.get("vid") and strip(x.c[0]).k == "DeclRefExpr"]
                for x in da:
                    for y in db:
                        if place(f.cfg, x) and place(f.cfg, y) and place(f.cfg, x)[0] == place(f.cfg, y)[0]:
                            pairs.append((x.c[1], y.c[1], x))
            if not pairs:
                pairs = [(feat, sc, n)]
            for a, b, at in pairs:
                o, s = origin(a), sign(b)
                if o is None or s in (None, 0):
                    continue
                R.ob("polarity", at.loc, o == s, "%s|%s" % (f.q, expr_str(a)[:30]),
                     "%s gives a feature of the %s a %s contribution" % (f.where, "annotation" if o > 0 else "analysis", "positive" if s > 0 else "negative"))
        # filling of the two sides
        s0 = side(f.name)
        for n in f.calls():
            if leaf(n.q) == "copy_insert" and len(n.args) == 2:
                d = side_of(n.args[1])
                src = side_of(n.args[0])
                if d is None:
                    continue
                if s0 is not None:
                    R.ob("polarity", n.loc, d == s0, "%s|fill" % f.q, "%s adds its features to the other side" % f.where)
                if src is not None:
                    R.ob("polarity", n.loc, d == src, "%s|fill2" % f.q, "%s copies features of one side to the other" % f.where)
    # scaling of one side must not turn its sign
    for f in fns(P):
        for x in f.all_nodes():
            if x.k in ("CompoundAssignOperator", "BinaryOperator") and x.op == "*=" and is_field(strip(x.c[0])) and strip(x.c[0]).m == "score":
                s = sign(x.c[1])
                if s is not None:
                    R.ob("polarity", x.loc, s > 0, "%s|scale" % f.q, "%s turns the direction of a feature around" % f.where)


# ---------------------------------------------------------------- which side contributes when
KINDS = {"GoldOnly": (True, False), "TopOnly": (False, True), "Both": (True, True)}


def kind_cut(K, extra=None):
    def val(x):
        x = strip(x)
        return leaf(x.q) if x is not None and x.k == "DeclRefExpr" and x.get("dk") == "enumconst" or x is not None and leaf(x.q or "") in KINDS else None

    def cut(a, p):
        q = relation(strip(a), p)
        if q is not None and q[1] in ("==", "!="):
            for y in (q[0], q[2]):
                v = val(y)
                if v in KINDS:
                    return (v == K) != (q[1] == "==")
        return extra is not None and extra(a, p)

    def case(cond, vals):
        vs = {val(v) for v in vals}
        if vs & set(KINDS):
            return K not in vs
        return False
    return cut, case


def range_loops(f):
    """(header block, first block of the body)"""
    for b in f.cfg.b.values():
        if isinstance(b.term, int) and f.nodes[b.term].k in ("ForStmt", "WhileStmt", "CXXForRangeStmt") and len(b.s) == 2 and b.s[0] >= 0:
            yield b, f.nodes[b.term]


def cases(P, R):
    for f in fns(P):
        adds = {}
        for n in f.calls():
            if n.q.startswith(NS) and re.search("Ngrams|Features", leaf(n.q)) and side(leaf(n.q)) is not None and leaf(n.q).startswith("add"):
                adds.setdefault(side(leaf(n.q)), []).append(n)
        if len(adds) != 2:
            continue
        for b, st in range_loops(f):
            body = next((c for c in st.c if c.r == "body"), None)
            if body is None or not any(n.inside(body) for n in adds[1]):
                continue
            for K, want in KINDS.items():
                def extra(a, p):
                    x = strip(a)
                    if x.is_call() and leaf(x.q) == "hasError":
                        return not p
                    q = relation(x, p)
                    if q is not None and q[1] in ("<", ">", "<=", ">="):
                        # the part of the path the loss is computed for: only the steps before the limit contribute
                        l, o, r = q
                        lv = [strip(y) for y in (l, r)]
                        if any(y.k == "DeclRefExpr" and y.get("dk") == "parm" for y in lv):
                            i = 0 if lv[1].k == "DeclRefExpr" and lv[1].get("dk") == "parm" else 1
                            return not (o in ("<", "<=") if i == 0 else o in (">", ">="))
                    return False
                cut, case = kind_cut(K, extra)
                first = b.s[0]
                e0 = next((e for e in f.cfg.b[first].e if isinstance(e, int)), None)
                for s, name in ((1, "annotation"), (-1, "analysis")):
                    ids = region(f, first, loop_head(f, b.id), cut, None, case)
                    may = any(executes(ids[0], n) for n in adds[s])
                    w = want[0] if s > 0 else want[1]
                    if w:
                        stop = {n.i for n in adds[s]}
                        ids2 = region(f, first, loop_head(f, b.id), cut, lambda x: x.i in stop, case)
                        R.ob("case", f_loc(f, b), not ids2[1], "%s|%s|%d" % (f.q, K, s), "%s can leave out the features of the %s for %s" % (f.where, name, K))
                    else:
                        R.ob("case", f_loc(f, b), not may, "%s|%s|%d" % (f.q, K, s), "%s adds features of the %s for %s" % (f.where, name, K))


def region(f, first, header, cut, stop, case):
    """(elements executed in one turn, whether the turn can be finished)"""
    out, seen, st = set(), {first}, [first]
    back = False
    while st:
        x = st.pop()
        if x == header:
            back = True
            continue
        halt = False
        for e in f.cfg.b[x].e:
            if isinstance(e, int):
                out.add(e)
                if stop is not None and stop(f.nodes[e]):
                    halt = True
                    break
        if halt:
            continue
        for i, s in enumerate(f.cfg.b[x].s):
            if s < 0 or s in seen and s != header:
                continue
            cv = case_values(f, x, i)
            if cv is not None and case is not None and case(cv[0], cv[1]):
                continue
            if any(cut(a, p) for a, p in edge_facts(f, x, i)):
                continue
            seen.add(s)
            st.append(s)
    return out, back


def consume(P, R):
    """a step of the comparison uses up the annotated node, the analysed node or both, as its kind says"""
    for f in fns(P):
        marks = {}
        for n in f.calls():
            if n.q.startswith(NS + "ComparisonStep::") and leaf(n.q) in ("both", "topOnly", "goldOnly"):
                marks.setdefault(leaf(n.q), []).append(n)
        if not marks:
            continue
        tops = [n.i for n in f.calls() if leaf(n.q) == "nextBoundary"]
        golds = [x.i for x in f.all_nodes() if (x.k == "UnaryOperator" and x.op in ("++",) or x.k in ("BinaryOperator", "CompoundAssignOperator") and x.op == "+=") and
                 strip(x.c[0]).k == "DeclRefExpr" and side(strip(x.c[0]).get("n")) == 1 and strip(x.c[0]).get("dk") == "local"]
        if not tops or not golds:
            continue
        for b, st in range_loops(f):
            body = next((c for c in st.c if c.r == "body"), None)
            for kind, ns in marks.items():
                for n in ns:
                    if body is None or not n.inside(body):
                        continue
                    for ids, want, name in ((tops, kind != "goldOnly", "analysed"), (golds, kind != "topOnly", "annotated")):
                        stop = set(ids)
                        hdr = loop_head(f, b.id)
                        turn = turn_from(f, n, hdr, stop)
                        if want:
                            R.ob("case", n.loc, not turn[1], "%s|%s|%s" % (f.q, kind, name), "%s can compare the same %s node again" % (f.where, name))
                        else:
                            R.ob("case", n.loc, not turn[0], "%s|%s|%s" % (f.q, kind, name), "%s skips an %s node which was not compared" % (f.where, name))


def turn_from(f, n, header, stop):
    """from n to the next turn: (passes an element of stop, can avoid all of them)"""
    w = place(f.cfg, n)
    hit = avoid = False
    seen, st = set(), [(w[0], w[1] + 1)]
    while st:
        b, i0 = st.pop()
        if b == header:
            avoid = True
            continue
        h = False
        for e in f.cfg.b[b].e[i0:]:
            if isinstance(e, int) and (e in stop):
                hit = h = True
                break
        if h:
            continue
        for s in f.cfg.b[b].s:
            if s >= 0 and s not in seen:
                seen.add(s)
                st.append((s, 0))
    return hit, avoid


# ---------------------------------------------------------------- n-gram order
def chain(n, depth=10):
    """(root, number of steps back along `previous`)"""
    k = 0
    n = strip(n)
    while n is not None and depth:
        depth -= 1
        if n.k == "CXXMemberCallExpr" and leaf(n.q) == "latticeNodePtr" and n.obj is not None:
            n = strip(n.obj)
        elif n.k in CTORS and len(n.c) == 1:
            n = strip(n.c[0])
        elif n.k == "UnaryOperator" and n.op in ("*", "&"):
            n = strip(n.c[0])
        elif is_field(n) and n.m == "previous":
            k += 1
            n = strip(n.c[0])
        elif n.k == "DeclRefExpr" and n.get("dk") == "local":
            ds = var_defs(n.fn).get(n.get("vid"), [])
            if len(ds) != 1 or ds[0] is None or loop_range(n) is not None:
                break
            n = strip(ds[0])
        else:
            break
    return (expr_str(n) if n is not None else None), k


def order(P, R):
    for f in src_fns(P):
        if f.cfg is None or not f.q.startswith("jumanpp::core::"):
            continue
        for n in f.all_nodes():
            if (n.k in CTORS or n.k == "InitListExpr") and "NgramFeatureRef" in (n.t or "") and len(n.c) == 3:
                cs = [chain(c) for c in n.c]
                r2 = cs[2]
                for i, c in enumerate(cs[:2]):
                    o = cs[i + 1]
                    if c[0] == o[0]:
                        R.ob("order", n.loc, c[1] == o[1] + 1, "%s|%d" % (f.q, i), "%s takes the nodes of an n-gram in the wrong order" % f.where)


# ---------------------------------------------------------------- mask
def masks(f):
    """(node, container or element expression) which reduce a feature number"""
    for x in f.all_nodes():
        if x.k in ("BinaryOperator", "CompoundAssignOperator") and x.op == "&=":
            yield x, x.c[0]
        elif x.k == "BinaryOperator" and x.op == "=" and strip(x.c[1]).k == "BinaryOperator" and strip(x.c[1]).op == "&":
            yield x, x.c[0]


def container_of(n):
    n = strip(n)
    d = 6
    while n is not None and d:
        d -= 1
        if is_field(n):
            if n.m in ("feature", "score"):
                n = strip(n.c[0])
                continue
            return n.q
        if n.k == "DeclRefExpr":
            r = loop_range(n)
            if r is not None:
                n = strip(r)
                continue
            ds = var_defs(n.fn).get(n.get("vid"), []) if n.get("dk") == "local" else []
            if len(ds) == 1 and ds[0] is not None:
                n = strip(ds[0])
                continue
            return None
        if n.k == "UnaryOperator" and n.op == "*":
            n = strip(n.c[0])
        elif n.k in CTORS and len(n.c) == 1:
            n = strip(n.c[0])
        elif n.k in ("ArraySubscriptExpr",):
            n = strip(n.c[0])
        elif n.k == "CXXOperatorCallExpr" and n.op in ("[]", "*"):
            n = strip(n.args[0])
        elif n.is_call() and (n.obj is not None and leaf(n.q) in ("begin", "end", "at", "back", "front")):
            n = strip(n.obj)
        elif n.is_call() and leaf(n.q) in ("begin", "end") and n.args:
            n = strip(n.args[0])
        else:
            return None
    return None


def mask(P, R):
    for f in fns(P):
        sorts = []
        for n in f.calls():
            if re.search(r"(^|::)(sort|stable_sort)$", n.q) and n.args:
                c = container_of(n.args[0])
                if c is not None and c.startswith(f.cls or "?") and re.search("Feature|scored", leaf(c), re.I):
                    sorts.append((n, c))
        if not sorts:
            continue
        ms = [(x, container_of(t)) for x, t in masks(f)]
        # a helper may do both
        for n, c in sorts:
            mine = [x for x, k in ms if k == c]
            ok = False
            for x in mine:
                # the loop which masks comes before: its header dominates the sort, the sort does not lead back to it
                ok |= not executes(after(f, n), x) and executes(after(f, x), n) and before(f, x, n)
            if mine or ms or not helper_masks(P, f, c):
                R.ob("mask", n.loc, ok, "%s|%s" % (f.q, leaf(c)), "%s orders %s before its numbers are reduced to the weight table" % (f.where, leaf(c)))
    for f in fns(P):
        for n in f.calls():
            for t in P.targets(n):
                if not t.q.startswith(NS):
                    continue
                for p, a in zip(t.params, n.args):
                    if re.search("mask", p.get("n") or "", re.I):
                        mask_value(P, R, f, n, a)
        for n in f.all_nodes():
            if n.k in CTORS and n.q.startswith(NS):
                for t in [g for g in P.fns.values() if g.key == n.get("key")]:
                    for p, a in zip(t.params, n.c):
                        if re.search("mask", p.get("n") or "", re.I):
                            mask_value(P, R, f, n, a)


def before(f, x, n):
    """every path to n passes the loop of x"""
    lp = x
    while lp.p is not None and lp.p.k not in ("ForStmt", "WhileStmt", "CXXForRangeStmt"):
        lp = lp.p
    lp = lp.p
    if lp is None:
        return f.cfg.dominates(x, n) if hasattr(f.cfg, "dominates") else True
    for b in f.cfg.b.values():
        if b.term == lp.i:
            return f.cfg.dominates_block(b.id, place(f.cfg, n)[0])
    return True


def helper_masks(P, f, c):
    for n in f.calls():
        for t in P.targets(n):
            if t.q.startswith("jumanpp") and t.body is not None and any(True for _ in masks(t)) and any(container_of(a) == c for a in n.args):
                return True
    return False


def mask_value(P, R, f, n, a):
    T = Terms(P, {NS + "TrainingConfig::numFeatures"})
    t = T.term(a)
    if t is None:
        return
    ok = None
    u = (t + num(1)).mono()
    if u is not None and u[0] == 1 and list(u[1].values()) == [1]:
        k = next(iter(u[1]))
        ok = bool(re.search(r"numFeatures|size", k))
    elif any(re.search(r"numFeatures|size\(", x) for x in t.atoms()):
        ok = False
    if ok is not None:
        R.ob("mask", n.loc, ok, "%s|value" % f.q, "%s reduces feature numbers with %r" % (f.where, t))


# ---------------------------------------------------------------- merging
def merge(P, R):
    for f in fns(P):
        for b, st in range_loops(f):
            c = next((x for x in st.c if x.r == "cond"), None)
            if c is None:
                continue
            c = strip(c)
            if c.k != "BinaryOperator" or c.op != "&&":
                continue
            rs = [relation(strip(x), True) for x in c.c]
            if any(r is None or r[1] not in ("<", "!=") for r in rs):
                continue
            vs = [strip(r[0]) for r in rs]
            if any(v.k != "DeclRefExpr" or v.get("dk") != "local" for v in vs) or vs[0].get("vid") == vs[1].get("vid"):
                continue
            body = next((x for x in st.c if x.r == "body"), None)
            conts = []
            for v in vs:
                ks = {container_of(x) for x in body.walk() if (x.k == "CXXOperatorCallExpr" and x.op == "[]" or x.k == "ArraySubscriptExpr") and
                      any(strip(i).get("vid") == v.get("vid") and strip(i).k == "DeclRefExpr" for i in (x.args[1:] if x.k == "CXXOperatorCallExpr" else x.c[1:]))} - {None}
                conts.append(ks.pop() if len(ks) == 1 else None)
            if None in conts or conts[0] == conts[1]:
                continue
            for v, k in zip(vs, conts):
                done = False
                for b2, st2 in range_loops(f):
                    if st2 is st or not reaches(f.cfg, b.s[1], b2.id):
                        continue
                    c2 = strip(next((x for x in st2.c if x.r == "cond"), None)) if any(x.r == "cond" for x in st2.c) else None
                    if c2 is None or not any(x.k == "DeclRefExpr" and x.get("vid") == v.get("vid") for x in c2.walk()):
                        continue
                    b2body = next((x for x in st2.c if x.r == "body"), None)
                    if any((x.k == "CXXOperatorCallExpr" and x.op == "[]" or x.k == "ArraySubscriptExpr") and container_of(x) == k for x in b2body.walk()) and \
                            not fresh(f, st2, v):
                        done = True
                if not done:
                    # the rest may be handed over as a whole
                    for n in f.calls():
                        if place(f.cfg, n) and reaches(f.cfg, b.s[1], place(f.cfg, n)[0]) and not n.inside(st) and \
                                any(x.k == "DeclRefExpr" and x.get("vid") == v.get("vid") for x in n.walk()):
                            done = True
                R.ob("merge", f_loc(f, b), done, "%s|rest|%s" % (f.q, leaf(k)), "%s drops what remains of %s when the other list ends" % (f.where, leaf(k)))
            # in one turn: what is taken is what is advanced over
            for x in body.walk():
                if x.k == "BinaryOperator" and x.op == "=" and strip(x.c[0]).k == "DeclRefExpr":
                    k = container_of(x.c[1])
                    if k not in conts:
                        continue
                    w = place(f.cfg, x)
                    blk = f.cfg.b[w[0]]
                    inc = {strip(f.nodes[e].c[0]).get("vid") for e in blk.e if isinstance(e, int) and f.nodes[e].c and
                           (f.nodes[e].k == "UnaryOperator" and f.nodes[e].op == "++" or f.nodes[e].k in ("CompoundAssignOperator", "BinaryOperator") and f.nodes[e].op == "+=")}
                    mine, other = vs[conts.index(k)].get("vid"), vs[1 - conts.index(k)].get("vid")
                    if inc & {mine, other}:
                        R.ob("merge", x.loc, mine in inc and other not in inc, "%s|take|%s" % (f.q, leaf(k)), "%s takes from one list and moves on in the other" % f.where)


def fresh(f, st, v):
    """the loop starts its counter anew"""
    i = next((x for x in st.c if x.r == "init"), None)
    return i is not None and any(x.k == "BinaryOperator" and x.op == "=" and strip(x.c[0]).get("vid") == v.get("vid") and strip(x.c[1]).v == 0 for x in i.walk())


def accumulate(P, R):
    """contributions to the same feature are added, different features are kept apart"""
    for f in fns(P):
        comps = []
        for b in f.cfg.b.values():
            if b.cond is None or len(b.s) != 2:
                continue
            for i, s in enumerate(b.s):
                for a, p in edge_facts(f, b.id, i):
                    x = strip(a)
                    q = relation(x, p)
                    if q is None or q[1] not in ("==", "!="):
                        continue
                    fl = [strip(y) for y in (q[0], q[2])]
                    if not any(is_field(y) and y.m == "feature" for y in fl):
                        continue
                    comps.append((b, i, q[1]))
        if not comps:
            continue
        sums = {x.i for x, t, s, e in deltas(f) if s > 0 and is_field(strip(t)) and strip(t).m == "score"}
        minus = [x for x, t, s, e in deltas(f) if s < 0 and is_field(strip(t)) and strip(t).m == "score"]
        for x in minus:
            R.bad("merge", "%s|minus" % f.q, x.loc, "%s subtracts a contribution to the same feature" % f.where)
        stores = {n.i for n in f.calls() if leaf(n.q) in ("push_back", "emplace_back") and n.obj is not None and "ScoredFeature" in (n.obj.t or "")}
        stores |= {x.i for x in f.all_nodes() if x.k == "CXXOperatorCallExpr" and x.op == "=" and "ScoredFeature" in (x.t or "")}
        for b, i, op in comps:
            s = b.s[i]
            if s < 0:
                continue
            hdr = loop_header(f, b.id)
            if op == "==":
                _, free = region2(f, s, hdr, lambda x: x.i in sums, lambda a, p: False)
                R.ob("merge", f_loc(f, b), not free, "%s|equal" % f.q, "%s drops a contribution to a feature which was seen before" % f.where)
            else:
                def samepos(a, p):
                    q = relation(strip(a), p)
                    return q is not None and q[1] == "==" and all(strip(y).k == "DeclRefExpr" for y in (q[0], q[2]))
                _, free = region2(f, s, hdr, lambda x: x.i in stores, samepos)
                R.ob("merge", f_loc(f, b), not free, "%s|other" % f.q, "%s drops the first contribution to a feature" % f.where)


def loop_header(f, bid):
    best = None
    for b, st in range_loops(f):
        if f.cfg.dominates_block(b.id, bid) and reaches(f.cfg, bid, b.id):
            if best is None or f.cfg.dominates_block(best, b.id):
                best = b.id
    return loop_head(f, best) if best is not None else None


def region2(f, first, header, stop, cut):
    out, seen, st = set(), {first}, [first]
    free = False
    while st:
        x = st.pop()
        if x == header or x == f.cfg.exit:
            free = True
            continue
        halt = False
        for e in f.cfg.b[x].e:
            if isinstance(e, int):
                out.add(e)
                if stop(f.nodes[e]):
                    halt = True
                    break
        if halt:
            continue
        for i, s in enumerate(f.cfg.b[x].s):
            if s < 0 or s in seen:
                continue
            if any(cut(a, p) for a, p in edge_facts(f, x, i)):
                continue
            seen.add(s)
            st.append(s)
    return out, free


# ---------------------------------------------------------------- applying, batches
def apply(P, R):
    cls, W = learner(P)
    for f in fns(P):
        ups = [n for n in f.calls() if leaf(n.q) == "update" and n.q.rsplit("::", 1)[0] == cls and len(n.args) == 2]
        for n in ups:
            if f.cls == cls:
                continue
            who = []
            for a in n.args:
                x = alias(a)
                if x is not None and x.k in CTORS and len(x.c) == 1:
                    x = alias(x.c[0])
                who.append(x)
            names = [leaf(x.q) if x is not None and x.is_call() else None for x in who]
            if None not in names:
                same = expr_str(strip(alias(who[0].obj))) == expr_str(strip(alias(who[1].obj))) if all(x.obj is not None for x in who) else True
                R.ob("apply", n.loc, same, "%s|same" % f.q, "%s uses the loss of one example with the difference of another" % f.where)
            # on every path which reports success
            rets = [r for r in f.all_nodes() if r.k == "ReturnStmt" and r.c and is_ok(r.c[0])]
            ids = after(f, None, small_loss, lambda x: x.i == n.i)
            for r in rets:
                R.ob("apply", r.loc, not executes(ids, r), "%s|missing" % f.q, "%s can report success without having used the example" % f.where)
            ids = after(f, n)
            R.ob("apply", n.loc, not any(executes(ids, m) for m in ups), "%s|twice" % f.q, "%s can use the same example twice" % f.where)
            # the loss is added to the sum
            adds = [x for x, t, s, e in deltas(f) if re.search("loss", expr_str(t), re.I)]
            for x, t, s, e in deltas(f):
                if re.search("loss", expr_str(t), re.I):
                    R.ob("apply", x.loc, s > 0, "%s|sum" % f.q, "%s subtracts the loss" % f.where)


def epoch(P, R):
    """the loss which decides when training ends"""
    cls, W = learner(P)
    ups = {f.key for f in fns(P) if f.cls != cls and any(leaf(n.q) == "update" and n.q.rsplit("::", 1)[0] == cls for n in f.calls())}
    # an example's loss joins the loss of the others
    for f in fns(P):
        if f.key not in ups:
            continue
        outs = {p["vid"]: p for p in f.params if re.search(r"(double|float) ?[*&]$", p["t"]) and not p["t"].startswith("const")}
        for t, v, s in assigns(f):
            x = strip(t)
            if x.k == "UnaryOperator" and x.op == "*":
                x = strip(x.c[0])
            if x.k != "DeclRefExpr" or x.get("vid") not in outs or v is None:
                continue
            if s is not None and s.k == "CompoundAssignOperator" or s is not None and s.op in ("+=", "-="):
                continue
            own = any(y.k == "DeclRefExpr" and y.get("vid") == x.get("vid") for y in v.walk())
            R.ob("epoch", t.loc, own, "%s|sum" % f.q, "%s forgets the losses of the examples before this one" % f.where)
    reach = set(ups)
    for _ in range(4):
        reach |= {f.key for f in fns(P) for n in f.calls() for g in P.targets(n) if g.key in reach}
    getters = {}
    for f in fns(P):
        rs = [r for r in f.all_nodes() if r.k == "ReturnStmt" and r.c]
        if re.search("loss", f.name, re.I) and len(rs) == 1 and not f.params and is_field(strip(rs[0].c[0])):
            getters.setdefault(strip(rs[0].c[0]).q, f)
    epochs = set()
    for f in fns(P):
        if f.key not in reach:
            continue
        for t, v, s in assigns(f):
            t = strip(t)
            if not is_field(t) or t.q not in getters or v is None:
                continue
            x = strip(v)
            lps = [n for n in f.all_nodes() if n.k in ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt")]
            work = [n for n in f.calls() if any(g.key in reach for g in P.targets(n)) and any(n.inside(l) for l in lps)]
            if x.k != "DeclRefExpr" or x.get("dk") != "local" or not work:
                continue
            epochs.add(f.key)
            ch = [y for y, tt, sg, e in deltas(f) if strip(tt).get("vid") == x.get("vid")]
            bad = [y for y, tt, sg, e in deltas(f) if strip(tt).get("vid") == x.get("vid") and sg < 0]
            for y in bad:
                R.bad("epoch", "%s|minus" % f.q, y.loc, "%s subtracts the loss of a batch" % f.where)
            passed = [y for n in f.calls() for y in n.args
                      if any(z.k == "DeclRefExpr" and z.get("vid") == x.get("vid") for z in y.walk())]
            other = [tt for tt, vv, ss in assigns(f) if strip(tt).get("vid") == x.get("vid") and
                     not any(y.inside(ss) or ss.inside(y) for y in ch)] if not ch else []
            if passed or other and any(any(strip(tt).inside(l) for l in lps) for tt in other):
                continue
            ids = {y.i for y in ch}
            for w in work:
                out = after(f, w, None, lambda n: n.i in ids)
                R.ob("epoch", w.loc, t.i not in out and s.i not in out, "%s|each" % f.q,
                     "%s reports a loss which lacks that of a batch" % f.where)
    # epochs follow each other while the loss changes
    for f in src_fns(P):
        if f.cfg is None or not any(g.key in epochs for n in f.calls() for g in P.targets(n)):
            continue
        for b in f.cfg.b.values():
            if b.cond is None or len(b.s) != 2:
                continue
            for i in (0, 1):
                if b.s[i] < 0:
                    continue
                for a, p in branch_facts(f.nodes[b.cond], i == 0):
                    r = relation(strip(a), p)
                    if r is None:
                        continue
                    l, op, x = r
                    if not change(l):
                        l, op, x = x, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), l
                    d = change(l)
                    if not d or change(x):
                        continue
                    lp = next((y for y in f.nodes[b.cond].ancestors() if y.k in ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt")), None)
                    if lp is None:
                        continue
                    tr = [n for n in f.calls() if n.inside(lp) and any(g.key in epochs for g in P.targets(n))]
                    again = from_block(f, b.s[i])
                    goes = any(n.i in again for n in tr)
                    if not tr:
                        continue
                    if not goes and op in (">", ">="):
                        R.bad("epoch", "%s|stop" % f.q, b.cond and f.nodes[b.cond].loc, "%s ends training while the loss still changes" % f.where)
                    elif not goes and op in ("<", "<="):
                        R.ob("epoch", f.nodes[b.cond].loc, True, "%s|stop" % f.q, "")
                        # the loss compared with is that of the epoch before
                        for y in d:
                            y = strip(y)
                            if y.k == "DeclRefExpr" and y.get("dk") == "local":
                                sets = {z.i for tt, vv, z in assigns(f) if strip(tt).get("vid") == y.get("vid") and z.inside(lp)}
                                sets |= {z.i for z in f.all_nodes() if z.k in ("DeclStmt", "VarDecl") and z.inside(lp) and
                                         any(q.k == "VarDecl" and q.get("vid") == y.get("vid") for q in z.walk())}
                                esc = [n for n in f.calls() if any(strip(q).k == "UnaryOperator" and strip(q).op == "&" and
                                       strip(strip(q).c[0]).get("vid") == y.get("vid") for q in n.args)]
                                R.ob("epoch", f.nodes[b.cond].loc, bool(sets or esc), "%s|before" % f.q,
                                     "%s never keeps the loss of an epoch to compare the next one with" % f.where)


def change(n):
    """operands of |a - b| where a loss is compared"""
    n = strip(alias(n)) if n is not None else None
    if n is None or not n.is_call() or leaf(n.q or "") not in ("abs", "fabs", "fabsf") or not n.args:
        return None
    x = strip(n.args[0])
    if x.k != "BinaryOperator" or x.op != "-" or "loss" not in expr_str(x).lower():
        return None
    return list(x.c)


def from_block(f, b):
    out, seen, st = set(), {b}, [b]
    while st:
        x = st.pop()
        out |= {e for e in f.cfg.b[x].e if isinstance(e, int)}
        for s in f.cfg.b[x].s:
            if s >= 0 and s not in seen:
                seen.add(s)
                st.append(s)
    return out


def is_ok(n):
    return any(x.is_call() and leaf(x.q) == "Ok" for x in n.walk())


def small_loss(a, p):
    q = relation(strip(a), p)
    if q is None or q[1] not in ("<", "<=", "=="):
        return False
    for x, y in ((q[0], q[2]), (q[2], q[0])):
        v = strip(y).v if strip(y).v is not None else strip(y).get("fv")
        if "loss" in expr_str(x).lower() and (v is None or abs(v) < 1e-3):
            return True
    return False


def batch(P, R):
    """all examples are put into the order of a batch, and found again"""
    enc = {}
    for f in fns(P):
        for b, st in range_loops(f):
            body = next((c for c in st.c if c.r == "body"), None)
            if body is None or st.k != "ForStmt":
                continue
            init, c = next((x for x in st.c if x.r == "init"), None), next((x for x in st.c if x.r == "cond"), None)
            for n in f.calls():
                if leaf(n.q) not in ("push_back", "emplace_back") or not n.inside(body) or n.obj is None or not is_field(alias(n.obj)) or \
                        not re.search("indic|order", alias(n.obj).m, re.I):
                    continue
                a = strip(n.args[0])
                neg = False
                while a.k in CTORS and len(a.c) == 1:
                    a = strip(a.c[0])
                if a.k == "UnaryOperator" and a.op in ("~", "-"):
                    neg = a.op
                    a = strip(a.c[0])
                elif "artial" in expr_str(a) or a.k == "BinaryOperator":
                    continue
                if a.k != "DeclRefExpr":
                    continue
                enc[neg] = f
                v = next((x for x in init.walk() if x.k == "VarDecl" and x.get("vid") == a.get("vid")), None) if init is not None else None
                if v is None:
                    continue
                R.ob("batch", n.loc, v.c and strip(v.c[0]).v == 0, "%s|first|%s" % (f.q, neg), "%s leaves out the first examples" % f.where)
                r = relation(strip(c), True)
                lim = None
                if r is not None and strip(r[0]).get("vid") == a.get("vid"):
                    lim, op = strip(r[2]), r[1]
                elif r is not None and strip(r[2]).get("vid") == a.get("vid"):
                    lim, op = strip(r[0]), {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}.get(r[1])
                if lim is not None:
                    lim2 = alias(lim)
                    good = op in ("<", "!=") and not (lim2.k == "BinaryOperator")
                    # the partial ones are as many as there are
                    R.ob("batch", n.loc, good, "%s|last|%s" % (f.q, neg), "%s leaves out the last examples" % f.where)
                step_ok = region2(f, b.s[0], loop_head(f, b.id), lambda x: x.i == n.i, lambda a2, p: False)[1]
                R.ob("batch", n.loc, not step_ok, "%s|each|%s" % (f.q, neg), "%s can leave out an example" % f.where)
    if "-" in enc:
        # -0 is 0: the first one can not be told from the first full one
        R.ob("batch", enc["-"].file, False, "%s|code" % enc["-"].q, "%s gives two examples the same number" % enc["-"].where)
    if "~" in enc:
        for f in fns(P):
            rets = [r for r in f.all_nodes() if r.k == "ReturnStmt" and r.c and "ITrainer" in (f.ret or "")]
            for r in rets:
                for x in r.walk():
                    if x.k == "CXXOperatorCallExpr" and x.op == "[]" and len(x.args) == 2 and "artial" in expr_str(x.args[0]):
                        t = Terms(P)
                        i = strip(x.args[1])
                        d = strip(single_def(i)) if i.k == "DeclRefExpr" and single_def(i) is not None else i
                        if d.k == "UnaryOperator" and d.op in ("~", "-"):
                            R.ob("batch", r.loc, d.op == "~", "%s|decode" % f.q, "%s finds another example than the one which was chosen" % f.where)


# ---------------------------------------------------------------- the weights
RESIZE = {"push_back", "emplace_back", "resize", "reserve", "clear", "erase", "insert", "swap", "assign", "shrink_to_fit", "pop_back"}


def live(P, R):
    cls, W = learner(P)
    if cls is None:
        return
    for f in fns(P):
        if f.cls != cls:
            continue
        shares = [n for n in f.calls() if leaf(n.q) == "setWeightsTo"]
        for n in f.calls():
            if n.obj is not None and leaf(n.q) in RESIZE and is_field(alias(n.obj)) and alias(n.obj).q == W or \
                    n.k == "CXXOperatorCallExpr" and n.op == "=" and n.args and is_field(strip(n.args[0])) and strip(n.args[0]).q == W:
                ok = bool(shares) and all(not executes(after(f, s), n) for s in shares)
                R.ob("live", n.loc, ok, "%s|%s" % (f.q, leaf(n.q)), "%s moves the weights away from where the scorer reads them" % f.where)
        for s in shares:
            R.ob("live", s.loc, True, "%s|share" % f.q)
        # exported pieces
        for n in f.all_nodes():
            if n.k in tuple(CTORS) + ("InitListExpr",) and "StringPiece" in (n.t or "") and len(n.c) == 2:
                T = Terms(P)
                a, b = T.term(n.c[0]), T.term(n.c[1])
                if a is None or b is None:
                    continue
                d = b - a
                m = d.mono()
                if m is None:
                    continue
                src = alias(n.c[0])
                if src is None or not src.is_call() or leaf(src.q) != "data" or not is_field(alias(src.obj)):
                    continue
                vec = alias(src.obj)
                ok = m[0] == 4 and len(m[1]) == 1 and "size" in next(iter(m[1]))
                R.ob("live", n.loc, ok, "%s|export|%s" % (f.q, vec.m), "%s exports %r bytes of %s, not all of it" % (f.where, d, vec.m))
    # exported after training
    for f in src_fns(P):
        if f.cfg is None:
            continue
        ex = [n for n in f.calls() if n.q.startswith(NS) and leaf(n.q) == "exportScwParams"]
        tr = [n for n in f.calls() if any(reaches_call(P, t, "trainOneEpoch") for t in P.targets(n)) or leaf(n.q) == "trainOneEpoch"]
        if not ex or not tr:
            continue
        ids = {t.i for t in tr}
        for n in ex:
            a = after(f, None, None, lambda x: x.i in ids)
            R.ob("live", n.loc, not executes(a, n), "%s|after" % f.q, "%s exports the weights before they are trained" % f.where)
            R.ob("live", n.loc, not any(executes(after(f, n), t) for t in tr), "%s|late" % f.q, "%s goes on training after the weights were exported" % f.where)
    # initial values are taken back once
    for f in fns(P):
        for n in f.calls():
            if leaf(n.q) != "substractInitValues":
                continue
            flags = [strip(a) for c, p in edges_to(f, n) for a, q in branch_facts(c, p) if q and is_field(strip(a)) and (strip(a).t or "") == "bool"]
            reset = {x.i for x in f.all_nodes() if x.k == "BinaryOperator" and x.op == "=" and is_field(strip(x.c[0])) and strip(x.c[1]).v == 0 and
                     strip(x.c[0]).q in {g.q for g in flags}}
            ok = bool(flags) and bool(reset) and "exit" not in after(f, n, None, lambda x: x.i in reset)
            R.ob("live", n.loc, ok, "%s|init" % f.q, "%s removes small weights more than once" % f.where)


def reaches_call(P, t, name, depth=2):
    if t is None or t.body is None:
        return False
    for n in t.calls():
        if leaf(n.q) == name:
            return True
        if depth and any(reaches_call(P, g, name, depth - 1) for g in P.targets(n) if g.file.startswith("src/")):
            return True
    return False

"""Lower bounds of the number of bytes between a pointer and the end of its range.

A forward dataflow analysis over the CFG.  For pairs (cursor, limit) the state has facts
`limit - cursor >= k + sum(syms)` (syms: unsigned values) and values which `limit - cursor` is known not to have.
Facts come from the beginning of ranges, from comparisons on branches and from small helper methods; cursors move
by ++, +=, -= and assignments."""
from guards import *

BYTE = re.compile(r"^(const )?((unsigned |signed )?char|(jumanpp::)?u8|(jumanpp::)?StringPiece::value_type|(jumanpp::)?(StringPiece::)?(byte_t|value_type))( const)? \*\s*(const)?$|(^|::)(byte_ptr|pointer_t)$")
BEG = {"begin", "ubegin", "char_begin", "data", "cbegin"}
END = {"end", "uend", "char_end", "cend"}
FLOOR = -24


def strip(n):
    """look through casts and parentheses, but not through * and &"""
    while n is not None:
        if n.k.endswith("CastExpr") and n.c:
            n = n.c[0]
        elif n.k == "ParenExpr" and n.c or n.k in ("ExprWithCleanups", "ConstantExpr", "MaterializeTemporaryExpr") and n.c:
            n = n.c[0]
        elif n.k in CTORS and len(n.c) == 1 and (n.get("copy") or n.get("move")):
            n = n.c[0]
        else:
            return n
    return n


def bytep(t):
    return bool(BYTE.match((t or "").strip()))


def ckey(n):
    """key of a cursor variable: a local, a parameter or a field of this"""
    n = strip(n)
    if n is None:
        return None
    if n.k == "DeclRefExpr" and n.get("dk") in ("local", "param", "parm") and bytep(n.t):
        return ("v", n.get("vid"))
    if is_field(n) and bytep(n.t) and n.c and strip(n.c[0]).k == "CXXThisExpr":
        return ("f", n.q)
    return None


def lin(n):
    """(cursor key, constant, [symbol nodes]) of a pointer expression, evaluated after its side effects"""
    n = strip(n)
    if n is None:
        return None
    if n.k == "UnaryOperator" and n.op in ("++", "--"):
        k = ckey(n.c[0])
        if k is None:
            return None
        if n.get("post"):
            return (k, -1 if n.op == "++" else 1, [])
        return (k, 0, [])
    k = ckey(n)
    if k is not None:
        return (k, 0, [])
    if n.k == "BinaryOperator" and n.op in ("+", "-"):
        a, b = n.c
        for x, y, swap in ((a, b, False), (b, a, True)):
            if swap and n.op == "-":
                continue
            l = lin(x) if bytep(strip(x).t if strip(x) else "") else None
            if l is not None:
                p = strip(y)
                c = p.v
                if c is not None and not isinstance(c, str):
                    return (l[0], l[1] + (c if n.op == "+" else -c), l[2])
                if n.op == "+" and not bytep(p.t):
                    return (l[0], l[1], l[2] + [y])
    return None


def limkey(n):
    m = alias(n)
    m = m if m is not None else strip(n)
    if m is None:
        return None
    if m.is_call() and m.obj is not None and m.q.split("::")[-1] in END and not m.args:
        return ("end", objkey(m.obj))
    if is_field(m):
        return ("f", m.q)
    if m.k == "DeclRefExpr":
        return ("v", m.get("vid"))
    return None


def objkey(o):
    o = alias(o) or strip(o)
    return struct(o)


def symkey(n):
    """key of an unsigned value"""
    n = strip(n)
    if n is None:
        return None
    if n.is_call() and n.obj is not None and n.q.split("::")[-1] in ("size", "length") and not n.args:
        return ("sz", objkey(n.obj))
    if n.k == "DeclRefExpr":
        d = local_def(n)
        if d is not None and (d.is_call() and d.q.split("::")[-1] in ("size", "length")):
            return symkey(d)
        return ("n", n.get("vid"))
    return ("x", struct(n))


def sumof(n, depth=4):
    """linear form of a number: (constant, frozenset of symbols) or None"""
    n = strip(n)
    if n is None:
        return None
    if n.v is not None and not isinstance(n.v, str):
        return int(n.v), frozenset()
    if n.k == "BinaryOperator" and n.op == "+":
        a, b = sumof(n.c[0], depth), sumof(n.c[1], depth)
        if a and b and not (a[1] & b[1]):
            return a[0] + b[0], a[1] | b[1]
        return None
    d = local_def(n)
    if d is not None and depth > 0 and d.k == "BinaryOperator" and d.op == "+":
        return sumof(d, depth - 1)
    k = symkey(n)
    return (0, frozenset([k])) if k else None


class St:
    """state: pair -> (set of facts (k, syms), excluded values); dead when None"""
    __slots__ = ("f", "sz")

    def __init__(self, f=None, sz=None):
        self.f = f or {}
        self.sz = sz or {}

    def copy(self):
        return St({k: (set(v[0]), set(v[1])) for k, v in self.f.items()}, dict(self.sz))

    def __eq__(self, o):
        return self.f == o.f and self.sz == o.sz

    def norm(self, pair):
        fs, ex = self.f[pair]
        out = {}
        for k, s in fs:
            if not s:
                while k in ex:
                    k += 1
            if k >= FLOOR and (s not in out or out[s] < k):
                out[s] = k
        if len(out) > 6:
            out = dict(sorted(out.items(), key=lambda x: -len(x[0]))[:6])
        if out or ex:
            self.f[pair] = ({(k, s) for s, k in out.items()}, {x for x in ex if abs(x) < 30})
        else:
            del self.f[pair]


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    r = St()
    for p in a.f.keys() & b.f.keys():
        fs = set()
        for k, s in a.f[p][0]:
            for k2, s2 in b.f[p][0]:
                fs.add((min(k, k2), s & s2))
        r.f[p] = (fs, set(x for x in a.f[p][1] | b.f[p][1]
                          if all(x in y[1] or any(k > x for k, s in y[0]) for y in (a.f[p], b.f[p]))))
        r.norm(p)
    for x in a.sz.keys() & b.sz.keys():
        r.sz[x] = min(a.sz[x], b.sz[x])
    return r


class Cursor:
    """the analysis of one function"""

    def __init__(self, P, fn, pairs, inv, needs, entry_need=0, assume_quote=False):
        self.P, self.fn, self.pairs, self.inv, self.needs = P, fn, pairs, inv, needs
        self.entry_need = entry_need
        self.obl = {}            # node id -> (ok, node, what)
        self.exits = {}
        self.sub = {}            # local StringPiece vid -> limit of the range it was cut out of
        self.assume = assume_quote
        self.universe()

    # -- which cursors have a limit
    def universe(self):
        fn = self.fn
        self.U = {}
        self.entry = {}

        def add(c, l):
            if c is not None and l is not None and c != l:
                self.U.setdefault(c, set()).add(l)
        ps = fn.params
        for a, b in zip(ps, ps[1:]):
            if bytep(a["t"]) and a["t"] == b["t"]:
                add(("v", a["vid"]), ("v", b["vid"]))
                self.entry[(("v", a["vid"]), ("v", b["vid"]))] = self.entry_need
        used = {n.q for n in fn.all_nodes() if is_field(n)}
        for c, l in self.pairs.get(fn.cls, ()):
            add(("f", c), ("f", l))
            if (fn.cls, c, l) in self.inv:
                self.entry[(("f", c), ("f", l))] = 0
        pv = {p["vid"] for p in ps}
        for n in fn.all_nodes():
            r = relation(n, True)
            if r is not None:
                for x, y in ((r[0], r[2]), (r[2], r[0])):
                    l = lin(x)
                    if l is None or not bytep(strip(y).t if strip(y) else ""):
                        continue
                    lk = limkey(y)
                    if lk and self.is_limit(lk):
                        add(l[0], lk)
                        if l[0][0] == "v" and l[0][1] in pv and lk[0] == "f":
                            self.entry[(l[0], lk)] = self.entry_need
            if n.k == "VarDecl" and n.c and re.search(r"StringPiece$", n.t or ""):
                c = n.c[0]
                while c is not None and c.k in CTORS and len(c.c) == 1:
                    c = strip(c.c[0])
                if c is not None and len(c.c) == 2:
                    lk = limkey(c.c[1])
                    if lk and self.is_limit(lk):
                        self.sub[struct_var(n)] = lk

        self.U0 = set(self.U)
        more = True
        while more:         # copies of cursors are cursors
            more = False
            for n in fn.all_nodes():
                t = v = None
                if n.k == "VarDecl" and n.c and bytep(n.t):
                    t, v = ("v", n.get("vid")), n.c[0]
                elif n.k == "BinaryOperator" and n.op == "=":
                    t, v = ckey(n.c[0]), n.c[1]
                if t is None or t in self.U0:
                    continue
                l = lin(v)
                if l is not None and l[0] in self.U0:
                    self.U0.add(t)
                    more = True

    def is_limit(self, lk):
        if lk[0] == "end":
            return True
        if lk[0] == "f":
            return any(lk[1] == l for c, l in self.pairs.get(self.fn.cls, ()))
        return any(p["vid"] == lk[1] for p in self.fn.params)

    def tracked(self, key, st):
        return key in self.U0

    def avail(self, st, key, need, syms=frozenset()):
        for (c, l), (fs, ex) in st.f.items():
            if c == key and any(k >= need and syms <= s for k, s in fs):
                return True
        return False

    def move(self, st, key, delta):
        """cursor += delta"""
        for p in [p for p in st.f if p[0] == key]:
            fs, ex = st.f[p]
            st.f[p] = ({(k - delta, s) for k, s in fs}, {x - delta for x in ex})
            st.norm(p)
        for p in [p for p in st.f if p[1] == key]:
            del st.f[p]

    def assign(self, st, key, l, src):
        """cursor = l (a linear form) or unknown"""
        new = {}
        if l is not None:
            for (c, lm), (fs, ex) in st.f.items():
                if c != l[0]:
                    continue
                f2, e2 = set(), set()
                sy = frozenset(symkey(y) for y in l[2])
                for k, s in fs:
                    if not l[2]:
                        f2.add((k - l[1], s))
                    elif sy <= s:
                        f2.add((k - l[1], s - sy))
                if not l[2]:
                    e2 = {x - l[1] for x in ex}
                new[(key, lm)] = (f2, e2)
        else:
            s = strip(src)
            d = s
            if s is not None and s.k == "DeclRefExpr":
                d = local_def(s) or s
            if d is not None and d.is_call() and d.obj is not None:
                nm = d.q.split("::")[-1]
                ok = objkey(d.obj)
                if nm in BEG:
                    new[(key, ("end", ok))] = ({(st.sz.get(ok, 0), frozenset()), (0, frozenset([("sz", ok)]))}, set())
                    self.U.setdefault(key, set()).add(("end", ok))
                elif nm in END:
                    new[(key, ("end", ok))] = ({(0, frozenset())}, set())
                if nm in BEG | END and ok in self.sub:
                    new[(key, self.sub[ok])] = ({(0, frozenset())}, set())
                    self.U.setdefault(key, set()).add(self.sub[ok])
            if d is not None and d.is_call() and not new:
                # pointer returned by a helper which moves its argument by a bounded amount
                for t in self.P.targets(d):
                    for i, a in enumerate(d.args):
                        la = lin(a)
                        nd = self.needs.get((t.key, i))
                        if la is not None and nd is not None:
                            for (c, lm), (fs, ex) in list(st.f.items()):
                                if c == la[0]:
                                    new[(key, lm)] = ({(k - nd - la[1], s) for k, s in fs}, set())
            if s is not None and is_field(s) and not new and s.m == "second":
                nd = self.second_of(s)
                if nd is not None:
                    la, n = nd
                    for (c, lm), (fs, ex) in list(st.f.items()):
                        if c == la[0]:
                            new[(key, lm)] = ({(k - n - la[1], s2) for k, s2 in fs}, set())
        for p in [p for p in st.f if p[0] == key or p[1] == key]:
            del st.f[p]
        for p, v in new.items():
            st.f[p] = v
            st.norm(p)

    def second_of(self, n):
        """ret.second, where ret is the result of a helper which was given a cursor"""
        d = local_def(n.c[0]) if n.c else None
        if d is None or not d.is_call():
            return None
        for t in self.P.targets(d):
            for i, a in enumerate(d.args):
                la = lin(a)
                nd = self.needs.get((t.key, i))
                if la is not None and nd is not None:
                    return la, nd
        return None

    def kill_sym(self, st, vid):
        sk = ("n", vid)
        for p in list(st.f):
            fs, ex = st.f[p]
            if any(sk in s for k, s in fs):
                st.f[p] = ({(k, s - {sk}) for k, s in fs}, ex)
                st.norm(p)

    def ob(self, n, ok, what):
        o = self.obl.get(n.i)
        self.obl[n.i] = (ok and (o is None or o[0]), n, what)

    # -- transfer
    def visit(self, n, st, elems, top):
        if n is not top and n.i in elems:
            return
        if n.k == "LambdaExpr":
            return
        for c in n.c:
            self.visit(c, st, elems, top)
        k = n.k
        if k == "UnaryOperator" and n.op in ("++", "--"):
            key = ckey(n.c[0])
            if key:
                self.move(st, key, 1 if n.op == "++" else -1)
            elif strip(n.c[0]).k == "DeclRefExpr":
                self.kill_sym(st, strip(n.c[0]).get("vid"))
        elif k == "CompoundAssignOperator" or k == "BinaryOperator" and n.op in ("+=", "-=", ">>=", "<<=", "*=", "/="):
            key = ckey(n.c[0])
            if key and n.op in ("+=", "-="):
                v = sumof(n.c[1])
                if v is not None and not v[1]:
                    self.move(st, key, v[0] if n.op == "+=" else -v[0])
                elif n.op == "+=" and v is not None:
                    if key[0] == "f" and self.tracked(key, st):
                        self.ob(n, self.avail(st, key, v[0], v[1]), "advances by a value which was not compared with the rest")
                    for p in [p for p in st.f if p[0] == key]:
                        fs, ex = st.f[p]
                        st.f[p] = ({(c - v[0], s - v[1]) for c, s in fs if v[1] <= s}, set())
                        st.norm(p)
                else:
                    self.assign(st, key, None, None)
            elif strip(n.c[0]).k == "DeclRefExpr":
                self.kill_sym(st, strip(n.c[0]).get("vid"))
        elif k == "BinaryOperator" and n.op == "=":
            self.store(n.c[0], n.c[1], st)
        elif k == "VarDecl" and n.c:
            if bytep(n.t):
                self.assign(st, ("v", n.get("vid")), lin(n.c[0]), n.c[0])
        elif k == "UnaryOperator" and n.op == "*":
            l = lin(n.c[0])
            if l is not None and not l[2] and self.tracked(l[0], st):
                self.ob(n, self.avail(st, l[0], l[1] + 1), "reads or writes past the end")
        elif k == "ArraySubscriptExpr":
            l = lin(n.c[0])
            i = strip(n.c[1])
            if l is not None and not l[2] and i is not None and i.v is not None and self.tracked(l[0], st):
                self.ob(n, self.avail(st, l[0], l[1] + int(i.v) + 1), "reads or writes past the end")
        elif n.is_call():
            self.call(n, st)
        elif k == "ReturnStmt":
            self.exits[n.i] = st.copy()

    def store(self, t, v, st):
        key = ckey(t)
        if key:
            self.assign(st, key, lin(v), v)
        else:
            p = strip(t)
            if p is not None and p.k == "DeclRefExpr":
                self.kill_sym(st, p.get("vid"))

    def call(self, n, st):
        args = n.args
        for i, a in enumerate(args):
            l = lin(a)
            if l is None or not self.tracked(l[0], st):
                continue
            need = None
            for t in self.P.targets(n):
                nd = self.needs.get((t.key, i))
                if nd is not None:
                    need = max(need or 0, nd)
            if need is not None and not l[2]:
                self.ob(n, self.avail(st, l[0], l[1] + need), "calls %s, which may go past the end" % n.q.split("::")[-1])
        # copying of a whole range to a cursor
        if len(args) == 3 and re.search(r"(^|::)(copy|writeRawBytes)$", n.q):
            b, e = strip(args[0]), strip(args[1])
            l = lin(args[2])
            if l is not None and b is not None and e is not None and b.is_call() and e.is_call() and b.obj is not None and \
                    e.obj is not None and self.tracked(l[0], st) and not l[2]:
                if objkey(b.obj) == objkey(e.obj) and b.q.split("::")[-1] in BEG and e.q.split("::")[-1] in END:
                    self.ob(n, self.avail(st, l[0], l[1], frozenset([("sz", objkey(b.obj))])), "copies more than there is place for")
        if re.search(r"(^|::)mem(cpy|move)$", n.q) and len(args) == 3:
            s = sumof(args[2])
            for j in (0, 1):
                l = lin(args[j])
                if l is not None and not l[2] and s is not None and self.tracked(l[0], st) and self.U.get(l[0]):
                    self.ob(n, self.avail(st, l[0], l[1] + s[0], s[1]), "copies more than there is")
        # a method of the same object may move its cursors
        o = n.obj
        if n.k == "CXXMemberCallExpr" and (o is None or strip(o).k == "CXXThisExpr"):
            for t in self.P.targets(n):
                w = writes_fields(t)
                if not w:
                    continue
                for p in [p for p in st.f if (p[0][0] == "f" and p[0][1] in w) or (p[1][0] == "f" and p[1][1] in w)]:
                    del st.f[p]
                for c, l in self.pairs.get(self.fn.cls, ()):
                    if (c in w or l in w) and (self.fn.cls, c, l) in self.inv:
                        st.f[(("f", c), ("f", l))] = ({(0, frozenset())}, set())
                # a method which makes place for so many bytes
                g = grows(self.P, t, self.pairs)
                if g is not None and g < len(args):
                    s = sumof(args[g])
                    if s is not None:
                        for c, l in self.pairs.get(self.fn.cls, ()):
                            if c in w and l in w:
                                st.f[(("f", c), ("f", l))] = ({s}, set())
        # values passed by address change
        for a in args:
            x = strip(a)
            if x is not None and x.k == "UnaryOperator" and x.op == "&":
                y = strip(x.c[0])
                if y is not None and y.k == "DeclRefExpr":
                    self.kill_sym(st, y.get("vid"))
                    if ckey(y):
                        self.assign(st, ckey(y), None, None)

    # -- branches
    def refine(self, st, atom, pol):
        if atom.is_call():
            return self.refine_call(st, atom, pol)
        d = local_def(atom)
        if d is not None and d.is_call():
            return self.refine_call(st, d, pol)
        if d is not None and relation(d, True) is not None:
            for a, p in branch_facts(d, pol):
                self.refine(st, a, p)
            return
        r = relation(atom, pol)
        if r is None:
            return
        for l, op, rr in (r, (r[2], SWAP[r[1]], r[0])):
            self.ptr_fact(st, l, op, rr)
            self.diff_fact(st, l, op, rr)
            self.size_fact(st, l, op, rr)

    def fact(self, st, key, lim, k, syms=frozenset()):
        p = (key, lim)
        fs, ex = st.f.get(p, (set(), set()))
        st.f[p] = (set(fs) | {(k, syms)}, set(ex))
        st.norm(p)

    def ptr_fact(self, st, l, op, r):
        """cursor + k OP limit"""
        a = lin(l)
        if a is None or not bytep(strip(r).t if strip(r) is not None else ""):
            return
        lk = limkey(r)
        if lk is None or not self.is_limit(lk) or a[0] == lk:
            return
        if a[2]:
            sy = [symkey(x) for x in a[2]]
            if op in ("<=", "<") and all(not W64.search(strip(x).t or "long") for x in a[2]):
                self.fact(st, a[0], lk, a[1] + (op == "<"), frozenset(sy))
            return
        if op == "<":
            self.fact(st, a[0], lk, a[1] + 1)
        elif op in ("<=", "=="):
            self.fact(st, a[0], lk, a[1])
        elif op == "!=":
            p = (a[0], lk)
            fs, ex = st.f.get(p, (set(), set()))
            st.f[p] = (set(fs), set(ex) | {a[1]})
            st.norm(p)

    def diff(self, n, depth=3):
        """limit - cursor: (key, limit, constant) such that the value is limit - cursor - constant"""
        n = strip(n)
        if n is None or depth == 0:
            return None
        if n.k == "BinaryOperator" and n.op == "-" and bytep(strip(n.c[0]).t if strip(n.c[0]) is not None else ""):
            a = lin(n.c[1])
            lk = limkey(n.c[0])
            if a is not None and not a[2] and lk is not None and self.is_limit(lk):
                return a[0], lk, a[1]
        if n.is_call() and (re.search(r"(^|::)distance$", n.q)) and len(n.args) == 2:
            a = lin(n.args[0])
            lk = limkey(n.args[1])
            if a is not None and not a[2] and lk is not None and self.is_limit(lk):
                return a[0], lk, a[1]
        if n.k == "CXXMemberCallExpr" and (n.obj is None or strip(n.obj).k == "CXXThisExpr") and not n.args:
            e = simple_return(self.P, n)
            if e is not None:
                return self.diff(e, depth - 1)
        d = local_def(n)
        if d is not None and not moved_between(self.fn, d, n):
            return self.diff(d, depth - 1)
        return None

    def diff_fact(self, st, l, op, r):
        d = self.diff(l)
        if d is None:
            return
        s = sumof(r)
        if s is None:
            return
        k, syms = s
        if op == ">=" or op == "==":
            self.fact(st, d[0], d[1], k + d[2], syms)
        elif op == ">":
            self.fact(st, d[0], d[1], k + 1 + d[2], syms)
        elif op == "!=" and not syms:
            p = (d[0], d[1])
            fs, ex = st.f.get(p, (set(), set()))
            st.f[p] = (set(fs), set(ex) | {k + d[2]})
            st.norm(p)

    def size_fact(self, st, l, op, r):
        n = strip(l)
        d = local_def(n)
        n = d if d is not None and d.is_call() else n
        if n is None or not n.is_call() or n.obj is None or n.q.split("::")[-1] not in ("size", "length"):
            return
        s = sumof(r)
        if s is None or s[1]:
            return
        k = {">=": s[0], "==": s[0], ">": s[0] + 1}.get(op)
        if op == "!=" and s[0] == 0:
            k = 1
        if k is not None and k > 0:
            self.setsize(st, objkey(n.obj), k)

    def setsize(self, st, ok, k):
        st.sz[ok] = max(k, st.sz.get(ok, 0))

    def refine_call(self, st, n, pol):
        nm = n.q.split("::")[-1]
        if n.obj is not None and strip(n.obj).k != "CXXThisExpr" and nm == "empty" and not pol:
            self.setsize(st, objkey(n.obj), 1)
            return
        if n.k == "CXXMemberCallExpr" and (n.obj is None or strip(n.obj).k == "CXXThisExpr") or n.k == "CallExpr":
            e = simple_return(self.P, n)
            if e is None:
                return
            if not n.args:
                for a, p in branch_facts(e, pol):
                    self.refine(st, a, p)
                return
            env = {p["vid"]: a for p, a in zip(e.fn.params, n.args)}
            for a, p in branch_facts(e, pol):
                r = relation(a, p)
                if r is None:
                    continue
                sub = [env.get(strip(x).get("vid"), x) if strip(x) is not None and strip(x).k == "DeclRefExpr" else x
                       for x in (r[0], r[2])]
                self.ptr_fact(st, sub[0], r[1], sub[1])
                self.ptr_fact(st, sub[1], SWAP[r[1]], sub[0])

    # -- fixpoint
    def run(self):
        cfg = self.fn.cfg
        elems = set()
        for b in cfg.b.values():
            elems |= {e for e in b.e if isinstance(e, int)}
        init = St()
        for p, lo in self.entry.items():
            init.f[p] = ({(lo, frozenset())}, set())
        ins = {cfg.entry: init}
        cnt = {}
        order = {b: i for i, b in enumerate(cfg.order())}
        work = [cfg.entry]
        first = True
        self.obl = {}
        while work:
            work.sort(key=lambda b: -order.get(b, 0))
            b = work.pop()
            cnt[b] = cnt.get(b, 0) + 1
            st = ins[b].copy()
            blk = cfg.b[b]
            for e in blk.e:
                if isinstance(e, int):
                    n = self.fn.nodes[e]
                    self.visit(n, st, elems, n)
            succ = [s for s in blk.s]
            for i, s in enumerate(succ):
                if s < 0:
                    continue
                out = st
                if blk.cond is not None and len(succ) == 2:
                    out = st.copy()
                    for a, p in branch_facts(self.fn.nodes[blk.cond], i == 0):
                        self.refine(out, a, p)
                    if self.assume and self.infeasible(self.fn.nodes[blk.cond], i == 0):
                        continue
                old = ins.get(s)
                new = out.copy() if old is None else join(old, out)
                if old is None or not new == old:
                    if cnt.get(s, 0) > 12:      # widen
                        for p in list(new.f):
                            o = old.f.get(p, (set(), set()))
                            new.f[p] = (new.f[p][0] & o[0], new.f[p][1] & o[1])
                            new.norm(p)
                    ins[s] = new
                    work.append(s)
        # final pass with stable states
        self.obl = {}
        self.exits = {}
        for b, st in ins.items():
            st = st.copy()
            for e in cfg.b[b].e:
                if isinstance(e, int):
                    n = self.fn.nodes[e]
                    self.visit(n, st, elems, n)
            if cfg.exit in cfg.b[b].s:
                self.exits[("b", b)] = st
        return self

    def infeasible(self, c, pol):
        """end of a search for a character which is known to be there"""
        if pol:
            return False
        p = c.p
        while p is not None and p.k in ("ParenExpr", "ImplicitCastExpr"):
            p = p.p
        if p is None or p.k != "BinaryOperator" or p.op != "&&" or p.p is None or p.p.k != "WhileStmt":
            return False
        r = relation(c, True)
        return r is not None and lin(r[0]) is not None and strip(p.c[0]) is strip(c)


def struct_var(n):
    return "v:%s" % n.get("vid") if False else _vkey(n)


def _vkey(vardecl):
    # the key which struct() gives to a reference to this variable
    for x in vardecl.fn.all_nodes():
        if x.k == "DeclRefExpr" and x.get("vid") == vardecl.get("vid"):
            return objkey(x)
    return None


def simple_return(P, call):
    """the expression of a method which is only `return E;`"""
    ts = [t for t in P.targets(call) if t.body is not None]
    if len(ts) != 1:
        return None
    rs = [n for n in ts[0].all_nodes() if n.k == "ReturnStmt"]
    if len(rs) != 1 or not rs[0].c:
        return None
    if writes_fields(ts[0]):
        return None
    e = strip(rs[0].c[0])
    d = local_def(e)
    return d if d is not None and e.k == "DeclRefExpr" else e


_w = {}


def writes_fields(f, depth=4):
    """fields of this which f (or a method of the same object it calls) may change"""
    if f.key in _w:
        return _w[f.key]
    _w[f.key] = set()
    out = set()
    if f.body is not None:
        for n in f.all_nodes():
            t = None
            if n.k == "BinaryOperator" and n.op == "=" or n.k == "CompoundAssignOperator":
                t = n.c[0]
            elif n.k == "UnaryOperator" and n.op in ("++", "--"):
                t = n.c[0]
            if t is not None and ckey(t) and ckey(t)[0] == "f":
                out.add(ckey(t)[1])
            if n.k == "CXXMemberCallExpr" and (n.obj is None or strip(n.obj).k == "CXXThisExpr"):
                for g in f_prog(f).targets(n):
                    if depth:
                        out |= writes_fields(g, depth - 1)
    _w[f.key] = out
    return out


def f_prog(f):
    return f.prog


def grows(P, f, pairs):
    """index of the parameter which says how many bytes must be there after the call: f resizes a vector by at
    least that much and sets cursor and limit from it"""
    if f.body is None or not any(n.is_call() and n.q.split("::")[-1] == "resize" for n in f.calls()):
        return None
    for i, p in enumerate(f.params):
        for n in f.calls():
            if n.q.split("::")[-1] == "resize" and n.args:
                if contributes(n.args[0], p["vid"]):
                    return i
    return None


def contributes(n, vid, depth=6):
    """the value is at least what is in use already plus the variable"""
    return any("base" in a and "par" in a for a in lower_terms(n, vid, depth))


def lower_terms(n, vid, depth=6):
    """alternatives for a lower bound of a non-negative value: sets of terms whose sum it is not smaller than"""
    n = strip(n)
    if n is None or depth == 0:
        return [frozenset()]
    if n.k == "DeclRefExpr" and n.get("vid") == vid:
        return [frozenset(["par"])]
    if n.k == "BinaryOperator" and n.op == "+":
        a, b = (lower_terms(c, vid, depth - 1) for c in n.c)
        return list({x | y for x in a for y in b})
    if n.k == "BinaryOperator" and n.op == "-" and bytep(strip(n.c[0]).t):
        return [frozenset(["base"])]
    if n.is_call() and n.q == "std::max":
        return [x for c in n.args for x in lower_terms(c, vid, depth - 1)]
    if n.k == "ConditionalOperator":
        return [x for c in n.c[1:] for x in lower_terms(c, vid, depth - 1)]
    if n.k == "CXXMemberCallExpr" and n.q.split("::")[-1] in ("size", "capacity"):
        return [frozenset(["base"])]
    if n.is_call() and n.k != "CXXOperatorCallExpr":
        e = simple_return(n.fn.prog, n)
        if e is not None:
            return lower_terms(e, vid, depth - 1)
    if n.k == "DeclRefExpr" and n.get("dk") == "local":
        return [x for d in var_defs(n.fn).get(n.get("vid"), []) for x in lower_terms(d, vid, depth - 1)] or [frozenset()]
    return [frozenset()]


def moved_between(fn, d, n):
    """a cursor in d may have changed between the definition d and its use n"""
    keys = {ckey(x) for x in d.walk() if ckey(x)}
    if any(k[0] == "f" for k in keys) and False:
        return True
    muts = set()
    for x in fn.all_nodes():
        t = None
        if x.k == "BinaryOperator" and x.op == "=" or x.k == "CompoundAssignOperator" or x.k == "UnaryOperator" and x.op in ("++", "--"):
            t = x.c[0]
        if t is not None and ckey(t) in keys:
            muts.add(x.i)
    for m in muts:
        mm = fn.nodes[m]
        if fn.cfg.path_exists(d, {m}) and fn.cfg.path_exists(mm, {n.i} | {a.i for a in n.ancestors()}):
            # only when the definition is not passed again
            if fn.cfg.path_exists(mm, {n.i} | {a.i for a in n.ancestors()}, avoid={d.i} | {a.i for a in d.ancestors()}):
                return True
    return False


def class_pairs(P, fns):
    """(cursor field, limit field) pairs which the methods of a class compare or subtract"""
    out = {}
    for f in fns:
        if not f.cls:
            continue
        for n in f.all_nodes():
            if n.k != "BinaryOperator" or len(n.c) != 2 or n.op not in ("<", "<=", ">", ">=", "==", "!=", "-"):
                continue
            a, b = [alias(x) or strip(x) for x in n.c]
            if a is None or b is None or not (is_field(a) and is_field(b) and bytep(a.t) and bytep(b.t)):
                continue
            if n.op == "-":
                out.setdefault(f.cls, set()).add((b.q, a.q))
            else:
                out.setdefault(f.cls, set()).update({(a.q, b.q), (b.q, a.q)})
    return out


def moving(fns, pairs):
    """keep pairs whose first field is moved by ++, += or dereferenced (the other direction is no cursor)"""
    mv = set()
    for f in fns:
        for n in f.all_nodes():
            t = None
            if n.k == "CompoundAssignOperator" or n.k == "UnaryOperator" and n.op in ("++", "--"):
                t = n.c[0]
            elif n.k == "UnaryOperator" and n.op == "*":
                l = lin(n.c[0])
                if l and l[0][0] == "f":
                    mv.add(l[0][1])
            elif n.k == "BinaryOperator" and n.op == "=" and ckey(n.c[0]):
                l = lin(n.c[1])
                if l and (l[1] or l[0][0] == "v"):
                    mv.add(ckey(n.c[0])[1])
            if t is not None and ckey(t):
                mv.add(ckey(t)[1])
    return {c: {p for p in ps if p[0] in mv and p[1] not in mv or p[0] in mv and (p[1], p[0]) not in ps}
            for c, ps in pairs.items()}


def raw_needs(P, fns):
    """for pointer parameters without any limit: how many bytes from it may be touched
    (straight code: the highest offset; a loop which shifts a 64-bit value: bits / shift)"""
    out = {}
    for f in fns:
        if f.body is None or f.cfg is None:
            continue
        ps = f.params
        for i, p in enumerate(ps):
            if not bytep(p["t"]):
                continue
            if i + 1 < len(ps) and ps[i + 1]["t"] == p["t"] or i and ps[i - 1]["t"] == p["t"]:
                continue
            n = touched(f, ("v", p["vid"]))
            if n:
                out[(f.key, i)] = n
    return out


def touched(f, key):
    keys = {key}
    for n in f.all_nodes():
        if n.k == "VarDecl" and n.c and bytep(n.t):
            l = lin(n.c[0])
            if l and l[0] in keys and not l[1] and not l[2]:
                keys.add(("v", n.get("vid")))
    for n in f.all_nodes():
        r = relation(n, True)
        if r and any(lin(x) and lin(x)[0] in keys for x in (r[0], r[2])):
            return None         # it has a limit
    derefs = [n for n in f.all_nodes() if n.k == "UnaryOperator" and n.op == "*" and lin(n.c[0]) and lin(n.c[0])[0] in keys]
    if not derefs:
        return None
    incs = [n for n in f.all_nodes() if n.k == "UnaryOperator" and n.op == "++" and ckey(n.c[0]) in keys]
    loops = any(enclosing(n, ("WhileStmt", "ForStmt", "DoStmt")) is not None for n in incs)
    if loops:
        for n in f.all_nodes():
            if n.k == "CompoundAssignOperator" and n.op == ">>=" and strip(n.c[1]).v:
                return -(-64 // int(strip(n.c[1]).v))
        return None
    # longest path, counting increments
    cfg = f.cfg
    elems = {e for b in cfg.b.values() for e in b.e if isinstance(e, int)}
    best = {cfg.entry: 0}
    top = 0
    for b in cfg.order():
        cur = best.get(b, 0)
        for e in cfg.b[b].e:
            if not isinstance(e, int):
                continue
            for n in post(f.nodes[e], elems, f.nodes[e]):
                if n.k == "UnaryOperator" and n.op == "++" and ckey(n.c[0]) in keys:
                    cur += 1
                elif n.k == "UnaryOperator" and n.op == "*":
                    l = lin(n.c[0])
                    if l and l[0] in keys:
                        top = max(top, cur + l[1] + 1)
        for s in cfg.b[b].s:
            if s >= 0:
                best[s] = max(best.get(s, 0), cur)
    return top


def post(n, elems, top):
    if n is not top and n.i in elems:
        return
    for c in n.c:
        yield from post(c, elems, top)
    yield n


def analyse(P, fns):
    """run the analysis over all functions; returns (results, class invariants, pairs, needs, requirements)"""
    _w.clear()
    pairs = moving(fns, class_pairs(P, fns))
    needs = raw_needs(P, fns)
    cand = [f for f in fns if f.body is not None and f.cfg is not None and any(
        n.k in ("UnaryOperator", "ArraySubscriptExpr") and (n.op == "*" or n.k == "ArraySubscriptExpr") and lin(n.c[0])
        or n.is_call() and any(lin(a) for a in n.args)
        or n.k in ("CompoundAssignOperator", "UnaryOperator", "BinaryOperator") and n.c and ckey(n.c[0]) and ckey(n.c[0])[0] == "f"
        for n in f.all_nodes())]
    quoted = quote_fns(P, fns)
    # class invariants: optimistic, dropped when a method does not keep them
    inv = {(c, a, b) for c, ps in pairs.items() for a, b in ps}
    while True:
        drop = set()
        for f in cand:
            if f.name == "operator=" or f.is_ctor and len(f.params) == 1 and f.cls in f.params[0]["t"]:
                continue        # copies both
            mine = [(c, a, b) for c, a, b in inv if c == f.cls and ({a, b} & writes_fields(f))]
            if not mine:
                continue
            r = Cursor(P, f, pairs, inv, needs, assume_quote=f.key in quoted).run()
            for c, a, b in mine:
                for st in r.exits.values():
                    v = st.f.get((("f", a), ("f", b)))
                    if v is None or not any(k >= 0 for k, s in v[0]):
                        # both set from the same range
                        if not set_together(f, a, b):
                            drop.add((c, a, b))
        if not drop:
            break
        inv -= drop
    res = {}
    reqs = {}
    for f in cand:
        if any(p["t"] and bytep(p["t"]) for p in f.params):
            # the least number of bytes which must be there on entry
            r0 = Cursor(P, f, pairs, inv, needs, 0, f.key in quoted).run()
            if r0.entry and any(not ok for ok, n, w in r0.obl.values()):
                for e in (1, 2, 3, 4):
                    r = Cursor(P, f, pairs, inv, needs, e, f.key in quoted).run()
                    if all(ok for ok, n, w in r.obl.values()):
                        reqs[f.key] = e
                        break
    for f in cand:
        for i, p in enumerate(f.params):
            if f.key in reqs and bytep(p["t"]):
                if i + 1 < len(f.params) and f.params[i + 1]["t"] == p["t"]:
                    needs[(f.key, i)] = reqs[f.key]
        if f.key not in reqs:
            c = Cursor(P, f, pairs, inv, needs)
            for (k, l), lo in c.entry.items():
                if k[0] == "v":
                    for i, p in enumerate(f.params):
                        if p["vid"] == k[1]:
                            needs.setdefault((f.key, i), 0)
    for f in cand:
        r = Cursor(P, f, pairs, inv, needs, reqs.get(f.key, 0), f.key in quoted).run()
        res[f.key] = r
    return res, inv, pairs, needs, reqs


def set_together(f, a, b):
    """the method sets cursor and limit from the beginning and the end of one range"""
    va = [v for t, v, st in assigns(f) if is_field(strip(t)) and strip(t).q == a]
    vb = [v for t, v, st in assigns(f) if is_field(strip(t)) and strip(t).q == b]
    for x in va:
        for y in vb:
            x2, y2 = strip(x), strip(y)
            if x2 is None or y2 is None:
                continue
            if y2.is_call() and y2.obj is not None and y2.q.split("::")[-1] in END:
                # a may be set through another field: lineStart_ = position_ = begin
                for z in x2.walk():
                    if z.is_call() and z.obj is not None and z.q.split("::")[-1] in BEG and objkey(z.obj) == objkey(y2.obj):
                        return True
    return False


def quote_fns(P, fns):
    """functions which are called only when a helper reported that the text has an escape"""
    out = set()
    for f in fns:
        cs = [c for c in P.callers[f.key] if not testfile(c.fn.file)]
        if not cs or not re.search(r"escape", f.name, re.I):
            continue
        ok = True
        for c in cs:
            hit = False
            for cond, pol in edges_to(c.fn, c):
                for a, p in norm_cond(cond, pol):
                    d = local_def(a) or a
                    if p and d.is_call() and any(t.cls == f.cls for t in P.targets(d)):
                        hit = True
            ok = ok and hit
        if ok:
            out.add(f.key)
    return out

"""Canonical form of scalar arithmetic: fractions of polynomials over atoms (fields, elements, square roots, calls)."""
from fractions import Fraction
from dfl import *
from pathcut import strip

ONE = {(): Fraction(1)}


def p_add(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + s * c
        if out[m] == 0:
            del out[m]
    return out


def p_mul(a, b):
    out = {}
    for m, c in a.items():
        for m2, c2 in b.items():
            d = dict(m)
            for x, e in m2:
                d[x] = d.get(x, 0) + e
            k = tuple(sorted(d.items()))
            out[k] = out.get(k, 0) + c * c2
            if out[k] == 0:
                del out[k]
    return out


class Frac:
    def __init__(self, n, d=None):
        self.n, self.d = n, d or ONE

    def __add__(self, o):
        if self.d == o.d:
            return Frac(p_add(self.n, o.n), self.d)
        return Frac(p_add(p_mul(self.n, o.d), p_mul(o.n, self.d)), p_mul(self.d, o.d))

    def __neg__(self):
        return Frac({m: -c for m, c in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return Frac(p_mul(self.n, o.n), p_mul(self.d, o.d))

    def __truediv__(self, o):
        return Frac(p_mul(self.n, o.d), p_mul(self.d, o.n))

    def same(self, o):
        return p_mul(self.n, o.d) == p_mul(o.n, self.d)

    def const(self):
        if not self.n:
            return Fraction(0)
        if len(self.n) == 1 and len(self.d) == 1 and () in self.n and () in self.d:
            return self.n[()] / self.d[()]
        return None

    def atoms(self):
        return {a for p in (self.n, self.d) for m in p for a, _ in m}

    def mono(self):
        """(coefficient, {atom: exponent}) of a single product"""
        if len(self.n) != 1 or len(self.d) != 1:
            return None
        (m, c), (m2, c2) = next(iter(self.n.items())), next(iter(self.d.items()))
        d = dict(m)
        for x, e in m2:
            d[x] = d.get(x, 0) - e
        return c / c2, {x: e for x, e in d.items() if e}

    def __repr__(self):
        def pp(p):
            return " + ".join("%s%s" % (c, "".join("*%s%s" % (a, "" if e == 1 else "^%d" % e) for a, e in m)) for m, c in sorted(p.items())) or "0"
        return pp(self.n) if self.d == ONE else "(%s)/(%s)" % (pp(self.n), pp(self.d))


def num(v):
    v = Fraction(v)
    return Frac({(): v} if v else {})


def atom(name):
    return Frac({((name, 1),): Fraction(1)})


class Terms:
    """terms of expressions; `fields` gives terms for fields whose value is fixed by their initialiser"""

    def __init__(self, P, opaque=()):
        self.P = P
        self.fields = {}
        self.roots = []
        self.opaque = set(opaque)         # functions which are not looked into

    def root(self, x):
        for i, y in enumerate(self.roots):
            if y.same(x):
                return atom("sqrt#%d" % i)
        self.roots.append(x)
        return atom("sqrt#%d" % (len(self.roots) - 1))

    def term(self, n, env=None, depth=8):
        env = env or {}
        n = strip(n)
        if n is None:
            return None
        if n.v is not None and not isinstance(n.v, str):
            return num(n.v)
        if n.get("fv") is not None:
            try:
                return num(Fraction(n.get("fv")))
            except (ValueError, ZeroDivisionError):
                return None
        if n.k == "UnaryOperator" and n.op in ("-", "+"):
            t = self.term(n.c[0], env, depth)
            return None if t is None else -t if n.op == "-" else t
        if n.k == "BinaryOperator" and n.op in ("+", "-", "*", "/"):
            a, b = self.term(n.c[0], env, depth), self.term(n.c[1], env, depth)
            if a is None or b is None:
                return None
            if n.op == "/":
                return a / b if b.n else None
            return a + b if n.op == "+" else a - b if n.op == "-" else a * b
        if n.k == "DeclRefExpr" and n.get("vid") is not None:
            key = (n.fn.key, n.get("vid"))
            if key in env:
                return env[key]
            d = single_def(n)
            if d is not None and depth > 0:
                t = self.term(d, env, depth - 1)
                if t is not None:
                    return t
            return atom("v:%s#%s" % (n.get("n"), n.get("vid")))
        if is_field(n):
            if n.q in self.fields:
                return self.fields[n.q]
            o = strip(n.c[0]) if n.c else None
            if o is None or o.k == "CXXThisExpr":
                return atom("f:" + n.q.split("::")[-1])
            t = self.place(n.c[0], env, depth)
            return atom("%s.%s" % (t, n.q.split("::")[-1]))
        if n.k == "ArraySubscriptExpr" or n.k == "CXXOperatorCallExpr" and n.op == "[]" or \
                n.k == "CXXMemberCallExpr" and n.q.split("::")[-1] == "at":
            return atom(self.place(n, env, depth))
        if n.k in CTORS and len(n.c) == 1:
            return self.term(n.c[0], env, depth)
        if n.is_call():
            name = n.q.split("::")[-1]
            args = [self.term(a, env, depth) for a in n.args]
            if name in ("sqrt", "sqrtf") and len(args) == 1 and args[0] is not None:
                return self.root(args[0])
            if name == "pow" and len(args) == 2 and None not in args and args[1].const() is not None and \
                    args[1].const().denominator == 1 and 0 <= args[1].const() <= 8:
                t = num(1)
                for _ in range(int(args[1].const())):
                    t = t * args[0]
                return t
            ts = self.P.targets(n)
            if len(ts) == 1 and n.q not in self.opaque and depth > 0:
                t = self.inline(ts[0], args, depth - 1)
                if t is not None:
                    return t
            return atom("call:%s(%s)" % (n.q.split("::")[-1], ",".join("?" if a is None else repr(a) for a in args)))
        return None

    def place(self, n, env, depth):
        n = strip(n)
        if n.k == "DeclRefExpr" and n.get("vid") is not None:
            d = single_def(n)
            if d is not None and depth > 0 and strip(d).k not in ("CXXForRangeStmt",):
                x = strip(d)
                if is_field(x) or x.k in ("ArraySubscriptExpr",) or x.k == "CXXOperatorCallExpr" and x.op == "[]":
                    return self.place(d, env, depth - 1)
            return "v:%s#%s" % (n.get("n"), n.get("vid"))
        if n.k == "ArraySubscriptExpr":
            b, i = n.c[0], n.c[1]
        elif n.k == "CXXOperatorCallExpr" and n.op == "[]":
            b, i = n.args[0], n.args[1]
        elif n.k == "CXXMemberCallExpr" and n.q.split("::")[-1] == "at" and n.args:
            b, i = n.obj, n.args[0]
        else:
            t = self.term(n, env, depth) if is_field(n) else None
            return repr(t) if t is not None else expr_str(n)
        return "%s[%r]" % (self.place(b, env, depth), self.term(i, env, depth))

    def returns(self, f, args, depth=6):
        """(return statement, term) for every returned value"""
        env = {(f.key, p["vid"]): a for p, a in zip(f.params, args) if a is not None}
        return [(r, self.term(r.c[0], env, depth)) for r in f.all_nodes() if r.k == "ReturnStmt" and r.c], env

    def inline(self, f, args, depth):
        if f.body is None or any(n.k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt") for n in f.all_nodes()):
            return None
        rs, _ = self.returns(f, args, depth)
        return rs[0][1] if len(rs) == 1 else None


def single_def(n):
    """the initialiser of a local variable which is never changed"""
    if n.k != "DeclRefExpr" or n.get("dk") == "parm":
        return None
    f = n.fn
    init = None
    for x in f.all_nodes():
        if x.k == "VarDecl" and x.get("vid") == n.get("vid"):
            if not x.c or x.p is not None and x.p.p is not None and x.p.p.k == "CXXForRangeStmt":
                return None
            init = x.c[0]
        if x.k in ("BinaryOperator", "CompoundAssignOperator") and x.op.endswith("=") and x.op not in ("==", "!=", "<=", ">="):
            t = strip(x.c[0])
            if t.k == "DeclRefExpr" and t.get("vid") == n.get("vid"):
                return None
        if x.k == "UnaryOperator" and x.op in ("++", "--", "&"):
            t = strip(x.c[0])
            if t.k == "DeclRefExpr" and t.get("vid") == n.get("vid"):
                return None
    return init


def deltas(f):
    """(node, target, sign, amount) of every change of the form t += e, t -= e, t = t + e"""
    for x in f.all_nodes():
        if x.k in ("CompoundAssignOperator", "BinaryOperator") and x.op in ("+=", "-="):
            yield x, x.c[0], 1 if x.op == "+=" else -1, x.c[1]
        elif x.k == "BinaryOperator" and x.op == "=" and len(x.c) == 2:
            v = x.c[1]
            while (v.k == "ParenExpr" or v.k.endswith("CastExpr")) and v.c:
                v = v.c[0]
            if v.k != "BinaryOperator" or v.op not in ("+", "-"):
                continue
            me = struct(x.c[0])
            if struct(v.c[0]) == me:
                yield x, x.c[0], 1 if v.op == "+" else -1, v.c[1]
            elif v.op == "+" and struct(v.c[1]) == me:
                yield x, x.c[0], 1, v.c[0]

"""Provenance of single bits: every bit of a value is a constant or one (perhaps inverted) bit of an input."""
import re
from dfl import var_defs

WIDTH = {"unsigned char": (8, 0), "u8": (8, 0), "uint8_t": (8, 0), "signed char": (8, 1), "char": (8, 1), "short": (16, 1), "i16": (16, 1),
         "unsigned short": (16, 0), "u16": (16, 1), "int": (32, 1), "i32": (32, 1), "unsigned int": (32, 0), "u32": (32, 0), "float": (32, 0),
         "long": (64, 1), "i64": (64, 1), "unsigned long": (64, 0), "u64": (64, 0), "unsigned long long": (64, 0), "long long": (64, 1),
         "bool": (8, 0), "size_t": (64, 0), "jumanpp::Score": (32, 0), "Score": (32, 0)}


class Top(Exception):
    pass


def width(t):
    t = re.sub(r"\bconst\b|[&]", "", t or "").strip()
    t = t.split("::")[-1]
    if t not in WIDTH:
        raise Top("type " + t)
    return WIDTH[t]


def const(v, w):
    return [(v >> i) & 1 for i in range(w)]


def fit(bits, signed, w):
    if len(bits) >= w:
        return bits[:w]
    return bits + [bits[-1] if signed else 0] * (w - len(bits))


def inv(b):
    return 1 - b if isinstance(b, int) else (b[0], b[1], not b[2])


def And(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    if a == inv(b):
        return 0
    raise Top("and")


def Xor(a, b):
    if isinstance(a, int):
        return inv(b) if a else b
    if isinstance(b, int):
        return inv(a) if b else a
    if a == b:
        return 0
    if a == inv(b):
        return 1
    raise Top("xor")


class Bits:
    """execute a straight-line function with branches on single bits; yields (assumptions, result bits)"""

    def __init__(self, inputs, fields=None, positive=()):
        self.inputs = inputs          # vid or field name -> bits
        self.fields = fields or {}
        self.positive = positive

    def var(self, name, w):
        return [(name, i, False) for i in range(w)]

    def ev(self, n, env):
        while n.k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "ConstantExpr") and n.c:
            n = n.c[0]
        if n.v is not None and not isinstance(n.v, (str, float)):
            w, s = width(n.t)
            return const(int(n.v) & ((1 << w) - 1), w)
        if n.k.endswith("CastExpr") and n.c:
            x = self.ev(n.c[-1], env)
            w, s = width(n.c[-1].t)
            return fit(x, s, width(n.t)[0])
        if n.k == "DeclRefExpr":
            if n.get("vid") in env:
                return fit(env[n.get("vid")], False, width(n.t)[0])
            raise Top("variable " + str(n.get("n")))
        if n.k == "MemberExpr" and n.m in self.fields:
            return self.fields[n.m]
        if n.k == "UnaryOperator" and n.op == "~":
            return [inv(b) for b in self.ev(n.c[0], env)]
        if n.k == "BinaryOperator":
            if n.op in ("<<", ">>"):
                x = self.ev(n.c[0], env)
                if n.c[1].v is None and not any(y.v is not None for y in n.c[1].walk()):
                    raise Top("shift")
                k = next(int(y.v) for y in [n.c[1]] + list(n.c[1].walk()) if y.v is not None)
                w, s = len(x), width(n.c[0].t)[1]
                if n.op == "<<":
                    return ([0] * k + x)[:w]
                return fit(x[k:], s, w) if k < w else [x[-1] if s else 0] * w
            x, y = self.ev(n.c[0], env), self.ev(n.c[1], env)
            if n.op in ("&", "|", "^", "+"):
                w = max(len(x), len(y))
                x, y = fit(x, width(n.c[0].t)[1], w), fit(y, width(n.c[1].t)[1], w)
                if n.op == "&":
                    return [And(a, b) for a, b in zip(x, y)]
                if n.op == "^":
                    return [Xor(a, b) for a, b in zip(x, y)]
                if n.op == "+" and any(a != 0 and b != 0 for a, b in zip(x, y)):
                    raise Top("carry")
                return [inv(And(inv(a), inv(b))) for a, b in zip(x, y)]
            if n.op in ("==", "!=", "<", ">="):
                return self.test(n, x, y)
            if n.op == ",":
                return y
        if n.k == "ConditionalOperator":
            c = self.ev(n.c[0], env)
            if c[0] == 1:
                return self.ev(n.c[1], env)
            if c[0] == 0 and isinstance(c[0], int):
                return self.ev(n.c[2], env)
            raise Top("condition")
        raise Top(n.k)

    def test(self, n, x, y):
        if n.op in ("==", "!="):
            w = max(len(x), len(y))
            x, y = fit(x, 0, w), fit(y, 0, w)
            d = [a for a, b in zip(x, y) if a != b]
            if any(isinstance(a, int) and isinstance(b, int) and a != b for a, b in zip(x, y)):
                return const(int(n.op == "!="), 8)
            if not d:
                return const(int(n.op == "=="), 8)
            raise Top("compare")
        w, s = width(n.c[0].t)
        if s and all(b == 0 for b in y) and isinstance(x[-1], int):
            return const(int((x[-1] == 1) == (n.op == "<")), 8)
        raise Top("compare")

    def call(self, n, env):
        if (n.q or "").split("::")[-1] == "memcpy" and len(n.args) == 3:
            def tgt(a):
                while a is not None and a.k.endswith("CastExpr"):
                    a = a.c[-1]
                if a is not None and a.k == "UnaryOperator" and a.op == "&":
                    a = a.c[0]
                return a
            d, s = tgt(n.args[0]), tgt(n.args[1])
            if d.k == "DeclRefExpr":
                env[d.get("vid")] = fit(self.ev(s, env), False, width(d.t)[0])
                return
        raise Top("call " + (n.q or ""))

    def run(self, f, env):
        env = dict(env)
        r = self.stmt(f.body, env)
        if r is None:
            raise Top("no result")
        return fit(r, False, len(r))

    def stmt(self, n, env):
        if n.k == "CompoundStmt":
            for c in n.c:
                r = self.stmt(c, env)
                if r is not None:
                    return r
            return None
        if n.k == "DeclStmt":
            for v in n.c:
                if v.k == "VarDecl" and v.c:
                    x = self.ev(v.c[0], env)
                    env[v.get("vid")] = fit(x, width(v.c[0].t)[1], width(v.t)[0])
            return None
        if n.k == "ReturnStmt":
            return self.ev(n.c[0], env) if n.c else None
        if n.k == "IfStmt":
            c = self.ev(n.role("cond"), env)
            if not isinstance(c[0], int):
                raise Top("condition")
            b = n.role("then") if c[0] else n.role("else")
            return self.stmt(b, env) if b is not None else None
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("="):
            l = n.c[0]
            if l.k != "DeclRefExpr":
                raise Top("store")
            x = self.ev(n.c[1], env)
            if n.op == "=":
                env[l.get("vid")] = fit(x, width(n.c[1].t)[1], width(l.t)[0])
                return None
            o = env[l.get("vid")]
            x = fit(x, width(n.c[1].t)[1], len(o))
            op = n.op[:-1]
            if op == "^":
                env[l.get("vid")] = [Xor(a, b) for a, b in zip(o, x)]
            elif op == "&":
                env[l.get("vid")] = [And(a, b) for a, b in zip(o, x)]
            elif op == "|":
                env[l.get("vid")] = [inv(And(inv(a), inv(b))) for a, b in zip(o, x)]
            elif op == "<<" and all(isinstance(b, int) for b in x):
                k = sum(b << i for i, b in enumerate(x[:6]))
                env[l.get("vid")] = ([0] * k + o)[:len(o)]
            else:
                raise Top(n.op)
            return None
        if n.is_call():
            self.call(n, env)
            return None
        if n.k in ("NullStmt",):
            return None
        raise Top(n.k)

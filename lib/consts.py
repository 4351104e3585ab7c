"""Constant propagation over a CFG under an assumption: which integers can an expression be when some inputs are fixed."""
from dfl import *

TOP = None
LIM = 24


def join(a, b):
    if a is TOP or b is TOP:
        return TOP
    c = a | b
    return c if len(c) <= LIM else TOP


OPS = {"|": lambda x, y: x | y, "&": lambda x, y: x & y, "^": lambda x, y: x ^ y, "+": lambda x, y: x + y,
       "-": lambda x, y: x - y, "*": lambda x, y: x * y, "<<": lambda x, y: x << y if 0 <= y < 64 else 0,
       ">>": lambda x, y: x >> y if 0 <= y < 64 else 0, "==": lambda x, y: int(x == y), "!=": lambda x, y: int(x != y),
       "<": lambda x, y: int(x < y), "<=": lambda x, y: int(x <= y), ">": lambda x, y: int(x > y),
       ">=": lambda x, y: int(x >= y), "/": lambda x, y: x // y if y else 0, "%": lambda x, y: x % y if y else 0}


class Consts:
    """at(node) -> env before the node's block element, or None when the node can not be reached under the assumption;
    fixed(n) returns the assumed set of values of an expression node or None"""

    def __init__(self, P, fn, fixed, params=None, depth=3):
        self.P, self.fn, self.fixed, self.depth = P, fn, fixed, depth
        self.params = params or {}
        self.inn = {}
        self.unfixed = 0
        self.run()

    def ev(self, n, env):
        n = strip0(n)
        if n is None:
            return TOP
        f = self.fixed(n)
        if f is not None:
            return frozenset(f)
        if n.v is not None and not isinstance(n.v, (str, float)):
            return frozenset([int(n.v)])
        if n.k == "DeclRefExpr" and n.get("vid") is not None:
            return env.get(n.get("vid"), TOP)
        if n.k == "BinaryOperator":
            if n.op in ("&&", "||"):
                a, b = self.ev(n.c[0], env), self.ev(n.c[1], env)
                if n.op == "&&" and (a == frozenset([0]) or b == frozenset([0])):
                    return frozenset([0])
                if n.op == "||" and (a is not TOP and 0 not in a or b is not TOP and 0 not in b):
                    return frozenset([1])
                if a is TOP or b is TOP:
                    return frozenset([0, 1])
                return frozenset([int(bool(x and y)) if n.op == "&&" else int(bool(x or y)) for x in a for y in b])
            if n.op == "=":
                return self.ev(n.c[1], env)
            if n.op == ",":
                return self.ev(n.c[1], env)
            a, b = self.ev(n.c[0], env), self.ev(n.c[1], env)
            if a is TOP or b is TOP or n.op not in OPS or len(a) * len(b) > 200:
                return TOP
            return frozenset(OPS[n.op](x, y) for x in a for y in b)
        if n.k == "UnaryOperator" and n.op in ("~", "!", "-", "+"):
            a = self.ev(n.c[0], env)
            if a is TOP:
                return TOP
            g = {"~": lambda x: ~x, "!": lambda x: int(not x), "-": lambda x: -x, "+": lambda x: x}[n.op]
            return frozenset(g(x) for x in a)
        if n.k == "ConditionalOperator":
            c = self.ev(n.c[0], env)
            out = frozenset()
            if c is TOP or any(c):
                out = self.ev(n.c[1], env)
            if c is TOP or 0 in c:
                out = join(out, self.ev(n.c[2], env))
            return out
        if n.is_call() and self.depth > 0 and n.k != "CXXOperatorCallExpr":
            ts = [t for t in self.P.targets(n) if t.body is not None and t.cfg is not None]
            if len(ts) == 1:
                t = ts[0]
                ps = {p["vid"]: self.ev(a, env) for p, a in zip(t.params, n.args)}
                sub = Consts(self.P, t, self.fixed, ps, self.depth - 1)
                out = frozenset()
                for r in t.all_nodes():
                    if r.k == "ReturnStmt" and r.c:
                        e = sub.at(r)
                        if e is not None:
                            out = join(out, sub.ev(r.c[0], e))
                return out if out else TOP
        return TOP

    def step(self, n, env):
        t, v = None, None
        if n.k == "VarDecl":
            t, v = n.get("vid"), self.ev(n.c[-1], env) if n.c else TOP
        elif n.k == "DeclStmt":
            for d in n.c:
                env = self.step(d, env)
            return env
        elif n.k == "BinaryOperator" and n.op == "=":
            l = strip0(n.c[0])
            if l.k == "DeclRefExpr":
                t, v = l.get("vid"), self.ev(n.c[1], env)
        elif n.k == "CompoundAssignOperator":
            l = strip0(n.c[0])
            if l.k == "DeclRefExpr":
                a, b = env.get(l.get("vid"), TOP), self.ev(n.c[1], env)
                op = OPS.get(n.op[:-1])
                t = l.get("vid")
                v = TOP if a is TOP or b is TOP or op is None else frozenset(op(x, y) for x in a for y in b)
                if v is not TOP and len(v) > LIM:
                    v = TOP
        elif n.k == "UnaryOperator" and n.op in ("++", "--"):
            l = strip0(n.c[0])
            if l.k == "DeclRefExpr":
                t, v = l.get("vid"), TOP
        elif n.k == "UnaryOperator" and n.op == "&":
            l = strip0(n.c[0])
            if l is not None and l.k == "DeclRefExpr":
                t, v = l.get("vid"), TOP
        elif n.is_call():
            # arguments bound to references
            env2 = None
            ts = self.P.targets(n)
            for t0 in ts[:1]:
                for p, a in zip(t0.params, n.args):
                    if (p["t"] or "").rstrip().endswith("&") and not (p["t"] or "").startswith("const "):
                        l = strip0(a)
                        if l is not None and l.k == "DeclRefExpr" and l.get("vid") in env:
                            env2 = dict(env2 or env)
                            env2[l.get("vid")] = TOP
            return env2 or env
        if t is not None:
            env = dict(env)
            env[t] = v
        return env

    def edges(self, b, env):
        """successors feasible under env"""
        blk = self.fn.cfg.b[b]
        succ = list(blk.s)
        if blk.cond is None:
            return [s for s in succ if s >= 0]
        c = self.fn.nodes.get(blk.cond)
        if len(succ) == 2 and not self.switch_term(b):
            v = self.ev(c, env) if c is not None else TOP
            out = []
            if succ[0] >= 0 and (v is TOP or any(v)):
                out.append(succ[0])
            if succ[1] >= 0 and (v is TOP or 0 in v):
                out.append(succ[1])
            return out
        v = self.ev(c, env) if c is not None else TOP
        if v is TOP:
            return [s for s in succ if s >= 0]
        labs = {}
        dflt = []
        other = []
        for s in succ:
            if s < 0:
                continue
            lab = self.fn.nodes.get(self.fn.cfg.b[s].label) if self.fn.cfg.b[s].label is not None else None
            if lab is not None and lab.k == "CaseStmt":
                # several labels may share a block
                vals = set()
                x = lab
                while x is not None and x.k == "CaseStmt":
                    e = self.ev(x.role("lhs"), {})
                    vals |= set(e) if e is not TOP else {"?"}
                    x = x.p if x.p is not None and x.p.k == "CaseStmt" else None
                labs[s] = vals
            elif lab is not None and lab.k == "DefaultStmt":
                dflt.append(s)
            else:
                other.append(s)
        hit = [s for s, vals in labs.items() if vals & set(v) or "?" in vals]
        covered = set().union(*labs.values()) if labs else set()
        if set(v) - covered:
            hit += dflt + other
        return hit

    def switch_term(self, b):
        blk = self.fn.cfg.b[b]
        for s in blk.s:
            if s >= 0 and self.fn.cfg.b[s].label is not None:
                lab = self.fn.nodes.get(self.fn.cfg.b[s].label)
                if lab is not None and lab.k in ("CaseStmt", "DefaultStmt"):
                    return True
        return False

    def run(self):
        cfg = self.fn.cfg
        self.inn = {cfg.entry: dict(self.params)}
        st = [cfg.entry]
        cnt = {}
        while st:
            x = st.pop()
            cnt[x] = cnt.get(x, 0) + 1
            if cnt[x] > 200:
                continue
            env = self.inn[x]
            for e in cfg.b[x].e:
                if isinstance(e, int):
                    env = self.step(self.fn.nodes[e], env)
            for s in self.edges(x, env):
                if s not in self.inn:
                    self.inn[s] = env
                    st.append(s)
                else:
                    old = self.inn[s]
                    new = {k: join(old[k], env[k]) for k in old if k in env}
                    if new != old:
                        self.inn[s] = new
                        st.append(s)

    def at(self, node):
        cfg = self.fn.cfg
        w = cfg.where(node)
        k = node
        while w is None and k.p is not None:
            k = k.p
            w = cfg.where(k)
        if w is None or w[0] not in self.inn:
            return None
        env = self.inn[w[0]]
        for e in cfg.b[w[0]].e[:w[1]]:
            if isinstance(e, int):
                env = self.step(self.fn.nodes[e], env)
        return env


def strip0(n):
    while n is not None:
        if n.k.endswith("CastExpr") and n.c or n.k in ("ParenExpr", "ExprWithCleanups", "ConstantExpr", "MaterializeTemporaryExpr",
                                                       "SubstNonTypeTemplateParmExpr") and n.c:
            n = n.c[-1]
        else:
            return n
    return n

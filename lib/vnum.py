"""Value numbering: the term each place receives, over straight-line definitions with calls followed into small
functions of the project; branches merge into (cond ? a : b), a loop body is numbered once for a general iteration."""
from dfl import *
from pathcut import strip

LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")


def flat(q):
    out, d = [], 0
    for ch in q or "":
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)


class VN:
    def __init__(self, P, hasher="FastHashRot", depth=7, inline=None):
        self.P, self.hasher, self.depth = P, hasher, depth
        self.effects = []
        self.calls = []
        self.inline = inline or (lambda f: True)
        self.uid = 0

    def unknown(self):
        self.uid += 1
        return ("?", self.uid)

    # ---- running
    def run(self, fn, this=None, args=None, depth=None):
        env = {}
        for i, p in enumerate(fn.params):
            env[p["vid"]] = args[i] if args is not None and i < len(args) else ("p", p.get("n") or "", i)
        st = {"env": env, "this": this, "ret": [], "depth": self.depth if depth is None else depth, "fn": fn}
        if fn.body is not None:
            self.stmt(fn.body, st)
        r = st["ret"]
        return r[0] if len(r) == 1 else self.unknown() if r else None

    def assigned(self, n):
        out = set()
        for x in n.walk():
            if x.k in ("BinaryOperator", "CompoundAssignOperator") and x.op and x.op.endswith("=") and x.op not in ("==", "!=", "<=", ">=") or \
                    x.k == "UnaryOperator" and x.op in ("++", "--", "post++", "post--"):
                t = strip(x.c[0])
                if t is not None and t.k == "DeclRefExpr" and t.get("vid") is not None:
                    out.add(t.get("vid"))
            if x.k == "CXXOperatorCallExpr" and x.op in ("=", "+=", "++", "--", "-="):
                t = strip(x.c[0])
                if t is not None and t.k == "DeclRefExpr" and t.get("vid") is not None:
                    out.add(t.get("vid"))
        return out

    def stmt(self, n, st):
        k = n.k
        if k in ("CompoundStmt", "ExprWithCleanups", "AttributedStmt", "LabelStmt"):
            for x in n.c:
                self.stmt(x, st)
        elif k == "DeclStmt":
            for v in n.c:
                if v.k == "VarDecl" and v.get("vid") is not None:
                    i = v.role("init")
                    st["env"][v.get("vid")] = self.val(i, st) if i is not None else self.unknown()
        elif k == "ReturnStmt":
            st["ret"].append(self.val(n.c[0], st) if n.c else ("void",))
        elif k == "IfStmt":
            c = n.role("cond")
            ct = self.val(c, st) if c is not None else self.unknown()
            base = st["env"]
            envs = []
            for r in ("then", "else"):
                st["env"] = dict(base)
                b = n.role(r)
                n0 = len(self.effects)
                if b is not None:
                    self.stmt(b, st)
                for i in range(n0, len(self.effects)):
                    self.effects[i] = self.effects[i][:5] + (self.effects[i][5] + ((ct, r == "then"),),)
                envs.append(st["env"])
            out = {}
            for v in set(envs[0]) | set(envs[1]):
                a, b = envs[0].get(v), envs[1].get(v)
                out[v] = a if a == b else b if a is None else a if b is None else ("ite", ct, a, b)
            st["env"] = out
        elif k in LOOPS:
            if k == "ForStmt" and n.role("init") is not None:
                self.stmt(n.role("init"), st)
            mod = set()
            for x in n.c:
                if x.r != "init":
                    mod |= self.assigned(x)
            for v in mod:
                st["env"][v] = ("loop", st["fn"].key, v)
            if k == "CXXForRangeStmt":
                rg, var = n.role("range"), n.role("var")
                src = self.unknown()
                for v in rg.c if rg is not None else ():
                    if v.k == "VarDecl" and v.role("init") is not None:
                        src = self.val(v.role("init"), st)
                for v in var.c if var is not None else ():
                    if v.k == "VarDecl":
                        st["env"][v.get("vid")] = ("elem", src)
            b = n.role("body")
            if b is not None:
                self.stmt(b, st)
            for v in mod:
                st["env"][v] = self.unknown()
        elif k == "SwitchStmt":
            for v in self.assigned(n):
                st["env"][v] = self.unknown()
        elif k in ("NullStmt", "BreakStmt", "ContinueStmt"):
            pass
        else:
            self.val(n, st)

    # ---- values
    def at_base(self, n):
        """(container, index) of an element access"""
        if n.k == "ArraySubscriptExpr" and len(n.c) == 2:
            return n.c
        if n.k == "CXXOperatorCallExpr" and n.op == "[]" and len(n.c) == 2:
            return n.c
        if n.k == "CXXMemberCallExpr" and n.q.split("::")[-1] in ("at", "row") and len(n.args) == 1:
            return [n.obj, n.args[0]]
        return None

    def assign(self, target, v, n, st, op="="):
        t = strip(target)
        if t is None:
            return
        if t.k == "DeclRefExpr" and t.get("vid") is not None:
            st["env"][t.get("vid")] = v if op == "=" else self.unknown()
            return
        b = self.at_base(t)
        if b:
            self.effects.append(("store" if op == "=" else op, self.val(b[0], st), self.val(b[1], st), v, n, ()))
        elif is_field(t):
            self.effects.append(("field", self.val(t.c[0], st) if t.c else st["this"], ("c", t.q.split("::")[-1]), v, n, ()))

    def val(self, n, st):
        n = strip(n)
        if n is None:
            return self.unknown()
        if n.v is not None and not isinstance(n.v, str):
            return ("c", int(n.v))
        k = n.k
        if k == "DeclRefExpr":
            if n.get("vid") is not None and n.get("vid") in st["env"]:
                return st["env"][n.get("vid")]
            return ("g", n.q or n.get("n") or "")
        if k == "CXXThisExpr":
            return st["this"] or ("this",)
        if is_field(n):
            b = self.val(n.c[0], st) if n.c else st["this"] or ("this",)
            name = n.q.split("::")[-1]
            if b and b[0] == "obj":
                d = dict(b[2])
                if name in d:
                    return d[name]
            return ("f", b, name)
        if k in ("BinaryOperator", "CompoundAssignOperator", "CXXOperatorCallExpr") and n.op and len(n.c) == 2 and \
                n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
            v = self.val(n.c[1], st)
            self.assign(n.c[0], v, n, st, n.op)
            return v
        if k == "UnaryOperator" and n.op in ("++", "--", "post++", "post--"):
            self.assign(n.c[0], self.unknown(), n, st, "+=")
            return self.unknown()
        b = self.at_base(n)
        if b:
            base, ix = self.val(b[0], st), self.val(b[1], st)
            return ("row" if n.k == "CXXMemberCallExpr" and n.q.endswith("::row") else "at", base, ix)
        if k == "BinaryOperator" and len(n.c) == 2:
            return ("bin", n.op, self.val(n.c[0], st), self.val(n.c[1], st))
        if k == "UnaryOperator":
            v = self.val(n.c[0], st)
            return ("un", n.op, v)
        if k == "ConditionalOperator" and len(n.c) == 3:
            return ("ite", self.val(n.c[0], st), self.val(n.c[1], st), self.val(n.c[2], st))
        if k in CTORS or k == "InitListExpr":
            return self.construct(n, st)
        if n.is_call():
            return self.call(n, st)
        if len(n.c) == 1:
            return self.val(n.c[0], st)
        for x in n.c:
            self.val(x, st)
        return self.unknown()

    def construct(self, n, st):
        args = [self.val(x, st) for x in n.c]
        cls = flat(n.q).split("::")[-1] if n.q else ""
        if cls == self.hasher:
            if not args:
                return ("h", None, ())
            if args[0][0] in ("h", "ite") and self.ish(args[0]):
                return args[0]
            return ("h", args[0], ())
        ts = [f for f in self.P.targets(n) if f.is_ctor] if n.k in CTORS else []
        if len(ts) == 1 and len(ts[0].params) >= len(args):
            f = ts[0]
            if len(args) == 1 and f.params and (f.cls or "").split("::")[-1].split("<")[0] in f.params[0]["t"] and "&" in f.params[0]["t"]:
                return args[0]
            env = {p["vid"]: args[i] if i < len(args) else self.unknown() for i, p in enumerate(f.params)}
            st2 = {"env": env, "this": ("this",), "ret": [], "depth": 0, "fn": f}
            fields = []
            for d, x in f.inits:
                if d.get("m") and x is not None:
                    fields.append((d["m"], self.val(x, st2)))
            if fields:
                return ("obj", f.cls, tuple(fields))
        if len(args) == 1:
            return args[0]
        return ("new", flat(n.q or n.t), tuple(args))

    def ish(self, t):
        return t[0] == "h" or t[0] == "ite" and self.ish(t[2]) and self.ish(t[3])

    def call(self, n, st):
        name = flat(n.q).split("::")[-1]
        cls = flat(n.q).split("::")[-2] if "::" in (n.q or "") else ""
        if cls == self.hasher and n.obj is not None:
            o = self.val(n.obj, st)
            if not self.ish(o):
                o = ("h", ("of", o), ())
            a = [self.val(x, st) for x in n.args]
            if name in ("mix", "mixMem") and a:
                v = a[0] if name == "mix" else ("at", a[0], ("c", 0))
                return ("h", o[1], o[2] + (v,)) if o[0] == "h" else ("h", o, (v,))
            if name == "result":
                return ("res", o)
            if name == "masked" and a:
                return ("mask", o, a[0])
        if name == "__builtin_expect" and n.args:
            return self.val(n.args[0], st)
        obj = self.val(n.obj, st) if n.obj is not None else None
        args = [self.val(x, st) for x in n.args]
        if n.obj is not None and name == "swap" and len(n.args) == 1:
            a, b = strip(n.obj), strip(n.args[0])
            if all(x is not None and x.k == "DeclRefExpr" and x.get("vid") in st["env"] for x in (a, b)):
                e = st["env"]
                e[a.get("vid")], e[b.get("vid")] = e[b.get("vid")], e[a.get("vid")]
                return ("void",)
        self.calls.append((n, obj, tuple(args)))
        ts = [f for f in self.P.targets(n) if f.body is not None]
        if len(ts) == 1 and st["depth"] > 0 and ts[0].file.startswith(("src/", "gen/")) and len(ts[0].params) >= len(args) and self.inline(ts[0]):
            f = ts[0]
            this = obj if obj is not None else ("this",)
            if this == ("this",) and st["this"] is not None:
                this = st["this"]
            r = self.run(f, this, args, st["depth"] - 1)
            if r is not None and r[0] != "?":
                return r
        return ("call", flat(n.q), obj, tuple(args))


def sub(t, fn):
    """rebuild a term bottom-up"""
    if not isinstance(t, tuple):
        return t
    r = fn(t)
    if r is not None:
        return r
    return tuple(sub(x, fn) if isinstance(x, tuple) else x for x in t)


def walk(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if d > 6:
        return "..."
    if k == "c":
        return str(t[1])
    if k == "p":
        return t[1] or "arg%d" % t[2]
    if k == "f":
        return t[2] if t[1] and t[1][0] == "this" else "%s.%s" % (show(t[1], d + 1), t[2])
    if k in ("at", "row"):
        return "%s[%s]" % (show(t[1], d + 1), show(t[2], d + 1))
    if k == "h":
        return "hash(%s%s)" % (show(t[1], d + 1) + "; " if t[1] else "", ", ".join(show(x, d + 1) for x in t[2]))
    if k == "res":
        return show(t[1], d)
    if k == "mask":
        return show(t[1], d) + " & mask"
    if k == "elem":
        return "element of " + show(t[1], d + 1)
    if k == "g":
        return t[1].split("::")[-1]
    if k == "bin":
        return "%s %s %s" % (show(t[2], d + 1), t[1], show(t[3], d + 1))
    return k if k != "call" else t[1].split("::")[-1] + "()"

"""Where does a value go?  Forward interprocedural tracing of one value to the fields it is stored in."""
from dfl import *

STREAM = ("operator<<",)


def fq(n):
    """Class::field of a field access"""
    q = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", n.q)).replace("(anonymous namespace)::", "")
    p = q.split("::")
    return "::".join(p[-2:])


def leaf_field(n):
    """the named field a target expression designates (looking through .value(), [], ->, *)"""
    n = peel(n)
    while n is not None:
        if is_field(n):
            return n
        if n.k == "CXXMemberCallExpr" and n.q.split("::")[-1] in ("value", "get", "back", "front", "at"):
            n = peel(n.obj)
        elif n.k == "CXXOperatorCallExpr" and n.op in ("[]", "->", "*") and n.args:
            n = peel(n.args[0])
        elif n.k == "ArraySubscriptExpr":
            n = peel(n.c[0])
        else:
            return None
    return None


def const_of(n):
    n = peel(n)
    if n is None:
        return None
    if n.k == "DeclRefExpr" and n.get("dk") == "enum":
        return n.q.split("::")[-1]
    if n.v is not None:
        return str(n.v)
    return None


class Tracer:
    """dests(node): set of strings 'Class::field' (value stored), 'Class::field=CONST' (constant stored under the
    control of the value) and 'call NAME#i' for values handed to functions without a body here"""

    def __init__(self, P, control=True, sinks=()):
        """control: also report constants stored under a condition on the value;
        sinks: function names (unqualified or Class::name) at which tracing stops with 'NAME#argument'"""
        self.P = P
        self.control = control
        self.sinks = tuple("::" + s for s in sinks)
        self.active = set()
        self.uses = {}

    def var_uses(self, fn, vid):
        k = fn.key
        if k not in self.uses:
            d = defaultdict(list)
            for n in fn.all_nodes():
                if n.k == "DeclRefExpr" and n.get("vid") is not None:
                    d[n.get("vid")].append(n)
            self.uses[k] = d
        return self.uses[k].get(vid, [])

    def target(self, n, ctx):
        """descriptor(s) of an assignment target expression"""
        lf = leaf_field(n)
        root = peel(n)
        out = set()
        if lf is not None:
            out.add(fq(lf))
            return out
        while root is not None and not (root.k in ("DeclRefExpr", "CXXThisExpr")):
            if root.k == "CXXMemberCallExpr" and root.obj is not None:
                root = peel(root.obj)
            elif root.k in ("CXXOperatorCallExpr",) and root.args:
                root = peel(root.args[0])
            elif root.c:
                root = peel(root.c[0])
            else:
                break
        if root is None:
            return out
        if root.k == "CXXThisExpr":
            out.add("$this")
        elif root.k == "DeclRefExpr" and root.get("dk") == "parm":
            for i, p in enumerate(root.fn.params):
                if p["vid"] == root.get("vid"):
                    out.add("$p%d" % i)
        elif root.k == "DeclRefExpr" and root.get("vid") is not None:
            out.add("$l%d" % root.get("vid"))
        elif root.k == "DeclRefExpr":
            out.add("global " + root.q.split("::")[-1])
        return out

    def map_back(self, ds, call):
        """callee-relative descriptors -> caller's"""
        out = set()
        for d in ds:
            base, _, const = d.partition("=")
            suf = ("=" + const) if const else ""
            e = None
            if base == "$this":
                if call.k in CTORS:
                    continue
                e = call.obj if call.obj is not None else (call.args[0] if call.op and call.args else None)
            elif base.startswith("$p"):
                i = int(base[2:])
                a = call.args
                if call.k == "CXXOperatorCallExpr" and call.fn and len(a) > 0 and call.get("mop"):
                    a = a[1:]
                e = a[i] if i < len(a) else None
                m = re.match(r"CONST\$p(\d+)$", const)
            else:
                m = re.match(r"CONST\$p(\d+)$", const)
                if m:
                    c = const_of(call.args[int(m.group(1))]) if int(m.group(1)) < len(call.args) else None
                    out.add(base + ("=" + c if c else ""))
                else:
                    out.add(d)
                continue
            if e is None:
                continue
            m = re.match(r"CONST\$p(\d+)$", const)
            if m:
                c = const_of(call.args[int(m.group(1))]) if int(m.group(1)) < len(call.args) else None
                suf = "=" + c if c else ""
            for t in self.target(e, None):
                if t.startswith("$l"):
                    out |= self.var(call.fn, int(t[2:]))
                else:
                    out.add(t + suf)
        return out

    def var(self, fn, vid):
        k = (fn.key, vid)
        if k in self.active:
            return set()
        self.active.add(k)
        try:
            out = set()
            for u in self.var_uses(fn, vid):
                out |= self.dests(u)
            return out
        finally:
            self.active.discard(k)

    def param(self, fn, i):
        if i >= len(fn.params):
            return set()
        return self.var(fn, fn.params[i]["vid"])

    def rhs_descr(self, n):
        n = peel(n)
        if n is not None and n.k == "DeclRefExpr" and n.get("dk") == "parm":
            for i, p in enumerate(n.fn.params):
                if p["vid"] == n.get("vid"):
                    return "CONST$p%d" % i
        return const_of(n)

    def controlled(self, body):
        out = set()
        fn = body.fn
        ids = {x.i for x in body.walk()}
        for t, v, st in assigns(fn):
            if st.i not in ids:
                continue
            if v is None:
                continue
            c = self.rhs_descr(v)
            for d in self.target(t, None):
                if d.startswith("$l"):
                    continue
                out.add(d + ("=" + c if c else ""))
        for n in body.walk():
            if n.is_call() and not (n.op and n.op.endswith("=")):
                for g in self.P.targets(n):
                    k = ("ctl", g.key)
                    if k in self.active or not g.file.startswith("src/"):
                        continue
                    self.active.add(k)
                    try:
                        out |= self.map_back({d for d in self.controlled(g.body)}, n)
                    finally:
                        self.active.discard(k)
        return out

    def dests(self, n):
        """n: an expression node holding the value"""
        key = ("n", n.fn.key, n.i)
        if key in self.active:
            return set()
        self.active.add(key)
        try:
            return self._dests(n)
        finally:
            self.active.discard(key)

    def _dests(self, n):
        out = set()
        c, p = n, n.p
        while p is not None:
            if p.k == "IfStmt" and c.r == "cond":
                t = p.role("then") if self.control else None
                return out | (self.controlled(t) if t is not None else set())
            if p.k == "ConditionalOperator":
                c, p = p, p.p
                continue
            if p.k.endswith("CastExpr") or p.k == "ParenExpr" or p.k == "InitListExpr":
                c, p = p, p.p
                continue
            if p.k == "UnaryOperator" and p.op in ("&", "*", "!", "-", "+"):
                c, p = p, p.p
                continue
            if p.k in ("BinaryOperator", "CompoundAssignOperator"):
                if p.op.endswith("=") and p.op not in ("==", "!=", "<=", ">="):
                    if c is p.c[1]:
                        out |= self.store(p.c[0], p)
                    return out
                c, p = p, p.p
                continue
            if p.k == "CXXOperatorCallExpr" and p.op == "=":
                if len(p.args) > 1 and c is p.args[1]:
                    out |= self.store(p.args[0], p)
                return out
            if p.k == "CXXOperatorCallExpr" and p.op in ("==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "->", "[]"):
                c, p = p, p.p
                continue
            if p.k == "VarDecl":
                out |= self.var(p.fn, p.get("vid"))
                return out
            if p.k == "ReturnStmt":
                # value returned: continue at every call site
                out.add("$ret")
                return out
            if p.k == "MemberExpr":
                c, p = p, p.p
                continue
            if p.is_call() or p.k in CTORS:
                if p.k == "CXXMemberCallExpr" and c.r == "obj":
                    nm = p.q.split("::")[-1]
                    if nm in ("Get", "value", "get", "c_str", "data", "str", "size", "begin", "end") or "operator" in p.q or \
                            nm in ("empty", "defined", "isDefault", "length"):
                        c, p = p, p.p
                        continue
                    return out
                if p.is_call() and p.q.split("::")[-1] == "operator<<":
                    return out
                if p.q in PEEL_CALLS:
                    c, p = p, p.p
                    continue
                if p.k in CTORS and (p.get("copy") or p.get("move")):
                    c, p = p, p.p
                    continue
                args = p.args
                idx = [i for i, a in enumerate(args) if a is c]
                if not idx:
                    return out
                i = idx[0]
                qn = "::" + re.sub(r"<[^<>]*>", "", p.q)
                for sk in self.sinks:
                    if qn.endswith(sk):
                        out.add("%s#%d" % (sk[2:], i))
                        return out
                ts = self.P.targets(p)
                if p.k == "CXXOperatorCallExpr":
                    return out
                ts = [g for g in ts if g.file.startswith(("src/", "gen/"))]
                if not ts or p.k in CTORS and not any(self.stores_param(g, i) for g in ts):
                    if p.k in CTORS:
                        c, p = p, p.p      # value wrapped in an object
                        continue
                    out.add("call %s#%d" % (p.q.split("::")[-1], i))
                    c, p = p, p.p
                    if re.match(r"(std::(max|min|to_string|abs)|.*to_int10)", c.q):
                        continue
                    return out
                sub = set()
                wrap = p.k in CTORS and re.search(r"(StringPiece|Cfg<.*>|basic_string<char>|vector<.*>)$", p.t)
                if wrap:
                    c, p = p, p.p
                    continue
                for g in ts:
                    d = self.param(g, i)
                    if g.is_ctor:
                        for x, e in g.inits:
                            if e is None or "m" not in x:
                                continue
                            if any(y.k == "DeclRefExpr" and y.get("vid") == g.params[i]["vid"] for y in e.walk()):
                                q = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", x["q"]))
                                q = q.replace("(anonymous namespace)::", "")
                                d.add("::".join(q.split("::")[-2:]))
                    sub |= d
                back = self.map_back({d for d in sub if d != "$ret"}, p)
                out |= back
                if "$ret" in sub:
                    c, p = p, p.p
                    continue
                return out
            return out
        return out

    def stores_param(self, g, i):
        if i >= len(g.params):
            return False
        vid = g.params[i]["vid"]
        for x, e in g.inits:
            if e is not None and any(y.k == "DeclRefExpr" and y.get("vid") == vid for y in e.walk()):
                return True
        return bool(self.param(g, i))

    def store(self, tgt, st):
        out = set()
        for d in self.target(tgt, None):
            if d.startswith("$l"):
                out |= self.var(st.fn, int(d[2:]))
            else:
                out.add(d)
        return out

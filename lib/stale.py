"""Is state left by an earlier episode read by a later one?  Interprocedural must-define-before-use of object fields.

A field key is the qualified name of the field.  A function has a summary: the fields it defines on every path to its
normal exit, and the reads of fields that some path from its entry reaches without a definition."""
from dfl import *
from vflow import leaf_field

DEFINE = {"clear", "reset", "assign", "clear_no_resize", "SetString", "Clear", "Reset"}
READONLY_OK = {"capacity", "reserve", "shrink_to_fit", "get_allocator"}
SWAPS = {"std::swap", "std::getline"}


def fkey(n):
    q = n.q
    while True:
        r = re.sub(r"<[^<>]*>", "", q)
        if r == q:
            return r
        q = r


def root_of(n):
    """what object an access path starts from: 'this', 'parm', 'local' (an object living here), 'ref', 'other'"""
    n = peel(n)
    depth = 0
    while n is not None and depth < 40:
        depth += 1
        if n.k == "MemberExpr" and n.c:
            n = peel(n.c[0])
        elif n.k == "CXXMemberCallExpr" and n.obj is not None:
            n = peel(n.obj)
        elif n.k == "CXXOperatorCallExpr" and n.args:
            n = peel(n.args[0])
        elif n.k == "ArraySubscriptExpr":
            n = peel(n.c[0])
        else:
            break
    if n is None:
        return "other"
    if n.k == "CXXThisExpr":
        return "this"
    if n.k == "DeclRefExpr":
        if n.get("dk") == "local":
            t = n.get("dt") or n.t
            for x in n.fn.all_nodes():
                if x.k == "VarDecl" and x.get("vid") == n.get("vid"):
                    t = x.t
                    break
            return "ref" if t.rstrip().endswith(("&", "*")) else "local"
        return "parm" if n.get("dk") == "parm" else "other"
    return "other"


class Stale:
    def __init__(self, P, keys, scope=("src/",), scratch=(), skip_virtual=()):
        """keys: the tracked field keys"""
        self.P = P
        self.keys = keys
        self.scope = scope
        self.scratch = scratch            # fixed size work buffers: giving them a size starts their use
        self.skip_virtual = skip_virtual
        self.memo = {}
        self.active = set()
        self.owner = defaultdict(set)     # class -> fields
        for k in keys:
            self.owner[k.rsplit("::", 1)[0]].add(k)
        self.count = 0

    def ops(self, n):
        """(reads, defs, callees) of one evaluated node"""
        rd, df, cs = [], [], []
        if is_field(n):
            k = fkey(n)
            if k in self.keys and root_of(n) != "local":
                role = self.role(n)
                if role == "read":
                    rd.append((k, n))
                elif role == "def" and n.p is not None and not self.deferred(n):
                    df.append(k)
        if n.is_call() or n.k in CTORS:
            for t in self.deftargets(n):
                if t is not None and is_field(t) and root_of(t) != "local":
                    k = fkey(t)
                    if k in self.keys:
                        df.append(k)
            skip = False
            o = n.obj
            if o is not None and root_of(o) == "local" and o.t:
                c = re.sub(r"<.*", "", o.t.replace("const ", ""))
                if any(x.startswith(c) for x in self.owner):
                    skip = True
            if n.k in CTORS:
                skip = True
            if not skip:
                if not any(x in n.q for x in self.skip_virtual):
                    cs = [g for g in self.P.targets(n) if g.file.startswith(self.scope)]
        elif n.k in ("BinaryOperator",) and n.op == "=":
            t = peel(n.c[0])
            if is_field(t) and root_of(t) != "local":
                k = fkey(t)
                if k in self.keys:
                    df.append(k)
        return rd, df, cs

    def deftargets(self, n):
        if n.k == "CXXOperatorCallExpr" and n.op == "=" and n.args:
            yield peel(n.args[0])
        elif n.k == "CXXMemberCallExpr":
            m = n.q.split("::")[-1]
            if (m in DEFINE or m == "operator=" or m == "resize" and self.is_scratch(n.obj)) and n.obj is not None:
                yield self.direct(n.obj)
        if n.q in SWAPS or n.q.split("<")[0] in SWAPS:
            for a in n.args:
                yield peel(a)
        for a in n.args:
            x = a
            while x.k.endswith("CastExpr") or x.k == "ParenExpr":
                x = x.c[0]
            if x.k == "UnaryOperator" and x.op == "&":
                f = peel(x)
                ts = self.P.targets(n)
                if is_field(f):
                    yield f

    def direct(self, n):
        """the field an object expression denotes, through -> of a smart pointer"""
        n = peel(n)
        if n is not None and n.k == "CXXOperatorCallExpr" and n.op in ("->", "*") and n.args:
            n = peel(n.args[0])
        return alias(n)

    def is_scratch(self, n):
        n = self.direct(n) if n is not None else None
        return is_field(n) and "::".join(fkey(n).split("::")[-2:]) in self.scratch

    def deferred(self, n):
        return True

    def role(self, n):
        """how the value of a field access is used: 'def' when it is (re)initialised, 'nav', 'read'"""
        c, p = n, n.p
        while p is not None:
            if p.k == "ImplicitCastExpr" and p.get("ck") in (None, "NoOp", "UncheckedDerivedToBase", "DerivedToBase"):
                c, p = p, p.p
                continue
            if p.k == "ParenExpr":
                c, p = p, p.p
                continue
            break
        if p is None:
            return "read"
        if p.k == "BinaryOperator" and p.op == "=" and c is p.c[0]:
            return "def"
        if p.k == "CXXOperatorCallExpr" and p.op == "=" and p.args and c is p.args[0]:
            return "def"
        if p.k == "CXXOperatorCallExpr" and p.op == "->":
            q = p.p
            while q is not None and q.k.endswith("CastExpr"):
                q = q.p
            if q is not None and q.k == "CXXMemberCallExpr" and q.q.split("::")[-1] in DEFINE:
                return "def"
        if p.k == "CXXMemberCallExpr" and c.r == "obj":
            m = p.q.split("::")[-1]
            if m in DEFINE or m == "operator=" or m == "resize" and self.is_scratch(n):
                return "def"
            if m in READONLY_OK:
                return "nav"
        if p.is_call() and (p.q in SWAPS or p.q.split("<")[0] in SWAPS):
            return "def"
        if p.k == "UnaryOperator" and p.op == "&":
            q = p.p
            while q is not None and q.k.endswith("CastExpr"):
                q = q.p
            if q is not None and q.is_call():
                return "def"
            if q is not None and (q.k in CTORS or q.k in ("VarDecl", "InitListExpr", "ReturnStmt")):
                return "nav"
        if p.k == "VarDecl" and p.t.rstrip().endswith("&"):
            return "nav"
        return "read"

    def summary(self, f):
        if f.key in self.memo:
            return self.memo[f.key]
        if f.key in self.active or f.cfg is None:
            return frozenset(), ()
        self.active.add(f.key)
        try:
            r = self._summary(f)
        finally:
            self.active.discard(f.key)
        self.memo[f.key] = r
        return r

    def _summary(self, f):
        cfg = f.cfg
        self.count += 1
        gen, blocks = {}, {}
        evs = {}
        for b in cfg.b.values():
            if b.id not in cfg.reach:
                continue
            lst = []
            el = [e for e in b.e]
            last = {}
            for i, e in enumerate(el):
                if isinstance(e, int):
                    last[e] = i
            for i, e in enumerate(el):
                if not isinstance(e, int) or last[e] != i:
                    continue
                n = f.nodes.get(e)
                if n is None:
                    continue
                rd, df, cs = self.ops(n)
                for k, x in rd:
                    lst.append(("r", k, x))
                if cs:
                    sums = [self.summary(g) for g in cs]
                    for s in sums:
                        for k, chain in s[1]:
                            lst.append(("r", k, (n,) + chain if isinstance(chain, tuple) else (n, chain)))
                    must = frozenset.intersection(*[s[0] for s in sums])
                    for k in must:
                        lst.append(("d", k, n))
                for k in df:
                    lst.append(("d", k, n))
            evs[b.id] = lst
        IN = {}
        work = [cfg.entry]
        IN[cfg.entry] = frozenset()
        while work:
            b = work.pop()
            s = set(IN[b])
            for e in evs.get(b, ()):
                if e[0] == "d":
                    s.add(e[1])
            s = frozenset(s)
            for t in cfg.b[b].s:
                if t < 0 or t not in cfg.reach:
                    continue
                new = s if t not in IN else IN[t] & s
                if t not in IN or new != IN[t]:
                    IN[t] = new
                    work.append(t)
        reads = {}
        for b, lst in evs.items():
            if b not in IN:
                continue
            s = set(IN[b])
            for e in lst:
                if e[0] == "d":
                    s.add(e[1])
                elif e[1] not in s:
                    reads.setdefault((e[1], self.site(e[2])), (e[1], e[2] if isinstance(e[2], tuple) else (e[2],)))
        # normal exit: paths that return an error do not count
        out = None
        for b in cfg.b.values():
            if b.id not in IN or cfg.exit not in b.s:
                continue
            if self.error_exit(f, b):
                continue
            s = set(IN[b.id])
            for e in evs.get(b.id, ()):
                if e[0] == "d":
                    s.add(e[1])
            out = frozenset(s) if out is None else out & frozenset(s)
        if out is None:
            out = frozenset(self.keys)
        return out, tuple(reads.values())

    def site(self, c):
        x = c[-1] if isinstance(c, tuple) else c
        return x.loc + str(x.i)

    def error_exit(self, f, b):
        if b.noret:
            return True
        if not f.ret.endswith("Status"):
            return False
        for e in reversed(b.e):
            if isinstance(e, int) and f.nodes[e].k == "ReturnStmt":
                r = f.nodes[e]
                t = {x.q.split("::")[-1] for x in r.walk() if x.is_call()}
                if "Ok" in t:
                    return False
                # the failing half of the return-if-failed idiom
                for x in r.walk():
                    if x.k == "DeclRefExpr" and x.get("n") == "__status__":
                        return True
                if any(x.q.endswith("Status::operator<<") or "operator<<" in x.q for x in r.walk() if x.is_call()):
                    return True
                return bool({"InvalidState", "InvalidParameter", "NotImplemented"} & t)
        return False

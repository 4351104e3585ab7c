"""Is a use of a value only reached after the value was compared?  Path-based guard analysis with calls followed."""
from dfl import *

NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
SWAP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
W64 = re.compile(r"\b(long|size_t|ptrdiff_t|uint64_t|int64_t|u64|i64)\b|\*$")


def relation(a, pol):
    """(left, op, right) which holds when atom a == pol, or None"""
    if a.k == "BinaryOperator" and a.op in NEG:
        l, r = a.c[0], a.c[1]
    elif a.k == "CXXOperatorCallExpr" and a.op in NEG and len(a.args) == 2:
        l, r = a.args
    else:
        return None
    op = a.op if pol else NEG[a.op]
    if constant(l) and not constant(r):
        return r, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), l
    return l, op, r


def constant(n):
    n = peel(n)
    return n is not None and (n.v is not None or n.get("fv") is not None or n.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or
                              n.k == "DeclRefExpr" and n.get("dk") == "enum")


class Val:
    """the value under scrutiny: some fields (Class::field), some local variables, or calls"""

    def __init__(self, fields=(), vids=(), keys=()):
        self.fields = set(fields)
        self.vids = set(vids)
        self.keys = set(keys)

    def direct(self, n):
        n = peel(n)
        if n is None:
            return False
        if is_field(n):
            return n.q in self.fields
        if n.k == "DeclRefExpr":
            if n.get("vid") in self.vids:
                return True
        if self.keys and struct(n) in self.keys:
            return True
        m = alias(n)
        return m is not n and m is not None and is_field(m) and m.q in self.fields

    def is_side(self, n, strict=True):
        """n is the value, possibly with something added which can not wrap around"""
        n = peel(n)
        if n is None:
            return False
        if self.direct(n):
            return True
        if n.k == "BinaryOperator" and n.op in ("+", "*", "-", "/", ">>", "<<"):
            hit = [x for x in n.c if self.is_side(x, strict)]
            if not hit:
                return False
            if not strict or n.op in (">>",):
                return True
            if n.op in ("+", "*", "<<"):
                return bool(W64.search(n.t)) and not W64.search(peel(hit[0]).t or "")
            return False
        d = local_def(n)
        return d is not None and self.is_side(d, strict)

    def into(self, call, f):
        """the same value seen from inside a callee"""
        vids = set()
        for p, a in zip(f.params, call.args):
            if self.direct(a):
                vids.add(p["vid"])
        return Val(self.fields, vids, self.keys)


def local_def(n):
    n = peel(n)
    if n is not None and n.k == "DeclRefExpr" and n.get("dk") == "local":
        d = var_defs(n.fn).get(n.get("vid"), [])
        if len(d) == 1:
            return peel(d[0])
    return None


def calls_in_const(n):
    return peel(n) is not None and peel(n).v is not None


def upper(val, other=None, strict=True):
    """predicate on facts: the value is compared with an upper bound"""
    def chk(a, pol, v):
        r = relation(a, pol)
        if r is None:
            return False
        for l, op, rr in (r, (r[2], SWAP[r[1]], r[0])):
            if op in ("<", "<=", "==") and v.is_side(l, strict) and not v.is_side(rr, False) and (other is None or other(rr)):
                return True
        return False
    return chk, val


def lower(val):
    def chk(a, pol, v):
        r = relation(a, pol)
        if r is None:
            return False
        for l, op, rr in (r, (r[2], SWAP[r[1]], r[0])):
            if op in (">", ">=", "==") and v.is_side(l, False):
                return True
        return False
    return chk, val


def equals_const(val, consts):
    def chk(a, pol, v):
        r = relation(a, pol)
        if r is None:
            return False
        for l, op, rr in (r, (r[2], SWAP[r[1]], r[0])):
            if op == "==" and v.direct(l) and peel(rr) is not None and (peel(rr).v in consts or peel(rr).q.split("::")[-1] in consts):
                return True
        return False
    return chk, val


def any_of(*cs):
    def chk(a, pol, v):
        return any(c(a, pol, v) for c, _ in cs)
    return chk, cs[0][1]


def ret_ok(n):
    """does this return statement report success? True / False / None (decided by an expression)"""
    if not n.c:
        return True
    x = peel(n.c[0])
    while x is not None and x.k in CTORS and len(x.c) == 1:
        x = peel(x.c[0])
    if x is None:
        return True
    if x.k == "CXXBoolLiteralExpr" or x.v is not None and x.t == "bool":
        return bool(x.v)
    if x.is_call() and x.q.endswith("Status::Ok"):
        return True
    if "StatusConstructor" in (x.q or "") or "StatusConstructor" in (x.t or ""):
        return False
    if x.is_call() and x.k != "CXXMemberCallExpr" and re.search(r"Status::(Invalid|NotImpl|Unknown)", x.q or ""):
        return False
    return None


def expand(P, a, pol, check, val, depth):
    """does the fact (a == pol) imply the check, looking through variables and calls"""
    if check(a, pol, val):
        return True
    if depth <= 0:
        return False
    d = local_def(a)
    if d is not None:
        return any(expand(P, x, p, check, val, depth - 1) for x, p in norm_cond(d, pol))
    c = a
    if c.is_call() and c.obj is not None and re.search(r"::(operator bool|isOk)$", c.q):
        o = peel(c.obj)
        c = local_def(o) or o
        while c is not None and c.k in CTORS and len(c.c) == 1:
            c = peel(c.c[0])
        if c is None or not pol:
            return False
    if c.is_call() and pol:
        return callee_implies(P, c, check, val, depth - 1)
    return False


def callee_implies(P, call, check, val, depth):
    """every successful return of the callee has passed the check"""
    ts = [t for t in P.targets(call) if t.cfg is not None and t.body is not None]
    if not ts or depth <= 0:
        return False
    for f in ts:
        v = val.into(call, f)
        rets = [n for n in f.all_nodes() if n.k == "ReturnStmt"]
        if not rets:
            return False
        for r in rets:
            ok = ret_ok(r)
            if ok is False:
                continue
            if ok is None and r.c and any(expand(P, x, p, check, v, depth) for x, p in norm_cond(r.c[0], True)):
                continue
            if not guarded(P, f, r, (check, v), depth):
                return False
    return True


def guarded(P, fn, node, checkval, depth=3):
    """no path from the entry of fn to node avoids the check"""
    check, val = checkval
    cfg = fn.cfg
    if cfg is None:
        return False
    w = cfg.where(node)
    k = node
    while w is None and k.p is not None:
        k = k.p
        w = cfg.where(k)
    if w is None:
        w = first_inside(cfg, node)
    if w is None:
        return False
    seen = {cfg.entry}
    st = [cfg.entry]
    memo = {}
    while st:
        x = st.pop()
        if x == w[0]:
            return False
        b = cfg.b[x]
        for i, s in enumerate(b.s):
            if s < 0 or s in seen:
                continue
            if b.cond is not None and len(b.s) == 2:
                kk = (x, i)
                if kk not in memo:
                    memo[kk] = any(expand(P, a, p, check, val, depth)
                                   for a, p in branch_facts(fn.nodes[b.cond], i == 0))
                if memo[kk]:
                    continue
            seen.add(s)
            st.append(s)
    return True


def first_inside(cfg, node):
    for x in node.walk():
        w = cfg.where(x)
        if w is not None:
            return w
    return None


def fails_on(P, fn, pred, depth=2):
    """some branch on a fact satisfying pred(atom, pol) leads to nothing but failing returns"""
    cfg = fn.cfg
    out = []
    if cfg is None:
        return out
    rets = {}
    for n in fn.all_nodes():
        if n.k == "ReturnStmt":
            w = cfg.where(n) or first_inside(cfg, n)
            if w:
                rets.setdefault(w[0], []).append(n)
    for b in cfg.b.values():
        if b.cond is None or len(b.s) != 2:
            continue
        for i, s in enumerate(b.s):
            if s < 0:
                continue
            c = fn.nodes[b.cond]
            atoms = branch_facts(c, i == 0)
            d = local_def(c)
            if d is not None:
                atoms += branch_facts(d, i == 0)
            if not any(pred(a, p) for a, p in atoms):
                continue
            seen, st, good = {s}, [s], False
            while st and not good:
                x = st.pop()
                for r in rets.get(x, ()):
                    if ret_ok(r) is not False:
                        good = True
                if x in rets:
                    continue
                for y in cfg.b[x].s:
                    if y >= 0 and y not in seen:
                        seen.add(y)
                        st.append(y)
            if not good and any(x in rets for x in seen):
                out.append((b, i))
    return out

"""Small dataflow helpers shared by the rules."""
from collections import defaultdict
from model import *

PEEL_CALLS = {"std::move", "std::forward", "std::ref", "std::cref", "std::addressof"}


def peel(n):
    """strip casts, copies, moves, conversion operators: the expression the value comes from"""
    while n is not None:
        if n.k.endswith("CastExpr") and n.c:
            n = n.c[0]
        elif n.k in CTORS and len(n.c) == 1 and (n.get("copy") or n.get("move")):
            n = n.c[0]
        elif n.is_call() and n.q in PEEL_CALLS and n.args:
            n = n.args[0]
        elif n.k == "CXXMemberCallExpr" and "::operator " in n.q and not n.args:
            n = n.obj            # conversion operator
        elif n.k == "UnaryOperator" and n.op in ("&", "*", "+"):
            n = n.c[0]
        elif n.k == "ParenExpr" and n.c:
            n = n.c[0]
        else:
            return n
    return n


def is_field(n):
    return n is not None and n.k == "MemberExpr" and n.get("fld")


def var_defs(fn):
    """vid -> [value nodes assigned to it anywhere in the function]"""
    d = fn.__dict__.get("_vdefs")
    if d is None:
        d = defaultdict(list)
        for n in fn.all_nodes():
            if n.k == "VarDecl" and n.c:
                d[n.get("vid")].append(n.c[0])
            elif n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and \
                    n.op not in ("==", "!=", "<=", ">="):
                l = peel(n.c[0])
                if l.k == "DeclRefExpr" and l.get("vid") is not None:
                    d[l.get("vid")].append(n.c[1])
            elif n.k == "CXXOperatorCallExpr" and n.op == "=" and len(n.args) == 2:
                l = peel(n.args[0])
                if l.k == "DeclRefExpr" and l.get("vid") is not None:
                    d[l.get("vid")].append(n.args[1])
        fn._vdefs = d
    return d


def lambda_owner(P):
    o = P.__dict__.get("_lamown")
    if o is None:
        o = {}
        for f in P.fns.values():
            for n in f.all_nodes():
                if n.k == "LambdaExpr" and n.get("fn") in P.fns:
                    o[n.get("fn")] = (f, n)
        P._lamown = o
    return o


def sources(n, depth=4, seen=None):
    """leaf nodes (fields, params, calls, literals, ...) whose value may flow into n, through local variables"""
    seen = set() if seen is None else seen
    n = peel(n)
    if n is None or n.i in seen:
        return []
    seen.add(n.i)
    if n.k == "DeclRefExpr" and n.get("vid") is not None and n.get("dk") == "local" and depth > 0:
        defs = var_defs(n.fn).get(n.get("vid"), [])
        out = []
        for d in defs:
            out += sources(d, depth - 1, seen)
        return out or [n]
    if n.k == "ConditionalOperator":
        return sources(n.c[1], depth, seen) + sources(n.c[2], depth, seen)
    if n.k in CTORS and len(n.c) == 1:
        return sources(n.c[0], depth, seen)
    if n.k == "InitListExpr" and len(n.c) == 1:
        return sources(n.c[0], depth, seen)
    if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ("+", "-", "*", "/", "&", "|", "%", "<<", ">>"):
        return sources(n.c[0], depth, seen) + sources(n.c[1], depth, seen)
    return [n]


def assigns(fn):
    """(target node, value node or None, stmt) of every assignment/increment in fn"""
    for n in fn.all_nodes():
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and \
                n.op not in ("==", "!=", "<=", ">="):
            yield n.c[0], n.c[1], n
        elif n.k == "CXXOperatorCallExpr" and n.op in ("=", "+=", "-=", "|=", "&=", "*=") and n.args:
            yield n.args[0], n.args[1] if len(n.args) > 1 else None, n
        elif n.k == "UnaryOperator" and n.op in ("++", "--"):
            yield n.c[0], None, n
        elif n.k == "CXXMemberCallExpr" and n.q.endswith("::operator=") and n.obj is not None:
            yield n.obj, n.args[0] if n.args else None, n


def field_chain(n):
    """a.b.c -> ['c','b','a'] member names and the root node"""
    out = []
    n = peel(n)
    while is_field(n):
        out.append(n.m)
        n = peel(n.c[0]) if n.c else None
    return out, n


def enclosing(n, kinds):
    p = n.p
    while p is not None:
        if p.k in kinds:
            return p
        p = p.p
    return None


def controlling(n):
    """conditions (cond node, polarity) of the if/while/?: statements n is nested in"""
    out = []
    c = n
    p = n.p
    while p is not None:
        if p.k == "IfStmt" and c.r in ("then", "else"):
            out.append((p.role("cond"), c.r == "then"))
        elif p.k in ("WhileStmt", "ForStmt") and c.r == "body" and p.role("cond") is not None:
            out.append((p.role("cond"), True))
        elif p.k == "ConditionalOperator" and c is not p.c[0]:
            out.append((p.c[0], c is p.c[1]))
        elif p.k == "BinaryOperator" and p.op in ("&&", "||") and c is p.c[1]:
            out.append((p.c[0], p.op == "&&"))
        c, p = p, p.p
    for c, pol in list(out):
        x = c
        while x is not None and x.c and (x.k == "UnaryOperator" and x.op == "!" or x.k == "ParenExpr" or x.k.endswith("CastExpr")):
            if x.k == "UnaryOperator":
                pol = not pol
            x = x.c[0]
        if x is not None and x.k == "DeclRefExpr" and x.get("dk") == "local" and (x.t or "").replace("const ", "") == "bool":
            d = var_defs(x.fn).get(x.get("vid"), [])
            if len(d) == 1:
                out.append((d[0], pol))
    return out


def edges_to(fn, node):
    """branch facts that hold whenever node executes: [(cond node, True/False)] by CFG dominance"""
    cfg = fn.cfg
    w = cfg.where(node) if cfg else None
    if w is None:
        return []
    out = []
    for b in cfg.b.values():
        if b.cond is None or len(b.s) != 2 or b.id == w[0] and False:
            continue
        if not cfg.dominates_block(b.id, w[0]):
            continue
        r = []
        for s in b.s:
            r.append(s >= 0 and reaches(cfg, s, w[0], b.id))
        if r[0] and not r[1]:
            out.append((fn.nodes[b.cond], True))
        elif r[1] and not r[0]:
            out.append((fn.nodes[b.cond], False))
    return out


def reaches(cfg, a, b, avoid=None):
    if a == b:
        return True
    seen = {a}
    st = [a]
    while st:
        n = st.pop()
        for s in cfg.b[n].s:
            if s >= 0 and s not in seen and s != avoid:
                if s == b:
                    return True
                seen.add(s)
                st.append(s)
    return False


def branch_facts(c, pol):
    """(atom, polarity) facts which hold on the edge of a CFG block whose condition is c"""
    out = list(norm_cond(c, pol))
    pol2, x = pol, c
    while x is not None:
        if x.k == "UnaryOperator" and x.op == "!":
            pol2, x = not pol2, x.c[0]
        elif x.is_call() and x.q == "__builtin_expect":
            x = x.args[0]
        elif (x.k == "ParenExpr" or x.k.endswith("CastExpr")) and x.c:
            x = x.c[0]
        elif bool_cmp(x) is not None:
            x, same = bool_cmp(x)
            pol2 = pol2 == same
        elif x.k == "BinaryOperator" and x.op in ("&&", "||"):
            x = x.c[1]
            out += list(norm_cond(x, pol2))
        else:
            break
    return out


def bool_cmp(n):
    """n compares a truth value with a constant: (the truth value, whether n holds when it is true)"""
    if n.k != "BinaryOperator" or n.op not in ("==", "!=") or len(n.c) != 2:
        return None
    for a, b in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
        if b.v not in (0, 1, "0", "1", True, False):
            continue
        x = a
        while x.k.endswith("CastExpr") and x.c:
            x = x.c[0]
        if x.v is None and truth(x):
            return x, (n.op == "==") == (int(b.v) == 1)
    return None


def truth(x):
    while x.k.endswith("CastExpr") and x.c:
        x = x.c[0]
    if x.k == "BinaryOperator" and x.op in ("&", "|"):
        return truth(x.c[0]) and truth(x.c[1])
    return (x.t or "").replace("const ", "") == "bool"


def norm_cond(c, pol):
    """push negations in: yields (atom, polarity) facts implied by (c == pol)"""
    c0 = c
    while c0 is not None:
        if c0.k == "UnaryOperator" and c0.op == "!":
            pol = not pol
            c0 = c0.c[0]
            continue
        if c0.is_call() and c0.q == "__builtin_expect":
            c0 = c0.args[0]
            continue
        if c0.k.endswith("CastExpr") and c0.c:
            c0 = c0.c[0]
            continue
        bc = bool_cmp(c0)
        if bc is not None:
            c0, pol = bc[0], pol == bc[1]
            continue
        break
    if c0 is None:
        return
    if c0.k == "BinaryOperator" and (c0.op == "&&" or c0.op == "&" and truth(c0)) and pol:
        yield from norm_cond(c0.c[0], True)
        yield from norm_cond(c0.c[1], True)
        return
    if c0.k == "BinaryOperator" and (c0.op == "||" or c0.op == "|" and truth(c0)) and not pol:
        yield from norm_cond(c0.c[0], False)
        yield from norm_cond(c0.c[1], False)
        return
    yield c0, pol


def struct(n, env=None, depth=0):
    """structural key of an expression, insensitive to names of locals via env (vid -> key)"""
    n = peel(n)
    if n is None:
        return None
    if n.v is not None:
        return ("c", n.v)
    if n.k == "DeclRefExpr":
        if n.get("vid") is not None:
            return ("v", n.get("vid")) if env is None or n.get("vid") not in env else env[n.get("vid")]
        return ("g", n.q)
    if n.k == "MemberExpr":
        return ("f", n.q, struct(n.c[0], env) if n.c else None)
    if n.k == "CXXThisExpr":
        return ("this",)
    if n.k in ("BinaryOperator", "CompoundAssignOperator"):
        return (n.op,) + tuple(struct(x, env) for x in n.c)
    if n.is_call():
        return ("call", n.q or n.op, struct(n.obj, env) if n.obj else None) + tuple(struct(x, env) for x in n.args)
    return (n.k, n.get("s"), n.get("fv")) + tuple(struct(x, env) for x in n.c)


def alias(n, depth=5):
    """peel and look through local references / pointers / single-assignment copies to what they stand for"""
    n = peel(n)
    while depth and n is not None and n.k == "DeclRefExpr" and n.get("dk") == "local" and n.get("vid") is not None:
        d = var_defs(n.fn).get(n.get("vid"), [])
        if len(d) != 1:
            break
        m = peel(d[0])
        if m is None or m.k not in ("DeclRefExpr", "MemberExpr", "CXXThisExpr", "CXXMemberCallExpr", "CallExpr",
                                    "CXXOperatorCallExpr", "ArraySubscriptExpr", "IntegerLiteral"):
            break
        if m.k == "DeclRefExpr" and m.get("vid") == n.get("vid"):
            break
        n = m
        depth -= 1
    return n


def testfile(p):
    return "test" in p.rsplit("/", 1)[-1] or "/testing/" in p


def src_fns(P):
    """functions with a body in the sources of the product"""
    return [f for f in P.fns.values() if f.file.startswith("src/") and not testfile(f.file) and f.body is not None]

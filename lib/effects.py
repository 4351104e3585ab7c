"""Which object does a store go to?  Effects of code on shared objects and on static storage."""
from dfl import *
from vflow import leaf_field

MUTATORS = {"push_back", "emplace_back", "insert", "clear", "resize", "reset", "swap", "append", "assign", "erase",
            "pop_back", "emplace", "reserve", "clear_no_resize", "SetString", "fetch_add", "store", "exchange", "release",
            "shrink_to_fit", "push", "pop"}


def root_path(n, depth=12):
    """(root node, [field nodes from the outside in]) of an access path, through local references"""
    fs = []
    n = peel(n)
    while n is not None and depth:
        depth -= 1
        if n.k == "MemberExpr" and n.get("fld"):
            fs.append(n)
            n = peel(n.c[0]) if n.c else None
        elif n.k == "CXXMemberCallExpr" and n.obj is not None:
            n = peel(n.obj)
        elif n.k == "CXXOperatorCallExpr" and n.args and n.op in ("[]", "->", "*"):
            n = peel(n.args[0])
        elif n.k == "ArraySubscriptExpr":
            n = peel(n.c[0])
        elif n.k == "DeclRefExpr" and n.get("dk") == "local":
            m = alias(n)
            if m is None or m.i == n.i or m.k == "DeclRefExpr" and m.get("vid") == n.get("vid"):
                return n, fs
            if not (decl_type(n) or "").rstrip().endswith(("&", "*")):
                return n, fs
            n = m
        else:
            break
    return n, fs


def decl_type(n):
    for x in n.fn.all_nodes():
        if x.k == "VarDecl" and x.get("vid") == n.get("vid"):
            return x.t
    for p in n.fn.params:
        if p["vid"] == n.get("vid"):
            return p["t"]
    return n.t


def stores(P, f):
    """(statement, target expression) of every store f makes itself: assignments, mutating member calls"""
    for t, v, st in assigns(f):
        yield st, t
    for n in f.calls():
        if n.k == "CXXMemberCallExpr" and n.obj is not None and n.q.split("::")[-1] in MUTATORS:
            o = n.obj
            if not const_type(o.t):
                yield n, o
        elif n.k == "CXXOperatorCallExpr" and n.op in ("++", "--", "<<=", ">>=", "^=") and n.args:
            yield n, n.args[0]


def const_type(t):
    return bool(re.match(r"const ", t or ""))


def is_static_ref(n):
    return n is not None and n.k in ("DeclRefExpr", "MemberExpr") and n.get("dk") in (
        "static", "global", "staticlocal", "var", "tls")

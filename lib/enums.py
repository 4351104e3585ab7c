"""Enum dispatch: under which enumerators does a node execute, which enumerators does a dispatch handle."""
from dfl import *


def enum_of(n, enum):
    n = peel(n)
    if n is not None and n.k == "DeclRefExpr" and n.get("dk") == "enum":
        p = n.q.split("::")
        if len(p) >= 2 and (enum is None or p[-2] == enum):
            return p[-1]
    return None


def case_regions(fn, sw):
    """{label value node: set of block ids executed from that case until the switch ends}"""
    cfg = fn.cfg
    out = []
    for b in cfg.b.values():
        if b.label is None:
            continue
        lab = fn.nodes.get(b.label)
        if lab is None or lab.k not in ("CaseStmt", "DefaultStmt"):
            continue
        s = enclosing(lab, {"SwitchStmt"})
        if s is not sw:
            continue
        seen = {b.id}
        st = [b.id]
        inside = {x.i for x in sw.walk()}
        while st:
            x = st.pop()
            for y in cfg.b[x].s:
                if y >= 0 and y not in seen:
                    blk = cfg.b[y]
                    els = [e for e in blk.e if isinstance(e, int)]
                    if els and not any(e in inside for e in els):
                        continue
                    if not els and y == cfg.exit:
                        continue
                    seen.add(y)
                    st.append(y)
        out.append((lab, seen))
    return out


def under_enum(fn, node, enum):
    """enumerators of `enum` under whose test the node executes (switch cases or == comparisons)"""
    cfg = fn.cfg
    res = set()
    if cfg is None:
        return res
    w = cfg.where(node)
    if w is None:
        return res
    for sw in fn.body.walk():
        if sw.k == "SwitchStmt":
            # only if node is inside the switch
            if not node.inside(sw):
                continue
            for lab, blocks in case_regions(fn, sw):
                if w[0] in blocks and lab.k == "CaseStmt":
                    e = enum_of(lab.role("lhs"), enum)
                    if e:
                        res.add(e)
    for c, p in edges_to(fn, node):
        for a, pol in norm_cond(c, p):
            if a.k == "BinaryOperator" and a.op == "==" and pol or a.k == "BinaryOperator" and a.op == "!=" and not pol:
                for x in a.c:
                    e = enum_of(x, enum)
                    if e:
                        res.add(e)
            if a.k == "CXXOperatorCallExpr" and a.op in ("==",) and pol:
                for x in a.args:
                    e = enum_of(x, enum)
                    if e:
                        res.add(e)
    return res

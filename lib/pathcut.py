"""Which elements of a function can execute after a point when some branch edges can not be taken."""
from dfl import *


def edge_facts(f, bid, i):
    """facts (atom, polarity) on edge i of block bid, looking through variables and fields which carry a condition"""
    b = f.cfg.b[bid]
    if b.cond is None or len(b.s) != 2:
        return []
    return expand(f, branch_facts(f.nodes[b.cond], i == 0))


def expand(f, facts, depth=2):
    out = list(facts)
    todo = list(facts)
    for _ in range(depth):
        more = []
        for a, p in todo:
            x = strip(a)
            d = carried(f, x)
            if d is not None:
                more += branch_facts(d, p)
        out += more
        todo = more
    return out


def strip(n):
    while n is not None and (n.k == "ParenExpr" or n.k.endswith("CastExpr")) and n.c:
        n = n.c[0]
    return n


def carried(f, x):
    """the only value a boolean variable, *pointer or field is given in the function"""
    if x is None:
        return None
    if x.k == "DeclRefExpr" and x.get("dk") == "local":
        ds = var_defs(f).get(x.get("vid"), [])
        return ds[0] if len(ds) == 1 else None
    if is_field(x) and (x.t or "").replace("const ", "") == "bool":
        ds = [v for t, v, s in assigns(f) if is_field(strip(t)) and strip(t).q == x.q]
        return ds[0] if len(ds) == 1 else None
    return None


def place(cfg, n):
    w = cfg.where(n)
    while w is None and n.p is not None:
        n = n.p
        w = cfg.where(n)
    return w


def case_values(f, bid, i):
    """(condition of the switch, values which lead along edge i, [] for default) or None"""
    b = f.cfg.b[bid]
    if not isinstance(b.term, int) or f.nodes[b.term].k != "SwitchStmt":
        return None
    sw = f.nodes[b.term]
    cond = next((c for c in sw.c if c.r == "cond"), None)
    s = b.s[i]
    vals = []
    if s >= 0 and f.cfg.b[s].label is not None:
        l = f.nodes.get(f.cfg.b[s].label) if isinstance(f.nodes, dict) else f.nodes[f.cfg.b[s].label]
        while l is not None and l.k == "CaseStmt":
            vals += [c for c in l.c if c.r == "lhs"]
            l = next((c for c in l.c if c.r == "body"), None)
    return cond, vals


def after(f, start, cut=None, stop=None, memo=None, case=None):
    """ids of the elements which can execute after start (None: from the entry), never taking an edge with a fact
    accepted by cut, nor going past an element accepted by stop; 'exit' when the exit is reached"""
    cfg = f.cfg
    if start is None:
        bid, idx = cfg.entry, 0
    else:
        w = place(cfg, start)
        if w is None:
            return set()
        bid, idx = w[0], w[1] + 1
        el = cfg.b[bid].e                 # an element can be listed twice (the call and its temporary)
        while el[w[1]] in el[idx:]:
            idx += 1
    out = set()
    memo = {} if memo is None else memo

    def run(b, i0):
        for e in cfg.b[b].e[i0:]:
            if isinstance(e, int):
                out.add(e)
                if stop is not None and stop(f.nodes[e]):
                    return False
        return True

    seen, st = set(), []

    def push(b):
        blk = cfg.b[b]
        for i, s in enumerate(blk.s):
            if s < 0 or s in seen:
                continue
            if case is not None:
                cv = case_values(f, b, i)
                if cv is not None and case(cv[0], cv[1]):
                    continue
            if cut is not None:
                k = (b, i)
                if k not in memo:
                    memo[k] = any(cut(a, p) for a, p in edge_facts(f, b, i))
                if memo[k]:
                    continue
            seen.add(s)
            st.append(s)

    if run(bid, idx):
        push(bid)
    while st:
        x = st.pop()
        if x == cfg.exit:
            out.add("exit")
            continue
        if run(x, 0):
            push(x)
    return out


def executes(ids, n, f=None):
    """is n (or the element it is evaluated in) among the executed elements"""
    cfg = n.fn.cfg
    w = place(cfg, n)
    if w is None:
        return any(x.i in ids for x in n.walk())
    return cfg.b[w[0]].e[w[1]] in ids


def loop_head(f, bid):
    """header of the innermost natural loop block bid belongs to"""
    cfg = f.cfg
    best = None
    for b in cfg.b.values():
        for h in b.s:
            if h >= 0 and cfg.dominates_block(h, b.id) and cfg.dominates_block(h, bid) and (bid == b.id or reaches(cfg, bid, b.id, h) or bid == h):
                if best is None or cfg.dominates_block(best, h):
                    best = h
    return best

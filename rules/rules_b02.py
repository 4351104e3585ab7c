"""B02: reading UTF-8, CSV and numbers never leaves the text and accepts no broken UTF-8."""
import re
from cursor import *
import rules_b01

LEAD = {1: set(range(0, 0x80)), 2: set(range(0xC0, 0xE0)), 3: set(range(0xE0, 0xF0)), 4: set(range(0xF0, 0xF8))}
CONT = set(range(0x80, 0xC0))


def narrow(x, t):
    """value after storing it in a variable of one byte"""
    t = re.sub(r"\bconst\b|[&\s]", "", t or "")
    if x is None or t not in ("char", "signedchar", "int8_t", "i8", "unsignedchar", "u8", "uint8_t") and not t.endswith("::i8"):
        return x
    x &= 255
    return x - 256 if x > 127 and t in ("char", "signedchar", "int8_t", "i8") else x


def strip1(n):
    while n is not None and n.c and (n.k in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "ConstantExpr", "MaterializeTemporaryExpr")):
        n = n.c[0]
    return n


def ev(n, b, key, env=None, depth=6):
    """value of an expression when the byte read at the cursor is b; None when it depends on something else"""
    if n is not None and n.k in ("CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr") and n.c and n.v is None:
        return narrow(ev(n.c[-1], b, key, env, depth), n.t)
    n = strip1(n)
    if n is not None and n.k in ("CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr") and n.c and n.v is None:
        return narrow(ev(n.c[-1], b, key, env, depth), n.t)
    if n is None or depth < 0:
        return None
    if n.v is not None and not isinstance(n.v, str):
        return int(n.v)
    if n.k == "UnaryOperator" and n.op == "*":
        l = lin(n.c[0])
        return narrow(b, n.t) if l is not None and not l[1] and not l[2] and (key is None or l[0] == key) else None
    if n.k == "ArraySubscriptExpr" and strip(n.c[1]).v == 0:
        return narrow(b, n.t)
    if n.k == "UnaryOperator" and n.op in ("~", "!", "-", "+"):
        x = ev(n.c[0], b, key, env, depth)
        if x is None:
            return None
        return {"~": ~x, "!": int(not x), "-": -x, "+": x}[n.op]
    if n.k == "BinaryOperator" and len(n.c) == 2:
        x, y = ev(n.c[0], b, key, env, depth), ev(n.c[1], b, key, env, depth)
        if n.op == "&&":
            if x == 0 or y == 0:
                return 0
            return int(bool(x and y)) if x is not None and y is not None else None
        if x is None or y is None:
            return None
        f = {"&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "+": lambda: x + y, "-": lambda: x - y,
             "<<": lambda: x << y, ">>": lambda: x >> y, "==": lambda: int(x == y), "!=": lambda: int(x != y),
             "<": lambda: int(x < y), "<=": lambda: int(x <= y), ">": lambda: int(x > y), ">=": lambda: int(x >= y),
             "||": lambda: int(bool(x or y))}.get(n.op)
        return f() if f else None
    if n.k == "DeclRefExpr":
        if env and n.get("vid") in env:
            return ev(env[n.get("vid")], b, key, None, depth - 1)
        ds = var_defs(n.fn).get(n.get("vid"), [])
        return narrow(ev(ds[0], b, key, env, depth - 1), n.t) if len(ds) == 1 and n.get("dk") == "local" else None
    if n.is_call():
        e = simple_return(n.fn.prog, n)
        if e is not None:
            return ev(e, b, key, {p["vid"]: a for p, a in zip(e.fn.params, n.args)}, depth - 1)
    return None


def byteset(atom, pol, key=None):
    """bytes at the cursor for which the atom has the value pol; None when it says something else"""
    out = set()
    for b in range(256):
        v = ev(atom, b, key)
        if v is None:
            return None
        if bool(v) == pol:
            out.add(b)
    return out


def paths(f, limit=400):
    """acyclic paths entry -> exit as lists of (block, edge facts taken before it)"""
    cfg = f.cfg
    out = []

    def go(b, seen, acc):
        if len(out) >= limit:
            return
        if b == cfg.exit:
            out.append(acc)
            return
        blk = cfg.b[b]
        for i, s in enumerate(blk.s):
            if s < 0 or s in seen:
                continue
            facts = branch_facts(f.nodes[blk.cond], i == 0) if blk.cond is not None and len(blk.s) == 2 else []
            go(s, seen | {s}, acc + [(b, facts)])
    go(cfg.entry, {cfg.entry}, [])
    return out


def int_const(n):
    n = strip(n)
    return int(n.v) if n is not None and n.v is not None and not isinstance(n.v, str) else None


def run(P, R):
    fns = src_fns(P)
    R.rule("cursor", "a character is read only where the distance to the end of the text was shown to be enough")
    rules_b01.report(P, R, "cursor", True)
    R.need("cursor", 25)

    # ---- decoder
    R.rule("utf8", "a code point of n bytes is given out only if its first byte announces n and n-1 continuation bytes follow")
    res = rules_b01.results(P)[0]
    for f in fns:
        rt = [n for n in f.all_nodes() if n.k == "ReturnStmt" and n.c and "CodePointInfo" in (n.c[0].t or "")]
        if not rt or not any(bytep(p["t"]) for p in f.params):
            continue
        good = {}
        for path in paths(f):
            ret, consumed, seen = None, 0, {}
            key = ("v", f.params[0]["vid"])
            for b, facts in path:
                for e in f.cfg.b[b].e:
                    if not isinstance(e, int):
                        continue
                    n = f.nodes[e]
                    if n.k == "ReturnStmt":
                        ret = n
                    if n.k == "UnaryOperator" and n.op == "++" and ckey(n.c[0]):
                        consumed += 1
                    elif n.k == "CompoundAssignOperator" and n.op == "+=" and ckey(n.c[0]):
                        consumed += int_const(n.c[1]) or 0
                for a, p in facts:
                    r = relation(a, p)
                    s, at = byteset(a, p), consumed
                    if s is None or s == set(range(256)):
                        # byte at a constant offset
                        s2 = offset_set(a, p)
                        if s2 is None:
                            continue
                        at, s = consumed + s2[0], s2[1]
                    seen[at] = seen[at] & s if at in seen else s
            if ret is None or not ret.c:
                continue
            x = ret.c[0]
            fs = [y for y in x.walk()]
            il = next((y for y in fs if y.k == "InitListExpr"), None)
            k = int_const(il.c[1]) if il is not None and len(il.c) == 2 else None
            if k is None or k == 0:
                continue
            ok = k in LEAD and 0 in seen and seen[0] <= LEAD[k] and all(i in seen and seen[i] <= CONT for i in range(1, k))
            g = good.setdefault(ret.i, [ret, True, k])
            g[1] = g[1] and ok
        for ret, ok, k in good.values():
            R.ob("utf8", ret.loc, ok, "%s|%d" % (f.q, k),
                 "%s accepts a sequence of %d bytes without checking each of them" % (f.where, k))
    R.need("utf8", 3)
    R.rule("utf8-length", "lengths taken from first bytes agree with UTF-8, and text which ends inside a character is an error")
    for f in fns:
        if f.file.endswith(("characters.cc", "characters.h")) and f.name == "numCodepoints":
            for n in f.all_nodes():
                if n.k != "CompoundAssignOperator" or n.op != "+=" or not ckey(n.c[0]):
                    continue
                k = int_const(n.c[1])
                if k is None:
                    continue
                s = set(range(256))
                for c, p in edges_to(f, n):
                    for a, p2 in branch_facts(c, p):
                        t = byteset(a, p2)
                        if t is not None:
                            s &= t
                bad = [b for kk in LEAD for b in LEAD[kk] if kk != k and b in s]
                R.ob("utf8-length", n.loc, not bad, "%s|%d" % (f.q, k),
                     "%s steps by %d over a character which has another length" % (f.where, k))
            cur = Cursor(P, f, {}, set(), {})
            for r in f.all_nodes():
                if r.k != "ReturnStmt" or not r.c:
                    continue
                x = strip(r.c[0])
                for arm in ([x.c[1], x.c[2]] if x is not None and x.k == "ConditionalOperator" else [r.c[0]]):
                    v = int_const(arm)
                    if v is not None and v < 0:
                        continue
                    ok = guarded(P, f, r, (at_end(cur, f), Val()))
                    if arm is not r.c[0]:
                        chk = at_end(cur, f)
                        ok = ok or any(chk(a, p, None) for a, p in branch_facts(x.c[0], arm is x.c[1]))
                    R.ob("utf8-length", r.loc, ok, "%s|tail" % f.q, "%s counts a character which is cut off" % f.where)
    R.need("utf8-length", 3)

    # ---- whole texts
    R.rule("utf8-all", "a text is taken apart into characters only as long as every sequence is valid")
    for f in fns:
        for n in f.calls():
            if not n.q.endswith("chars::getCodepoint") or f.cls.endswith("InputCodepoint"):
                continue
            q = {"jumanpp::chars::CodePointInfo::utf8Length"}

            def bad(a, pol, q=q):
                r = relation(a, pol)
                if r is None:
                    return False
                for l, op, rr in (r, (r[2], SWAP[r[1]], r[0])):
                    c = int_const(rr)
                    if Val(q).direct(l) and (op == "==" and c == 0 or op == "<=" and c == 0 or op == "<" and c == 1):
                        return True
                return False
            ok = bool(fails_on(P, f, bad))

            def fine(a, pol, v, q=q):
                r = relation(a, pol)
                if r is None:
                    return False
                for l, op, rr in (r, (r[2], SWAP[r[1]], r[0])):
                    c = int_const(rr)
                    if Val(q).direct(l) and (op == "!=" and c == 0 or op == ">" and c == 0 or op == ">=" and c == 1):
                        return True
                return False
            uses = [m for m in f.calls() if m.q.split("::")[-1] in ("emplace_back", "push_back")]
            for m in uses:
                ok = ok and rules_b01.after_guarded(P, f, n, m, lambda a, p, v: fine(a, p, v))
            R.ob("utf8-all", n.loc, ok, "%s" % f.q, "%s goes on although the text is not valid UTF-8" % f.where)
    R.need("utf8-all", 1)

    # ---- users of the decoder
    R.rule("length-users", "the result of taking a text apart is tested before its characters are used")
    for f in fns:
        for n in f.calls():
            if not n.q.endswith("chars::preprocessRawData"):
                continue
            if constant_texts(P, f):
                continue
            p = n.p
            while p is not None and (p.k.endswith("CastExpr") or p.k in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXConstructExpr", "CXXBindTemporaryExpr")):
                p = p.p
            used = p is not None and p.k not in ("CompoundStmt", "ForStmt", "CXXForRangeStmt", "IfStmt")
            if p is not None and p.k == "IfStmt":
                used = n.inside(p.role("cond")) if p.role("cond") is not None else False
            if used and p.k == "VarDecl":
                used = any(x.k == "DeclRefExpr" and x.get("vid") == p.get("vid") for x in f.all_nodes())
            R.ob("length-users", n.loc, used, "%s" % f.q, "%s uses a text which may not be valid UTF-8" % f.where)
    R.need("length-users", 4)

    # ---- numbers
    R.rule("digits", "a number is accepted only if all of its characters are digits")
    for f in fns:
        if not f.file.endswith("parse_utils.cc"):
            continue
        for n in f.all_nodes():
            if not (n.k == "BinaryOperator" and n.op == "=" and any(
                    x.k == "BinaryOperator" and x.op == "*" and any(int_const(c) == 10 for c in x.c) for x in n.c[1].walk())):
                continue
            s = set(range(256))
            for c, p in edges_to(f, n):
                for a, p2 in branch_facts(c, p):
                    t = byteset(a, p2)
                    if t is not None:
                        s &= t
            ok = s <= set(range(0x30, 0x3A))
            R.ob("digits", n.loc, ok, "%s" % f.q, "%s takes other characters for digits" % f.where)


def constant_texts(P, f):
    """every caller hands in nothing but string literals"""
    cs = P.callers[f.key]
    for c in cs:
        c = c[1] if isinstance(c, tuple) else c
        ok = bool(c.args)
        for a in c.args:
            ok = ok and any(x.k == "StringLiteral" for x in a.walk()) and not any(
                x.k == "DeclRefExpr" and x.get("dk") in ("local", "param", "parm") for x in a.walk())
        if not ok:
            return False
    return bool(cs)


def offset_set(a, pol):
    """(offset, set of values) of a byte read at a constant offset"""
    for x in a.walk():
        if x.k == "UnaryOperator" and x.op == "*" or x.k == "ArraySubscriptExpr":
            l = lin(x.c[0])
            i = int_const(x.c[1]) if x.k == "ArraySubscriptExpr" else 0
            if l is None or (l[1] + (i or 0)) == 0:
                return None
            out = set()
            for b in range(256):
                v = ev_at(a, b, x)
                if v is None:
                    return None
                if bool(v) == pol:
                    out.add(b)
            return l[1] + (i or 0), out
    return None


def ev_at(n, b, spot):
    n = strip(n)
    if n is None:
        return None
    if n.i == spot.i:
        return b
    if n.v is not None and not isinstance(n.v, str):
        return int(n.v)
    if n.k == "UnaryOperator" and n.op in ("~", "!"):
        x = ev_at(n.c[0], b, spot)
        return None if x is None else (~x if n.op == "~" else int(not x))
    if n.k == "BinaryOperator":
        x, y = ev_at(n.c[0], b, spot), ev_at(n.c[1], b, spot)
        if x is None or y is None:
            return None
        return {"&": x & y, "|": x | y, "^": x ^ y, "==": int(x == y), "!=": int(x != y), "<": int(x < y), "<=": int(x <= y),
                ">": int(x > y), ">=": int(x >= y)}.get(n.op)
    return None


def at_end(cur, f):
    """the cursor is exactly at the end"""
    def chk(a, pol, v):
        r = relation(a, pol)
        if r is None:
            return False
        for l, op, rr in (r, (r[2], SWAP[r[1]], r[0])):
            x = lin(l)
            if x is not None and not x[1] and not x[2] and op in ("==", ">=") and x[0] in cur.U and limkey(rr) in cur.U[x[0]]:
                # >= is also true behind the end
                return op == "=="
        return False
    return chk

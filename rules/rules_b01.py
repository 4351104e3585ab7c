"""B01: decoding and encoding of binary data never leaves the buffer."""
from cursor import *
from vflow import fq

TEXT = re.compile(r"(characters|csv_reader|parse_utils|partial_example|printer|mdic_format|jumandic_ids)[^/]*$|/spec/|format")


READER = re.compile(r"::(StringStorageReader|IntListTraversal|KeyValueListTraversal|IndexedEntries|DicEntryBuffer|"
                    r"DictionaryEntries|StringStorageTraversal|OutputManager)::(read|fill|locate|moveNext|next)\w*$")


def results(P):
    if not hasattr(P, "_cursor"):
        fns = [f for f in src_fns(P) if not f.q.startswith("fmt::")]
        P._cursor = analyse(P, fns)
    return P._cursor


def report(P, R, rule, text):
    res, inv, pairs, needs, reqs = results(P)
    for k, r in res.items():
        f = P.fns[k]
        if bool(TEXT.search(f.file)) != text:
            continue
        cnt = {}
        for i in sorted(r.obl):
            ok, n, what = r.obl[i]
            nm = "%s|%s" % (f.q, what)
            R.ob(rule, n.loc, ok, nm, "%s (%s) %s: on some path nothing compared the position with the end" % (f.q, n.loc, what))


def run(P, R):
    fns = src_fns(P)
    R.rule("cursor", "a byte is read or written only where the distance to the end of the buffer was shown to be enough")
    report(P, R, "cursor", False)
    R.need("cursor", 14)

    # ---- StringPiece
    R.rule("clamp", "parts of a StringPiece end inside the StringPiece")
    for f in fns:
        if f.cls.endswith("::StringPiece") and f.name in ("slice", "from", "take"):
            ptrs = [n for n in f.all_nodes() if n.k == "BinaryOperator" and n.op == "+" and bytep(n.t)]
            for n in ptrs:
                top = n
                ok = False
                while top.p is not None and not ok:
                    top = top.p
                    if top.is_call() and top.q == "std::min":
                        ok = any(is_end(a) for a in top.args)
                    elif top.k == "ConditionalOperator":
                        ok = any(is_end(a) for a in top.c)
                    if top.k in ("ReturnStmt", "VarDecl"):
                        break
                ok = ok or guarded(P, f, n, (cmp_end, Val()))
                R.ob("clamp", n.loc, ok, "%s" % f.q, "%s makes a piece which may end behind the end" % f.where)
    R.need("clamp", 4)

    # ---- lists
    R.rule("list-end", "a list is never read beyond its stored length")
    for c in P.classes.values():
        names = {x["n"] for x in c["fields"]}
        if not any(x["t"].endswith("CodedBufferParser") for x in c["fields"]):
            continue
        ints = {c["q"] + "::" + x["n"] for x in c["fields"] if x["t"] == "int"}
        ln = {q for q in ints if "length" in q.split("::")[-1]}
        if not ln:
            continue
        for f in fns:
            if f.cls != c["q"] or f.is_ctor:
                continue
            reads = [n for n in f.calls() if re.search(r"CodedBufferParser::read", n.q)]
            if not reads:
                continue
            for r in f.all_nodes():
                if r.k != "ReturnStmt" or ret_ok(r) is False:
                    continue
                chk = before_end(ints - ln, ln)
                ok = guarded(P, f, r, (chk, Val(ints - ln)))
                if not ok and r.c:
                    ok = any(chk(a, p, None) for a, p in conj(r.c[0]))
                R.ob("list-end", r.loc, ok, "%s" % f.q, "%s gives out a value although the list may have ended" % f.where)
    R.need("list-end", 2)

    # ---- copying lists to buffers
    R.rule("short-list", "an entry counts as read only if as many values as it has were read")
    for f in fns:
        if f.d.get("ret", f.d.get("t", "")) not in ("bool",) and not any(
                r.k == "ReturnStmt" and r.c and r.c[0].t == "bool" for r in f.all_nodes()):
            continue
        for n in f.calls():
            if not re.search(r"IntListTraversal::fill$", n.q) or len(n.args) != 2:
                continue
            var = n.p
            while var is not None and (var.k.endswith("CastExpr") or var.k in ("ExprWithCleanups",)):
                var = var.p
            vid = var.get("vid") if var is not None and var.k == "VarDecl" else None
            for r in f.all_nodes():
                if r.k != "ReturnStmt" or ret_ok(r) is False or not f.cfg.path_exists(n, {r.i}):
                    continue

                def enough(a, pol, v):
                    rel = relation(a, pol)
                    if rel is None:
                        return False
                    for l, op, rr in (rel, (rel[2], SWAP[rel[1]], rel[0])):
                        l = strip(l)
                        mine = l is not None and (l.i == n.i and l.fn is n.fn or l.k == "DeclRefExpr" and vid is not None and l.get("vid") == vid)
                        if mine and op in (">=", "==", ">") and struct(alias(rr)) == struct(alias(n.args[1])):
                            return True
                    return False
                ok = after_guarded(P, f, n, r, enough)
                if not ok and r.c:
                    ok = any(enough(a, p, None) for a, p in conj(r.c[0]))
                R.ob("short-list", r.loc, ok, "%s" % f.q, "%s succeeds although values of an entry may be missing" % f.where)
    R.need("short-list", 3)
    R.rule("buffer-index", "values read into a buffer stay within the number of values asked for")
    for f in fns:
        if not re.search(r"IntListTraversal::fill", f.q) or len(f.params) != 2:
            continue
        cv = f.params[1]["vid"]
        for n in f.all_nodes():
            ix = None
            if n.k == "ArraySubscriptExpr":
                ix = n.c[1]
            elif n.k == "CXXOperatorCallExpr" and n.op == "[]":
                ix = n.args[1]
            if ix is None:
                continue
            d = strip(ix)
            ok = d is not None and d.k == "DeclRefExpr" and guarded(
                P, f, n, upper(Val((), {d.get("vid")}), lambda x: strip(x) is not None and strip(x).get("vid") == cv, True))
            strictly = d is not None and d.k == "DeclRefExpr" and guarded(P, f, n, (less_than(d.get("vid"), cv), Val()))
            R.ob("buffer-index", n.loc, ok and strictly, "%s" % f.q, "%s stores a value behind the last one asked for" % f.where)

    R.rule("read-result", "the result of reading an entry or a list is tested")
    for f in fns:
        if f.file.startswith("src/core/devtools/"):
            continue
        for n in f.calls():
            if n.t != "bool" or not READER.search(n.q):
                continue
            p = n.p
            while p is not None and p.k in ("ParenExpr", "ExprWithCleanups", "ConstantExpr"):
                p = p.p
            used = not (p is None or p.k in ("CompoundStmt", "ForStmt", "CXXForRangeStmt", "DoStmt", "LabelStmt", "CaseStmt") or
                        p.k in ("IfStmt", "WhileStmt") and n.r != "cond" or p.k.endswith("CastExpr") and p.t == "void")
            if used and p.k == "VarDecl":
                used = any(x.k == "DeclRefExpr" and x.get("vid") == p.get("vid") for x in f.all_nodes())
            R.ob("read-result", n.loc, used, "%s|%s" % (f.q, n.q.split("::")[-1]),
                 "%s ignores whether %s could read anything" % (f.where, n.q))
    R.need("read-result", 30)

    # ---- vectors
    R.rule("vector-size", "memory for a stored vector is reserved only if the rest of the data can hold it")
    for f in fns:
        if not (f.name == "DoSerializeLoad" and "SerializeImpl" in f.cls):
            continue
        for n in f.calls():
            if n.q.split("::")[-1] in ("reserve", "resize", "assign") and n.args:
                a = strip(n.args[0])
                if a is None or a.k != "DeclRefExpr":
                    continue
                v = Val((), {a.get("vid")})
                ok = guarded(P, f, n, upper(v, lambda x: any(y.is_call() and y.q.endswith("::remaining") for y in through(x))))
                R.ob("vector-size", n.loc, ok, "SerializeImpl<vector>|%s" % n.q.split("::")[-1],
                     "%s reserves as much memory as the file says" % f.where)
    R.need("vector-size", 2)

    # ---- pages of strings
    R.rule("page", "a string is put into a page only if the page has place for it")
    for f in fns:
        if "CharBuffer" not in f.cls:
            continue
        pos = [n for n in f.all_nodes() if is_field(n) and n.m == "position_"]
        if f.name == "ensure_size" or any(n.k in ("CXXNewExpr",) for n in f.all_nodes()):
            for r in f.all_nodes():
                if r.k == "ReturnStmt" and ret_ok(r) is not False and f.params:
                    v = Val((), {f.params[0]["vid"]})
                    ok = guarded(P, f, r, upper(v, lambda x: strip(x).v is not None or any("page" in (y.m or y.q or "") for y in x.walk())))
                    R.ob("page", r.loc, ok, "CharBuffer|page size", "%s accepts a string which is larger than a page" % f.where)
                    # either there is place on this page, or the page was changed
                    moved = {st.i for t, vv, st in assigns(f) if is_field(peel(t)) and peel(t).m == "position_"}
                    ok = place_or_new(P, f, r, v, moved)
                    R.ob("page", r.loc, ok, "CharBuffer|rest of page",
                         "%s keeps the page although the string may not fit into its rest" % f.where)
        adv = [n for n in f.all_nodes() if n.k == "CompoundAssignOperator" and n.op == "+=" and is_field(peel(n.c[0])) and
               peel(n.c[0]).m == "position_"]
        for n in adv:
            ok = guarded(P, f, n, (called_true("ensure_size"), Val())) or fits_inline(P, f, n)
            R.ob("page", n.loc, ok, "%s|ensure" % short_cls(f), "%s takes memory of a page without asking for it" % f.where)
    R.need("page", 3)


def short_cls(f):
    return "CharBuffer::" + f.name


def fits_inline(P, f, n):
    return not any(c.q.endswith("ensure_size") for c in f.calls()) and not [
        g for g in P.fns.values() if "CharBuffer" in g.cls and g.name == "ensure_size"]


def called_true(nm):
    def chk(a, pol, v):
        return a.is_call() and pol and a.q.split("::")[-1] == nm
    return chk


def place_or_new(P, f, r, v, moved):
    """every path to r either knows `size - position >= sz` or sets the position"""
    cfg = f.cfg
    w = cfg.where(r)
    seen, st = {cfg.entry}, [cfg.entry]
    while st:
        x = st.pop()
        if any(e in moved for e in cfg.b[x].e if isinstance(e, int)):
            continue
        if x == w[0]:
            return False
        b = cfg.b[x]
        for i, s in enumerate(b.s):
            if s < 0 or s in seen:
                continue
            if b.cond is not None and len(b.s) == 2:
                ok = False
                for a, p in branch_facts(f.nodes[b.cond], i == 0):
                    rel = relation(a, p)
                    if rel is None:
                        continue
                    for l, op, rr in (rel, (rel[2], SWAP[rel[1]], rel[0])):
                        if op in ("<=", "<") and v.is_side(l, False) and any(is_field(y) and y.m == "position_" for y in through(l) + through(rr)):
                            ok = True
                if ok:
                    continue
            seen.add(s)
            st.append(s)
    return True


def through(n, depth=4):
    """nodes of n and of the definitions of its locals"""
    out, seen = [], set()

    def go(x, d):
        for y in x.walk():
            out.append(y)
            if y.k == "DeclRefExpr" and y.get("dk") == "local" and y.get("vid") not in seen and d:
                seen.add(y.get("vid"))
                for z in var_defs(y.fn).get(y.get("vid"), []):
                    go(z, d - 1)
    go(n, depth)
    return out


def is_end(n):
    n = alias(n) or strip(n)
    n = strip(n)
    return n is not None and (n.is_call() and n.q.split("::")[-1] in END or is_field(n) and n.m in ("end_",))


def cmp_end(a, pol, v):
    r = relation(a, pol)
    return r is not None and (is_end(r[0]) or is_end(r[2])) or r is not None and any(
        any(x.is_call() and x.q.split("::")[-1] == "size" for x in s.walk()) for s in (r[0], r[2]))


def less_than(vid, cv):
    def chk(a, pol, v):
        r = relation(a, pol)
        if r is None:
            return False
        for l, op, rr in (r, (r[2], SWAP[r[1]], r[0])):
            l, rr = strip(l), strip(rr)
            if l is not None and rr is not None and l.get("vid") == vid and rr.get("vid") == cv and op in ("<",):
                return True
        return False
    return chk


def conj(n):
    """facts which hold when the expression is true, through locals, && and &"""
    out = []
    n = strip(n)
    if n is None:
        return out
    if n.k == "BinaryOperator" and n.op in ("&&", "&"):
        for c in n.c:
            out += conj(c)
        return out
    d = local_def(n)
    if d is not None:
        return conj(d)
    bc = bool_cmp(n)
    if bc is not None and bc[1]:
        return conj(bc[0])
    return list(norm_cond(n, True))


def before_end(pos, ln):
    """fact: the position was smaller than the length when the value was read"""
    def chk(a, pol, v):
        d = local_def(a)
        if d is not None and relation(a, pol) is None:
            return any(chk(x, p, v) for x, p in conj(d) if pol)
        r = relation(a, pol)
        if r is None:
            return False
        for l, op, rr in (r, (r[2], SWAP[r[1]], r[0])):
            if not Val(ln).direct(rr):
                continue
            if Val(pos).direct(l):
                if op in ("<", "!="):
                    return True
                if op == "<=":
                    incs = [n for t, _, n in assigns(a.fn) if is_field(peel(t)) and peel(t).q in pos]
                    return any(a.fn.cfg.path_exists(n, {a.i}) for n in incs)
            l = strip(l)
            if op == "<=" and l.k == "BinaryOperator" and l.op == "+" and any(Val(pos).direct(x) for x in l.c) and \
                    any((strip(x).v or 0) >= 1 for x in l.c if not Val(pos).direct(x)):
                return True
        return False
    return chk


def after_guarded(P, f, src, dst, pred):
    """every path from src to dst has the fact"""
    cfg = f.cfg
    w0, w1 = cfg.where(src), cfg.where(dst)
    if w0 is None or w1 is None:
        return False
    seen, st = {w0[0]}, [w0[0]]
    while st:
        x = st.pop()
        b = cfg.b[x]
        if x == w1[0]:
            return False
        for i, s in enumerate(b.s):
            if s < 0 or s in seen:
                continue
            if b.cond is not None and len(b.s) == 2:
                c = f.nodes[b.cond]
                at = branch_facts(c, i == 0)
                d = local_def(c)
                if d is not None:
                    at = at + branch_facts(d, i == 0)
                if any(pred(a, p, None) for a, p in at):
                    continue
            seen.add(s)
            st.append(s)
    return True

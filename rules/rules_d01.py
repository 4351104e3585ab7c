"""D01: nothing but the inputs decides the results: clocks, random sources, addresses and hash order do not."""
from dfl import *
from vflow import leaf_field, fq
from effects import is_static_ref, decl_type

BANNED = re.compile(
    r"^(std::)?(rand|srand|random|srandom|rand_r|drand48|lrand48|mrand48|time|clock|gettimeofday|clock_gettime|getpid|"
    r"gettid|getppid|getrandom|getentropy|times|getrusage|gethostname|random_shuffle|get_id)$|"
    r"_clock::now$|std::this_thread::get_id$|std::random_device|thread::hardware_concurrency$|std::thread::get_id$")
# a use of a clock whose value only describes the result
DESCRIPTIVE = {"BuiltDictionary::timestamp"}
OUT_OF_SCOPE = ("src/rnn/legacy", "src/core/devtools", "src/util/logging", "src/util/format")
HASHED = re.compile(r"(std::unordered_\w+<|util::Flat(Map|Set)<|^Flat(Map|Set)<)")
ENGINE = re.compile(r"^(const )?std::(linear_congruential_engine|mersenne_twister_engine|subtract_with_carry_engine|"
                    r"discard_block_engine|shuffle_order_engine|independent_bits_engine)<")


def scope(f):
    return f.file.startswith("src/") and not f.file.startswith(OUT_OF_SCOPE) and "_test" not in f.file and \
        "/benchmarks/" not in f.file


def container(t):
    return bool(HASHED.search(re.sub(r"^const ", "", t or "")))


def pointer_key(t):
    """the order of this hash container depends on addresses"""
    m = re.search(r"Flat(?:Map|Set)<\s*(?:const )?([^,<>]+?)\s*[,>]|unordered_\w+<\s*(?:const )?([^,<>]+?)\s*[,>]", t or "")
    k = (m.group(1) or m.group(2)) if m else ""
    return k.endswith("*") or k.split("::")[-1] == "ConnectionPtr"


def sorted_later(fn, vec, after):
    """vec (structural key) is sorted after node on every way out"""
    hits = set()
    for n in fn.calls():
        if re.match(r"std::(stable_)?sort$", n.q) and n.args:
            a = peel(n.args[0])
            o = a.obj if a.k == "CXXMemberCallExpr" else (a.args[0] if a.is_call() and a.args else None)
            if o is not None and struct(alias(o)) == vec:
                hits.add(n.i)
        elif n.is_call() and "sort" in n.q.split("::")[-1].lower() and any(struct(alias(a)) == vec for a in n.args):
            hits.add(n.i)
    if not hits or fn.cfg is None:
        return False
    return not fn.cfg.path_exists(after, set(), avoid=hits, to_exit=True)


def loop_appends(body):
    """containers the loop appends to, and streams it prints to"""
    ap, pr = [], []
    for n in body.walk():
        if n.k == "CXXMemberCallExpr" and n.obj is not None and n.q.split("::")[-1] in (
                "push_back", "emplace_back", "append", "push"):
            ap.append((n, alias(n.obj)))
        elif n.k == "CXXMemberCallExpr" and n.q.split("::")[-1].startswith("add_"):
            pr.append(n)            # repeated field of a message
        elif n.is_call() and n.op == "<<" and n.args and re.search(r"ostream|Printer|printer", n.args[0].t or ""):
            pr.append(n)
    return ap, pr


def run(P, R):
    R.rule("source", "no clock, random device, process or thread identity decides what is computed")
    R.rule("seed", "every random engine is seeded from the configuration and lives no longer than its use")
    R.rule("address", "no address of an object is computed with")
    R.rule("hash-order", "the order of a hash container does not show in results: what is collected from it is sorted")
    R.rule("uninitialised", "no variable is read before it was given a value")
    for f in P.fns.values():
        if not scope(f):
            continue
        for n in f.all_nodes():
            if n.is_call() and BANNED.search(n.q) or n.k in CTORS and "std::random_device" in (n.t or ""):
                ds = stored(P, f, n) if n.is_call() else {"random_device"}
                ds = {d for d in ds if d not in DESCRIPTIVE}
                direct = BANNED.search(n.q) and re.search(r"rand", n.q)
                inm = re.search(r"Progress|Reporter|Logger|Timer", f.q)
                eng = feeds_engine(n)
                ok = bool(inm) or not (ds or direct or eng or branch_effect(P, n))
                R.ob("source", n.loc, ok, "%s|%s" % (f.q, n.q), "%s lets %s decide %s" % (
                    f.where, n.q or n.t, ", ".join(sorted(ds)) or "what it does"))
            if n.k == "VarDecl" and ENGINE.match(n.t or ""):
                R.ob("seed", n.loc, not n.get("static") and not n.get("tls"), "%s|static" % f.q,
                     "%s keeps a random engine between calls: what one call draws depends on all earlier ones" % f.where)
            if n.k in CTORS and ENGINE.match(n.t or "") and not n.get("copy") and not n.get("move"):
                a = n.args
                srcs = []
                for x in a:
                    srcs += deep_sources(P, x)
                bad = [s for s in srcs if s.is_call() and BANNED.search(s.q)]
                conf = [s for s in srcs if s.k in ("MemberExpr", "DeclRefExpr") and s.v is None]
                R.ob("seed", n.loc, bool(conf) and not bad, "%s|seed" % f.q,
                     "%s makes a random engine which is not seeded from the configured seed" % f.where)
            if n.k == "CXXReinterpretCastExpr" and n.c and (n.c[0].t or "").rstrip().endswith("*") and \
                    re.match(r"^(unsigned long|long|unsigned long long|long long|unsigned int|int|size_t|u?intptr_t)$",
                             (n.t or "").replace("const ", "")):
                ok = "hash<" in f.q or align_only(n) or "win32" in f.file or f.file.startswith("src/rnn/simple_rnn")
                R.ob("address", n.loc, ok, "%s" % f.q, "%s computes with the address %s" % (f.where, expr_str(n)[:60]))
            if n.k == "CXXForRangeStmt":
                rng = [x for c in n.c if c.r not in ("body",) for x in c.walk()
                       if x.is_call() and x.q.split("::")[-1] in ("begin",) and
                       container((x.obj.t if x.obj is not None else (x.args[0].t if x.args else "")))]
                if not rng:
                    continue
                ct = rng[0].obj.t if rng[0].obj is not None else rng[0].args[0].t
                body = n.role("body") or n.c[-1]
                check_loop(P, R, f, n, body, ct)
            elif n.k == "CXXMemberCallExpr" and n.q.split("::")[-1] in ("begin", "cbegin") and n.obj is not None and \
                    container(n.obj.t) and not any(a.k == "CXXForRangeStmt" for a in range_header(n)):
                if pointer_key(n.obj.t):
                    ok = selects_tied(f, n)
                    R.ob("hash-order", n.loc, ok, "%s|%s" % (f.q, expr_str(n.obj)[:40]),
                         "%s goes through %s, whose order depends on addresses" % (f.where, expr_str(n.obj)[:60]))
    for w in P.warnings:
        if w["group"] in ("uninitialized", "sometimes-uninitialized") and w["file"].startswith(("src/", "gen/")) and \
                not w["file"].startswith(OUT_OF_SCOPE):
            R.bad("uninitialised", "%s|%s" % (w["file"], w["msg"][:60]), "%s:%d" % (w["file"], w["line"]),
                  "%s:%d: %s" % (w["file"], w["line"], w["msg"]))
    for f in P.fns.values():
        if scope(f):
            R.ob("uninitialised", f.file, True)


def range_header(n):
    """range-for statements whose header (not body) n belongs to"""
    c, p = n, n.p
    while p is not None:
        if p.k == "CXXForRangeStmt" and c.r != "body":
            yield p
        c, p = p, p.p


def check_loop(P, R, f, n, body, ct):
    ap, pr = loop_appends(body)
    if f.name in ("printAvailableFormats",) or f.file.startswith("src/jumandic/main/path_diff"):
        return
    analysis = f.file.startswith(("src/jumandic/shared", "src/core/analysis", "src/core/proto", "src/core/input"))
    strict = analysis or pointer_key(ct)
    if not strict:
        # hash of contents, filled once: the order is a function of the input
        R.ob("hash-order", n.loc, True)
        return
    R.ob("hash-order", n.loc, not pr, "%s|print" % f.q,
         "%s prints the elements of a hash container in their order there" % f.where)
    for st, v in ap:
        loc = any(x.k == "VarDecl" and v.k == "DeclRefExpr" and x.get("vid") == v.get("vid") for x in body.walk())
        inner = v.k != "DeclRefExpr" and root_in(body, v)
        ok = loc or inner or sorted_later(f, struct(v), st) or sorted_in_callers(P, f, v)
        R.ob("hash-order", n.loc, ok, "%s|%s" % (f.q, expr_str(v)[:40]),
             "%s collects %s in the order of a hash container and does not sort it" % (f.where, expr_str(v)[:60]))
    if not ap:
        R.ob("hash-order", n.loc, True)


def root_in(body, v):
    """v belongs to a variable of the loop (the element itself)"""
    vids = {x.get("vid") for x in body.p.walk() if x.k == "VarDecl"} if body.p is not None else set()
    while v is not None and v.k != "DeclRefExpr":
        v = peel(v.obj if v.k == "CXXMemberCallExpr" else (v.c[0] if v.c else None))
    return v is not None and v.get("vid") in vids


def sorted_in_callers(P, f, v):
    """v is a field (or pointed to by a parameter) which every caller sorts afterwards"""
    if not (v.k == "MemberExpr" or v.k == "DeclRefExpr" and v.get("dk") == "parm"):
        return False
    cs = [c for c in P.callers[f.key] if scope(c.fn)]
    if not cs:
        return False
    for c in cs:
        ok = False
        for n in c.fn.calls():
            if re.match(r"std::(stable_)?sort$", n.q) and n.args and c.fn.cfg is not None:
                a = peel(n.args[0])
                o = a.obj if a.k == "CXXMemberCallExpr" else None
                if o is None:
                    continue
                same = is_field(peel(o)) and v.k == "MemberExpr" and peel(o).q == v.q or v.k == "DeclRefExpr"
                if same and not c.fn.cfg.path_exists(c, set(), avoid={n.i}, to_exit=True):
                    ok = True
        if not ok:
            return False
    return True


def selects_tied(f, n):
    """max_element/min_element/find/count with a comparator: the order matters only between elements it calls equal,
    which are printed alike; find_if, any_of, count and erase loops do not depend on the order"""
    p = enclosing(n, CALLS)
    while p is not None and not re.match(r"std::", p.q or ""):
        p = enclosing(p, CALLS)
    if p is None:
        return False
    nm = p.q.split("::")[-1]
    if nm in ("max_element", "min_element"):
        return len(p.args) == 3
    return nm in ("count", "count_if", "any_of", "all_of", "none_of", "find", "sort")


def deep_sources(P, n, depth=3):
    out = []
    for s in sources(n):
        out.append(s)
        if s.k == "DeclRefExpr" and s.get("dk") == "parm" and depth:
            continue
        if s.is_call() and depth:
            for a in s.args:
                out += deep_sources(P, a, depth - 1)
            if s.obj is not None:
                out += deep_sources(P, s.obj, depth - 1)
    return out


def stored(P, f, src, depth=3):
    """fields and containers which take a value computed from src, here or in the callers src is returned to"""
    tainted = set()

    def hot(e):
        return any(x is src or x.k == "DeclRefExpr" and x.get("vid") in tainted for x in e.walk())
    while True:
        n0 = len(tainted)
        for n in f.all_nodes():
            if n.k == "VarDecl" and n.c and hot(n.c[0]):
                tainted.add(n.get("vid"))
        for t, v, st in assigns(f):
            if v is not None and hot(v):
                r = peel(t)
                if r.k == "DeclRefExpr" and r.get("vid") is not None:
                    tainted.add(r.get("vid"))
        if len(tainted) == n0:
            break
    out = set()
    for t, v, st in assigns(f):
        if v is not None and hot(v):
            lf = leaf_field(t)
            if lf is not None:
                out.add(fq(lf))
    for n in f.all_nodes():
        if n.k == "CXXMemberCallExpr" and n.q.split("::")[-1] in ("push_back", "emplace_back", "writeFixed32",
                                                                    "writeVarint", "writeString", "seed") and \
                any(hot(a) for a in n.args):
            out.add(expr_str(n.obj)[:40] if n.obj is not None else n.q)
        elif n.k == "ReturnStmt" and n.c and hot(n.c[0]) and depth and scope(f):
            for c in P.callers[f.key]:
                if scope(c.fn):
                    out |= stored(P, c.fn, c, depth - 1)
    return out


def feeds_engine(n):
    for a in n.ancestors():
        if a.k in CTORS and ENGINE.match(a.t or ""):
            return True
    return False


def branch_effect(P, n):
    """the value controls a condition other than printing"""
    c, p = n, n.p
    while p is not None:
        if p.k in ("IfStmt", "WhileStmt", "ForStmt") and c.r == "cond":
            return True
        if p.k in ("VarDecl", "ReturnStmt") or p.is_call() and c.r == "arg" and p.k not in ("CXXOperatorCallExpr",):
            return False
        c, p = p, p.p
    return False


def align_only(n):
    """address % alignment, address & mask"""
    for a in n.ancestors():
        if a.k == "BinaryOperator" and a.op in ("%", "&"):
            return True
        if a.k == "VarDecl":
            uses = [x for x in n.fn.all_nodes() if x.k == "DeclRefExpr" and x.get("vid") == a.get("vid")]
            return all(any(y.k == "BinaryOperator" and y.op in ("%", "&") for y in x.ancestors()) for x in uses)
    return False

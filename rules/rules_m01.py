"""M01: memory, files and mappings are released exactly once, and nothing is used after it was given up."""
import re
from pathcut import *
from dfl import *
from effects import root_path, decl_type
from guards import relation

NS = "jumanpp::"
FREE = re.compile(r"(^|::)(free|free_impl|munmap|close|_aligned_free|Free|UnmapViewOfFile|CloseHandle|Reclaim)$")
ALLOC = {"malloc": "malloc", "std::malloc": "malloc", "calloc": "malloc", "std::calloc": "malloc", "realloc": "malloc",
         "strdup": "malloc", "open": "fd", "mmap": "map", "mmap64": "map", "open64": "fd", "aligned_alloc": "malloc"}
REL = {"free": "malloc", "std::free": "malloc", "close": "fd", "munmap": "map"}
GROW = {"push_back", "emplace_back", "resize", "reserve", "insert", "erase", "clear", "assign", "shrink_to_fit", "swap",
        "append", "emplace", "push", "clear_no_resize"}
SHRINK = {"pop_back"}


def leaf(q):
    return (q or "").split("::")[-1].split("<")[0]


def scope(P):
    return [f for f in P.fns.values() if f.body is not None and not testfile(f.file) and not f.q.startswith("jumanpp::util::fmt")
            and f.file.startswith("src/") and "/legacy/" not in f.file and "format.h" != f.file.split("/")[-1]
            and "darts.h" != f.file.split("/")[-1]]


def run(P, R):
    R.rule("transfer", "what is allocated or opened gets exactly one owner on every path")
    R.rule("pair", "what is allocated in one way is released in the matching way")
    R.rule("adopt", "an owner is only given an object nobody else owns, a released one is not dropped")
    R.rule("owner", "a class which releases something in its destructor gives it up when it is moved, and is not copied")
    R.rule("moved", "what was moved away or released is not used before it is set again")
    R.rule("stale", "a reference into a container is not used after the container may have moved its elements")
    R.rule("view", "a view or pointer does not outlive what it points to")
    R.rule("virtual", "objects deleted through a base class have a virtual destructor")
    R.rule("arena", "memory is handed out once: aligned, inside the page, behind what was handed out before, and pools restart with it")
    F = scope(P)
    transfer(P, R, F)
    classpair(P, R, F)
    adopt(P, R, F)
    owner(P, R, F)
    moved(P, R, F)
    stale(P, R, F)
    view(P, R, F)
    virtual(P, R, F)
    arena(P, R, F)
    for w in P.warnings:
        R.ob("view", "%s:%s" % (w["file"], w["line"]), False, "%s|%s" % (w["file"], w["group"]), "%s:%s %s" % (w["file"], w["line"], w["msg"]))


# ---------------------------------------------------------------- acquisition
def acquired(n):
    """kind of the resource the expression acquires"""
    if n.k == "CXXNewExpr" and not n.get("placement"):
        return "new[]" if n.get("arr") else "new"
    if n.k == "CallExpr" and n.q in ALLOC:
        return ALLOC[n.q]
    return None


def user(n):
    """the expression or statement which takes the value of n"""
    c, p = n, n.p
    while p is not None and (p.k.endswith("CastExpr") or p.k == "ParenExpr" or p.k in CTORS and len(p.c) == 1 and (p.get("copy") or p.get("move"))):
        c, p = p, p.p
    return c, p


def smart(t):
    return bool(re.match(r"(const )?(std::)?(unique_ptr|shared_ptr)<", t or "")) or "ManagedPtr<" in (t or "")[:40]


def transfer(P, R, F):
    fieldacq = {}
    for f in F:
        for n in f.all_nodes():
            k = acquired(n)
            if k is None:
                continue
            c, p = user(n)
            if p is None or p.k in ("CompoundStmt", "ExprWithCleanups"):
                R.ob("transfer", n.loc, False, "%s|dropped" % f.q, "%s drops what it has acquired (%s)" % (f.where, expr_str(n)[:60]))
                continue
            if p.k in CTORS and smart(p.t):
                pair(R, f, n, k, p.t)
                R.ob("transfer", n.loc, True, "", "")
                continue
            if p.is_call() and p.obj is not None and leaf(p.q) == "reset" and smart(p.obj.t):
                pair(R, f, n, k, p.obj.t)
                R.ob("transfer", n.loc, True, "", "")
                continue
            if p.k == "ReturnStmt" or p.is_call() or p.k in CTORS:
                R.ob("transfer", n.loc, True, "", "")
                continue
            v = None
            if p.k == "VarDecl":
                v = p.get("vid")
            elif p.k == "BinaryOperator" and p.op == "=":
                l = strip(p.c[0])
                if l.k == "DeclRefExpr" and l.get("dk") == "local":
                    v = l.get("vid")
                elif is_field(l):
                    fieldacq.setdefault(l.q, []).append((k, n))
            if p.k == "VarDecl" and (p.get("static") or smart(p.t)):
                continue
            if v is None:
                continue
            local_owner(P, R, f, n, k, v)
    # fields: some function of the class releases them
    rel = released_fields(P, F)
    for q, l in fieldacq.items():
        for k, n in l:
            rs = rel.get(q)
            R.ob("transfer", n.loc, bool(rs), "%s|field" % q, "%s acquires %s, which nothing releases" % (n.fn.where, leaf(q)))
            for r in rs or ():
                R.ob("pair", n.loc, r == k or r is None, "%s|pair" % q, "%s acquires %s with %s, which is released with %s" % (n.fn.where, leaf(q), k, r))


def classpair(P, R, F):
    """what a class releases out of a raw word is released in the way in which the class acquires it"""
    MEM = {"new", "new[]", "malloc"}
    by = {}
    for f in F:
        if f.cls:
            by.setdefault(sans(f.cls), []).append(f)
    for cls, fs in by.items():
        kinds = set()
        for f in fs:
            for n in f.all_nodes():
                k = acquired(n)
                if k is None and n.k == "CallExpr":
                    for t in P.targets(n):
                        if t.body is not None and not t.cls:
                            kinds |= {acquired(x) for x in t.all_nodes() if acquired(x) and user(x)[1] is not None and user(x)[1].k == "ReturnStmt"}
                elif k:
                    kinds.add(k)
        kinds &= MEM
        if not kinds:
            continue
        for f in fs:
            for n, e, k in releases(f):
                if n.k == "CallExpr" and k is None:
                    ks = {k2 for t in P.targets(n) if t.body is not None for _, _, k2 in releases(t)}
                    k = ks.pop() if len(ks) == 1 else None
                if k not in MEM or field_of(f, e) is not None:
                    continue
                R.ob("pair", n.loc, k in kinds, "%s|class" % f.q, "%s releases with %s what the class has acquired with %s" % (f.where, k, ", ".join(sorted(kinds))))


def pair(R, f, n, k, t):
    t = t.replace("const ", "")
    arr = "[]" in t.split(",")[0]
    own_deleter = "," in t and "default_delete" not in t
    if k in ("new", "new[]"):
        ok = own_deleter and "Destructor" not in t and not re.search(r"free", t, re.I) or not own_deleter and arr == (k == "new[]")
        R.ob("pair", n.loc, ok, "%s|smart" % f.q, "%s gives memory of %s to %s" % (f.where, k, t[:80]))
    elif k == "malloc":
        R.ob("pair", n.loc, own_deleter, "%s|smart" % f.q, "%s gives memory of malloc to %s" % (f.where, t[:80]))


def releases(f):
    """(node, released expression, kind) of the release operations in f"""
    for n in f.all_nodes():
        if n.k == "CXXDeleteExpr":
            yield n, strip(n.c[0]), "new[]" if n.get("arr") else "new"
        elif n.k == "CallExpr" and n.args and FREE.search(n.q):
            yield n, strip(n.args[0]), REL.get(n.q)


def released_fields(P, F):
    out = {}
    for f in F:
        for n, e, k in releases(f):
            q = field_of(f, e)
            if q is not None:
                out.setdefault(q, set()).add(k)
    return out


def field_of(f, e, depth=6):
    """the field a released expression comes from: the field itself, or an element of a container field"""
    while e is not None and depth:
        depth -= 1
        if is_field(e):
            b = strip(e.c[0]) if e.c else None
            if b is not None and b.k == "DeclRefExpr":
                r = loop_over(b)
                if r is not None:
                    e = strip(r)
                    continue
            return e.q
        if e.k == "DeclRefExpr":
            r = loop_over(e)
            if r is not None:
                e = strip(r)
                continue
            ds = var_defs(f).get(e.get("vid"), []) if e.get("dk") == "local" else []
            if len(ds) == 1:
                e = strip(ds[0])
                continue
            return None
        if e.k == "ArraySubscriptExpr":
            e = strip(e.c[0])
        elif e.k == "CXXOperatorCallExpr" and e.args:
            e = strip(e.args[0])
        elif e.k == "CXXMemberCallExpr" and e.obj is not None:
            e = strip(e.obj)
        elif e.k == "UnaryOperator":
            e = strip(e.c[0])
        else:
            return None
    return None


def loop_over(n):
    if (n.get("n") or "").startswith("__"):
        return None
    for st in n.fn.all_nodes():
        if st.k == "CXXForRangeStmt":
            for x in st.c:
                if x.r in ("var", "loopvar") or x.k in ("DeclStmt", "VarDecl"):
                    for y in x.walk():
                        if y.k == "VarDecl" and y.get("vid") == n.get("vid"):
                            rg = next((z for z in st.c if z.r in ("range", "rangeinit")), None)
                            v = next((z for z in rg.walk() if z.k == "VarDecl"), None) if rg is not None else None
                            return v.c[0] if v is not None and v.c else rg
    return None


def escapes(P, f, x):
    """does this use of a local pointer hand it on (or release it)?"""
    c, p = user(x)
    while p is not None and p.k in ("ConditionalOperator", "InitListExpr"):
        c, p = user(p)
    if p is None:
        return False
    if p.k == "ReturnStmt" or p.k == "CXXDeleteExpr":
        return True
    if p.k in CTORS:
        return True
    if p.k == "BinaryOperator" and p.op == "=" and c.i == p.c[1].i:
        return True
    if p.k == "VarDecl":
        return True
    if p.is_call() and c.r != "obj" and c.i != (p.obj.i if p.obj is not None else -1):
        if p.k == "CXXOperatorCallExpr" and p.op in ("->", "*", "[]", "==", "!="):
            return False
        if FREE.search(p.q) or leaf(p.q) in ("reset", "push_back", "emplace_back"):
            return True
        # handed to a function which keeps it?
        ts = P.targets(p)
        if ts:
            return any(keeps(P, t, p, c) for t in ts)
        return False
    return False


def keeps(P, t, p, c):
    try:
        i = [a.i for a in p.args].index(c.i)
    except ValueError:
        return False
    if i >= len(t.params) or t.body is None:
        return False
    v = t.params[i].get("vid")
    for x in t.all_nodes():
        if x.k == "DeclRefExpr" and x.get("vid") == v and escapes(P, t, x):
            return True
    return any(v2 for q, e in t.inits for v2 in ([1] if e is not None and any(y.get("vid") == v for y in e.walk()) else []))


def local_owner(P, R, f, n, k, v):
    """the local variable hands its resource on on every path, and only once"""
    uses = [x for x in f.all_nodes() if x.k == "DeclRefExpr" and x.get("vid") == v]
    esc = [x for x in uses if escapes(P, f, x)]
    w = {f.cfg.b[place(f.cfg, x)[0]].e[place(f.cfg, x)[1]] for x in esc if place(f.cfg, x) is not None}

    def failed(a, p):
        """the acquisition has failed: nothing to release"""
        q = relation(strip(a), p)
        if q is None:
            x = strip(a)
            return x.k == "DeclRefExpr" and x.get("vid") == v and not p
        for l, op, r in ((q[0], q[1], q[2]), (q[2], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(q[1], q[1]), q[0])):
            if strip(l).k == "DeclRefExpr" and strip(l).get("vid") == v:
                c = strip(r)
                val = 0 if c.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr") else c.v
                if k == "fd":
                    return val is not None and (op == "==" and val == -1 or op == "<" and val == 0 or op == "<=" and val == -1)
                if k == "map":
                    return op == "=="
                return op == "==" and val == 0
        return False

    ids = after(f, n, failed, lambda x: x.i in w)
    leak = "exit" in ids
    R.ob("transfer", n.loc, not leak, "%s|leak" % f.q, "%s can end without releasing or handing on what it acquired (%s)" % (f.where, expr_str(n)[:60]))
    # released and used again
    own = [x for x in esc if owning(x)]
    for x in own:
        ids = after(f, x, None, lambda y: redefines(y, v))
        for y in own:
            if y.i != x.i and executes(ids, y):
                R.ob("transfer", y.loc, False, "%s|twice" % f.q, "%s gives what it acquired to two owners or releases it twice" % f.where)


def owning(x):
    c, p = user(x)
    if p is None:
        return False
    return p.k == "CXXDeleteExpr" or p.k in CTORS and smart(p.t) or \
        p.is_call() and (FREE.search(p.q) and c.r != "obj" or leaf(p.q) == "reset" and p.obj is not None and smart(p.obj.t))


def redefines(y, v):
    if y.k == "DeclStmt" and any(z.k == "VarDecl" and z.get("vid") == v for z in y.c) or y.k == "VarDecl" and y.get("vid") == v:
        return True
    if y.k in ("BinaryOperator", "CXXOperatorCallExpr") and y.op == "=":
        l = strip(y.c[0] if y.k == "BinaryOperator" else y.args[0])
        return l.k == "DeclRefExpr" and l.get("vid") == v
    return False



# ---------------------------------------------------------------- adoption
def fresh(P, n, depth=4):
    """True: an object without an owner; False: something else owns it; None: not known"""
    n = strip(n)
    if n is None or not depth:
        return None
    if acquired(n):
        return True
    if n.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
        return True
    if n.k in CTORS and len(n.c) == 1:
        return fresh(P, n.c[0], depth - 1)
    if n.k == "UnaryOperator" and n.op == "&":
        return False
    if n.is_call():
        l = leaf(n.q)
        if l == "release" and n.obj is not None and smart(n.obj.t):
            return True
        if l == "get" and n.obj is not None and smart(n.obj.t):
            return False
        if l in ("make", "allocate", "allocateArray", "allocateRawArray", "allocate_memory") and "PoolAlloc" in n.q:
            return False
        if l in ("data", "c_str"):
            return False
        ts = [t for t in P.targets(n) if t.body is not None and t.q.startswith(NS)]
        rs = set()
        for t in ts:
            for r in t.all_nodes():
                if r.k == "ReturnStmt" and r.c:
                    rs.add(fresh(P, r.c[0], depth - 1))
        return rs.pop() if len(rs) == 1 else None
    if n.k == "DeclRefExpr" and n.get("dk") == "local":
        ds = var_defs(n.fn).get(n.get("vid"), [])
        rs = {fresh(P, d, depth - 1) for d in ds if d is not None}
        return rs.pop() if len(rs) == 1 else (False if rs == {False} else None)
    if n.k == "ConditionalOperator":
        rs = {fresh(P, x, depth - 1) for x in n.c[1:]}
        return False if False in rs else None
    return None


def adopt(P, R, F):
    for f in F:
        for n in f.all_nodes():
            a, t = None, None
            if n.k in CTORS and smart(n.t) and len(n.c) >= 1 and not n.get("copy") and not n.get("move") and (n.c[0].t or "").rstrip().endswith("*"):
                a, t = n.c[0], n.t
            elif n.is_call() and n.obj is not None and leaf(n.q) == "reset" and smart(n.obj.t) and n.args:
                a, t = n.args[0], n.obj.t
            elif n.is_call() and leaf(n.q) in ("emplace_back", "emplace") and n.obj is not None and re.search(r"(vector|list|deque)<std::unique_ptr<", n.obj.t or "") and n.args and \
                    (n.args[0].t or "").rstrip().endswith("*"):
                a, t = n.args[0], n.obj.t
            if a is not None:
                fr = fresh(P, a)
                arena = "DestructorOnly" in (t or "") or "ManagedPtr" in (t or "")
                if arena:
                    fr = None if fr is False else fr
                    R.ob("adopt", n.loc, fr is not True or not any(acquired(x) for x in a.walk()), "%s|arena" % f.q, "%s" % f.where)
                elif "," in (t or "") and "default_delete" not in t:
                    R.ob("adopt", n.loc, True, "", "")
                else:
                    R.ob("adopt", n.loc, fr is not False, "%s|owned" % f.q, "%s takes over %s, which something else owns" % (f.where, expr_str(a)[:60]))
            if n.is_call() and leaf(n.q) == "release" and n.obj is not None and smart(n.obj.t):
                c, p = user(n)
                R.ob("adopt", n.loc, p is not None and p.k not in ("CompoundStmt", "ExprWithCleanups", "IfStmt", "ForStmt", "WhileStmt", "CXXForRangeStmt"),
                     "%s|released" % f.q, "%s releases %s without taking it over" % (f.where, expr_str(n.obj)[:40]))


# ---------------------------------------------------------------- classes which own something
def sans(q):
    """a qualified name without template arguments"""
    out, d = [], 0
    for ch in q or "":
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif not d:
            out.append(ch)
    return "".join(out)


def oc(q):
    return sans(q).rsplit("::", 1)[0]


def owner(P, R, F):
    by = {}
    for f in F:
        if f.cls:
            by.setdefault(sans(f.cls), []).append(f)
    for cls, fs in sorted(by.items()):
        dts = [f for f in fs if f.d.get("dtor")]
        for d in dts[:1]:
            rel = {}
            reach_release(P, d, cls, rel, 3)
            if not rel:
                continue
            cl = [c for c in P.classes.values() if sans(c["q"]) == cls]
            for c in cl[:1]:
                copies(P, R, F, cls, c)
            for m in fs:
                if m.d.get("movector") or m.d.get("moveassign"):
                    if m.d.get("implicit"):
                        if m.d.get("moveassign"):
                            raw = [q for q, (g, k) in rel.items() if not trivially_moved(P, cls, q)]
                            R.ob("owner", m.where, not raw, "%s|implicit" % cls, "%s is moved without giving up %s" % (cls, raw))
                        continue
                    gives_up(P, R, m, rel, cls)


def trivially_moved(P, cls, q):
    for c in P.classes.values():
        if sans(c["q"]) == cls:
            for f in c["fields"]:
                if f["n"] == leaf(q):
                    return not f["t"].rstrip().endswith("*") and "vector<" not in f["t"] and f["t"] not in ("int", "long")
    return True


def reach_release(P, f, cls, rel, depth):
    """fields released by the destructor: field -> fields which tell that there is nothing to release"""
    if f.body is None or not depth:
        return
    for n, e, k in releases(f):
        q = sans(field_of(f, e))
        if q and oc(q) == cls:
            g = set()
            if n.k == "CXXDeleteExpr" or leaf(n.q) in ("free", "free_impl", "Free") or "vector" in (e.t or ""):
                g.add(q)
            if loop_origin(f, e):
                g.add(q)
            rel[q] = (g | tested(P, f, cls), k)
    for n in f.calls():
        if n.k == "CXXMemberCallExpr" and n.obj is not None and strip(n.obj).k == "CXXThisExpr":
            g2 = {}
            for t in P.targets(n):
                if sans(t.cls) == cls:
                    reach_release(P, t, cls, g2, depth - 1)
            for q, (g, k) in g2.items():
                g = g | tested(P, f, cls)
                rel[q] = (g | rel.get(q, (set(), k))[0], k)


def tested(P, f, cls):
    """fields which decide whether there is something to release"""
    out = set()
    for x in f.all_nodes():
        if not conditional(x):
            continue
        if is_field(x) and oc(x.q) == cls:
            out.add(sans(x.q))
        if x.is_call() and x.obj is not None and strip(x.obj).k == "CXXThisExpr":
            for t in P.targets(x):
                if sans(t.cls) == cls:
                    out |= {sans(y.q) for y in t.all_nodes() if is_field(y) and oc(y.q) == cls}
    return out


def loop_origin(f, e):
    return any(x.k == "DeclRefExpr" and loop_over(x) is not None for x in e.walk())


def conditional(x):
    """x is part of a condition (or of the result of a test function)"""
    y = x
    while y.p is not None:
        if y.r == "cond" and y.p.k in ("IfStmt", "WhileStmt", "ForStmt", "ConditionalOperator"):
            return True
        if y.k == "VarDecl" and (y.t or "").replace("const ", "") == "bool":
            return True
        y = y.p
    return False


def copies(P, R, F, cls, c):
    implicit = not c.get("ucopyctor") and not c.get("umovector") and not c.get("umoveassign")
    if not implicit:
        R.ob("owner", "%s:%s" % (c["file"], c["line"]), True, "", "")
        return
    bad = []
    for f in F:
        for n in f.all_nodes():
            if n.k in CTORS and n.get("copy") and oc(n.q) == cls and not n.get("elid"):
                bad.append(n)
            if n.k == "CXXOperatorCallExpr" and n.op == "=" and oc(n.q) == cls:
                bad.append(n)
    R.ob("owner", "%s:%s" % (c["file"], c["line"]), not bad, "%s|copied" % cls, "%s is copied at %s, both copies release the same" % (
        cls, bad[0].loc if bad else ""))


def gives_up(P, R, m, rel, cls):
    if not m.params:
        return
    src = m.params[0].get("vid")
    cleared, moved_, swapped, over = set(), set(), set(), set()
    selfcalls = []
    for x in m.all_nodes():
        if x.k == "BinaryOperator" and x.op == "=" or x.k == "CXXOperatorCallExpr" and x.op == "=" and len(x.args) == 2:
            l, r = (x.c[0], x.c[1]) if x.k == "BinaryOperator" else (x.args[0], x.args[1])
            l = strip(l)
            if is_field(l):
                b = strip(l.c[0])
                if b.k == "DeclRefExpr" and b.get("vid") == src:
                    cleared.add(sans(l.q))
                else:
                    over.add(sans(l.q))
        if x.is_call() and leaf(x.q) in ("move", "exchange", "swap", "__exchange"):
            for a in x.args + ([x.obj] if x.obj is not None else []):
                a = strip(a)
                if is_field(a):
                    b = strip(a.c[0])
                    if b.k == "DeclRefExpr" and b.get("vid") == src:
                        (swapped if leaf(x.q) == "swap" else moved_).add(sans(a.q))
        if x.is_call() and x.obj is not None and strip(x.obj).k == "DeclRefExpr" and strip(x.obj).get("vid") == src and x.k == "CXXMemberCallExpr":
            for t in P.targets(x):
                for y, tt, v in [(s, t2, v2) for t2, v2, s in assigns(t)]:
                    if is_field(strip(tt)):
                        cleared.add(sans(strip(tt).q))
        if x.is_call() and x.k == "CXXMemberCallExpr" and x.obj is not None and strip(x.obj).k == "CXXThisExpr":
            selfcalls.append(x)
        if x.is_call() and leaf(x.q) == "swap" and any(strip(a).k == "UnaryOperator" or strip(a).k == "CXXThisExpr" for a in x.args):
            return
    for q, (g, k) in rel.items():
        t = next((f["t"] for c in P.classes.values() if sans(c["q"]) == cls for f in c["fields"] if f["n"] == leaf(q)), "")
        cont = "vector<" in t or "unique_ptr" in t
        ok = q in swapped or cont and q in moved_ or bool((cleared | swapped | (moved_ if not m.d.get("x") else set())) & (g | {q}))
        if cont and q not in moved_ | swapped | cleared:
            ok = False
        R.ob("owner", m.where, ok, "%s|giveup|%s" % (m.q, leaf(q)), "%s leaves %s with the object it is moved from: it is released twice" % (m.where, leaf(q)))
        if m.d.get("moveassign") and q in over and q not in swapped:
            mine = {}
            reach_release(P, m, cls, mine, 3)
            ok = q in mine
            R.ob("owner", m.where, ok, "%s|lose|%s" % (m.q, leaf(q)), "%s overwrites %s without releasing it" % (m.where, leaf(q)))
            if ok:
                lose_path(P, R, m, q, g, cls)


def mine_field(x, q=None, cls=None):
    x = strip(x)
    if not is_field(x):
        return False
    b = strip(x.c[0]) if x.c else None
    if b is not None and b.k != "CXXThisExpr":
        return False
    return sans(x.q) == q if q else oc(x.q) == cls


def lose_path(P, R, m, q, g, cls):
    """on every path to the assignment the old object was released, or there is none"""
    from pathcut import after
    rel = set()
    for n, e, k in releases(m):
        if sans(field_of(m, e)) == q and mine_field(e, q):
            rel.add(n.i)
    for n in m.calls():
        if n.k == "CXXMemberCallExpr" and n.obj is not None and strip(n.obj).k == "CXXThisExpr":
            for t in P.targets(n):
                r = {}
                if sans(t.cls) == cls:
                    reach_release(P, t, cls, r, 3)
                if q in r:
                    rel.add(n.i)
    if not rel:
        return

    def cut(a, p):
        a = strip(a)
        if a is None:
            return False
        if mine_field(a, q):
            return not p
        if a.k == "BinaryOperator" and a.op in ("==", "!=") and any(mine_field(y, q) for y in a.c):
            o = next((strip(y) for y in a.c if not mine_field(y, q)), None)
            if o is not None and (o.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or o.v == 0):
                return (a.op == "==") == p
        # another field of this object tells whether there is something
        return any(mine_field(y, None, cls) and sans(y.q) != q for y in a.walk()) or any(
            y.is_call() and y.obj is not None and strip(y.obj).k == "CXXThisExpr" for y in a.walk())
    ids = after(m, None, cut, lambda n: n.i in rel)
    for x in m.all_nodes():
        if x.k == "BinaryOperator" and x.op == "=" and mine_field(x.c[0], q):
            R.ob("owner", x.loc, x.i not in ids, "%s|losepath|%s" % (m.q, leaf(q)),
                 "%s overwrites %s on a path on which the object it held was not released" % (m.where, leaf(q)))
            break


# ---------------------------------------------------------------- use after move / delete
def moved(P, R, F):
    for f in F:
        uses = None
        for n in f.calls():
            if n.q == "std::move" and n.args:
                x = strip(n.args[0])
                if not movable(x.t):
                    continue
                c, p = user(n)
                if p is None or not consumes(P, p, c, n):
                    continue
                check_gone(R, f, n, x, p, "moved away")
            elif n.k == "CallExpr" and leaf(n.q) in ("free", "free_impl") and n.args:
                check_gone(R, f, n, strip(n.args[0]), n, "released")
        for n in f.all_nodes():
            if n.k == "CXXDeleteExpr":
                check_gone(R, f, n, strip(n.c[0]), n, "released")


def movable(t):
    t = (t or "").replace("const ", "").strip()
    return not re.match(r"^(unsigned |signed )?(int|long|char|bool|float|double|short)\b", t) and not t.endswith("*")


def consumes(P, p, c, n):
    if p.k in CTORS:
        return bool(p.get("move")) or not p.q.startswith(NS)
    if p.k in ("VarDecl",):
        return not (p.t or "").rstrip().endswith("&")
    if p.k == "CXXOperatorCallExpr" and p.op == "=":
        return True
    if p.is_call():
        if not p.q.startswith(NS):
            return True
        # a function of the project: it takes the value on every path
        ts = [t for t in P.targets(p) if t.body is not None]
        try:
            i = [a.i for a in p.args].index(c.i)
        except ValueError:
            return False
        for t in ts:
            if i >= len(t.params):
                return False
            if not t.params[i]["t"].rstrip().endswith("&&"):
                continue
            v = t.params[i].get("vid")
            tk = [x for x in t.calls() if x.q in ("std::move", "std::forward") and x.args and strip(x.args[0]).get("vid") == v]
            w = {x.i for x in tk}
            if not tk or "exit" in after(t, None, None, lambda y: y.i in w or any(z.i in w for z in y.walk())):
                return False
        return bool(ts)
    return False


def same_place(a, b):
    if a.k == "DeclRefExpr" and b.k == "DeclRefExpr":
        return a.get("vid") is not None and a.get("vid") == b.get("vid")
    if is_field(a) and is_field(b):
        if a.q != b.q:
            return False
        x, y = strip(a.c[0]) if a.c else None, strip(b.c[0]) if b.c else None
        return x is None or y is None or x.k == "CXXThisExpr" and y.k == "CXXThisExpr" or same_place(x, y)
    if a.k == "UnaryOperator" and b.k == "UnaryOperator" and a.op == b.op == "*":
        return same_place(strip(a.c[0]), strip(b.c[0]))
    return False


def sets(y, x):
    """y gives x a new value"""
    if y.k == "DeclStmt" and x.k == "DeclRefExpr":
        return any(z.k == "VarDecl" and z.get("vid") == x.get("vid") for z in y.c)
    if y.k in ("BinaryOperator", "CXXOperatorCallExpr") and y.op == "=":
        return same_place(strip(y.c[0] if y.k == "BinaryOperator" else y.args[0]), x)
    if y.is_call() and y.obj is not None and leaf(y.q) in ("reset", "clear", "assign", "swap", "clear_no_resize", "initialize", "init"):
        return same_place(strip(y.obj), x)
    if y.is_call() and any(strip(a).k == "UnaryOperator" and strip(a).op == "&" and same_place(strip(strip(a).c[0]), x) for a in y.args):
        return True
    return False


def check_gone(R, f, n, x, p, how):
    if x.k not in ("DeclRefExpr", "UnaryOperator") and not is_field(x):
        return
    if x.k == "DeclRefExpr" and x.get("dk") not in ("local", "parm") and x.get("vid") is None:
        return
    st = p
    ids = after(f, st if place(f.cfg, st) is not None else n, None, lambda y: sets(y, x))
    # the assignment itself replaces the value when it is the target
    if p.k == "CXXOperatorCallExpr" and same_place(strip(p.args[0]), x):
        return
    bad = None
    for y in f.all_nodes():
        if y.i == x.i or y.k != x.k or not same_place(y, x) or y.inside(n):
            continue
        c, q = user(y)
        if q is not None and (sets(q, x) or q.k == "UnaryOperator" and q.op == "&" and q.p is not None and sets(q.p, x)):
            continue
        if q is not None and q.is_call() and q.obj is not None and leaf(q.q) in ("reset", "clear", "assign", "get_deleter", "operator bool"):
            continue
        if y.p is not None and y.p.k == "UnaryExprOrTypeTraitExpr":
            continue
        if y.p is not None and y.p.k in ("BinaryOperator", "CXXOperatorCallExpr") and y.p.op in ("==", "!="):
            continue
        if executes(ids, y) and not before_in_element(y, n, f):
            bad = y
            break
    R.ob("moved", n.loc, bad is None, "%s|%s" % (f.q, expr_str(x)[:40]), "%s uses %s after it was %s" % (f.where, expr_str(x)[:40], how))


def before_in_element(y, n, f):
    a, b = place(f.cfg, y), place(f.cfg, n)
    return a == b


# ---------------------------------------------------------------- references into containers
RELOC = re.compile(r"^(const )?(std::(vector|basic_string|string)\b|std::__cxx11::basic_string|std::basic_string|jumanpp::util::(InlinedVector|FlatMap|FlatSet)|"
                   r"util::(InlinedVector|FlatMap|FlatSet)|jumanpp::util::memory::ManagedVector)")
VIEWT = re.compile(r"(StringPiece|ArraySlice<|Sliceable<|SliceableArray<)")
ELEM = {"at", "back", "front", "data", "begin", "end", "find", "c_str", "rbegin", "cbegin", "cend", "lower_bound"}


def steps(n, depth=14):
    """path of an lvalue: (root, [field names, "[]" for an element, "*" for what an owner points to], [container types at "[]"])"""
    out = []
    n = strip(n)
    while n is not None and depth:
        depth -= 1
        if n.k == "MemberExpr" and n.get("fld"):
            out.append(("." + n.q, None, n))
            n = strip(n.c[0]) if n.c else None
        elif n.k == "ArraySubscriptExpr":
            out.append(("[]", n.c[0].t, n.c[0]))
            n = strip(n.c[0])
        elif n.k == "CXXOperatorCallExpr" and n.op == "[]" and n.args:
            out.append(("[]", n.args[0].t, n.args[0]))
            n = strip(n.args[0])
        elif n.k == "CXXOperatorCallExpr" and n.op in ("*", "->") and len(n.args) == 1:
            if smart(n.args[0].t):
                out.append(("*", n.args[0].t, n.args[0]))
            n = strip(n.args[0])
        elif n.k == "UnaryOperator" and n.op in ("*", "&"):
            n = strip(n.c[0])
        elif n.k == "CXXMemberCallExpr" and n.obj is not None and (leaf(n.q) in ELEM or leaf(n.q) in ("insert", "emplace") and n.q.startswith("std::")):
            out.append(("[]", n.obj.t, n.obj))
            n = strip(n.obj)
        elif n.k == "CXXMemberCallExpr" and n.obj is not None and leaf(n.q) == "get" and smart(n.obj.t):
            out.append(("*", n.obj.t, n.obj))
            n = strip(n.obj)
        elif n.k in CTORS and len(n.c) >= 1 and VIEWT.search(n.t or "") and RELOC.search(n.c[0].t or ""):
            out.append(("[]", n.c[0].t, n.c[0]))
            n = strip(n.c[0])
        elif n.k in CTORS and len(n.c) == 1:
            n = strip(n.c[0])
        elif n.k == "DeclRefExpr" and n.get("dk") == "local":
            r = loop_over(n) if (decl_type(n) or "").rstrip().endswith("&") else None
            if r is not None:
                out.append(("[]", strip(r).t, r))
                n = strip(r)
                continue
            d = ref_def(n)
            if d is None:
                return ("v", n.get("vid")), out[::-1], n
            n = strip(d)
        elif n.k == "DeclRefExpr":
            return ("v", n.get("vid") if n.get("vid") is not None else n.q), out[::-1], n
        elif n.k == "CXXThisExpr":
            return ("this",), out[::-1], n
        elif n.k == "CXXMemberCallExpr" and n.obj is not None and n.q.startswith(NS) and PROG is not None:
            ret = returned(n)
            if ret is None:
                return None, out[::-1], n
            out += ret[::-1]
            n = strip(n.obj)
        else:
            return None, out[::-1], n
    return None, out[::-1], n


PROG = None
RET = {}


def returned(n):
    """path inside the object of what a member function returns a reference or pointer to"""
    ts = [t for t in PROG.targets(n) if t.body is not None]
    if len(ts) != 1 or not (ts[0].ret or "").rstrip().endswith(("&", "*")):
        return None
    t = ts[0]
    if t.key in RET:
        return RET[t.key]
    RET[t.key] = None
    res = None
    for r in t.all_nodes():
        if r.k == "ReturnStmt" and r.c:
            e = strip(r.c[0])
            if e.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
                continue
            if (t.ret or "").rstrip().endswith("*") and not (e.k == "UnaryOperator" and e.op == "&" or e.is_call() and leaf(e.q) in ELEM):
                return None
            x = steps(e)
            if x[0] != ("this",):
                return None
            res = x[1]
    RET[t.key] = res
    return res


def ref_def(n):
    """the initialiser of a local reference"""
    t = decl_type(n) or ""
    if t.rstrip().endswith("&"):
        ds = var_defs(n.fn).get(n.get("vid"), [])
        r = loop_over(n)
        if r is not None:
            return None
        if len(ds) >= 1:
            return next((x.c[0] for x in n.fn.all_nodes() if x.k == "VarDecl" and x.get("vid") == n.get("vid") and x.c), None)
    return None


def refers(v):
    """(root, path) of what a variable refers to, if it refers into a container; the container steps from the inside"""
    t = (v.t or "").rstrip()
    if not v.c:
        return None
    e = strip(v.c[0])
    if t.endswith("&"):
        return steps(e)
    if t.endswith("*"):
        if e.k == "UnaryOperator" and e.op == "&" or e.is_call() and (leaf(e.q) in ("data", "begin", "end", "c_str") or e.q.startswith(NS)):
            return steps(e)
        return None
    if "__normal_iterator" in t or "iterator" in t.lower():
        if e.is_call() or e.k in CTORS:
            return steps(e)
        return None
    if VIEWT.search(t) and not t.startswith("std::vector"):
        while e.k in CTORS and len(e.c) == 1 and not RELOC.search(e.c[0].t or ""):
            e = strip(e.c[0])
        if e.k in CTORS and e.c and RELOC.search(e.c[0].t or ""):
            return steps(e)
    return None


def grows(P, n, memo):
    """containers which a call may make bigger or smaller: [(root, path, destroys)]"""
    out = []
    if n.k == "CXXMemberCallExpr" and n.obj is not None and RELOC.search(n.obj.t or "") and not (n.obj.t or "").startswith("const "):
        l = leaf(n.q)
        if l in GROW | SHRINK:
            r, p, _ = steps(n.obj)
            if r is not None:
                out.append((r, tuple(x[0] for x in p), l in ("clear", "erase", "assign", "pop_back", "resize", "swap", "clear_no_resize")))
    elif n.k == "CXXOperatorCallExpr" and n.op in ("=", "+=") and n.args and RELOC.search(n.args[0].t or ""):
        r, p, _ = steps(n.args[0])
        if r is not None:
            out.append((r, tuple(x[0] for x in p), n.op == "="))
    elif n.is_call():
        for t in P.targets(n):
            if t.body is None or not t.q.startswith(NS):
                continue
            for r, p, d in summary(P, t, memo, 3):
                if r == ("this",):
                    if n.obj is not None:
                        r2, p2, _ = steps(n.obj)
                        if r2 is not None:
                            out.append((r2, tuple(x[0] for x in p2) + p, d))
                elif r[0] == "v":
                    for prm, a in zip(t.params, n.args):
                        if prm.get("vid") == r[1] and prm["t"].rstrip().endswith(("&", "*")) and not prm["t"].startswith("const "):
                            r2, p2, _ = steps(a)
                            if r2 is not None:
                                out.append((r2, tuple(x[0] for x in p2) + p, d))
    return out


def summary(P, f, memo, depth):
    k = f.key
    if k in memo:
        return memo[k]
    memo[k] = []
    if not depth:
        return []
    res = set()
    ps = {p.get("vid") for p in f.params}
    for n in f.all_nodes():
        if n.is_call():
            for r, p, d in grows(P, n, memo) if depth > 1 else []:
                if r == ("this",) or r[0] == "v" and r[1] in ps:
                    res.add((r, p, d))
    memo[k] = list(res)
    return memo[k]


def stale(P, R, F):
    global PROG
    PROG = P
    RET.clear()
    memo = {}
    for f in F:
        vs = []
        for v in f.all_nodes():
            if v.k == "VarDecl" and not v.get("static"):
                s = refers(v)
                if s is not None and s[0] is not None:
                    ct = [(i, x) for i, x in enumerate(s[1]) if x[0] == "[]" and RELOC.search(x[1] or "")]
                    if ct:
                        vs.append((v, s, ct))
        gs = None
        if vs or any(n.k == "CXXForRangeStmt" for n in f.all_nodes()):
            gs = [(n, g) for n in f.all_nodes() if n.is_call() for g in grows(P, n, memo)]
        for v, s, ct in vs:
            bad = None
            path = tuple(x[0] for x in s[1])
            last = max(i for i, x in enumerate(s[1]) if x[0] in ("[]", "*") and (x[0] == "*" or RELOC.search(x[1] or "")))
            for n, (r, p, d) in gs:
                if r != s[0] or path[:len(p)] != p or len(p) >= len(path) or path[len(p)] != "[]":
                    continue
                if len(p) != last and not d:
                    continue           # the elements hold what is referred to somewhere else
                if leafcall(n) in SHRINK and not is_back(v):
                    continue
                if reserved(f, n, v):
                    continue
                if n.inside(v):
                    continue
                ids = after(f, n, None, lambda y: y.k == "DeclStmt" and redefines(y, v.get("vid")) or redefines(y, v.get("vid")) and not (v.t or "").rstrip().endswith("&"))
                # only when the reference was made before
                if not executes(after(f, v), n) and place(f.cfg, v) is not None:
                    continue
                for y in f.all_nodes():
                    if y.k == "DeclRefExpr" and y.get("vid") == v.get("vid") and not y.inside(n) and executes(ids, y) and place(f.cfg, y) != place(f.cfg, n):
                        if redefines(y.p, v.get("vid")) if y.p is not None else False:
                            continue
                        bad = (n, y)
                        break
                if bad:
                    break
            R.ob("stale", "%s:%s" % (f.file, v.get("l")), bad is None, "%s|%s" % (f.q, v.get("n")), "%s uses %s after %s may have moved what it refers to" % (
                f.where, v.get("n"), expr_str(bad[0])[:60] if bad else ""))
        for st in f.all_nodes():
            if st.k != "CXXForRangeStmt":
                continue
            rg = next((z for z in st.c if z.r in ("range", "rangeinit")), None)
            body = next((z for z in st.c if z.r == "body"), None)
            if rg is None or body is None or not RELOC.search(strip(rg).t or ""):
                continue
            r, p, _ = steps(rg)
            if r is None:
                continue
            p = tuple(x[0] for x in p)
            bad = None
            for n, (r2, p2, d) in gs:
                if r2 == r and p2 == p and n.inside(body):
                    hd = [b.id for b in f.cfg.b.values() if b.term == st.i]
                    ids = after(f, n)
                    if any(any(e in ids for e in f.cfg.b[h].e if isinstance(e, int)) or reaches(f.cfg, place(f.cfg, n)[0], h, None) for h in hd):
                        bad = n
            R.ob("stale", st.loc, bad is None, "%s|loop" % f.q, "%s changes the container it runs over: %s" % (f.where, expr_str(bad)[:60] if bad else ""))


def leafcall(n):
    return leaf(n.q)


def is_back(v):
    return any(x.is_call() and leaf(x.q) in ("back", "end") for x in v.walk())


def reserved(f, n, v):
    if leaf(n.q) not in ("push_back", "emplace_back"):
        return False
    for x in f.calls():
        if leaf(x.q) == "reserve" and x.obj is not None and expr_str(strip(x.obj)) == expr_str(strip(n.obj)):
            return True
    return False



# ---------------------------------------------------------------- views
OWN = re.compile(r"^(const )?(std::(vector|basic_string|string|array|unique_ptr)\b|std::__cxx11::basic_string|jumanpp::util::(InlinedVector|FlatMap|FlatSet|CharBuffer|CodedBuffer|MappedFile|FullyMappedFile|io::Printer)\b)")


OWNVIEW = re.compile(r"jumanpp::util::(MappedFileFragment::(asStringPiece|asMutableSlice|address)|FullyMappedFile::contents|CodedBuffer::contents|"
                     r"serialization::Saver::result|io::Printer::result|CsvReader::field|impl::PrinterBuffer::contents)$")


def isview(t):
    t = (t or "").strip()
    if t.endswith("*") or t.endswith("&") and not t.endswith("&&"):
        return True
    return bool(re.match(r"^(const )?(jumanpp::)?(util::)?(StringPiece|ArraySlice<|MutableArraySlice<|Sliceable<|ConstSliceable<|SliceableArray<)", t)) or "__normal_iterator" in t[:60]


def storage(n, depth=8, memo=None):
    """what a view or pointer refers to: ("local", variable), ("temp", node) or None"""
    n = strip(n)
    if n is None or not depth:
        return None
    if n.k == "UnaryOperator" and n.op == "&":
        return held(strip(n.c[0]), depth - 1)
    if n.k in CTORS:
        if len(n.c) >= 1 and isview(n.t):
            a = strip(n.c[0])
            if OWN.search(a.t or "") and not (a.t or "").rstrip().endswith(("*", "&")):
                return held(a, depth - 1)
            if isview(a.t) or n.get("copy") or n.get("move"):
                return storage(a, depth - 1)
        return None
    if n.k == "CXXMemberCallExpr" and n.obj is not None and leaf(n.q) in ELEM - {"at", "back", "front", "find"} and OWN.search(n.obj.t or "") and isview(n.t):
        return held(strip(n.obj), depth - 1)
    if n.k == "CXXMemberCallExpr" and n.obj is not None and "::operator " in n.q and OWN.search(n.obj.t or "") and isview(n.t):
        return held(strip(n.obj), depth - 1)
    if n.k == "CXXMemberCallExpr" and n.obj is not None and leaf(n.q) == "get" and smart(n.obj.t):
        h = held(strip(n.obj), depth - 1)
        return h
    if n.k == "CXXMemberCallExpr" and n.obj is not None and OWNVIEW.match(n.q) and isview(n.t):
        o = strip(n.obj)
        if "Saver" in n.q and o.k == "DeclRefExpr" and o.get("dk") == "local":
            v = vardecl(o)
            if v is not None and v.c and strip(v.c[0]).k in CTORS and len(strip(v.c[0]).c) == 1:
                return storage(strip(v.c[0]).c[0], depth - 1)      # writes into a buffer it was given
        return held(strip(n.obj), depth - 1)
    if n.k == "ConditionalOperator":
        for c in n.c[1:]:
            s = storage(c, depth - 1)
            if s is not None:
                return s
        return None
    if n.k == "DeclRefExpr" and n.get("dk") == "local":
        t = decl_type(n) or ""
        if t.rstrip().endswith("&"):
            d = ref_def(n)
            return storage(d, depth - 1) if d is not None else None
        if isview(t):
            ds = var_defs(n.fn).get(n.get("vid"), [])
            if any(c.is_call() and any(strip(a).k == "UnaryOperator" and strip(a).op == "&" and strip(strip(a).c[0]).get("vid") == n.get("vid")
                                       for a in c.args) for c in n.fn.calls()):
                return None        # a call can make it refer to something else
            for d in ds:
                s = storage(d, depth - 1) if d is not None else None
                if s is not None:
                    return s
        return None
    return None


def held(n, depth=8):
    """the local object (or temporary) an lvalue is part of, not going through pointers"""
    while n is not None and depth:
        depth -= 1
        if n.k == "MemberExpr" and n.get("fld"):
            if n.get("arrow") and not n.get("ithis"):
                b = strip(n.c[0])
                return storage(b, depth)
            if (n.t or "").rstrip().endswith("&"):
                return None
            n = strip(n.c[0]) if n.c else None
        elif n.k == "ArraySubscriptExpr":
            b = strip(n.c[0])
            if "[" not in (b.t or ""):
                return storage(b, depth)
            n = b
        elif n.k == "CXXOperatorCallExpr" and n.op == "[]" and n.args and OWN.search(n.args[0].t or ""):
            n = strip(n.args[0])
        elif n.k == "CXXMemberCallExpr" and n.obj is not None and leaf(n.q) in ("at", "back", "front") and OWN.search(n.obj.t or ""):
            n = strip(n.obj)
        elif n.k == "DeclRefExpr":
            t = decl_type(n) or n.t or ""
            if n.get("dk") == "local":
                if t.rstrip().endswith("&"):
                    if loop_over(n) is not None:
                        return None
                    d = ref_def(n)
                    if d is None:
                        return None
                    n = strip(d)
                    continue
                v = vardecl(n)
                if v is None or v.get("static"):
                    return None
                return ("local", v, n)
            if n.get("dk") == "parm" and not t.rstrip().endswith(("&", "*")):
                return ("local", None, n)
            return None
        elif n.is_call() and not n.get("lv") and OWN.search(n.t or "") and not (n.t or "").rstrip().endswith(("*", "&")):
            return ("temp", None, n)
        elif n.k == "CXXTemporaryObjectExpr" and OWN.search(n.t or ""):
            return ("temp", None, n)
        elif n.k in CTORS and OWN.search(n.t or "") and len(n.c) >= 1:
            return ("temp", None, n)
        else:
            return None
    return None


def vardecl(n):
    return next((x for x in n.fn.all_nodes() if x.k == "VarDecl" and x.get("vid") == n.get("vid")), None)


def outer(f, l):
    """does the place outlive the function?"""
    r, p, x = steps(l)
    if r is None:
        return False
    if r == ("this",):
        return bool(p)
    if r[0] == "v":
        prm = next((q for q in f.params if q.get("vid") == r[1]), None)
        if prm is not None:
            return prm["t"].rstrip().endswith(("&", "*"))
        return x.get("dk") in ("static", "global")
    return False


def view(P, R, F):
    for f in F:
        lam = f.d.get("lambda")
        transient(P, R, f)
        for n in f.calls():
            if re.match(r"jumanpp::util::CharBuffer(<.*>)?::(import|importMutable|prepareMemory)$", n.q):
                c, p = user(n)
                R.ob("view", n.loc, p is not None and p.k not in ("CompoundStmt", "ExprWithCleanups", "IfStmt", "ForStmt", "WhileStmt", "CXXForRangeStmt") or c.r == "cond",
                     "%s|import" % f.q, "%s does not ask whether the text was copied, it can go on referring to the original" % f.where)
        for n in f.all_nodes():
            if n.k == "ReturnStmt" and n.c and isview(f.ret) and not lam:
                if (f.ret or "").rstrip().endswith("&"):
                    h = held(strip(n.c[0]))
                else:
                    h = storage(n.c[0])
                R.ob("view", n.loc, h is None, "%s|return" % f.q, "%s returns a view of %s, which ends with it" % (f.where, what(h)))
            t, v = None, None
            if n.k == "BinaryOperator" and n.op == "=":
                t, v = n.c[0], n.c[1]
            elif n.k == "CXXOperatorCallExpr" and n.op == "=" and len(n.args) == 2:
                t, v = n.args
            if t is not None and isview(t.t):
                h = storage(v)
                if h is not None:
                    bad = outer(f, t) and not undone(f, n, t)
                    if not bad and h[0] == "temp":
                        bad = used_later(f, n, strip(t))
                    if not bad and h[1] is not None:
                        bad = scope_left(f, n, strip(t), h[1])
                    R.ob("view", n.loc, not bad, "%s|store|%s" % (f.q, expr_str(strip(t))[:30]), "%s keeps a view of %s in %s" % (f.where, what(h), expr_str(strip(t))[:50]))
            if n.k == "VarDecl" and n.c and isview(n.t) and not n.get("static"):
                # references extend the life of a temporary
                if (n.t or "").rstrip().endswith("&"):
                    continue
                h = storage(n.c[0])
                if h is not None:
                    bad = h[0] == "temp"
                    if bad:
                        bad = any(x.k == "DeclRefExpr" and x.get("vid") == n.get("vid") for x in f.all_nodes())
                    R.ob("view", n.loc, not bad, "%s|var|%s" % (f.q, n.get("n")), "%s keeps a view of a temporary in %s" % (f.where, n.get("n")))
            if n.k == "CXXMemberCallExpr" and n.obj is not None and leaf(n.q) in ("push_back", "emplace_back", "insert") and n.args and not n.q.startswith(NS):
                et = re.search(r"(?:vector|list|deque|set)<(.*?)[,>]", n.obj.t or "")
                if et is not None and isview(et.group(1).strip()):
                    h = storage(n.args[0])
                    if h is not None:
                        R.ob("view", n.loc, not outer(f, n.obj), "%s|push|%s" % (f.q, expr_str(strip(n.obj))[:30]), "%s keeps a view of %s in %s" % (
                            f.where, what(h), expr_str(strip(n.obj))[:50]))
            if n.k == "CXXForRangeStmt":
                rg = next((z for z in n.c if z.r in ("range", "rangeinit")), None)
                h = None
                if rg is not None:
                    e = strip(rg)
                    if e.is_call() and e.obj is not None and e.get("lv"):
                        o = strip(e.obj)
                        if o.is_call() and not o.get("lv") and not (o.t or "").rstrip().endswith(("*", "&")) and owning_class(P, o.t):
                            h = ("temp", None, o)
                    elif isview(e.t):
                        h = storage(e)
                        h = h if h is not None and h[0] == "temp" else None
                R.ob("view", n.loc, h is None, "%s|range" % f.q, "%s runs over a part of %s, which is gone" % (f.where, what(h)))
        for d, e in f.inits:
            if e is None or not d.get("q"):
                continue
            ft = field_type(P, d["q"])
            if ft is None or not isview(ft):
                continue
            h = held(strip(e)) if ft.rstrip().endswith("&") else storage(e)
            R.ob("view", f.where, h is None, "%s|init|%s" % (f.q, leaf(d["q"])), "%s keeps a view of %s in %s" % (f.where, what(h), leaf(d["q"])))


def transient(P, R, f):
    """a field of the CSV reader is kept only after it was copied: an unescaped one is overwritten by the next line"""
    src = [n for n in f.calls() if n.q == "jumanpp::util::CsvReader::field"]
    if not src:
        return
    noquote = any(x.k in CTORS and x.q == "jumanpp::util::CsvReader::CsvReader" and len(x.c) == 2 and strip(x.c[1]).v == 0 for x in f.all_nodes())
    for n in f.all_nodes():
        v, where = None, None
        if n.k in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and (n.obj is not None or n.args):
            o = n.obj if n.k == "CXXMemberCallExpr" else n.args[0]
            a = n.args if n.k == "CXXMemberCallExpr" else n.args[1:]
            if (leaf(n.q) in ("push_back", "emplace_back", "insert", "emplace") or n.op == "[]") and a and o is not None:
                m = re.search(r"(?:vector|list|deque|set|FlatMap|FlatSet|unordered_map|map)<(.*?)[,>]", o.t or "")
                if m and isview(m.group(1).strip()) and outer(f, o):
                    v, where = a[0], o
            elif n.op == "=" and len(n.args) == 2 and isview(n.args[0].t) and outer(f, n.args[0]):
                v, where = n.args[1], n.args[0]
        elif n.k == "BinaryOperator" and n.op == "=" and isview(n.c[0].t) and outer(f, n.c[0]):
            v, where = n.c[1], n.c[0]
        if v is None:
            continue
        x = strip(v)
        while x is not None and x.k in CTORS and len(x.c) == 1:
            x = strip(x.c[0])
        var = None
        if x is not None and x.k == "DeclRefExpr" and x.get("dk") in ("local", "parm"):
            var = x.get("vid")
            ds = var_defs(f).get(var, [])
            x = strip(ds[0]) if len(ds) == 1 and ds[0] is not None else None
            while x is not None and x.k in CTORS and len(x.c) == 1:
                x = strip(x.c[0])
        if x is None or not any(x.i == y.i for y in src):
            continue
        copied = any(c.is_call() and any(strip(a).k == "UnaryOperator" and strip(a).op == "&" and strip(strip(a).c[0]).get("vid") == var for a in c.args) and
                     executes(after(f, c), n) for c in f.calls()) if var is not None else False
        R.ob("view", n.loc, copied or noquote, "%s|transient|%s" % (f.q, expr_str(strip(where))[:30]),
             "%s keeps a field of the CSV reader, which the next line overwrites, in %s" % (f.where, expr_str(strip(where))[:50]))


def what(h):
    if h is None:
        return "nothing"
    return "a temporary" if h[0] == "temp" else "the local " + str(h[2].get("n"))


def owning_class(P, t):
    return bool(OWN.search(t or ""))


def field_type(P, q):
    c, n = q.rsplit("::", 1)
    for k in P.classes.values():
        if k["q"] == c:
            for f in k["fields"]:
                if f["n"] == n:
                    return f["t"]
    return None


def undone(f, n, t):
    """the place is given another value on every path to the end of the function"""
    x = strip(t)
    ids = after(f, n, None, lambda y: y.i != n.i and sets(y, x))
    return "exit" not in ids


def used_later(f, n, t):
    if t.k != "DeclRefExpr" or t.get("vid") is None:
        return False
    ids = after(f, n, None, lambda y: y.i != n.i and sets(y, t))
    return any(x.k == "DeclRefExpr" and x.get("vid") == t.get("vid") and executes(ids, x) and not (x.p is not None and sets(x.p, t)) and not x.inside(n) for x in f.all_nodes())


def scope_left(f, n, t, v):
    """the viewed variable belongs to an inner block, the view is used outside of it"""
    if t.k != "DeclRefExpr" or t.get("vid") is None:
        return False
    blk = v.p
    while blk is not None and blk.k not in ("CompoundStmt", "ForStmt", "CXXForRangeStmt", "WhileStmt", "IfStmt"):
        blk = blk.p
    if blk is None or blk.p is None:
        return False
    d = vardecl(t)
    if d is None or d.inside(blk):
        return False
    ids = after(f, n, None, lambda y: y.i != n.i and sets(y, t))
    for x in f.all_nodes():
        if x.k == "DeclRefExpr" and x.get("vid") == t.get("vid") and not x.inside(blk) and executes(ids, x) and not (x.p is not None and sets(x.p, t)):
            return True
    return False


# ---------------------------------------------------------------- virtual destructors
def virtual(P, R, F):
    cl = {c["t"]: c for c in P.classes.values()}
    der = {}
    for c in P.classes.values():
        for b in c.get("bases", []):
            bt = b if isinstance(b, str) else b.get("t")
            der.setdefault(bt, []).append(c["t"])
    seen = set()
    for f in F:
        for n in f.all_nodes():
            ts = []
            if n.k == "CXXDeleteExpr":
                ts.append((n.c[0].t or "").rstrip(" *"))
            elif n.k in CTORS and smart(n.t) or n.k == "VarDecl" and smart(n.t):
                m = re.match(r"(?:const )?std::(?:unique)_ptr<(.*?)(?:, (.*))?>$", n.t)
                if m and not (m.group(2) and "default_delete" not in m.group(2)):
                    ts.append(m.group(1))
            for t in ts:
                t = t.replace("const ", "").strip()
                if t in der and t in cl and (f.q, t) not in seen:
                    seen.add((f.q, t))
                    c = cl[t]
                    R.ob("virtual", n.loc, bool(c.get("vdtor")), "%s|virtual" % c["q"], "%s deletes a %s, which has derived classes but no virtual destructor" % (f.where, c["q"]))
    for c in P.classes.values():
        for fl in c["fields"]:
            m = re.search(r"std::unique_ptr<([^,<>]*(?:<[^<>]*>)?[^,<>]*)>", fl["t"])
            if m and m.group(1) in der and m.group(1) in cl and c["file"].startswith("src/") and not testfile(c["file"]):
                b = cl[m.group(1)]
                R.ob("virtual", "%s:%s" % (c["file"], fl["l"]), bool(b.get("vdtor")), "%s|virtual" % b["q"], "%s::%s deletes a %s, which has derived classes but no virtual destructor" % (
                    c["q"], fl["n"], b["q"]))


# ---------------------------------------------------------------- arenas
def arena(P, R, F):
    # pools start again together with the memory they take
    for f in F:
        ms = [n for n in f.calls() if n.q.endswith("memory::Manager::reset") and n.obj is not None]
        if not ms:
            continue
        for n in ms:
            pools = {m["n"] for c in P.classes.values() if c["q"] == f.cls for m in c["fields"] if "PoolAlloc" in m["t"] or "Manager" not in m["t"] and holds_pool(P, m["t"])}
            rs = {x.i for x in f.calls() if restarts(P, x)}
            ids = after(f, n, None, lambda y: y.i in rs)
            pre = any(f.cfg.dominates(f.nodes[i], n) for i in rs)
            if not pools and not rs:
                continue
            R.ob("arena", n.loc, bool(rs) and (pre or "exit" not in ids), "%s|pool" % f.q, "%s takes the memory back while its pools go on using it" % f.where)
    for f in F:
        if f.cls.endswith("memory::PoolAlloc") and re.search(r"void \*", f.ret or "") and any(r.k == "ReturnStmt" for r in f.all_nodes()):
            pool_alloc(P, R, f)
        if leaf(f.q) == "Align" and len(f.params) == 2:
            align(P, R, f)
        if f.cls.endswith("memory::PoolAlloc") and leaf(f.q) in ("make", "allocateArray", "allocateBuf", "allocate2d"):
            t = (f.d.get("targs") or "").split(",")[0].strip("<> ")
            if leaf(f.q) == "make" and only_unique(P, f):
                continue
            if t.startswith("jumanpp::core::spec::"):
                continue         # the objects of a specification live as long as the program which compiles it
            k = needs_destructor(P, t)
            R.ob("arena", f.where, not k, "%s|%s" % (leaf(f.q), t), "%s is put into a pool, where nothing calls its destructor" % t)


def holds_pool(P, t):
    return False


def restarts(P, x):
    if x.obj is None:
        return False
    if x.q.endswith("PoolAlloc::reset"):
        return True
    if leaf(x.q) == "reset" and "PoolAlloc" in (x.obj.t or "") and smart(x.obj.t):
        return True
    if x.q.startswith(NS) and leaf(x.q) in ("reset", "clear", "init", "initialize"):
        return any(any(y.q.endswith("PoolAlloc::reset") for y in t.calls()) for t in P.targets(x) if t.body is not None)
    return False


def only_unique(P, f):
    cs = [n for n in P.callers.get(f.key, [])]
    return bool(cs) and all((c.fn if hasattr(c, "fn") else c[0]).q.endswith("make_unique") for c in cs)


def needs_destructor(P, t, depth=4):
    t = t.replace("const ", "").strip()
    if not depth or t.endswith(("*", "&")):
        return None
    if re.match(r"std::(vector|basic_string|unique_ptr|function|map|unordered_map|deque)\b", t) or t == "std::string":
        return None if "StlManagedAlloc" in t else t
    for c in P.classes.values():
        if c["t"] == t:
            for fl in c["fields"]:
                k = needs_destructor(P, fl["t"], depth - 1)
                if k:
                    return k
            for b in c.get("bases", []):
                k = needs_destructor(P, b if isinstance(b, str) else b.get("t"), depth - 1)
                if k:
                    return k
            if "CharBuffer" in t or "InlinedVector" in t:
                return t
            return None
    return None


def pool_alloc(P, R, f):
    from terms import Terms, num
    T = Terms(P, {"jumanpp::util::memory::Align"})
    if len(f.params) < 2:
        return
    size = f.params[0]
    # field advanced, base returned
    rets = []
    for r in f.all_nodes():
        if r.k == "ReturnStmt" and r.c:
            e = strip(r.c[0])
            if e.k == "BinaryOperator" and e.op == "+":
                a, b = strip(e.c[0]), strip(e.c[1])
                if is_field(a):
                    rets.append((r, a, b))
                elif is_field(b):
                    rets.append((r, b, a))
    for r, base, off in rets:
        o = T.term(off)
        adv = [(t, v, s) for t, v, s in assigns(f) if is_field(strip(t)) and strip(t).q.rsplit("::", 1)[0] == f.cls and strip(t).q != base.q and
               executes({y for y in after(f, s)}, r)]
        if o is None or not adv:
            R.ob("arena", r.loc, bool(adv), "%s|advance" % f.q, "%s hands out memory without advancing behind it" % f.where)
            continue
        for t, v, s in adv:
            e = T.term(v)
            if e is None:
                continue
            pos = strip(t)
            d = e - o
            ok = d is not None and any(re.search(r"(^|[:#.])%s$" % re.escape(size["n"]), x) or size["n"] in x for x in d.atoms()) and d.same(T.term(ref_of(f, size)) if ref_of(f, size) is not None else d)
            R.ob("arena", s.loc, ok, "%s|size" % f.q, "%s advances by %r, not by the size of what is handed out" % (f.where, d))
            # aligned, and not before the position
            al = f.params[1]["n"]
            at = " ".join(o.atoms())
            R.ob("arena", r.loc, "Align" in at or al in at, "%s|align" % f.q, "%s does not align what it hands out" % f.where)
            # inside the page
            ok = False
            seen = False
            lim = [x for x in f.all_nodes() if x.k == "BinaryOperator" and x.op in ("<", ">", "<=", ">=") and conditional(x)]

            def inside(a, p):
                q = relation(strip(a), p)
                if q is None:
                    return False
                l, op, rr = q
                if op in (">", ">="):
                    l, op, rr = rr, {">": "<", ">=": "<="}[op], l
                if op not in ("<", "<="):
                    return False
                x, y = T.term(l), T.term(rr)
                if x is None or y is None:
                    return False
                g = (y - x)
                w = None
                for at2 in y.atoms():
                    if at2.endswith("end_"):
                        w = True
                z = T.term(v)
                # end - (pos + size) >= 0 in any arrangement
                endt = [y2 for y2 in (y,) if w]
                return bool(endt) and (g.same(y - z)) or bool(end_minus(g, z))

            def end_minus(g, z):
                h = g + z
                return h.mono() is not None and any("end" in k for k in h.atoms()) and len(h.atoms()) == 1

            ids = after(f, None, inside)
            R.ob("arena", r.loc, not executes(ids, r), "%s|fits" % f.q, "%s can hand out memory behind the end of the page" % f.where)


def ref_of(f, p):
    return next((x for x in f.all_nodes() if x.k == "DeclRefExpr" and x.get("vid") == p.get("vid")), None)


def align(P, R, f):
    for r in f.all_nodes():
        if r.k == "ReturnStmt" and r.c:
            e = strip(r.c[0])
            if e.k == "DeclRefExpr":
                continue
            s = expr_str(e)
            ok = "+" in s
            R.ob("arena", r.loc, ok, "%s|up" % f.q, "%s rounds down" % f.where)

"""F01: files which are read are never changed, and a mapping stays inside its file."""
from consts import *
from vflow import leaf_field, fq
from guards import SWAP, relation

MODE = "MMapType"
O_WR, O_CREAT, O_TRUNC, O_APPEND = 0x3, 0o100, 0o1000, 0o2000
REMOVERS = re.compile(r"^(::)?(std::)?(unlink|unlinkat|remove|rename|renameat|truncate|ftruncate|rmdir|chmod|fchmod|chown|link|symlink|"
                      r"mkstemp|creat|system|popen|execl|execv|execvp|execlp|fork)$")
OUT = re.compile(r"^std::(basic_)?(ofstream|fstream)\b|basic_(ofstream|fstream)<")
INS = re.compile(r"^std::(basic_)?ifstream\b|basic_ifstream<")


def mode_fixed(m):
    return lambda n: {m} if MODE in (n.t or "") and n.v is None and n.k in ("DeclRefExpr", "MemberExpr") else None


def symlin(n, depth=8):
    """linear form {key: coefficient} of an integer or pointer expression (key 1: constant), through local variables"""
    n = strip0(n)
    if n is None:
        return {}
    if n.v is not None and not isinstance(n.v, (str, float)):
        return {1: int(n.v)} if n.v else {}
    if n.k == "BinaryOperator" and n.op in ("+", "-"):
        a, b = symlin(n.c[0], depth), symlin(n.c[1], depth)
        return addl(a, b, 1 if n.op == "+" else -1)
    if n.k == "BinaryOperator" and n.op == "*":
        a, b = symlin(n.c[0], depth), symlin(n.c[1], depth)
        for x, y in ((a, b), (b, a)):
            if set(x) <= {1}:
                return {k: v * x.get(1, 0) for k, v in y.items() if v * x.get(1, 0)}
    if n.k == "DeclRefExpr" and n.get("dk") == "local" and depth:
        ds = var_defs(n.fn).get(n.get("vid"), [])
        if len(ds) == 1:
            return symlin(ds[0], depth - 1)
    if n.k in ("BinaryOperator",):
        return {(n.op, lk(symlin(n.c[0], depth)), lk(symlin(n.c[1], depth))): 1}
    return {struct(n): 1}


def lk(d):
    return tuple(sorted(((str(k), v) for k, v in d.items())))


def addl(a, b, s):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
        if not out[k]:
            del out[k]
    return out


def same(a, b):
    return not addl(a, b, -1)


def unavoidable(C, target, hit_edge=None, hit_nodes=()):
    """under the assumption of C every path from the entry to target takes an edge (block, index) accepted by hit_edge or
    passes one of hit_nodes"""
    cfg = C.fn.cfg
    w = cfg.where(target)
    k = target
    while w is None and k.p is not None:
        k = k.p
        w = cfg.where(k)
    hits = {}
    for n in hit_nodes:
        x = cfg.where(n)
        if x is not None:
            hits.setdefault(x[0], []).append(x[1])
    seen, st = {cfg.entry}, [cfg.entry]
    while st:
        x = st.pop()
        if x == w[0] and not any(i < w[1] for i in hits.get(x, ())):
            return False
        if hits.get(x):
            continue
        env = C.inn.get(x)
        if env is None:
            continue
        for e in cfg.b[x].e:
            if isinstance(e, int):
                env = C.step(C.fn.nodes[e], env)
        ok = set(C.edges(x, env))
        b = cfg.b[x]
        for i, s in enumerate(b.s):
            if s < 0 or s not in ok or s in seen:
                continue
            if hit_edge and b.cond is not None and len(b.s) == 2:
                c = C.fn.nodes[b.cond]
                fs = list(branch_facts(c, i == 0))
                d = strip0(c)
                if d.k == "DeclRefExpr" and d.get("dk") == "local":
                    ds = var_defs(C.fn).get(d.get("vid"), [])
                    if len(ds) == 1:
                        fs += branch_facts(ds[0], i == 0)
                if any(hit_edge(a, p) for a, p in fs):
                    continue
            seen.add(s)
            st.append(s)
    return True


def back_fields(P, n, depth=5, seen=None):
    """leaf fields (Class::field) a path expression is built from, through variables, parameters, callers and field stores"""
    seen = set() if seen is None else seen
    out = set()
    if depth < 0:
        return out
    for s in sources(n):
        if (s.fn.key, s.i) in seen:
            continue
        seen.add((s.fn.key, s.i))
        lf = leaf_field(s)
        if lf is not None and re.search(r"string|StringPiece|char", lf.t or ""):
            out.add(fq(lf))
            continue
        if s.k == "DeclRefExpr" and s.get("dk") in ("parm", "param"):
            for i, p in enumerate(s.fn.params):
                if p["vid"] == s.get("vid"):
                    for c in P.callers[s.fn.key]:
                        if i < len(c.args):
                            out |= back_fields(P, c.args[i], depth - 1, seen)
        elif s.is_call():
            if s.obj is not None and s.q.split("::")[-1] in ("str", "c_str", "data", "value", "get", "operator basic_string_view"):
                out |= back_fields(P, s.obj, depth, seen)
            else:
                for a in s.args:
                    out |= back_fields(P, a, depth - 1, seen)
                if not s.args and s.obj is not None and s.q.startswith("jumanpp"):
                    for t in P.targets(s):
                        for r in t.all_nodes():
                            if r.k == "ReturnStmt" and r.c:
                                out |= back_fields(P, r.c[0], depth - 1, seen)
        elif s.k in CTORS or s.k == "InitListExpr" or s.k == "CXXBindTemporaryExpr":
            for a in s.c:
                out |= back_fields(P, a, depth - 1, seen)
    return out


def scope(f):
    return f.file.startswith("src/") and not testfile(f.file) and "/benchmarks/" not in f.file and "src/core/dic/darts.h" not in f.file \
        and "format." not in f.file.split("/")[-1]


def run(P, R):
    fns = [f for f in src_fns(P) if scope(f)]
    R.rule("write-mode", "only the model being saved is opened for writing")
    R.rule("open-flags", "opening a file for reading can not create, truncate or change it; opening for writing can do both")
    R.rule("map-flags", "a mapping for reading is not writable, one for writing reaches the file")
    R.rule("map-range", "a mapping for reading lies inside the file, the file is extended before one for writing")
    R.rule("map-view", "the view of a mapping is the requested range, and exactly the mapped range is unmapped")
    R.rule("no-removal", "no file is removed, renamed or cut")
    R.rule("paths", "no path is used both for reading and for writing")

    writers = set()
    for f in fns:
        for n in f.all_nodes():
            if n.k == "DeclRefExpr" and n.get("dk") == "enum" and n.q.endswith("::ReadWrite") and MODE in (n.t or ""):
                par = n.p
                while par is not None and not par.is_call() and par.k not in CTORS and par.k not in ("ReturnStmt", "VarDecl", "CompoundStmt"):
                    if par.k == "CaseStmt" or par.k == "BinaryOperator" and par.op in ("==", "!="):
                        break
                    par = par.p
                if par is None or par.k == "CaseStmt" or par.k == "BinaryOperator":
                    continue
                if par.k == "CXXOperatorCallExpr" and par.op in ("==", "!="):
                    continue
                ok = saver_only(P, f)
                R.ob("write-mode", n.loc, ok, "%s" % f.q, "%s opens a file for writing" % f.where)
                writers.add(f.key)
            elif n.is_call() and n.q == "jumanpp::util::MappedFileFragment::asMutableSlice":
                R.ob("write-mode", n.loc, saver_only(P, f), "%s|slice" % f.q, "%s writes into a mapped file" % f.where)
    R.need("write-mode", 2)

    for f in fns:
        calls = {}
        for n in f.calls():
            if n.q in ("open", "mmap", "munmap", "lseek", "write", "pwrite", "ftruncate"):
                calls.setdefault(n.q, []).append(n)
            if REMOVERS.match(n.q) and n.q != "ftruncate":
                R.bad("no-removal", "%s|%s" % (f.q, n.q), n.loc, "%s calls %s" % (f.where, n.q))
        if not calls or "rnn/legacy" in f.file:
            continue
        c0, c1 = None, None
        if set(calls) & {"open", "mmap", "write", "pwrite", "ftruncate", "lseek"}:
            c0, c1 = Consts(P, f, mode_fixed(0)), Consts(P, f, mode_fixed(1))
        for n in calls.get("open", ()):
            e = c0.at(n)
            if e is not None and len(n.args) > 1:
                v = c0.ev(n.args[1], e)
                R.ob("open-flags", n.loc, v is not None and not any(x & (O_WR | O_CREAT | O_TRUNC | O_APPEND) for x in v), "%s|ro" % f.q,
                     "%s can open a file which is only read with flags %s" % (f.where, sorted(v) if v else "?"))
            e = c1.at(n)
            if e is not None and len(n.args) > 1:
                v = c1.ev(n.args[1], e)
                R.ob("open-flags", n.loc, v is not None and all((x & O_WR) == 2 and x & O_CREAT for x in v), "%s|rw" % f.q,
                     "%s opens a file to be written with flags %s" % (f.where, sorted(v) if v else "?"))
                if v is not None and any(x & O_CREAT for x in v):
                    m = c1.ev(n.args[2], e) if len(n.args) > 2 else None
                    R.ob("open-flags", n.loc, m is not None and all((x & 0o600) == 0o600 and not x & 0o022 for x in m), "%s|mode" % f.q,
                         "%s creates a file with unusable or unsafe permissions" % f.where)
        for q in ("write", "pwrite", "ftruncate"):
            for n in calls.get(q, ()):
                R.ob("map-range", n.loc, c0.at(n) is None, "%s|%s-ro" % (f.q, q), "%s can write to a file which is only read" % f.where)
        for n in calls.get("mmap", ()):
            e = c0.at(n)
            if e is not None:
                p, fl = c0.ev(n.args[2], e), c0.ev(n.args[3], e)
                R.ob("map-flags", n.loc, p is not None and all(not x & 2 and x & 1 for x in p), "%s|ro" % f.q,
                     "%s can map a file which is only read for writing" % f.where)
            e1 = c1.at(n)
            if e1 is not None:
                p, fl = c1.ev(n.args[2], e1), c1.ev(n.args[3], e1)
                R.ob("map-flags", n.loc, p is not None and all((x & 3) == 3 for x in p) and fl is not None and all(x & 1 and not x & 2 for x in fl),
                     "%s|rw" % f.q, "%s maps a file to be written without PROT_WRITE or MAP_SHARED" % f.where)
            ranges(P, R, f, n, c0, c1)
    R.need("open-flags", 3)
    R.need("map-flags", 4)
    R.need("map-range", 4)
    views(P, R, fns)
    R.need("map-view", 4)

    rd, wr = {}, {}
    for f in fns:
        if "rnn/legacy" in f.file:
            continue
        for n in f.all_nodes():
            if n.is_call() and re.search(r"::(MappedFile|FullyMappedFile)::open$", n.q) and n.args:
                m = strip0(n.args[1]) if len(n.args) > 1 else None
                dst = wr if m is not None and m.q.endswith("::ReadWrite") else rd
                for x in back_fields(P, n.args[0]):
                    dst.setdefault(x, n)
            elif n.k in CTORS and n.args and (OUT.match(n.t or "") or INS.match(n.t or "")) and not n.get("move") and not n.get("copy"):
                for x in back_fields(P, n.args[0]):
                    (wr if OUT.match(n.t or "") else rd).setdefault(x, n)
            elif n.is_call() and re.search(r"basic_(o|i)?fstream<.*::open$", n.q) and n.args:
                for x in back_fields(P, n.args[0]):
                    (rd if "ifstream" in n.q else wr).setdefault(x, n)
    for x, n in sorted(wr.items()):
        R.ob("paths", n.loc, x not in rd, x, "the file named by %s is read and written" % x)
    for x, n in sorted(rd.items()):
        R.ob("paths", n.loc, x not in wr, x, "the file named by %s is read and written" % x)
    R.ob("no-removal", "src/", not any(v["rule"] == "no-removal" for v in R.viol), "any")
    R.need("paths", 4)


def saver_only(P, f, depth=4, seen=None):
    """the function belongs to the model saver or is only used by it"""
    seen = seen or set()
    if re.search(r"Sav(er|ing)|Writ(er|ing)", f.cls or "") or re.search(r"[sS]ave", f.name):
        return True
    if f.key in seen or depth == 0:
        return False
    seen.add(f.key)
    cs = P.callers[f.key]
    return bool(cs) and all(saver_only(P, c.fn, depth - 1, seen) for c in cs)


def ranges(P, R, f, n, c0, c1):
    """mmap call n of a function with offset and size parameters"""
    length, off = symlin(n.args[1]), symlin(n.args[5])
    # requested end = length + page offset
    end = addl(length, off, 1)
    ps = [("v", p["vid"]) for p in f.params]
    plain = set(end) <= set(ps) and len(end) == 2 and all(v == 1 for v in end.values())
    R.ob("map-range", n.loc, plain, "%s|length" % f.q, "%s does not map up to offset + size" % f.where)
    if not plain:
        return
    if c0.at(n) is not None:
        R.ob("map-range", n.loc, unavoidable(c0, n, lambda a, p: bound(a, p, end)), "%s|ro-end" % f.q,
             "%s maps a range for reading which was not compared with the size of the file" % f.where)
    if c1.at(n) is not None:
        ext = []
        for w in f.calls():
            if w.q == "ftruncate" and same(symlin(w.args[1]), end):
                ext.append(w)
            if w.q == "pwrite" and same(addl(symlin(w.args[3]), symlin(w.args[2]), 1), end):
                ext.append(w)
            if w.q == "write":
                for s in f.calls():
                    if s.q == "lseek" and f.cfg.path_exists(s, {w.i}) and strip0(s.args[2]).v == 0 and \
                            same(addl(symlin(s.args[1]), symlin(w.args[2]), 1), end):
                        ext.append(w)
        R.ob("map-range", n.loc, unavoidable(c1, n, lambda a, p: bound(a, p, end), ext), "%s|rw-end" % f.q,
             "%s maps a range for writing although the file was not extended to its end" % f.where)


def bound(a, p, end):
    """fact: end <= size of the file"""
    r = relation(a, p)
    if r is None:
        return False
    for l, op, rr in (r, (r[2], SWAP[r[1]], r[0])):
        if op in ("<=", "<", "=="):
            d = addl(symlin(l), end, -1)
            q = strip0(rr)
            if (not d or set(d) == {1} and d[1] >= 0) and is_field(q):
                return True
            # size <= field - offset: subtraction can wrap, unless offset was compared before; not accepted
    return False


def views(P, R, fns):
    um = []
    for f in fns:
        for n in f.calls():
            if n.q == "munmap":
                b, l = strip0(n.args[0]), strip0(n.args[1])
                if is_field(b) and is_field(l):
                    um.append((f, b.q, l.q))
    acc = {}
    for f in fns:
        if f.name in ("asStringPiece", "asMutableSlice", "address", "size") and f.cls.endswith("MappedFileFragment"):
            acc[f.name] = f
    for f in fns:
        for n in f.calls():
            if n.q != "mmap":
                continue
            var = None
            p = n.p
            addrs = {n.i}
            for t, v, st in assigns(f):
                if v is not None and strip0(v).i == n.i and strip0(t).k == "DeclRefExpr":
                    var = strip0(t).get("vid")
            for x in f.all_nodes():
                if x.k == "VarDecl" and x.c and strip0(x.c[-1]).i == n.i:
                    var = x.get("vid")
            if var is None:
                continue
            stores = {}
            for t, v, st in assigns(f):
                t = strip0(t)
                if is_field(t) and v is not None and st.op == "=" and "MappedFileFragment" in t.q:
                    stores[t.q] = (symlin(v), st)
            A = {("v", var): 1}
            length, off = symlin(n.args[1]), symlin(n.args[5])
            offp = next((("v", p["vid"]) for p in f.params if ("v", p["vid"]) in addl(length, off, 1) and ("v", str(p["vid"])) in flat(off)), None)
            for g, bq, lq in um[:1]:
                if bq in stores:
                    R.ob("map-view", stores[bq][1].loc, same(stores[bq][0], A), "%s|base" % f.q,
                         "%s does not keep the start of the mapping as what is unmapped" % f.where)
                if lq in stores:
                    R.ob("map-view", stores[lq][1].loc, same(stores[lq][0], length), "%s|length" % f.q,
                         "%s does not keep the length of the mapping as what is unmapped" % f.where)
                data = [q for q in stores if q not in (bq, lq)]
                for q in data:
                    d, st = stores[q]
                    if ("v", var) in d:
                        want = addl(addl(A, {offp: 1} if offp else {}, 1), off, -1)
                        R.ob("map-view", st.loc, same(d, want), "%s|address" % f.q,
                             "%s lets the view start somewhere else than at the requested offset" % f.where)
                    else:
                        sz = addl(addl(length, off, 1), {offp: 1} if offp else {}, -1)
                        R.ob("map-view", st.loc, same(d, sz), "%s|size" % f.q,
                             "%s gives the view another size than the requested one" % f.where)


def flat(d):
    """variables an offset is computed from"""
    return {("v", m) for k in d for m in re.findall(r"'v', '?([\w.:-]+)'?\)", str(k).replace('"', "").replace("\\", ""))}

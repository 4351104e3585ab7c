"""K01: orders used for sorting, selecting, beams and hashing are consistent."""
from interp import *
from dfl import *
from guards import relation, SWAP

ALG = re.compile(r"^(std|jumanpp::util)::(sort|stable_sort|partial_sort|nth_element|make_heap|push_heap|pop_heap|sort_heap|max_element|"
                 r"min_element|partition|partition_stl|lower_bound|upper_bound|binary_search|is_sorted|merge|set_\w+|unique)$")
EQALG = {"unique"}


def scope(f):
    return f.file.startswith("src/") and not testfile(f.file) and "/benchmarks/" not in f.file


def comparators(P, n, depth=3, seen=None):
    """functions an argument may stand for: list of Fn or ('op', '<')"""
    seen = set() if seen is None else seen
    out = []
    n = bare(n)
    while n is not None and n.k == "UnaryOperator" and n.op in ("&", "*"):
        n = bare(n.c[0])
    if n is None or (n.fn.key, n.i) in seen:
        return out
    seen.add((n.fn.key, n.i))
    t = n.t or ""
    m = re.search(r"std::(less|greater)<", t)
    if m:
        return [("op", "<" if m.group(1) == "less" else ">")]
    if n.k == "LambdaExpr" and n.get("fn") in P.fns:
        return [P.fns[n.get("fn")]]
    for x in n.walk():
        if x.k == "LambdaExpr" and x.get("fn") in P.fns:
            return [P.fns[x.get("fn")]]
    if n.k == "DeclRefExpr":
        if n.get("dk") in ("fn", "func", "function", "method") or (n.get("vid") is None and n.q):
            fs = [f for f in P.fns.values() if f.q == n.q]
            if fs:
                return fs[:1]
        for d in var_defs(n.fn).get(n.get("vid"), []):
            out += comparators(P, d, depth, seen)
        if not out and depth:
            for i, p in enumerate(n.fn.params):
                if p["vid"] == n.get("vid"):
                    for c in P.callers[n.fn.key]:
                        if i < len(c.args):
                            out += comparators(P, c.args[i], depth - 1, seen)
    elif n.k in CTORS and len(n.c) == 1:
        out += comparators(P, n.c[0], depth, seen)
    # an object with a call operator
    if not out:
        cls = re.sub(r"^(const |struct |class )+", "", t).strip(" &*")
        fs = [f for f in P.fns.values() if f.name == "operator()" and f.cls and (f.cls == cls or f.cls.endswith("::" + cls))]
        out += fs[:1]
    return out


def interp_of(P, c, elem=None):
    if isinstance(c, tuple):
        return None
    vids = [p["vid"] for p in c.params]
    if c.cls and len(vids) == 1 and re.match(r"operator(<|>|==)", c.name):
        vids = ["this"] + vids
    if len(vids) != 2 or c.body is None:
        return None
    return Interp(P, c, vids)


def element_ops(P, call, op):
    """user-defined operator for the elements of the container a standard comparator works on"""
    out = []
    ts = " ".join(a.t or "" for a in call.args[:2])
    for f in P.fns.values():
        if f.name == "operator" + op and f.file.startswith("src/"):
            cls = f.cls or (f.params[0]["t"] if f.params else "")
            cls = re.sub(r"\bconst\b|[&*]|\bclass\b|\bstruct\b", "", cls).strip()
            s = cls.split("::")[-1].split("<")[0]
            if s and re.search(r"\b%s\b" % re.escape(s), ts) and (f.cls or len(f.params) == 2):
                out.append(f)
    return out


def run(P, R):
    R.rule("strict", "a comparator orders elements strictly and consistently, and by the same keys of both elements")
    R.rule("best-first", "scores are ordered from the best to the worst, and a maximum is the greatest")
    R.rule("beam", "a beam is one heap: one order, the worst element on top, replaced only by a better one")
    R.rule("select", "what is selected before sorting is selected by the order it is sorted with, and enough is selected")
    R.rule("unique", "duplicates are removed only after sorting has brought them together, and only duplicates are")
    R.rule("equality", "equality is an equivalence, and equal keys of a table have equal hashes")
    R.rule("pack", "packed beam candidates are ordered by score and give back what was packed")
    sites = []
    done = {}
    for f in src_fns(P):
        if not scope(f):
            continue
        for n in f.calls():
            if not ALG.match(n.q or ""):
                continue
            if f.file.endswith("stl_util.h"):
                continue
            alg = n.q.split("::")[-1]
            cs = []
            for a in n.args:
                if "iterator" in (a.t or "") and "(lambda" not in (a.t or ""):
                    continue
                if re.search(r"\(lambda|std::(less|greater)|\(const .*\)|bool \(", a.t or "") or (
                        bare(a) is not None and bare(a).k in ("LambdaExpr",)) or alg in ("pop_heap", "push_heap", "sort_heap"):
                    cs += [(a, c) for c in comparators(P, a)]
            if not cs:
                last = n.args[-1] if n.args else None
                if last is not None and "iterator" not in (last.t or "") and "*" not in (last.t or ""):
                    cs = [(last, c) for c in comparators(P, last)]
            sites.append((f, n, alg, cs))
    for f, n, alg, cs in sites:
        fns = []
        for a, c in cs:
            if isinstance(c, tuple):
                fns += element_ops(P, n, c[1])
            else:
                fns.append(c)
        if not cs and alg not in EQALG and not alg.startswith("set_"):
            fns += element_ops(P, n, "<")
        for c in fns:
            check(P, R, f, n, alg, c, done)
    for f in P.fns.values():
        if f.name in ("operator<", "operator>") and scope(f) and f.file.startswith("src/") and f.key not in done and f.body is not None \
                and not f.file.endswith(("format.h",)):
            check(P, R, f, None, "operator", f, done)
    R.need("strict", 15)
    beams(P, R, sites)
    selects(P, R, sites)
    uniques(P, R, sites)
    equalities(P, R)
    packs(P, R)


def check(P, R, f, n, alg, c, done):
    it = interp_of(P, c)
    if it is None:
        return
    where = c.where if hasattr(c, "where") else c.q
    loc = n.loc if n is not None else c.file + ":%s" % (c.body.loc.split(":")[-1] if c.body is not None else 0)
    what = "%s, used by %s of %s" % (where, alg, f.q) if n is not None else where
    try:
        res = done.get(c.key)
        if res is None:
            bad = equivalence(it) if alg in EQALG else strict_order(it)
            if not bad and it.selfcmp:
                bad = "it compares a part of an element with itself"
            if not bad:
                ptr = sorted(k for k in it.keys if pointer(it.types.get(k, "")) and not textual(it, k))
                if ptr:
                    bad = "it orders by the address " + ptr[0]
            res = done[c.key] = (bad, it)
    except Unsupported as e:
        done[c.key] = ("", it)
        R.note("strict", "%s not interpreted: %s" % (what, e)) if hasattr(R, "note") else None
        return
    bad, it = res
    if bad == "":
        return
    R.ob("strict" if alg not in EQALG else "equality", loc, not bad, "%s|%s" % (f.q, alg), "the order %s is not consistent: %s" % (what, bad))
    if bad or n is None:
        return
    # direction
    fl = [k for k in it.keys if re.search(r"\b(float|double|Score)\b", it.types.get(k, "")) and "*" not in it.types.get(k, "")]
    cand = c.cls.endswith("BeamCandidate") if c.cls else False
    if len(it.keys) >= 1 and (fl or cand):
        k = sorted(fl or it.keys)[0]
        lo = {x: 0 for x in it.keys}
        hi = dict(lo)
        hi[k] = 1
        it.kv = {}
        first = bool(it(hi, lo))
        if alg == "operator":
            return
        want = alg not in ("max_element", "min_element", "lower_bound", "upper_bound")
        if alg == "min_element":
            return
        R.ob("best-first", loc, first == want, "%s|%s" % (f.q, alg),
             "%s %s" % (what, "puts the worst score first" if want else "selects the worst score as the maximum"))


def pointer(t):
    return re.search(r"\*\s*(const)?\s*$", t or "") is not None


def textual(it, k):
    return "char" in it.types.get(k, "")


# ------------------------------------------------------------------ heaps
def container(n):
    """root of x.begin() / std::begin(x)"""
    n = bare(n)
    while n is not None and n.k in CTORS and len(n.c) == 1:
        n = bare(n.c[0])
    if n is None:
        return None
    if n.k == "CXXMemberCallExpr" and (n.q or "").split("::")[-1] in ("begin", "end", "data", "cbegin", "cend"):
        return text_of(n.obj)
    if n.is_call() and (n.q or "").split("::")[-1] in ("begin", "end") and n.args:
        return text_of(n.args[0])
    return None


def text_of(n):
    n = peel(n)
    if n is None:
        return None
    if n.k == "MemberExpr":
        return "%s.%s" % (text_of(n.c[0]) if n.c else "this", n.m)
    if n.k == "CXXThisExpr":
        return "this"
    if n.k == "DeclRefExpr":
        d = var_defs(n.fn).get(n.get("vid"), [])
        if len(d) == 1 and peel(d[0]) is not None and peel(d[0]).k in ("MemberExpr",):
            return text_of(d[0])
        return "v%s" % n.get("vid")
    return None


def beams(P, R, sites):
    byc = {}
    for f, n, alg, cs in sites:
        if alg.endswith("_heap"):
            byc.setdefault((f.cls, container(n.args[0])), []).append((f, n, alg, cs))
    for (cls, cont), ss in byc.items():
        ids = set()
        for f, n, alg, cs in ss:
            ids.add(tuple(sorted(c.key if not isinstance(c, tuple) else str(c) for a, c in cs)))
        R.ob("beam", ss[0][1].loc, len(ids) == 1, "%s|order" % cls, "%s keeps one heap with different orders" % cls)
        cmpf = next((c for f, n, alg, cs in ss for a, c in cs if not isinstance(c, tuple)), None)
        for f, n, alg, cs in ss:
            if alg == "push_heap":
                pops = [m for g, m, al, _ in ss if g is f and al == "pop_heap"]
                w = writes_to_back(f, cont)
                ok = False
                for b in w:
                    ok = ok or f.cfg.dominates(b, n) and all(f.cfg.dominates(p, b) for p in pops)
                R.ob("beam", n.loc, ok, "%s|write" % f.q, "%s puts no new element at the end of the heap before adding it" % f.where)
            if alg == "pop_heap" and cmpf is not None:
                item = new_item(f, cont)
                if item is None:
                    continue
                ok = replaced_if_better(P, f, n, cmpf, item, cont)
                if ok is None:
                    continue
                R.ob("beam", n.loc, ok, "%s|better" % f.q, "%s replaces an element of the beam by one which is not better, or keeps a worse one" % f.where)


def writes_to_back(f, cont):
    out = []
    for t, v, s in assigns(f):
        t = bare(t)
        if t.k == "CXXMemberCallExpr" and (t.q or "").split("::")[-1] == "back" and text_of(t.obj) == cont:
            out.append(s)
        elif t.k in ("CXXOperatorCallExpr", "ArraySubscriptExpr", "CXXMemberCallExpr", "UnaryOperator"):
            base = t.args[0] if t.is_call() and t.op == "[]" and t.args else (t.obj if t.k == "CXXMemberCallExpr" else t.c[0])
            ix = t.args[-1] if t.is_call() and t.args else (t.c[1] if len(t.c) > 1 else None)
            if text_of(base) == cont and (ix is None or bare(ix).v is None):
                out.append(s)
    return out


def new_item(f, cont):
    for t, v, s in assigns(f):
        if s in writes_to_back(f, cont) and v is not None:
            return bare(v)
    return None


def tip_ref(x, cont):
    x = bare(x)
    if x is None:
        return False
    if x.k == "UnaryOperator" and x.op == "*":
        return container(x.c[0]) == cont
    if x.is_call() and (x.q or "").split("::")[-1] in ("front", "operator[]", "at") or x.is_call() and x.op == "[]":
        o = x.obj if x.k == "CXXMemberCallExpr" else x.args[0]
        ix = bare(x.args[-1]) if (x.q or "").split("::")[-1] != "front" else None
        return text_of(o) == cont and (ix is None or ix.v == 0)
    if x.k == "ArraySubscriptExpr":
        return text_of(x.c[0]) == cont and bare(x.c[1]).v == 0
    return False


def replaced_if_better(P, f, n, cmpf, item, cont):
    """the branch condition which leads to the replacement agrees with the order"""
    item = bare(item)
    if item.k != "DeclRefExpr":
        return None
    bind = {item.get("vid"): "$0"}
    for d in f.all_nodes():
        if d.k == "VarDecl" and d.c and tip_ref(d.c[0], cont):
            bind[d.get("vid")] = "$1"
    ref = Interp(P, cmpf, [p["vid"] for p in cmpf.params])
    seen = False
    for c, pol in edges_to(f, n):
        e = TipExpr(P, c, bind, cont)
        try:
            sts = e.states()
            if not e.keys:
                continue
            ref.states()
            if e.keys != ref.keys:
                continue
            seen = True
            for x in sts:
                for y in sts:
                    ref.kv = {}
                    e.kv = {}
                    better, worse = bool(ref(x, y)), bool(ref(y, x))
                    taken = bool(e(x, y)) == pol
                    if better and not taken or worse and taken:
                        return False
        except Unsupported:
            return None
    return seen


class TipExpr(Expr):
    def __init__(self, P, node, bind, cont):
        super().__init__(P, node, bind)
        self.cont = cont

    def text(self, n, bind, depth=0):
        if tip_ref(n, self.cont):
            return "$1"
        return super().text(n, bind, depth)


# ------------------------------------------------------------------ selection
def num(n, env, depth=6):
    n = bare(n)
    if n is None or depth < 0:
        return None
    if n.v is not None and not isinstance(n.v, str):
        return int(n.v)
    if n.k == "DeclRefExpr" or n.k == "MemberExpr":
        t = text_of(n)
        ds = var_defs(n.fn).get(n.get("vid"), []) if n.k == "DeclRefExpr" else []
        if len(ds) == 1 and n.get("dk") == "local" and any(x.k == "BinaryOperator" for x in ds[0].walk()):
            return num(ds[0], env, depth - 1)
        if len(ds) == 1 and n.get("dk") == "local" and bare(ds[0]).k in ("MemberExpr", "DeclRefExpr"):
            return num(ds[0], env, depth - 1)
        env.setdefault(t, env.get("?", 1))
        return env[t]
    if n.k == "BinaryOperator":
        x, y = num(n.c[0], env, depth - 1), num(n.c[1], env, depth - 1)
        if x is None or y is None:
            return None
        try:
            return {"+": x + y, "-": x - y, "*": x * y, "/": x // y if y else None, "<<": x << y if 0 <= y < 64 else None}.get(n.op)
        except Exception:
            return None
    if n.is_call() and n.q in ("std::max", "std::min") and len(n.args) == 2:
        x, y = num(n.args[0], env, depth - 1), num(n.args[1], env, depth - 1)
        return None if x is None or y is None else (max if n.q == "std::max" else min)(x, y)
    return None


def selects(P, R, sites):
    for f, n, alg, cs in sites:
        if alg not in ("partition", "partition_stl", "nth_element"):
            continue
        sorts = [(m, c2) for g, m, al, c2 in sites if g is f and al in ("sort", "stable_sort") and container(m.args[0]) == container(n.args[0])]
        for m, c2 in sorts:
            same = {key(c) for a, c in cs} == {key(c) for a, c in c2}
            if not same:
                try:
                    same = all(agree(P, x, y) for a, x in cs for b, y in c2)
                except Unsupported:
                    same = True
            R.ob("select", n.loc, same, "%s|order" % f.q, "%s selects by another order than it sorts by" % f.where)
        if alg.startswith("partition") and len(n.args) >= 5:
            bad = None
            for v in range(1, 65):
                env = {"?": v}
                lo, hi = num(n.args[3], env), num(n.args[4], env)
                if lo is None or hi is None or len(env) != 2:
                    break
                if lo > hi or lo < 1:
                    bad = "keeps between %s and %s elements when the beam is %d wide" % (lo, hi, v)
                    break
                if lo < v:
                    bad = "may keep only %d elements when the beam is %d wide" % (lo, v)
                    break
                # guard: more elements than the upper limit
                g = None
                for c, pol in edges_to(f, n):
                    for a, p2 in branch_facts(c, pol):
                        r = relation(a, p2)
                        if r is None:
                            continue
                        for l, op, rr in (r, (r[2], SWAP[r[1]], r[0])):
                            if bare(l).is_call() and (bare(l).q or "").endswith("::size") and op in (">", ">="):
                                x = num(rr, env)
                                if x is not None:
                                    x = x + 1 if op == ">" else x
                                    g = x if g is None else max(g, x)
                if g is None or g < hi:
                    bad = "selects up to %s of possibly only %s elements" % (hi, g)
                    break
            R.ob("select", n.loc, bad is None, "%s|amount" % f.q, "%s %s" % (f.where, bad))


def key(c):
    return str(c) if isinstance(c, tuple) else c.key


def agree(P, c, d):
    if isinstance(c, tuple) or isinstance(d, tuple):
        return False
    x, y = interp_of(P, c), interp_of(P, d)
    sx, sy = x.states(), y.states()
    if x.keys != y.keys:
        return False
    return all(bool(x(a, b)) == bool(y(a, b)) for a in sx for b in sx)


# ------------------------------------------------------------------ unique
def uniques(P, R, sites):
    for f, n, alg, cs in sites:
        if alg != "unique":
            continue
        cont = container(n.args[0])
        ss = [(m, c2) for g, m, al, c2 in sites if g is f and al in ("sort", "stable_sort") and
              (container(m.args[0]) == cont or text_of(m.args[0]) == cont)]
        ss = [(m, c2) for m, c2 in ss if f.cfg.dominates(m, n)]
        R.ob("unique", n.loc, bool(ss), "%s|sorted" % f.q, "%s removes neighbouring duplicates without sorting first" % f.where)
        eqs = [c for a, c in cs if not isinstance(c, tuple)]
        for m, c2 in ss:
            os_ = [c for a, c in c2 if not isinstance(c, tuple)]
            if not eqs or not os_:
                continue
            e, o = interp_of(P, eqs[0]), interp_of(P, os_[0])
            try:
                e.states(), o.states()
                ok = together(e, o)
                exact = e.keys >= o.keys
            except Unsupported:
                continue
            R.ob("unique", n.loc, ok, "%s|together" % f.q, "%s: duplicates are not neighbours in the order of the sort" % f.where)
            R.ob("unique", n.loc, exact, "%s|exact" % f.q, "%s removes elements which differ in %s" % (f.where, ", ".join(sorted(o.keys - e.keys))))


def together(e, o):
    """no element which is not equal can lie between two equal ones"""
    ks = sorted(e.keys | o.keys)
    sts = [dict(zip(ks, v)) for v in itertools.product((0, 1), repeat=len(ks))]
    for a in sts:
        for b in sts:
            if not e(a, b):
                continue
            for c in sts:
                if not o(c, a) and not o(b, c) and not e(a, c):
                    return False
    return True


# ------------------------------------------------------------------ equality and hashes
def equalities(P, R):
    eqs = {}
    for f in P.fns.values():
        if f.name == "operator==" and scope(f) and f.body is not None and not f.file.endswith(("format.h", "array_slice_internal.h", "inlined_vector.h",
                                                                                             "flatmap.h", "flatset.h", "cfg.h")):
            it = interp_of(P, f)
            if it is None:
                continue
            try:
                bad = equivalence(it)
                if not bad and it.selfcmp:
                    bad = "it compares a part of an element with itself"
            except Unsupported:
                continue
            R.ob("equality", f.body.loc, not bad, "%s|%s" % (f.q, f.cls or (f.params[0]["t"] if f.params else "")),
                 "the equality %s is not one: %s" % (f.where, bad))
            cls = f.cls or re.sub(r"\bconst\b|[&*]", "", f.params[0]["t"]).strip()
            c = next((c for c in P.classes.values() if c.get("q") == cls or (c.get("q") or "").endswith("::" + cls)), None)
            if c is not None and it.keys:
                miss = [x["n"] for x in c.get("fields", []) if not pointer(x["t"]) and not any(("." + x["n"]) in k or k == "$" for k in it.keys)]
                R.ob("equality", f.body.loc, not miss, "%s|%s|all" % (f.q, cls), "the equality %s ignores %s" % (f.where, ", ".join(miss)))
            eqs[cls.split("::")[-1]] = (f, it)
    # hash functions
    for f in P.fns.values():
        if f.body is None or not scope(f) or f.name != "operator()" or not re.search(r"[Hh]ash", f.cls or "") or len(f.params) != 1:
            continue
        t = re.sub(r"\bconst\b|[&*]", "", f.params[0]["t"]).strip().split("::")[-1]
        own = [g for g in P.fns.values() if g.cls == f.cls and g.name == "operator()" and len(g.params) == 2 and g.body is not None]
        e = None
        for g in own:
            it = interp_of(P, g)
            try:
                bad = equivalence(it)
                R.ob("equality", g.body.loc, not bad, "%s" % g.q, "the equality %s is not one: %s" % (g.where, bad))
                e = it
            except Unsupported:
                pass
        if not own and t in eqs:
            e = eqs[t][1]
        if e is None:
            continue
        vid = f.params[0]["vid"]
        h = Interp(P, f, [vid])
        hk = {}
        for x in f.all_nodes():
            if x.k == "MemberExpr" and x.get("fld") and root_is(x, vid):
                try:
                    hk[re.sub(r"\$\d", "$", h.text(x, h.top))] = x.t or ""
                except Unsupported:
                    pass
        hk = {k for k, ty in hk.items() if k.startswith("$.") and not pointer(ty) and not any(o != k and o.startswith(k + ".") for o in hk)}
        if not hk or not e.keys:
            continue
        extra = [k for k in hk if not any(k == q or k.startswith(q + ".") or q.startswith(k + ".") or k + "." in q or k in q for q in e.keys)]
        R.ob("equality", f.body.loc, not extra, "%s|hash" % f.q, "%s hashes %s which equality ignores" % (f.where, ", ".join(extra)))


def root_is(x, vid):
    while x is not None and x.k == "MemberExpr" and x.c:
        x = bare(x.c[0])
    return x is not None and x.k == "DeclRefExpr" and x.get("vid") == vid


# ------------------------------------------------------------------ packed candidates
def packs(P, R):
    """the packed form of (score, left, beam): greater scores have greater packed values, and unpacking gives back the parts"""
    import bits
    from bits import Bits, Top, width
    for f in P.fns.values():
        if f.name != "pack" or not (f.cls or "").endswith("BeamCandidate") or len(f.params) != 3 or f.body is None:
            continue
        fl = next((p for p in f.params if re.search(r"float|Score", p["t"])), None)
        rest = [p for p in f.params if p is not fl]
        if fl is None:
            continue
        un = {g.name: g for g in P.fns.values() if g.cls == f.cls and not g.params and g.body is not None and g.name in
              [p["n"] for p in f.params]}
        for sign in (0, 1):
            b = Bits({})
            env = {}
            for p in f.params:
                w, _ = width(p["t"])
                env[p["vid"]] = b.var(p["n"], w)
            env[fl["vid"]][31] = sign
            for p in rest:
                env[p["vid"]][15] = 0           # indices are not negative
            try:
                r = b.run(f, env)
            except (Top, KeyError, IndexError) as e:
                return
            # order: the score's bits in front, most significant first, rising with the score
            want = [1 - sign] + [(fl["n"], i, bool(sign)) for i in range(30, -1, -1)]
            top = list(reversed(r))[:32]
            R.ob("pack", f.body.loc, len(r) == 64 and top == want, "%s|order|%d" % (f.q, sign),
                 "%s: the packed value does not rise with a %s score" % (f.where, "negative" if sign else "positive"))
            fld = next((x.m for g in un.values() for x in g.all_nodes() if x.k == "MemberExpr" and x.get("fld")), None)
            for p in f.params:
                g = un.get(p["n"])
                if g is None or fld is None:
                    continue
                try:
                    back = Bits({}, {fld: r}).run(g, {})
                except (Top, KeyError, IndexError):
                    continue
                w = width(p["t"])[0]
                ok = bits.fit(back, False, w) == env[p["vid"]]
                R.ob("pack", g.body.loc, ok, "%s|%d" % (g.q, sign), "%s does not give back what %s has packed" % (g.where, f.q))

"""S03: a model file which is truncated, corrupted or made for another program is refused."""
from guards import *
from vflow import fq

DEC_CLASS = re.compile(r"::(CodedBufferParser|Loader|SerializeImpl(<.*>)?)$")
SLICE = re.compile(r"StringPiece::(slice|from|take|StringPiece)$")


def fields_in(n, depth=5):
    """MemberExpr nodes in n and in the definitions of the locals it uses"""
    out, seen = [], set()

    def go(x, d):
        for y in x.walk():
            if is_field(y):
                out.append(y)
            elif y.k == "DeclRefExpr" and y.get("dk") == "local" and y.get("vid") not in seen and d > 0:
                seen.add(y.get("vid"))
                for v in var_defs(y.fn).get(y.get("vid"), []):
                    go(v, d - 1)
    go(n, depth)
    return out


def fq_set(P, cls, name):
    return {c["q"] + "::" + name for c in P.find_cls(cls)}


def data_index(n):
    """(container expr, index node) of x[k] / x.at(k)"""
    if n.k == "CXXOperatorCallExpr" and n.op == "[]" and len(n.args) == 2:
        return n.args[0], n.args[1]
    if n.k == "CXXMemberCallExpr" and n.q.split("::")[-1] == "at" and n.args:
        return n.obj, n.args[0]
    return None


def is_part_data(n):
    m = alias(n)
    return m is not None and is_field(m) and fq(m) == "ModelPart::data"


def size_of_data(n):
    n = peel(n)
    d = local_def(n)
    if d is not None and not (n.is_call()):
        n = d
    return n is not None and n.k == "CXXMemberCallExpr" and n.q.split("::")[-1] == "size" and n.obj is not None and is_part_data(n.obj)


def count_check(k):
    """facts which make index k valid; k None: an index computed from a count which was compared"""
    def chk(a, pol, v):
        r = relation(a, pol)
        if r is None:
            return False
        for l, op, rr in (r, (r[2], SWAP[r[1]], r[0])):
            if not size_of_data(l):
                continue
            c = peel(rr).v if peel(rr) is not None else None
            if c is None:
                return op in ("==", ">=", ">")
            if k is None:
                return False
            if op == "==" and c > k or op == ">=" and c > k or op == ">" and c >= k:
                return True
        return False
    return chk, Val()


def run(P, R):
    fns = src_fns(P)
    # ---- results of decoding
    R.rule("decode-checked", "the result of decoding a value is tested (or the value keeps a default)")
    for f in fns:
        for n in f.calls():
            q = n.q.rsplit("::", 1)
            if len(q) != 2 or n.t != "bool" or not DEC_CLASS.search(re.sub(r"<.*>(?=::|$)", "", q[0]) if "SerializeImpl" not in q[0] else "::SerializeImpl"):
                continue
            p = n.p
            while p is not None and p.k in ("ParenExpr", "ExprWithCleanups", "ConstantExpr"):
                p = p.p
            used = not (p is None or p.k in ("CompoundStmt", "ForStmt", "CXXForRangeStmt", "DoStmt", "LabelStmt") or
                        p.k in ("IfStmt", "WhileStmt") and n.r != "cond" or p.k.endswith("CastExpr") and p.t == "void")
            if used and p.k == "VarDecl":
                used = any(x.k == "DeclRefExpr" and x.get("vid") == p.get("vid") for x in f.all_nodes())
            if not used and n.args:
                a = peel(n.args[0])
                d = local_def(a)
                used = d is not None and d.v is not None      # default survives a failure
            R.ob("decode-checked", n.loc, used, "%s|%s" % (f.q, q[1]), "%s ignores whether %s could read anything" % (f.where, n.q))
    R.need("decode-checked", 30)

    # ---- Loader
    R.rule("complete", "a structure counts as loaded only if every part of it could be read and nothing is left over")
    for f in fns:
        if f.cls.endswith("::Loader") and f.name == "load":
            for r in f.all_nodes():
                if r.k != "ReturnStmt" or ret_ok(r) is False:
                    continue
                facts_ = [x for c, p in edges_to(f, r) for x in norm_cond(c, p)]
                if r.c:
                    facts_ += list(norm_cond(r.c[0], True))
                more = []
                for a, p in facts_:
                    d = local_def(a)
                    if d is not None:
                        more += list(norm_cond(d, p))
                facts_ += more
                names = set()
                for a, p in facts_:
                    for x in a.walk():
                        if x.is_call() and p:
                            names.add(x.q.split("::")[-1])
                            for t in P.targets(x):
                                if t.cls.endswith("::Loader"):
                                    names |= {y.m for y in t.all_nodes() if is_field(y)}
                        elif is_field(x) and p:
                            names.add(x.m)
                    rel = relation(a, p)
                    if rel and rel[1] == "==" and any(x.is_call() and x.q.endswith("::remaining") for x in a.walk()):
                        names.add("atEnd")
                ok = "atEnd" in names
                R.ob("complete", r.loc, ok, "Loader::load|atEnd", "Loader::load succeeds although data is left over")
                R.ob("complete", r.loc, "DoSerializeLoad" in names, "Loader::load|result", "Loader::load ignores the result of decoding")
                R.ob("complete", r.loc, "status_" in names or "status" in names or not any(
                    x.m.startswith("status") for x in f.all_nodes() if is_field(x)), "Loader::load|status",
                    "Loader::load ignores failures of nested members")
        if f.cls.endswith("::Loader") and f.name == "operator&":
            calls = [n for n in f.calls() if n.q.endswith("DoSerializeLoad")]
            sets = [t for t, v, st in assigns(f) if peel(t) is not None and is_field(peel(t)) and v is not None and peel(v).v == 0]
            anyset = [t for t, v, st in assigns(f) if is_field(peel(t))]
            R.ob("complete", f.where, not calls or bool(sets) or bool(anyset), "Loader::operator&",
                 "Loader::operator& does not remember that a member could not be read")
            for t, v, st in assigns(f):
                if is_field(peel(t)) and v is not None and peel(v).v is None:
                    # status_ = <call>: forgets an earlier failure
                    keep = st.op in ("&=",) or any(is_field(y) and y.q == peel(t).q for y in v.walk()) or any(
                        is_field(peel(a)) and peel(a).q == peel(t).q for c, p in edges_to(f, st) for a, p2 in norm_cond(c, p))
                    R.ob("complete", st.loc, keep, "Loader::operator&|overwrite", "Loader::operator& overwrites an earlier failure")
    R.need("complete", 3)

    # ---- container
    R.rule("block-range", "a block of a model file is used only if its offset and its size lie inside the file")
    off, size = fq_set(P, "BlockPtr", "offset"), fq_set(P, "BlockPtr", "size")
    for f in fns:
        for n in f.all_nodes():
            if not (n.is_call() or n.k in CTORS) or not SLICE.search(re.sub(r"<[^<>]*>", "", n.q)):
                continue
            args = n.args if n.is_call() else list(n.c)
            fs = {x.q for a in args for x in fields_in(a)}
            for nm, q in (("offset", off), ("size", size)):
                if fs & q:
                    ok = guarded(P, f, n, upper(Val(q)))
                    R.ob("block-range", n.loc, ok, "%s|%s" % (f.q, nm),
                         "%s cuts a block out of the file without a check of its %s" % (f.where, nm))
    R.need("block-range", 2)

    # ---- header
    R.rule("magic", "the header is decoded only after the magic bytes were compared, and a mismatch is an error")
    mg = [q for q in {n.q for f in fns if "model_io" in f.file for n in f.all_nodes() if n.k == "DeclRefExpr"} if "agic" in q]

    def magic_atom(a, pol):
        for x in a.walk():
            if x.k == "DeclRefExpr" and "agic" in (x.q or x.get("n") or ""):
                return True
            d = local_def(x)
            if d is not None and any(y.k == "DeclRefExpr" and "agic" in (y.q or "") for y in d.walk()):
                return True
        return False

    def magic_eq(a, pol, v):
        r = relation(a, pol)
        if r is not None:
            return r[1] == "==" and magic_atom(a, pol)
        return a.is_call() and pol and magic_atom(a, pol)
    for f in fns:
        for n in f.calls():
            if n.q.endswith("::load") and "Loader" in n.q and n.args and "ModelInfoRaw" in peel(n.args[0]).t:
                ok = guarded(P, f, n, (magic_eq, Val()))
                if not ok:      # a caller may have looked
                    cs = P.callers[f.key]
                    ok = bool(cs) and all(guarded(P, c.fn, c, (magic_eq, Val())) for c in cs)
                R.ob("magic", n.loc, ok, "%s|magic" % f.q, "%s decodes the header of a file which may not be a model" % f.where)
    R.need("magic", 1)

    # ---- chunk counts
    R.rule("chunk-count", "the n-th chunk of a model part is used only if the part has that many chunks")
    for f in fns:
        if f.file.endswith("scw.cc"):
            pass
        for n in f.all_nodes():
            di = data_index(n)
            if di is None or not is_part_data(di[0]):
                continue
            k = peel(di[1]).v
            ok = guarded(P, f, n, count_check(k))
            if not ok:
                cs = [c for c in P.callers[f.key] if not testfile(c.fn.file)]
                ok = bool(cs) and all(guarded(P, c.fn, c, count_check(k)) for c in cs)
            R.ob("chunk-count", n.loc, ok, "%s|%s" % (f.q, "chunk" if k is None else k),
                 "%s uses a chunk of a model part without checking that the part has it" % f.where)
    R.need("chunk-count", 12)

    # ---- spec version
    R.rule("spec-version", "a stored specification is used only if its magic numbers and its version are the expected ones")
    for f in fns:
        if f.q.endswith("AnalysisSpec::validate"):
            for nm in ("specMagic_", "specMagic2_", "specVersion_"):
                def match(a, pol, v, nm=nm):
                    r = relation(a, pol)
                    return r is not None and r[1] == "==" and any(is_field(x) and x.m == nm for s in (r[0], r[2]) for x in s.walk())
                oks = [r for r in f.all_nodes() if r.k == "ReturnStmt" and ret_ok(r) is not False]
                good = bool(oks) and all(guarded(P, f, r, (match, Val())) or ret_ok(r) is None and r.c and
                                         callee_ok(P, r, match) for r in oks)
                R.ob("spec-version", f.where, good, "validate|" + nm,
                     "a specification with a wrong %s is accepted" % nm)
    vals = [f for f in fns if f.q.endswith("AnalysisSpec::validate")]
    for f in fns:
        for n in f.calls():
            if not (n.q.endswith("::load") and "Loader" in n.q and n.args):
                continue
            t = re.sub(r"[&* ]+$", "", peel(n.args[0]).t or "")
            cs = [c for c in P.classes.values() if c["q"] == t or c["t"] == t]
            if not cs or not (t.endswith("AnalysisSpec") or any(x["t"].endswith("AnalysisSpec") for c in cs for x in c["fields"])):
                continue
            vc = validate_calls(P, f)
            # every call that follows and is not part of an error return must come after validate
            later = [m for m in f.calls() if m is not n and not m.q.startswith("std::") and later_use(P, m) and
                     m.i not in {v.i for v in vc}]
            bad = [m for m in later if f.cfg.path_exists(n, {m.i}, avoid={v.i for v in vc})]
            oks = [r.i for r in f.all_nodes() if r.k == "ReturnStmt" and ret_ok(r) is True]
            if not later and not [c for c in P.callers[f.key] if not testfile(c.fn.file)]:
                continue        # hands the bytes to nobody in the program
            R.ob("spec-version", n.loc, bool(vc) and not bad, "%s|validate" % f.q,
                 "%s uses a loaded specification without validating it" % f.where)
    R.need("spec-version", 4)

    # ---- dictionary restored from a model
    R.rule("dictionary", "the stored dictionary agrees with its specification and with the limits of the program")
    roots = [f for f in fns if f.name == "restoreDictionary"]
    reach = [P.fns[k] for k in P.reachable(roots)] if roots else []
    reach = [f for f in reach if f.file.startswith("src/core/dic") or f.file.startswith("src/core/impl")]
    bd, fd = fq_set(P, "BuiltField", "dicIndex"), fq_set(P, "FieldDescriptor", "dicIndex")

    def dic_mism(a, pol):
        r = relation(a, pol)
        return r is not None and r[1] == "!=" and (
            Val(bd).direct(r[0]) and Val(fd).direct(r[2]) or Val(bd).direct(r[2]) and Val(fd).direct(r[0]))

    def cnt_mism(a, pol):
        r = relation(a, pol)
        if r is None or r[1] not in ("!=", "<", ">"):
            return False
        s = [size_field(e) for e in (r[0], r[2])]
        return set(s) == {"BuiltDictionary::fieldData", "DictionarySpec::fields"}

    lim = limit_of(P)

    def over(a, pol):
        r = relation(a, pol)
        if r is None or lim is None:
            return False
        for l, op, rr in (r, (r[2], SWAP[r[1]], r[0])):
            c = peel(rr).v if peel(rr) is not None else None
            if c is None or c not in (lim, lim + 1):
                continue
            if (op == ">" and c <= lim or op == ">=" and c <= lim + 1):
                return True
        return False
    def spec_count(nm):
        q = fq_set(P, "FeaturesSpec", nm)
        def pred(a, pol):
            r = relation(a, pol)
            return r is not None and r[1] in ("!=", "<", ">") and any(Val(q).direct(s) for s in (r[0], r[2]))
        return pred

    def dic_range(up):
        def pred(a, pol):
            r = relation(a, pol)
            if r is None:
                return False
            for l, op, rr in (r, (r[2], SWAP[r[1]], r[0])):
                if Val(bd | fd).direct(l) and not Val(bd | fd).direct(rr) and op in ((">", ">=") if up else ("<", "<=")):
                    c = peel(rr)
                    if c.v is None:
                        return True
            return False
        return pred
    for nm, pred, txt in (("numDicFeatures", spec_count("numDicFeatures"), "the stored number of feature columns is not compared with the columns"),
                          ("numDicData", spec_count("numDicData"), "the stored number of data columns is not compared with the columns"),
                          ("dicIndex-upper", dic_range(True), "a stored position of a column has no upper bound"),
                          ("dicIndex-lower", dic_range(False), "a stored position of a column has no lower bound"),
                          ("dicIndex", dic_mism, "columns of the dictionary and of the specification are not matched up"),
                          ("columns", cnt_mism, "the number of dictionary columns is not compared with the specification"),
                          ("limit", over, "a dictionary with more than %s columns is not refused" % lim)):
        hit = [f for f in reach if fails_on(P, f, pred)]
        R.ob("dictionary", roots[0].where if roots else "?", bool(hit) or not roots, "restore|" + nm, txt)
    sidx = fq_set(P, "BuiltField", "specIndex")
    ss, iss = fq_set(P, "FieldDescriptor", "stringStorage"), fq_set(P, "FieldDescriptor", "intStorage")
    for f in reach:
        for n in f.all_nodes():
            di = data_index(n)
            if di is None:
                continue
            fs = {x.q for x in [alias(di[1])] if is_field(x)}
            for nm, q in (("specIndex", sidx), ("stringStorage", ss), ("intStorage", iss)):
                if fs & q:
                    v = Val(q)
                    inv = equals_const(v, {"InvalidInt", -2147483648})
                    g1 = guarded(P, f, n, any_of(upper(v), inv))
                    g2 = guarded(P, f, n, any_of(lower(v), inv))
                    R.ob("dictionary", n.loc, g1 and g2, "%s|%s" % (f.q, nm),
                         "%s indexes with a stored %s which was not compared with the number of items" % (f.where, nm))
    R.need("dictionary", 4)

    # ---- weights
    R.rule("weights", "stored sizes of weights are compared with the stored data before they are used")
    ex = fq_set(P, "PerceptronInfo", "modelSizeExponent")
    for f in fns:
        if testfile(f.file):
            continue
        for n in f.all_nodes():
            if n.k == "BinaryOperator" and n.op == "<<" and len(n.c) == 2 and Val(ex).direct(n.c[1]) and "load" in (f.name.lower()):
                def shift_ok(a, pol, v, n=n):
                    r = relation(a, pol)
                    if r is None:
                        return False
                    for l, op, rr in (r, (r[2], SWAP[r[1]], r[0])):
                        c = peel(rr).v if peel(rr) is not None else None
                        if v.direct(l) and c is not None and (op == "<" and c <= 64 or op == "<=" and c < 64):
                            return True
                    return False
                g = guarded(P, f, n, (shift_ok, Val(ex))) and guarded(P, f, n, lower(Val(ex)))
                R.ob("weights", n.loc, g, "%s|exponent" % f.q, "%s shifts by a stored exponent which may be out of range" % f.where)
        for n in f.all_nodes():
            reinterpret_use(P, R, f, n)
    R.need("weights", 3)

    # ---- raw rnn file
    R.rule("raw-read", "bytes are copied out of a file only after their number was compared with what the file has")
    for f in fns:
        if not f.file.startswith(("src/rnn/", "src/core/impl/", "src/core/dic/")):
            continue
        sps = {p["vid"] for p in f.params if p["t"].endswith("StringPiece")}
        if not sps:
            continue
        for n in f.all_nodes():
            if not n.is_call():
                continue
            src = None
            if n.q in ("memcpy", "std::memcpy") and len(n.args) == 3:
                src = n.args[1]
            elif any(t.cfg is not None and t.body is not None and copies_param(t) for t in P.targets(n)):
                for a in n.args:
                    if any(is_data_call(x, sps) for x in a.walk()):
                        src = a
            if src is None or not any(is_data_call(x, sps) for x in src.walk()):
                continue

            def szchk(a, pol, v):
                r = relation(a, pol)
                if r is None:
                    return False
                for l, op, rr in (r, (r[2], SWAP[r[1]], r[0])):
                    sz = any(x.is_call() and x.q.endswith("::size") and x.obj is not None and peel(x.obj).get("vid") in sps
                             for x in l.walk())
                    if sz and op in (">", ">=", "==") and not wraps(rr):
                        return True
                return False
            good = guarded(P, f, n, (szchk, Val()))
            if good and n.q.endswith("memcpy"):
                for leaf in terms(n.args[1]) + terms(n.args[2]):
                    good = good and guarded(P, f, n, upper(Val((), (), {struct(leaf)})))
            R.ob("raw-read", n.loc, good, "%s|copy" % f.q,
                 "%s copies bytes out of a file without comparing with its size" % f.where)
    R.rule("alloc", "memory is reserved for data of an rnn file only after its sizes were compared with the file")
    for f in fns:
        if not f.file.startswith("src/rnn/") or not any(n.is_call() and n.q.endswith("::asStringPiece") for n in f.calls()):
            continue
        for n in f.calls():
            if not n.q.split("::")[-1].startswith("allocateBuf") and not n.q.endswith("::initialize"):
                continue
            for a in n.args[:1]:
                fs = [x for x in fields_in(a) if "Header" in x.q]
                for q in sorted({x.q for x in fs}):
                    # vocabSize is set from the dictionary: the guard may name the words instead
                    g = guarded(P, f, n, (mentions(q), Val({q}))) or guarded(P, f, n, upper_alias(f, q))
                    R.ob("alloc", n.loc, g, "%s|%s" % (f.q, q.split("::")[-1]),
                         "%s allocates memory by %s before it was compared with the file" % (f.where, q))
    R.need("alloc", 3)


def mentions(q):
    """a comparison with the field on one side and the number of bytes which are there on the other"""
    def chk(a, pol, v):
        r = relation(a, pol)
        if r is None or r[1] not in ("<", "<=", ">", ">="):
            return False
        has = any(is_field(x) and x.q == q for s in (r[0], r[2]) for x in fields_in(s))
        return has and any(sized(s) for s in (r[0], r[2]))
    return chk


def sized(rr):
    for x in rr.walk():
        if x.is_call() and x.q.endswith("::size"):
            return True
        d2 = local_def(x)
        if d2 is not None and any(y.is_call() and y.q.endswith("::size") for y in d2.walk()):
            return True
    return False


def upper_alias(f, q):
    """facts bounding the expression which was assigned to field q"""
    keys = set()
    for t, v, st in assigns(f):
        if is_field(peel(t)) and peel(t).q == q and v is not None:
            keys.add(struct(v))
    v = Val(keys=keys)
    return upper(v, strict=False)


def wraps(n):
    """a sum or product of two 64-bit run-time values can wrap around"""
    n = peel(n)
    if n is None:
        return False
    if n.k == "BinaryOperator" and n.op in ("+", "*") and n.v is None:
        l, r = peel(n.c[0]), peel(n.c[1])
        if l.v is None and r.v is None and W64.search(l.t or "") and W64.search(r.t or ""):
            return True
        return wraps(l) or wraps(r)
    return False


def terms(n):
    """the run-time amounts added up in a pointer or length expression"""
    n = peel(n)
    if n is None or n.v is not None:
        return []
    if n.k == "BinaryOperator" and n.op in ("+", "-"):
        return terms(n.c[0]) + terms(n.c[1])
    if n.is_call() or n.k == "UnaryExprOrTypeTraitExpr":
        return []
    return [n]


def is_data_call(x, sps):
    return x.is_call() and x.k == "CXXMemberCallExpr" and x.q.split("::")[-1] in ("data", "begin", "ubegin", "char_begin") and \
        x.obj is not None and peel(x.obj).get("vid") in sps


def copies_param(t):
    ps = {p["vid"] for p in t.params if p["t"].endswith("char *")}
    return bool(ps) and any(n.is_call() and n.q in ("memcpy", "std::memcpy") and any(
        x.get("vid") in ps for x in n.args[1].walk()) for n in t.calls())


def limit_of(P):
    for c in P.find_cls("DicEntryBuffer"):
        for x in c["fields"]:
            m = re.search(r"\[(\d+)\]", x["t"]) or re.search(r"array<[^,]*, (\d+)", x["t"])
            if m:
                return int(m.group(1))
    return None


def size_field(e):
    """the container field whose size() this is"""
    e = peel(e)
    d = local_def(e)
    if d is not None:
        e = d
    if e is not None and e.k == "CXXMemberCallExpr" and e.q.endswith("::size") and e.obj is not None:
        m = alias(e.obj)
        return fq(m) if is_field(m) else None
    return None


def callee_ok(P, r, match):
    """return helper(): the helper's successful returns are guarded"""
    return any(callee_implies(P, x, match, Val(), 3) for x in r.walk() if x.is_call() and P.targets(x))


def validate_calls(P, f):
    out = []
    for n in f.calls():
        if n.q.endswith("AnalysisSpec::validate"):
            out.append(n)
        else:
            for t in P.targets(n):
                if t is not f and any(m.q.endswith("AnalysisSpec::validate") for m in t.calls()):
                    out.append(n)
    return out


def later_use(P, m):
    """a call to a function of the repository with a body, which is not just building an error"""
    if m.q.endswith(("operator<<", "Status::Ok")) or "status_impl" in m.q or m.q.startswith("jumanpp::Status"):
        return False
    ts = P.targets(m)
    return any(t.file.startswith("src/core/") for t in ts)


def reinterpret_use(P, R, f, n):
    """ArraySlice<T>{reinterpret_cast<T*>(piece.data()), count}"""
    if n.k not in CTORS or "ArraySlice" not in n.q or len(n.c) != 2:
        return
    ptr = n.c[0]
    src = ptr
    casts = [x for x in ptr.walk() if x.k == "CXXReinterpretCastExpr"]
    d = local_def(peel(ptr)) if not casts else None
    if d is not None:
        casts = [x for x in [d] + list(d.walk()) if x.k == "CXXReinterpretCastExpr"] or \
                [v for v in var_defs(f).get(peel(ptr).get("vid"), []) for v in [v] if v.k == "CXXReinterpretCastExpr"]
        src = d
    raw = var_defs(f).get(peel(ptr).get("vid"), []) if peel(ptr).k == "DeclRefExpr" else []
    for v in raw:
        casts += [x for x in v.walk() if x.k == "CXXReinterpretCastExpr"]
        src = v
    if not casts:
        return
    piece = [x for c in casts for x in c.walk() if x.is_call() and x.q.split("::")[-1] in ("data", "begin", "ubegin") and
             "StringPiece" in x.q]
    if not piece:
        return
    cnt = n.c[1]
    leaves = []

    def walk(x, d=4):
        x = peel(x)
        if x is None:
            return
        if x.k == "BinaryOperator":
            for y in x.c:
                walk(y, d)
            return
        dd = local_def(x)
        if dd is not None and d > 0 and dd.k in ("BinaryOperator", "CXXMemberCallExpr"):
            leaves.append((x, dd))
            return
        leaves.append((x, None))
    walk(cnt)
    if any(l.is_call() and l.q.endswith("::size") for l, _ in leaves):
        R.ob("weights", n.loc, True)
        return
    pend = [l for l, d in leaves if l.v is None]
    ok = False
    for l in pend:
        dd = local_def(l)
        if dd is not None and any(x.is_call() and x.q.endswith("::size") for x in dd.walk()):
            ok = True
        v = Val((), {l.get("vid")} if l.get("vid") is not None else set(), {struct(l)})

        def zero(a, pol, vv):
            # the other factor is zero: nothing is used
            r = relation(a, pol)
            return r is not None and r[1] == "==" and peel(r[2]).v == 0
        if guarded(P, f, n, any_of(upper(v, sized), (zero, v))):
            ok = True
    R.ob("weights", n.loc, ok, "%s|count" % f.q,
         "%s looks at stored bytes as an array without comparing its length with their number" % f.where)

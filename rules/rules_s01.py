"""S01: everything written into a model is read back into the same place."""
from dfl import *
from vflow import fq, leaf_field, const_of

W = {"writeVarint": "V", "writeFixed32": "F", "writeString": "S", "writeStringDataWithoutLengthPrefix": "R"}
RD = {"readVarint64": "V", "readInt": "V", "readFixed32": "F", "readStringPiece": "S", "readVarint64Slowpath": "V"}
LOOPS = {"ForStmt", "WhileStmt", "CXXForRangeStmt", "DoStmt"}

# fields which are not part of the stored form, with the reason
NOT_STORED = {
    "DicImportDescriptor::data": "read only while a dictionary is being built from its sources",
    "UnkMakerFeature::targetFeature": "read by nothing in the library",
}


def ser_impl_arg(q):
    m = re.search(r"SerializeImpl<(.*)>::DoSerialize(Save|Load)$", q)
    return m.group(1) if m else None


def nm(q):
    q = re.sub(r"<[^<>]*>", "", q)
    q = re.sub(r"<[^<>]*>", "", q)
    return re.sub(r"<[^<>]*>", "", q).split("::")[-1]


def wire(P, f, seen=()):
    """the sequence of primitive values a (de)serialising function moves: V varint, F fixed, S string, ('T', type),
    ('F', field), ('*', loop body)"""
    def go(n):
        out = []
        if n.k in LOOPS:
            sub = []
            for c in n.c:
                sub += go(c)
            if sub:
                out.append(("*", tuple(sub)))
            return out
        if n.k == "IfStmt" or n.k == "ConditionalOperator":
            for c in n.c:
                if c.r in ("init", "cond", None) or n.k == "ConditionalOperator":
                    out += go(c)
            t = n.role("then")
            e = n.role("else")
            a = go(t) if t is not None else []
            b = go(e) if e is not None else []
            if a or b:
                out.append(("?", tuple(a), tuple(b)))
            return out
        if n.is_call() or n.k in CTORS:
            for c in n.c:
                out += go(c)
            if not n.is_call():
                return out
            q = n.q
            s = nm(q)
            if s in W and "CodedBuffer" in q:
                out.append(W[s])
            elif s in RD and "CodedBufferParser" in q:
                out.append(RD[s])
            elif ser_impl_arg(q):
                out.append(("T", ser_impl_arg(q)))
            elif s in ("operator&",) or n.op == "&" and n.k == "CXXOperatorCallExpr":
                x = alias(n.args[-1])
                if not is_field(x):
                    x = peel(n.args[-1])
                out.append(("A", field_id(x)))
            elif s == "Serialize":
                out.append(("T", n.args[1].t))
            else:
                for g in P.targets(n):
                    if g.key in seen or not g.file.startswith("src/") or g.key == f.key:
                        continue
                    if any(re.search(r"Coded|Saver|Loader", p["t"]) for p in g.params):
                        out += wire(P, g, seen + (f.key,))
                        break
            return out
        for c in n.c:
            out += go(c)
        return out
    return go(f.body)


def field_id(x):
    if x is None:
        return "?"
    if x.k == "MemberExpr":
        ch, root = field_chain(x)
        return ".".join(reversed(ch))
    return "value:" + x.t


def norm(w, self_t):
    """forget how a one-off field access is spelled; keep order, kinds and fields"""
    return tuple(w)


def run(P, R):
    R.rule("wire-symmetry", "what the save side of a type writes is exactly what its load side reads, in the same order")
    sv, ld = {}, {}
    for f in P.fns.values():
        t = ser_impl_arg(f.q)
        if t is not None:
            (sv if f.name == "DoSerializeSave" else ld)[t] = f
    for t in sorted(set(sv) & set(ld)):
        a, b = wire(P, sv[t]), wire(P, ld[t])
        R.ob("wire-symmetry", "%s: save %s / load %s" % (short(t), fmt(a), fmt(b)), a == b, short(t),
             "%s and its load side disagree: writes %s, reads %s" % (sv[t].where, fmt(a), fmt(b)))
    R.need("wire-symmetry", 25)
    # ------------------------------------------------------------ encode/decode of flags
    R.rule("flag-coding", "a flag is decoded from the same number it was encoded as")
    for t in sorted(set(sv) & set(ld)):
        enc = [n for n in sv[t].all_nodes() if n.k == "ConditionalOperator" and n.c[1].v is not None and n.c[2].v is not None]
        if not enc:
            continue
        e = enc[0]
        c0 = list(norm_cond(e.c[0], True))
        if len(c0) != 1:
            continue
        atom, pol = c0[0]
        tv, fv = (e.c[1].v, e.c[2].v) if pol else (e.c[2].v, e.c[1].v)
        encodes_default = atom.is_call() and nm(atom.q) == "isDefault"
        dec = [n for n in ld[t].all_nodes() if n.k == "BinaryOperator" and n.op in ("==", "!=") and
               (peel(n.c[0]).v is not None) != (peel(n.c[1]).v is not None) and not (
                   n.p is not None and n.p.k == "IfStmt") and not any(a.k == "IfStmt" and n.inside(a.role("cond")) for a in n.ancestors() if a.k == "IfStmt")]
        for d in dec:
            k = peel(d.c[0]).v if peel(d.c[0]).v is not None else peel(d.c[1]).v
            fn = (lambda v: v == k) if d.op == "==" else (lambda v: v != k)
            want_true = True
            tgt = d.p
            while tgt is not None and (tgt.k.endswith("CastExpr") or tgt.k == "ParenExpr"):
                tgt = tgt.p
            flip = False
            if tgt is not None and tgt.k == "UnaryOperator" and tgt.op == "!":
                flip = True
            ok = (fn(tv) != flip) and (fn(fv) == flip)
            R.ob("flag-coding", "%s: %d/%d decoded by %s %d" % (short(t), tv, fv, d.op, k), ok, short(t),
                 "%s decodes the flag differently from how it is stored (%d for set, %d for not set, tested %s %d)" % (
                     ld[t].where, tv, fv, d.op, k))
    R.need("flag-coding", 2)
    # ------------------------------------------------------------ field coverage
    R.rule("field-coverage", "every field of a stored structure is part of its stored form or rebuilt after loading")
    R.rule("field-order", "all archives see the fields of a structure in the same order, each once")
    seqs = defaultdict(list)
    for f in P.fns.values():
        if f.name != "Serialize" or len(f.params) != 2 or f.is_ctor:
            continue
        w = wire(P, f)
        seqs[f.params[1]["t"].replace(" &", "").replace("const ", "")].append((f, w))
    writers = defaultdict(set)
    for f in P.fns.values():
        if f.name == "Serialize" or f.is_ctor:
            continue
        for t, v, st in assigns(f):
            lf = leaf_field(t)
            if lf is not None:
                writers[fq(lf)].add(f.key)
        for n in f.calls():
            if n.obj is not None and nm(n.q) in ("push_back", "emplace_back", "resize", "insert", "swap", "assign"):
                lf = leaf_field(n.obj)
                if lf is not None:
                    writers[fq(lf)].add(f.key)
    loaders = loading_code(P)
    for t, l in sorted(seqs.items()):
        cl = P.find_cls(t)
        base = [x for x in l[0][1]]
        for f, w in l[1:]:
            R.ob("field-order", "%s (%s)" % (short(t), f.params[0]["t"].split("::")[-1]), w == base, short(t) + "|" + f.params[0]["t"],
                 "%s handles the fields of %s differently from another archive: %s vs %s" % (f.where, t, fmt(w), fmt(base)))
        if not cl:
            # an enum: stored through an integer of sufficient width, assigned back
            for f, w in l:
                back = [x for x in assigns(f)]
                R.ob("field-coverage", "%s %s" % (short(t), f.params[0]["t"].split("::")[-1]),
                     len(w) == 1 and len(back) >= 1 and peel(back[0][1]).t == w[0][1].split(":", 1)[1], short(t),
                     "%s does not round-trip the enumeration" % f.where)
            continue
        ids = [x[1] for x in base if isinstance(x, tuple) and x[0] == "A"]
        R.ob("field-order", "%s each field once" % short(t), len(ids) == len(set(ids)), short(t) + "|dup",
             "%s stores a field twice: %s" % (l[0][0].where, ", ".join(ids)))
        R.ob("field-order", "%s unconditional" % short(t), all(isinstance(x, tuple) and x[0] == "A" for x in base), short(t) + "|cond",
             "%s stores fields of %s conditionally: %s" % (l[0][0].where, short(t), fmt(base)))
        for fld, okk, why in coverage(P, cl[0], ids, "", writers, loaders):
            R.ob("field-coverage", "%s.%s: %s" % (short(t), fld, why), okk, "%s.%s" % (short(t), fld),
                 "%s: the field %s of %s is neither stored nor rebuilt when the model is loaded" % (l[0][0].where, fld, short(t)))
    R.need("field-coverage", 70)
    R.need("field-order", 40)
    parts(P, R)
    entries(P, R)
    archive(P, R)


def coverage(P, c, ids, prefix, writers, loaders):
    for x in c["fields"]:
        full = prefix + x["n"]
        key = "%s::%s" % (c["q"].split("::")[-1], x["n"])
        if full in ids:
            yield full, True, "stored"
            continue
        if key in NOT_STORED:
            yield full, True, NOT_STORED[key]
            continue
        t = x["t"].replace(" &", "").replace("const ", "")
        sub = P.find_cls(t) if any(i.startswith(full + ".") for i in ids) else None
        if sub:
            yield from coverage(P, sub[0], ids, full + ".", writers, loaders)
            continue
        w = writers.get(key, set()) & loaders
        yield full, bool(w), "rebuilt in " + ", ".join(sorted(P.fns[k].name for k in w)) if w else "missing"


def loading_code(P):
    """functions which run when a model is loaded: the callers of Loader::load and everything they reach"""
    roots = []
    for f in P.fns.values():
        for n in f.calls():
            if re.search(r"serialization::Loader::load$", re.sub(r"<.*>", "", n.q)) and f.file.startswith("src/"):
                roots.append(f)
                break
    s = set(P.reachable(roots))
    # code which goes on with the loaded object in the callers
    return s


def fmt(w):
    out = []
    for x in w:
        if isinstance(x, str):
            out.append(x)
        elif x[0] == "*":
            out.append("{%s}*" % fmt(x[1]))
        elif x[0] == "?":
            out.append("[%s|%s]" % (fmt(x[1]), fmt(x[2])))
        else:
            out.append(short(x[1]))
    return " ".join(out)


# ---------------------------------------------------------------- model parts
# chunk identities: (kind, index) -> names that identify what the writer puts there / the reader takes it for
SLOTS = {
    "Dictionary": [{"builtDicData"}, {"trieContent"}, {"entryPointers"}, {"entryData"}],
    "Perceprton": [{"cbuf", "data_"}, {"usableWeights", "weightsMemory"}],
    "Rnn": [{"codedBuf_", "result"}, {"knownIndex"}, {"unkIndex"}, {"rnnMatrix"}, {"embeddingData"}, {"nceEmbedData"},
            {"maxentWeightData"}],
}
READ = {
    ("Dictionary", 1): {"trieContent"}, ("Dictionary", 2): {"entryPointers"}, ("Dictionary", 3): {"entryData"},
    ("Rnn", 3): {"rnnMatrix"}, ("Rnn", 4): {"embeddings"}, ("Rnn", 5): {"nceEmbeddings"}, ("Rnn", 6): {"maxentWeights"},
}


def names_in(n):
    """names of fields, accessor methods and single-definition locals an expression draws its value from"""
    out = set()
    st = [n]
    seen = set()
    while st:
        x = st.pop()
        for y in x.walk():
            if y.k == "MemberExpr" and y.get("fld"):
                out.add(y.m)
            elif y.is_call() and y.q:
                out.add(nm(y.q))
            elif y.k == "DeclRefExpr" and y.get("vid") is not None and y.get("vid") not in seen:
                seen.add(y.get("vid"))
                out.add(y.get("n"))
                if y.get("dk") == "local":
                    st += var_defs(y.fn).get(y.get("vid"), [])
    return out


def parts(P, R):
    R.rule("part-layout", "the chunks of a model part are read back in the order they are written")
    all_slot = {k: set().union(*v) for k, v in SLOTS.items()}
    for f in P.fns.values():
        if not f.file.startswith("src/core/"):
            continue
        kinds = set()
        for t, v, st in assigns(f):
            lf = leaf_field(t)
            if lf is not None and fq(lf).endswith("ModelPart::kind") and v is not None and const_of(v):
                kinds.add(const_of(v))
        if len(kinds) != 1:
            continue
        kind = kinds.pop()
        if kind not in SLOTS:
            continue
        pushes = [n for n in f.calls() if nm(n.q) in ("push_back", "emplace_back") and n.obj is not None and
                  (lambda l: l is not None and fq(l) == "ModelPart::data")(leaf_field(n.obj))]
        helper = []
        fixed = [n for n in pushes if not any(a.k in LOOPS for a in n.ancestors())]
        order = cfg_order(f, fixed)
        for i, n in enumerate(order):
            got = names_in(n.args[0]) & all_slot[kind]
            want = SLOTS[kind][i] if i < len(SLOTS[kind]) else None
            if want is None:
                R.ob("part-layout", "%s %s chunk %d" % (n.loc, kind, i), False, "%s|%d" % (kind, i),
                     "%s writes %d fixed chunks of %s, the reader expects %d" % (f.where, len(order), kind, len(SLOTS[kind])))
                continue
            others = set().union(*[s for j, s in enumerate(SLOTS[kind]) if j != i])
            R.ob("part-layout", "%s %s chunk %d <- %s" % (n.loc, kind, i, ",".join(sorted(got)) or "?"),
                 bool(got & want) or not (got & others), "%s|%d" % (kind, i),
                 "%s writes %s where the reader expects %s" % (f.where, ", ".join(sorted(got)), ", ".join(sorted(want))))
        R.ob("part-layout", "%s writes %d fixed chunks of %s" % (f.where, len(order), kind), len(order) == len(SLOTS[kind]), kind + "|count",
             "%s writes %d chunks of %s, expected %d" % (f.where, len(order), kind, len(SLOTS[kind])))
        loops = [n for n in pushes if n not in fixed]
        if kind == "Dictionary":
            lo = cfg_order(f, loops)
            nmz = [names_in(enclosing(n, LOOPS)) & {"builtStrings", "builtInts", "stringBuffers", "intBuffers"} for n in lo]
            ok = len(nmz) < 2 or not (nmz[0] & {"builtInts", "intBuffers"}) and not (nmz[-1] & {"builtStrings", "stringBuffers"})
            R.ob("part-layout", "%s string storages before int storages" % f.where, ok, "Dictionary|loops",
                 "%s writes the int storages where the reader expects string storages" % f.where)
    # reader
    for f in P.fns.values():
        if not f.file.startswith("src/core/"):
            continue
        for n in f.all_nodes():
            if not (n.k == "CXXOperatorCallExpr" and n.op == "[]" and len(n.args) == 2):
                continue
            l = leaf_field(n.args[0])
            a0 = alias(n.args[0])
            if not (is_field(a0) and fq(a0) == "ModelPart::data"):
                continue
            idx = n.args[1].v
            kind = part_kind(f)
            if idx is None or kind is None or (kind, idx) not in READ:
                continue
            dst = dest_names(n)
            known = set().union(*[s for (k, i), s in READ.items() if k == kind])
            R.ob("part-layout", "%s %s chunk %d -> %s" % (n.loc, kind, idx, ",".join(sorted(dst)) or "?"),
                 bool(dst & READ[(kind, idx)]) or not (dst & known), "%s|read|%d" % (kind, idx),
                 "%s takes chunk %d of %s for %s, it holds %s" % (f.where, idx, kind, ", ".join(sorted(dst)),
                                                                  ", ".join(sorted(READ[(kind, idx)]))))
    f = P.find("fixupDictionary")
    for g in f:
        for n in g.all_nodes():
            if n.k == "VarDecl" and n.c and n.c[0].v is not None and n.c[0].v > 0:
                used = any(x.k == "CXXOperatorCallExpr" and x.op == "[]" and any(
                    y.k == "DeclRefExpr" and y.get("vid") == n.get("vid") for y in x.args[1].walk()) for x in g.all_nodes()
                    if x.k == "CXXOperatorCallExpr" and len(x.args) == 2)
                if used:
                    R.ob("part-layout", "%s first storage chunk %d" % (n.loc, n.c[0].v), n.c[0].v == 4, "Dictionary|first",
                         "%s reads the storages from chunk %d, they are written from chunk 4" % (g.where, n.c[0].v))
        lo = cfg_order(g, [n for n in g.calls() if nm(n.q) in ("push_back", "emplace_back") and n.obj is not None and
                           leaf_field(n.obj) is not None and leaf_field(n.obj).m in ("stringStorages", "intStorages")])
        o = [leaf_field(n.obj).m for n in lo]
        R.ob("part-layout", "%s reads %s" % (g.where, ", ".join(o)), o == ["stringStorages", "intStorages"] or not o, "Dictionary|readloops",
             "%s reads %s; they are written as string storages, then int storages" % (g.where, ", ".join(o)))
        for n in lo:
            lp = enclosing(n, LOOPS)
            if lp is None:
                continue
            have = names_in(lp.role("cond")) if lp.role("cond") is not None else names_in(lp)
            m = leaf_field(n.obj).m
            bad = {"stringStorages": "numIntStorage", "intStorages": "numStringStorage"}[m]
            R.ob("part-layout", "%s %s" % (n.loc, m), bad not in have, "Dictionary|bound|" + m,
                 "%s reads as many %s as %s says" % (g.where, m, bad))
    # the built dictionary is filled from the builder of the same part
    SRC = {"trieContent": {"daBuilder"}, "entryPointers": {"entryPtrBuffer"}, "entryData": {"entryDataBuffer"},
           "builtStrings": {"stringBuffers"}, "builtInts": {"intBuffers"}, "stringStorages": {"stringBuffers", "builtStrings"},
           "intStorages": {"intBuffers", "builtInts"}, "stringContent": {"builtStrings"}, "fieldContent": {"builtInts"}}
    every = set().union(*SRC.values())
    for f in P.fns.values():
        if f.name != "fillResult" or not f.file.startswith("src/core/dic"):
            continue
        pairs = [(leaf_field(t), v, st) for t, v, st in assigns(f)]
        pairs += [(leaf_field(n.obj), n.args[0], n) for n in f.calls() if nm(n.q) == "push_back" and n.obj is not None]
        for l, v, st in pairs:
            if l is None or v is None:
                continue
            if l.m in SRC:
                got = names_in(v)
                lp = enclosing(st, {"CXXForRangeStmt"})
                if lp is not None:
                    got |= names_in(lp) if l.m in ("stringStorages", "intStorages", "builtStrings", "builtInts") else set()
                got &= every
                R.ob("part-layout", "%s %s <- %s" % (st.loc, l.m, ",".join(sorted(got))), bool(got & SRC[l.m]) or not got,
                     "fill|" + l.m, "%s fills %s from %s" % (f.where, l.m, ", ".join(sorted(got))))
            elif fq(l).split("::")[0] == "BuiltField" and l.m in ("dicIndex", "specIndex"):
                src = leaf_field(v)
                R.ob("part-layout", "%s %s" % (st.loc, l.m), src is None or src.m == l.m or src.m not in ("dicIndex", "specIndex", "position"),
                     "fill|" + l.m, "%s fills %s from %s" % (f.where, l.m, src.m if src is not None else "?"))
    R.need("part-layout", 25)


def part_kind(f):
    ks = set()
    for n in f.all_nodes():
        e = const_of(n) if n.k == "DeclRefExpr" and n.get("dk") == "enum" and "ModelPartKind" in n.q else None
        if e:
            ks.add(e)
    if len(ks) == 1:
        return ks.pop()
    if f.name == "fixupDictionary":
        return "Dictionary"
    return None


def dest_names(n):
    """what the value of an expression is stored into or passed along with"""
    p, c = n.p, n
    while p is not None:
        if p.k == "CXXOperatorCallExpr" and p.op == "=":
            l = leaf_field(p.args[0])
            return {l.m} if l is not None else set()
        if p.is_call() or p.k in CTORS:
            if p.k in CTORS or nm(p.q) in ("StringPiece",):
                c, p = p, p.p
                continue
            out = set()
            for a in p.args:
                if a is not c:
                    x = peel(a)
                    if is_field(x):
                        out.add(x.m)
                    elif x.k == "DeclRefExpr":
                        out.add(x.get("n") or "")
            return out
        if p.k == "VarDecl":
            return {p.get("n")}
        c, p = p, p.p
    return set()


def cfg_order(f, nodes):
    """nodes in execution order (a dominates b or a is reached first)"""
    out = []
    rest = list(nodes)
    cfg = f.cfg
    if cfg is None:
        return rest
    import functools

    def before(a, b):
        ab = cfg.path_exists(a, {b.i})
        ba = cfg.path_exists(b, {a.i})
        return -1 if ab and not ba else (1 if ba and not ab else 0)
    return sorted(rest, key=functools.cmp_to_key(before))


# ---------------------------------------------------------------- dictionary entries
def shifts(f, op, const=True):
    for n in f.all_nodes():
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in (op, op + "="):
            yield n


def size_facts(f, n):
    """what is known about the size of the value list at a node"""
    out = set()
    for c, pol in edges_to(f, n):
        for a, p in norm_cond(c, pol):
            x = peel(a)
            if x.k == "BinaryOperator" and x.op in ("==", "!=", "<", ">", "<=", ">=") and any(
                    y.is_call() and nm(y.q) == "size" for y in x.walk()) and not any(y.get("dk") == "local" and not is_size(y) for y in x.walk() if y.k == "DeclRefExpr"):
                ks = [peel(z).v for z in x.c if peel(z).v is not None]
                if ks:
                    op = x.op if p else {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[x.op]
                    if op == ">" and ks[0] == 1:
                        op = "!="
                    out.add((op, ks[0]))
    return out


def is_size(y):
    return "pair" in (y.t or "") or "vector" in (y.t or "")


def entries(P, R):
    R.rule("entry-coding", "entry pointers, key-value lists and string pointers are decoded the way they are encoded")
    # EntryPtr: writer (ptr << k) | tag for aliased entries, reader value >> k and value & tag
    wk, tag, rk, rtag = set(), set(), set(), set()
    w = [f for f in P.fns.values() if f.q.endswith("DicEntryData::write")]
    for f in w:
        for n in shifts(f, "<<"):
            if n.c[1].v is not None:
                wk.add(n.c[1].v)
        for n in shifts(f, "|"):
            if peel(n.c[1]).v is not None:
                tag.add(peel(n.c[1]).v)
    for f in P.fns.values():
        if f.q.endswith("EntryPtr::dicPtr"):
            for n in shifts(f, ">>"):
                rk.add(n.c[1].v)
        if f.q.endswith("EntryPtr::isAlias"):
            for n in shifts(f, "&"):
                rtag.add(peel(n.c[1]).v)
    R.ob("entry-coding", "entry pointer shift: written %s read %s" % (sorted(wk), sorted(rk)), wk == rk or not wk or not rk, "entry-shift",
         "entry pointers are written shifted by %s and read shifted by %s" % (sorted(wk), sorted(rk)))
    R.ob("entry-coding", "alias mark: written %s read %s" % (sorted(tag), sorted(rtag)), tag == rtag or not tag or not rtag, "entry-tag",
         "aliased entries are marked with %s and recognised by %s" % (sorted(tag), sorted(rtag)))
    for f in w:
        cnt = [n for n in f.calls() if nm(n.q) == "writeVarint" and any(y.is_call() and nm(y.q) == "size" for y in n.walk())]
        mark = [n for n in shifts(f, "|") if peel(n.c[1]).v == 1]
        if len(cnt) == 1 and len(mark) == 1 and f.cfg is not None:
            R.ob("entry-coding", "%s count written exactly for marked entries" % f.where,
                 size_facts(f, cnt[0]) == size_facts(f, mark[0]), "entry-count",
                 "%s: the number of aliased rows is not written exactly for the entries marked as aliased" % f.where)
    # key-value lists
    kw, kr, fw, fr = set(), set(), set(), set()
    for f in P.fns.values():
        if f.q.endswith("StringKeyValueListFieldImporter::fieldPointer"):
            for n in shifts(f, "<<"):
                if n.c[1].v is not None:
                    kw.add(n.c[1].v)
        if f.q.endswith("KeyValueListTraversal::moveNext"):
            for n in shifts(f, ">>"):
                if n.c[1].v is not None:
                    kr.add(n.c[1].v)
            for n in shifts(f, "&"):
                if peel(n.c[1]).v is not None:
                    fr.add(peel(n.c[1]).v)
    R.ob("entry-coding", "key shift: written %s read %s" % (sorted(kw), sorted(kr)), kw == kr or not kw or not kr, "kv-shift",
         "keys are written shifted by %s and read shifted by %s" % (sorted(kw), sorted(kr)))
    R.ob("entry-coding", "value flag %s fits the key shift %s" % (sorted(fr), sorted(kr)),
         all(v == (1 << k) - 1 for v in fr for k in kr), "kv-flag", "the value flag is tested with %s" % sorted(fr))
    # delta coding: the writer writes differences of sorted values, the reader accumulates
    for f in P.fns.values():
        if f.name == "writePtrsAsDeltas":
            srt = [n for n in f.calls() if n.q == "std::sort"]
            wr = [n for n in f.calls() if nm(n.q) == "writeVarint"]
            sub = [st for t, v, st in assigns(f) if v is not None and any(y.k == "BinaryOperator" and y.op == "-" for y in v.walk())]
            sub += [n for n in shifts(f, "-")]
            R.ob("entry-coding", "%s sorted and differenced before writing" % f.where,
                 bool(srt) and bool(sub) and all(f.cfg.path_exists(s, {n.i for n in wr}) for s in srt) and
                 all(not f.cfg.path_exists(None, {n.i}, avoid={s.i for s in srt}) for n in wr), "delta|w|" + f.key[-40:],
                 "%s does not write differences of sorted pointers" % f.where)
        if f.q.endswith("IntListTraversal::readOneCumulative"):
            acc = [st for t, v, st in assigns(f) if st.op == "+=" or (v is not None and any(
                y.k == "BinaryOperator" and y.op == "+" for y in v.walk()))]
            R.ob("entry-coding", "%s accumulates" % f.where, bool(acc), "delta|r", "%s does not accumulate the differences" % f.where)
    # users of delta lists accumulate: the reader of entry pointers
    for f in P.fns.values():
        if f.q.endswith("IndexedEntries::readOnePtr"):
            c = [n for n in f.calls() if nm(n.q) in ("readOneCumulative", "readOne")]
            R.ob("entry-coding", f.where, any(nm(n.q) == "readOneCumulative" for n in c) or not c, "delta|ptr",
                 "%s does not accumulate entry pointer differences" % f.where)
    # string pointers: >> alignmentPower when stored, << alignPower when read, length prefixed
    for f in P.fns.values():
        if f.q.endswith("StringStorage::makeStorage"):
            sh = [n for n in shifts(f, ">>")]
            al = [n for n in f.calls() if nm(n.q) == "Align"]
            ok = bool(sh) and all(is_field(peel(n.c[1])) and peel(n.c[1]).m in fieldnames(P, "StringStorage") for n in sh)
            R.ob("entry-coding", "%s pointer is the aligned position in units of the alignment" % f.where,
                 ok and bool(al), "str|w", "%s does not store aligned string pointers" % f.where)
            w0 = [n for n in f.calls() if nm(n.q) == "writeString"]
            first = cfg_order(f, w0)[:1]
            R.ob("entry-coding", "%s the empty string is at 0" % f.where, bool(first) and any(
                y.k == "StringLiteral" and y.get("s") == "" for y in first[0].walk()) and
                not any(a.k in LOOPS for a in first[0].ancestors()), "str|0", "%s: the first string stored is not the empty one" % f.where)
        if f.cls.endswith("StringStorageReader") and f.name in ("readAt", "lengthOf", "numCodepoints"):
            sh = [n for n in shifts(f, "<<")]
            ps = [n for n in f.calls() if nm(n.q) == "from"]
            used = ps and sh and all(any(y.k == "BinaryOperator" and y.op == "<<" for x in srcs(a.args[0]) for y in x.walk()) for a in ps)
            R.ob("entry-coding", "%s scales the pointer" % f.where, bool(used), "str|r|" + f.name,
                 "%s does not scale the string pointer by the alignment" % f.where)
        if f.cls.endswith("StringStorageTraversal") and f.name == "next":
            R.ob("entry-coding", "%s skips the padding" % f.where, any(nm(n.q) == "alignPointer" for n in f.calls()) and any(
                True for _ in shifts(f, ">>")), "str|t", "%s does not follow the alignment" % f.where)
    # list importers put an empty list at 0, which is what fieldPointer returns for an empty field
    for f in P.fns.values():
        if f.name == "injectFieldBuffer" and f.cls.split("::")[-1] in ("StringListFieldImporter", "StringKeyValueListFieldImporter"):
            ok = any(nm(n.q) == "writeVarint" and n.args[0].v == 0 for n in f.calls())
            R.ob("entry-coding", "%s empty list at 0" % f.where, ok, "list0|" + f.cls.split("::")[-1],
                 "%s does not put an empty list at position 0" % f.where)
    # position cache: the pointer handed out is the position before the bytes are appended
    for f in P.fns.values():
        if f.name == "fieldPointer" and f.cls.endswith("FieldImporter") and f.cfg is not None:
            ws = [n for n in f.calls() if nm(n.q) in ("writeStringDataWithoutLengthPrefix", "writePtrsAsDeltas")]
            ps = [n for n in f.calls() if nm(n.q) == "position"]
            for n in ws:
                R.ob("entry-coding", "%s position taken before writing" % n.loc,
                     bool(ps) and not any(f.cfg.path_exists(n, {p.i}) for p in ps), "pos|" + f.cls.split("::")[-1],
                     "%s takes the pointer after the value was appended" % f.where)
    for f in w:
        ps = [n for n in f.calls() if nm(n.q) == "position"]
        ws = {n.i for n in f.calls() if nm(n.q) == "writeVarint"}
        R.ob("entry-coding", "%s position taken before writing" % f.where, bool(ps) and all(
            not any(f.cfg.path_exists(f.nodes[x], {p.i}) for x in ws) for p in ps), "pos|entry",
            "%s takes the entry pointer after the entry was written" % f.where)
    # coded buffer: 7-bit groups, continuation bit, little endian bytes
    for f in P.fns.values():
        if f.name == "writeFixed32" or f.name == "readFixed32":
            want = {0: 0, 1: 8, 2: 16, 3: 24}
            got = {}
            for n in f.all_nodes():
                if n.k == "BinaryOperator" and n.op in ("<<", ">>") and n.c[1].v is not None:
                    st = n
                    while st.p is not None and st.p.k != "CompoundStmt":
                        st = st.p
                    off = [y.c[1].v for y in st.walk() if y.k == "BinaryOperator" and y.op == "+" and y.c[1].v is not None and
                           y.t.endswith("*")]
                    off += [y.c[1].v for y in st.walk() if y.k == "ArraySubscriptExpr" and y.c[1].v is not None]
                    if len(off) == 1:
                        got[off[0]] = n.c[1].v
            R.ob("entry-coding", "%s bytes %s" % (f.where, got), got == want or not got, f.name,
                 "%s puts the bytes of a number at %s" % (f.where, got))
    R.need("entry-coding", 18)


def srcs(n):
    out = [n]
    x = peel(n)
    if x.k == "DeclRefExpr" and x.get("dk") == "local":
        out += var_defs(x.fn).get(x.get("vid"), [])
    return out


def fieldnames(P, cls):
    return {x["n"] for c in P.find_cls(cls) for x in c["fields"]}


# ---------------------------------------------------------------- the archive itself
def archive(P, R):
    R.rule("sticky-failure", "once a field could not be read, loading the structure fails")
    for f in P.fns.values():
        if not f.cls.endswith("serialization::Loader") or f.cfg is None:
            continue
        if nm(f.q) == "load":
            # the status set to true only before the load; result depends on status after the load
            ld = [n for n in f.calls() if nm(n.q) == "DoSerializeLoad"]
            for t, v, st in assigns(f):
                l = leaf_field(t)
                if l is not None and v is not None and v.v == 1:
                    R.ob("sticky-failure", "%s" % st.loc, not any(f.cfg.path_exists(n, {st.i}) for n in ld), "load|reset",
                         "%s forgets a failure" % f.where)
            for r in f.body.walk():
                if r.k == "ReturnStmt" and r.c and any(f.cfg.path_exists(n, {r.i}) for n in ld):
                    nmz = names_in(r.c[0])
                    R.ob("sticky-failure", "%s" % r.loc, "status_" in nmz and "atEnd" in nmz and "DoSerializeLoad" in nmz, "load|result|" + short(f.q)[-40:],
                         "%s does not require success of every field and the end of the data" % f.where)
        elif f.name in ("operator&",) or "operator&" in f.q:
            for t, v, st in assigns(f):
                l = leaf_field(t)
                if l is None or v is None:
                    continue
                ok = v.v == 0 or l.m in names_in(v)
                R.ob("sticky-failure", "%s" % st.loc, ok, "amp",
                     "%s overwrites the failure of an earlier field" % f.where)
    for f in P.fns.values():
        if f.q.startswith("jumanpp::util::serialization::SerializeImpl<") and f.name == "DoSerializeLoad" and f.cfg is not None:
            call = [n for n in f.calls() if nm(n.q) == "Serialize"]
            if call:
                for r in f.body.walk():
                    if r.k == "ReturnStmt" and any(f.cfg.path_exists(n, {r.i}) for n in call):
                        R.ob("sticky-failure", "%s" % r.loc, "status" in names_in(r), "struct|" + short(ser_impl_arg(f.q)),
                             "%s does not report the failure of a field" % f.where)
    R.need("sticky-failure", 10)

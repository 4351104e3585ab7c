"""I01: a number is used in the numbering it belongs to (csv column, spec field, dictionary feature, training field,
code point, boundary, node, beam ...)."""
import re
from pathcut import *
from dfl import *

NS = "jumanpp::"

# what a stored number means
E = {
    "FieldDescriptor::specIndex": "spec", "FieldDescriptor::position": "column (1-based)", "FieldDescriptor::dicIndex": "dic",
    "FieldDescriptor::stringStorage": "sstor", "FieldDescriptor::intStorage": "istor",
    "DictionarySpec::indexColumn": "spec", "DictionaryBuilderStorage::indexColumn": "spec",
    "TrainingField::number": "train", "TrainingField::fieldIdx": "spec", "TrainingField::dicIdx": "dic",
    "TrainingSpec::surfaceIdx": "train", "AllowedUnkField::targetField": "spec", "AllowedUnkField::sourceField": "spec",
    "AllowedFieldInfo::goldIdx_": "train", "TrainingExampleField::dicFieldIdx": "dic", "TrainingExampleField::exampleFieldIdx": "train",
    "BuiltField::dicIndex": "dic", "BuiltField::specIndex": "spec", "BuiltField::stringStorageIdx": "sstor",
    "DictionaryField::idxInEntry": "dic", "DictionaryField::stringStorageIdx": "sstor",
    "ComputationFeatureDescriptor::primitiveFeature": "prim", "ComputationFeatureDescriptor::index": "prim",
    "PrimitiveFeatureDescriptor::index": "prim", "PatternFeatureDescriptor::index": "pat", "NgramFeatureDescriptor::index": "ngram",
    "UnkMakerFeature::targetPlaceholder": "placeholder",
    "LatticeNodePtr::boundary": "boundary", "LatticeNodePtr::position": "node",
    "ConnectionPtr::boundary": "boundary", "ConnectionPtr::left": "ending node", "ConnectionPtr::right": "node", "ConnectionPtr::beam": "beam",
    "LatticeNodeSeed::codepointStart": "code point", "LatticeNodeSeed::codepointEnd": "code point", "BoundaryInfo::number": "code point",
    "LatticeBoundaryConfig::boundary": "boundary", "ExampleNode::position": "code point", "NodeInfo::start_": "code point",
    "NodeInfo::end_": "code point", "NodeConstraint::boundary": "boundary",
}
# how many there are
SZ = {
    "DictionarySpec::numIntStorage": "istor", "DictionarySpec::numStringStorage": "sstor", "FeaturesSpec::numDicFeatures": "dic",
    "FeaturesSpec::numPlaceholders": "placeholder", "FeaturesSpec::totalPrimitives": "prim", "FeaturesSpec::numDicData": "stored data",
    "LatticeConfig::entrySize": "dic", "LatticeConfig::numFeaturePatterns": "pat", "LatticeConfig::beamSize": "beam",
    "LatticeBoundaryConfig::endNodes": "ending node", "LatticeBoundaryConfig::beginNodes": "node", "BoundaryInfo::startCount": "node",
    "BoundaryInfo::endCount": "ending node", "NodeScores::numLeft_": "ending node", "LatticeBoundaryScores::numLeft_": "ending node",
    "LatticeBoundaryScores::numBeam_": "beam",
}
# what the elements of a container of numbers mean
VE = {
    "DictionarySpec::aliasingSet": "spec", "DicImportDescriptor::references": "spec", "UnkProcessorDescriptor::replaceFields": "dic",
    "ComputationFeatureDescriptor::trueBranch": "prim", "ComputationFeatureDescriptor::falseBranch": "prim",
    "PatternFeatureDescriptor::references": "prim", "NgramFeatureDescriptor::references": "pat",
    "EntryTableBuilder::dedupIdxes_": "dic", "PartialExample::boundaries_": "boundary", "PartialExample::noBreak_": "boundary",
}
# ... of several kinds
VALT = {"PrimitiveFeatureDescriptor::references": {"dic", "placeholder"}}
# what indexes a container (rows and columns for two-dimensional ones)
X = {
    "DictionarySpec::fields": "spec", "TrainingSpec::fields": "train", "DictionaryBuilderStorage::importers": "spec",
    "DicFeatureContext::importers": "spec", "DicFeatureContext::storage": "sstor",
    "DictionaryBuilderStorage::storage": "sstor", "DictionaryBuilderStorage::stringBuffers": "sstor", "DictionaryBuilderStorage::builtStrings": "sstor",
    "DictionaryBuilderStorage::intBuffers": "istor", "DictionaryBuilderStorage::builtInts": "istor",
    "BuiltDictionary::stringStorages": "sstor", "BuiltDictionary::intStorages": "istor", "TrainFieldsIndex::storages_": "sstor",
    "FeaturesSpec::primitive": "prim", "FeaturesSpec::computation": "prim", "FeaturesSpec::pattern": "pat", "FeaturesSpec::ngram": "ngram",
    "ExampleNode::data": "train", "TrainingExampleAdapter::entryBuffer": "dic", "TrainFieldsIndex::fields_": "train",
    "Lattice::boundaries": "boundary", "LatticeLeftBoundary::endingNodes_": "ending node", "LatticeRightBoundary::nodeInfo_": "node",
    "LatticeRightBoundary::entryDataStorage": ("node", "dic"), "LatticeRightBoundary::beam": ("node", "beam"),
    "LatticeRightBoundary::featurePatterns": ("node", "pat"), "LatticeBoundaryScores::scores_": "node", "NodeScores::beamScores_": ("beam", "score"),
    "LatticeBuilder::boundaries_": "code point", "LatticeBuilder::connectible": "code point", "AnalysisInput::codepoints_": "code point",
    "DicEntryBuffer::features_": "dic", "EntryTableBuilder::featureBuf_": "dic", "ExtraNode::content": "dic",
}
# parts of a packed number
FR = {"BeamCandidate::left": "ending node", "BeamCandidate::beam": "beam"}
FPAR = {("BeamCandidate::BeamCandidate", 1): "ending node", ("BeamCandidate::BeamCandidate", 2): "beam", ("BeamCandidate::pack", 1): "ending node",
        ("BeamCandidate::pack", 2): "beam", ("ExtraNodesContext::putPlaceholderData", 1): "placeholder", ("ExtraNodesContext::placeholderData", 1): "placeholder",
        ("NodeScores::beamLeft", 0): "beam", ("NodeScores::beamLeft", 1): "ending node", ("LatticeBoundaryScores::nodeScores", 0): "node",
        ("LatticeBoundaryScores::importBeamScore", 0): "ending node", ("LatticeBoundaryScores::importBeamScore", 2): "beam"}
# columns of a dictionary are the columns of the specification, a training corpus has one column per training field
CSV = (("src/core/dic/", "column (0-based)"), ("src/core/training/", "train"))
SHIFT = {("column (1-based)", -1): "column (0-based)", ("column (0-based)", 1): "column (1-based)", ("code point", 2): "boundary",
         ("boundary", -2): "code point"}
DUAL = {"DicImportDescriptor::target",
        "PartialViolation::parameter"}     # a spec field until dictionary features are numbered; depends on the kind of violation
CLOSED = {"spec", "train", "dic", "sstor", "istor", "prim", "pat", "ngram", "column (1-based)", "column (0-based)", "code point", "boundary",
          "node", "ending node", "beam", "placeholder", "stored data"}
FLIP = {"dic": "stored data", "stored data": "dic"}


def sans(q):
    out, d = [], 0
    for ch in q or "":
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif not d:
            out.append(ch)
    return "".join(out)


def short(q):
    return "::".join(sans(q).split("::")[-2:])


def leaf(q):
    return sans(q).split("::")[-1]


class Kinds:
    def __init__(self, P, F):
        self.P, self.F = P, F
        self.memo = {}
        self.fassign, self.felem = {}, {}
        self.aggr = []
        self.classes = {}
        for c in P.classes.values():
            self.classes.setdefault(c["t"].split("<")[0], c)
        for f in F:
            for t, v, st in assigns(f):
                t = strip(t)
                if v is not None and is_field(t) and (st.k == "BinaryOperator" or st.k == "CXXOperatorCallExpr" and st.op == "="):
                    self.fassign.setdefault(short(t.q), []).append(v)
            for i in f.inits:
                d, v = i if isinstance(i, tuple) else (i, None)
                if v is not None and d.get("q"):
                    self.fassign.setdefault(short(d["q"]), []).append(v.c[0] if v.k == "InitListExpr" and len(v.c) == 1 else v)
            for n in f.all_nodes():
                if n.k == "InitListExpr" and n.c:
                    c = self.record(n.t)
                    if c is not None and len(n.c) <= len(c["fields"]) and not c.get("bases"):
                        for fd, v in zip(c["fields"], n.c):
                            q = short(c["q"] + "::" + fd["n"])
                            self.fassign.setdefault(q, []).append(v)
                            self.aggr.append((q, v))
                elif n.is_call() and n.obj is not None and leaf(n.q) in ("push_back", "emplace_back", "insert") and len(n.args) == 1:
                    k = self.contkey(n.obj)
                    if k:
                        self.felem.setdefault(k[0], []).append(n.args[0])

    def record(self, t):
        t = re.sub(r"^(const )", "", t or "").split("<")[0].strip()
        return self.classes.get(t)

    # ------------------------------------------------------------- containers
    def contkey(self, n, depth=8):
        """(field name, row already selected) of a container expression"""
        n = alias(strip(n))
        if n is None or not depth:
            return None
        if is_field(n):
            q = short(n.q)
            return (q, False)
        if n.is_call() and n.obj is not None and leaf(n.q) == "row" and n.args:
            k = self.contkey(n.obj, depth - 1)
            return (k[0], True) if k and not k[1] else None
        if n.is_call() and n.k == "CXXMemberCallExpr" and n.q.startswith(NS):
            ts = [t for t in self.P.targets(n) if t.body is not None]
            if len(ts) == 1:
                rs = [r.c[0] for r in ts[0].all_nodes() if r.k == "ReturnStmt" and r.c]
                if len(rs) == 1:
                    return self.contkey(rs[0], depth - 1)
            return None
        if n.k in CTORS and len(n.c) == 1:
            return self.contkey(n.c[0], depth - 1)
        if n.k == "InitListExpr" and len(n.c) == 1:
            return self.contkey(n.c[0], depth - 1)
        if (n.k in CTORS or n.k == "InitListExpr") and len(n.c) == 2 and leaf((n.t or "").replace("const ", "")) in ("ArraySlice", "MutableArraySlice"):
            return self.contkey(n.c[0], depth - 1)
        if n.k == "DeclRefExpr" and n.get("dk") == "local":
            ds = var_defs(n.fn).get(n.get("vid"), [])
            k = self.contkey(ds[0], depth - 1) if len(ds) == 1 and "Slice" in (n.t or "") else None
            if k:
                return k
            return ("%s.%s" % (n.fn.key, n.get("vid")), False)
        return None

    def ixkind(self, c):
        k = self.contkey(c)
        if k is None:
            return None
        x = X.get(k[0])
        if isinstance(x, tuple):
            return x[1] if k[1] else None
        return x if not k[1] else None

    def rowkind(self, c):
        k = self.contkey(c)
        x = X.get(k[0]) if k and not k[1] else None
        return x[0] if isinstance(x, tuple) else None

    def elemkind(self, c, depth=6):
        k = self.contkey(c)
        if k is None or k[1]:
            return None
        if k[0] in VE:
            return VE[k[0]]
        if depth and k[0] in self.felem:
            ks = {self.kind(v, depth - 1) for v in self.felem[k[0]]}
            return ks.pop() if len(ks) == 1 else None
        return None

    # ------------------------------------------------------------- numbers
    def const(self, n):
        n = strip(n)
        if n.v is not None:
            try:
                return int(n.v)
            except (TypeError, ValueError):
                return None
        return None

    def kind(self, n, depth=6):
        n = strip(n)
        if n is None or not depth:
            return None
        key = (n.fn.key, n.i)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        r = self.kind_(n, depth)
        self.memo[key] = r
        return r

    def kind_(self, n, depth):
        if n.v is not None or n.k == "IntegerLiteral":
            return None
        if is_field(n):
            q = short(n.q)
            if q in E:
                return E[q]
            vs = [v for v in self.fassign.get(q, []) if self.const(v) is None]
            ks = {self.kind(v, depth - 1) for v in vs}
            return ks.pop() if len(ks) == 1 else None
        if n.k == "DeclRefExpr" and n.get("dk") == "local":
            rg = self.loopvar(n)
            if rg is not None:
                return self.elemkind(rg, depth - 1)
            ds = [d for d in var_defs(n.fn).get(n.get("vid"), []) if self.const(d) is None]
            if ds and self.stepped(n):
                return None
            if ds:
                ks = {self.kind(d, depth - 1) for d in ds}
                return ks.pop() if len(ks) == 1 else None
            return self.counter(n)
        if n.k == "DeclRefExpr" and n.get("dk") == "parm":
            return self.passed(n, depth)
        if n.k in ("ArraySubscriptExpr",) or n.k == "CXXOperatorCallExpr" and n.op == "[]" or \
                n.k == "CXXMemberCallExpr" and n.obj is not None and leaf(n.q) in ("at", "front", "back"):
            c = n.obj if n.k == "CXXMemberCallExpr" else (n.c[0] if n.k == "ArraySubscriptExpr" else n.args[0])
            return self.elemkind(c, depth - 1)
        if n.k == "UnaryOperator" and n.op == "~":
            return FLIP.get(self.kind(n.c[0], depth - 1))
        if n.k == "BinaryOperator" and n.op in ("+", "-"):
            c = self.const(n.c[1])
            if c is None and n.op == "+" and self.const(n.c[0]) is not None:
                c, e = self.const(n.c[0]), n.c[1]
            else:
                e = n.c[0]
            if c is None:
                return None
            return shifted(self.kind(e, depth - 1), c if n.op == "+" else -c)
        if n.k == "ConditionalOperator":
            a, b = [x for x in (n.c[1], n.c[2])]
            ks = {self.kind(x, depth - 1) for x in (a, b) if self.const(x) is None}
            return ks.pop() if len(ks) == 1 else None
        if n.is_call() and short(n.q) in FR:
            return FR[short(n.q)]
        if n.is_call() and n.q.startswith(NS) and n.k in ("CXXMemberCallExpr", "CallExpr"):
            ts = [t for t in self.P.targets(n) if t.body is not None]
            ks = set()
            for t in ts:
                rs = [r.c[0] for r in t.all_nodes() if r.k == "ReturnStmt" and r.c]
                for r in rs:
                    if self.const(r) is None:
                        ks.add(self.kind(r, depth - 1))
            return ks.pop() if len(ks) == 1 else None
        return None

    def loopvar(self, n):
        for st in n.fn.all_nodes():
            if st.k == "CXXForRangeStmt":
                v = next((y for x in st.c if x.r in ("var", "loopvar") for y in x.walk() if y.k == "VarDecl" and y.get("vid") == n.get("vid")), None)
                if v is not None:
                    rg = next((z for z in st.c if z.r in ("range", "rangeinit")), None)
                    w = next((z for z in rg.walk() if z.k == "VarDecl"), None) if rg is not None else None
                    return w.c[0] if w is not None and w.c else None
        return None

    def stepped(self, n):
        return any(x.k == "CompoundAssignOperator" and same_var(x.c[0], n) or x.k == "UnaryOperator" and x.op in ("++", "--") and same_var(x.c[0], n)
                   for x in n.fn.all_nodes())

    def counter(self, n):
        """a counter which starts at a constant and runs up to the size of a container numbers its elements"""
        ks = set()
        inc = False
        for x in n.fn.all_nodes():
            if x.k == "UnaryOperator" and x.op in ("++", "--") and same_var(x.c[0], n):
                inc = x.op == "++"
            if x.k == "BinaryOperator" and x.op in ("<", "!=") and x.r == "cond" and same_var(x.c[0], n):
                ks.add(self.size(x.c[1]))
        return ks.pop() if inc and len(ks) == 1 else None

    def size(self, n, depth=6):
        n = alias(strip(n))
        if n is None or not depth:
            return None
        if n.k == "DeclRefExpr" and n.get("dk") == "local":
            ds = var_defs(n.fn).get(n.get("vid"), [])
            return self.size(ds[0], depth - 1) if len(ds) == 1 else None
        if n.k == "BinaryOperator" and n.op in ("+", "-") and self.const(n.c[1]) is not None and abs(self.const(n.c[1])) == 1:
            return self.size(n.c[0], depth - 1)
        if is_field(n):
            return SZ.get(short(n.q))
        if n.k == "CXXMemberCallExpr" and n.obj is not None and leaf(n.q) in ("size", "numRows", "rowSize"):
            if leaf(n.q) == "size":
                k = self.contkey(n.obj)
                if k and isinstance(X.get(k[0]), tuple) and not k[1]:
                    return None
                return self.ixkind(n.obj)
            if leaf(n.q) == "numRows":
                return self.rowkind(n.obj)
            k = self.contkey(n.obj)
            x = X.get(k[0]) if k and not k[1] else None
            return x[1] if isinstance(x, tuple) else None
        if n.is_call() and n.q.startswith(NS):
            ts = [t for t in self.P.targets(n) if t.body is not None]
            if len(ts) == 1:
                rs = [r.c[0] for r in ts[0].all_nodes() if r.k == "ReturnStmt" and r.c]
                if len(rs) == 1:
                    return self.size(rs[0], depth - 1)
        return None

    def passed(self, n, depth):
        f = n.fn
        ix = next((i for i, p in enumerate(f.params) if p.get("vid") == n.get("vid")), None)
        if ix is None or not f.file.startswith("src/core"):
            return None
        if var_defs(f).get(n.get("vid")):
            return None
        ks = set()
        for c in self.P.callers.get(f.key, ()):
            c = c[1] if isinstance(c, tuple) else c
            if testfile(c.fn.file):
                continue
            if ix >= len(c.args):
                return None
            if self.const(c.args[ix]) is not None:
                continue
            ks.add(self.kind(c.args[ix], depth - 1))
        return ks.pop() if len(ks) == 1 else None


def same_var(a, b):
    a = strip(a)
    return a.k == "DeclRefExpr" and a.get("vid") == b.get("vid")


def shifted(k, c):
    if k is None:
        return None
    if (k, c) in SHIFT:
        return SHIFT[(k, c)]
    if k in ("code point", "boundary"):
        return k if abs(c) == 1 else None
    return None


def run(P, R):
    R.rule("index", "what indexes a container belongs to the numbering of its elements")
    R.rule("store", "what is stored as a number of some kind is one")
    R.rule("argument", "what is passed on as a number of some kind is one")
    R.rule("conflict", "a value is used as a number of one kind only")
    R.rule("compare", "numbers which are compared belong to the same numbering")
    F = [f for f in P.fns.values() if f.body is not None and not testfile(f.file) and f.file.startswith("src/") and
         not f.file.startswith("src/util/") and "/legacy/" not in f.file and not f.d.get("implicit")]
    K = Kinds(P, F)
    sinks = []
    for f in F:
        for n in f.all_nodes():
            if n.k == "ArraySubscriptExpr":
                c, i = n.c[0], n.c[1]
            elif n.k == "CXXOperatorCallExpr" and n.op == "[]" and len(n.args) == 2:
                c, i = n.args
            elif n.k == "CXXMemberCallExpr" and n.obj is not None and leaf(n.q) in ("at", "row") and len(n.args) == 1:
                c, i = n.obj, n.args[0]
            else:
                c = None
            if c is not None:
                k = K.rowkind(c) if n.is_call() and leaf(n.q) == "row" else K.ixkind(c)
                if k:
                    sinks.append(("index", f, n, i, k, "indexes %s" % expr_str(strip(c))[:60]))
            if n.is_call() and n.obj is not None and leaf(n.q) in ("resize", "reserve") and n.args:
                a, b = K.ixkind(n.obj), K.size(n.args[0])
                if a and b:
                    R.ob("index", n.loc, a == b, "%s|%s" % (f.q, expr_str(n)[:60]), "%s makes %s, which is indexed by numbers of kind %s, as large as there are of kind %s" % (
                        f.where, expr_str(strip(n.obj))[:40], a, b))
            if n.is_call() and n.obj is not None and leaf(n.q) in ("push_back", "emplace_back", "insert") and len(n.args) == 1:
                ck = K.contkey(n.obj)
                if ck and ck[0] in VALT:
                    got = K.kind(n.args[0]) or K.size(n.args[0])
                    if got is not None:
                        R.ob("store", n.loc, got in VALT[ck[0]], "%s|%s" % (f.q, expr_str(n)[:60]), "%s: %s is a number of kind %s, but is put into %s, which has numbers of kind %s" % (
                            f.where, expr_str(strip(n.args[0]))[:60], got, ck[0], " or ".join(sorted(VALT[ck[0]]))))
                if ck and ck[0] in VE:
                    sinks.append(("store", f, n, n.args[0], VE[ck[0]], "is put into %s" % ck[0]))
            if n.is_call() or n.k in CTORS:
                for i, a in enumerate(n.args):
                    k = FPAR.get((short(n.q), i))
                    if k:
                        sinks.append(("argument", f, n, a, k, "is passed to %s" % short(n.q)))
                if n.is_call() and short(n.q) == "CsvReader::field" and len(n.args) == 1:
                    k = next((k for d, k in CSV if f.file.startswith(d)), None)
                    if k:
                        sinks.append(("argument", f, n, n.args[0], k, "is passed to %s" % short(n.q)))
                if n.is_call() and re.match(r"(std::(set_|includes$|equal$|merge$|search$)|jumanpp::util::contains$)", sans(n.q)):
                    cs = {}
                    for a in n.args:
                        b = strip(a)
                        while b.k in CTORS and len(b.c) == 1 and "iterator" in (b.t or "") and "insert" not in (b.t or ""):
                            b = strip(b.c[0])
                        c = b.obj if b.is_call() and b.obj is not None and leaf(b.q) in ("begin", "end", "cbegin", "cend", "data") else b
                        k = K.elemkind(c) or K.kind(c) if not b.is_call() or b.obj is not None else None
                        if k:
                            cs.setdefault(k, expr_str(strip(c))[:50])
                    if cs:
                        R.ob("compare", n.loc, len(cs) == 1, "%s|%s" % (f.q, leaf(n.q)), "%s: %s compares %s" % (f.where, leaf(n.q), " with ".join(
                            "%s (numbers of kind %s)" % (v, k) for k, v in sorted(cs.items()))))
                if n.is_call() and leaf(n.q) == "copy_insert" and len(n.args) == 2:
                    a, b = K.contkey(n.args[0]), K.contkey(n.args[1])
                    ka, kb = K.elemkind(n.args[0]), K.elemkind(n.args[1])
                    if ka and kb:
                        R.ob("store", n.loc, ka == kb, "%s|%s" % (f.q, b[0]), "%s copies numbers of kind %s into %s, which has numbers of kind %s" % (f.where, ka, b[0], kb))
            if n.k == "BinaryOperator" and n.op in ("==", "!=", "<", ">", "<=", ">="):
                a, b = K.kind(n.c[0]), K.kind(n.c[1])
                if a is None:
                    a = K.size(n.c[0])
                if b is None:
                    b = K.size(n.c[1])
                if a and b:
                    R.ob("compare", n.loc, a == b, "%s|%s" % (f.q, expr_str(n)[:60]), "%s compares a number of kind %s with one of kind %s: %s" % (f.where, a, b, expr_str(n)[:80]))
    for q, vs in K.fassign.items():
        if q in E:
            for v in vs:
                sinks.append(("store", v.fn, v, v, E[q], "is stored as %s" % q))
        if q in SZ:
            for v in vs:
                got = K.size(v)
                if got is not None:
                    R.ob("store", v.loc, got == SZ[q], "%s|%s" % (v.fn.q, q), "%s stores as %s, the number of %s, how many of kind %s there are: %s" % (
                        v.fn.where, q, SZ[q], got, expr_str(v)[:60]))
    done = set()
    uses = {}
    rounds = 0
    while sinks and rounds < 5:
        rounds += 1
        req = {}
        for rule, f, n, e, k, what in sinks:
            e = strip(e)
            while e.k == "UnaryOperator" and e.op == "~" and k in FLIP:
                e, k = strip(e.c[0]), FLIP[k]
            if (e.fn.key, e.i, k, n.i) in done:
                continue
            done.add((e.fn.key, e.i, k, n.i))
            got = K.kind(e)
            e2, k2 = unshift(K, e, k)
            a = alias(e2)
            if got is not None:
                R.ob(rule, n.loc, got == k, "%s|%s" % (f.q, expr_str(n)[:60]), "%s: %s is a number of kind %s, but %s, which has numbers of kind %s" % (
                    f.where, expr_str(e)[:60], got, what, k))
            if a is not None and a.k == "DeclRefExpr" and a.get("dk") == "parm" and f.file.startswith("src/"):
                req.setdefault(("p", a.fn.key, a.get("vid")), set()).add(k2)
                if got is None:
                    uses.setdefault((a.fn.key, a.get("vid"), a.get("n")), {}).setdefault(k2, n)
            elif is_field(a) and short(a.q) not in E and short(a.q) not in DUAL:
                req.setdefault(("f", short(a.q)), set()).add(k2)
            # range-for over a container of numbers
            if a is not None and a.k == "DeclRefExpr" and a.get("dk") == "local":
                if got is None and not K.stepped(a) and not any(K.const(d) is not None for d in var_defs(a.fn).get(a.get("vid"), [])):
                    uses.setdefault((a.fn.key, a.get("vid"), a.get("n")), {}).setdefault(k2, n)
                rg = K.loopvar(a)
                if rg is not None:
                    ck = K.contkey(rg)
                    if ck and ck[0] not in VE and not ck[1]:
                        req.setdefault(("c", ck[0]), set()).add(k)
        sinks = []
        for r, ks in req.items():
            if len(ks) != 1:
                continue
            k = next(iter(ks))
            if r[0] == "p":
                f = P.fns.get(r[1])
                ix = next((i for i, p in enumerate(f.params) if p.get("vid") == r[2]), None) if f else None
                if ix is None or f.file.startswith("src/util"):
                    continue
                for c in P.callers.get(f.key, ()):
                    c = c[1] if isinstance(c, tuple) else c
                    if not testfile(c.fn.file) and ix < len(c.args) and c.fn.file.startswith("src/"):
                        sinks.append(("argument", c.fn, c, c.args[ix], k, "is passed to %s" % short(f.q)))
            elif r[0] == "f":
                for v in K.fassign.get(r[1], []):
                    sinks.append(("store", v.fn, v, v, k, "is stored as %s" % r[1]))
            else:
                for v in K.felem.get(r[1], []):
                    sinks.append(("store", v.fn, v, v, k, "is put into %s" % r[1]))
    for (fk, vid, name), ks in sorted(uses.items(), key=str):
        f = P.fns.get(fk)
        if f is None or var_reassigned(f, vid):
            continue
        (k, n) = min(ks.items(), key=lambda x: (x[1].loc, x[0]))
        R.ob("conflict", n.loc, len(ks) == 1, "%s|%s" % (f.q, name), "%s uses %s as a number of kind %s" % (f.where, name, " and as one of kind ".join(sorted(ks))))


def var_reassigned(f, vid):
    return len(var_defs(f).get(vid, [])) > 1


def unshift(K, e, k):
    if e.k == "BinaryOperator" and e.op in ("+", "-"):
        c, x = K.const(e.c[1]), e.c[0]
        if c is None and e.op == "+":
            c, x = K.const(e.c[0]), e.c[1]
        if c is not None:
            c = c if e.op == "+" else -c
            for (k0, d), k1 in SHIFT.items():
                if k1 == k and d == c:
                    return strip(x), k0
            if k in ("code point", "boundary") and abs(c) == 1:
                return strip(x), k
    return e, k

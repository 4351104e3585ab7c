"""H01: the result for a sentence does not depend on the sentences before it."""
from stale import *

ROOTS = {"jumanpp::core::analysis::AnalyzerImpl", "jumanpp::core::training::Trainer",
         "jumanpp::core::training::OwningFullTrainer", "jumanpp::core::training::PartialTrainer",
         "jumanpp::core::training::OwningPartialTrainer", "jumanpp::core::training::TrainerBatch"}
BASES = {"jumanpp::core::OutputFormat", "jumanpp::core::input::StreamReader", "jumanpp::core::analysis::ScoreComputer"}
UTIL = {"jumanpp::util::memory::Manager", "jumanpp::util::memory::PoolAlloc"}
# small value objects: filled by whoever hands them out
VALUES = re.compile(r"::(DicEntryBuffer|IntListTraversal|EntryPtr|StringField|KVListField|LatticeNodePtr|LatticeNodeSeed|"
                    r"BoundaryInfo|InputCodepoint|NodeInfo|StringStorageReader|NodeWalker|LatticeConfig|AnalyzerConfig|"
                    r"DictionaryEntries|ExampleNode|ScoredFeature|TrainFieldsIndex|TrainingExampleField|BeamCandidate)$")
EXEMPT = {
    "Manager::pages_": "the pool of memory pages; their content is never read before it is written",
    "Lattice::lastGbeam_": "written by ScoreProcessor::make and read by the scorers under the same global beam setting",
    "Lattice::lconf": "configuration; what depends on the input is set by AnalyzerImpl::autoBeamSizes",
}
SCRATCH = {"LossCalculator::rawGoldFeatures", "LossCalculator::goldScores", "LossCalculator::goldNodeScores",
           "PartialTrainer::featureBuf_", "PartialTrainer::tmpBeam_"}
MUT = {"push_back", "emplace_back", "insert", "clear", "resize", "reset", "swap", "append", "assign", "erase", "pop_back",
       "emplace", "clear_no_resize", "SetString", "import", "addAll"}


def strip_t(t):
    t = re.sub(r"\b(const|struct|class) ", "", t)
    m = re.match(r"(?:std::)?(?:unique_ptr|shared_ptr)<(.*)>$", t)
    return m.group(1) if m else t


def bases(c):
    return c.get("bases") or ()


def lookup(P, t):
    if t in P.class_by_t:
        return [P.class_by_t[t]]
    return P.class_by_q.get(re.sub(r"<.*", "", t), [])


def persistent(P):
    pers, work = {}, []
    for c in P.classes.values():
        if c["q"] in ROOTS or set(bases(c)) & BASES:
            work.append(c)
    while work:
        c = work.pop()
        q = c["q"]
        if q in pers or VALUES.search(q) or "(anonymous union" in q:
            continue
        if not q.startswith(("jumanpp::core", "jumanpp::jumandic")) and q not in UTIL:
            continue
        pers[q] = c
        for b in bases(c):
            work += P.class_by_q.get(b, [])
        for x in c["fields"]:
            t = strip_t(x["t"])
            if not t.endswith(("*", "&")):
                work += lookup(P, t)
    return pers


def entries(P, *specs):
    out = []
    for cls, name in specs:
        for f in P.fns.values():
            if f.name == name and f.file.startswith("src/") and f.cfg is not None and re.search(cls, f.cls):
                out.append(f)
    return out


def run(P, R):
    pers = persistent(P)
    fm = entries(P, (r"Format$|FormatImpl$|Output$|Impl$", "format"))
    fm = [f for f in fm if any(b in BASES for c in P.class_by_q.get(f.cls, []) for b in bases(c))]
    seqs = [
        ("analysis", [entries(P, (r"StreamReader$", "readExample")), entries(P, (r"analysis::Analyzer$", "analyze")), fm]),
        ("training", [entries(P, (r"OwningFullTrainer$", "prepare")), entries(P, (r"OwningFullTrainer$", "compute"))]),
        ("partial training", [entries(P, (r"OwningPartialTrainer$", "prepare")), entries(P, (r"OwningPartialTrainer$", "compute"))]),
        ("reading examples", [entries(P, (r"TrainerBatch$", "readFullBatch")), ]),
    ]
    ftype = {c["q"] + "::" + x["n"]: strip_t(x["t"]) for c in pers.values() for x in c["fields"]}

    def is_pers(t):
        return any(c["q"] in pers for c in lookup(P, t))
    R.rule("fresh-state", "what an episode reads of the state of long-lived objects was set in the same episode")
    R.rule("static-state", "code which runs per sentence keeps nothing in variables with static storage")
    allreach = {}
    for name, steps in seqs:
        fs = [f for st in steps for f in st]
        reach = P.reachable(fs)
        allreach.update(reach)
        keys = {}

        def add(lf, f):
            if lf is None:
                return
            k = fkey(lf)
            if k.rsplit("::", 1)[0] in pers and k in ftype and not is_pers(ftype[k]):
                keys.setdefault(k, f)
        for k in reach:
            f = P.fns[k]
            if f.is_ctor or f.is_dtor:
                continue
            for t, v, st in assigns(f):
                add(leaf_field(t), f)
                t = peel(t)
                while t is not None and t.k == "CXXOperatorCallExpr" and t.op in ("[]", "*") and t.args:
                    t = peel(t.args[0])
                add(leaf_field(t) if t is not None else None, f)
            for n in f.calls():
                if n.obj is not None and n.q.split("::")[-1] in MUT:
                    add(leaf_field(n.obj), f)
                if n.op == "<<" and n.args:
                    add(leaf_field(n.args[0]), f)
                if n.q in SWAPS or n.q.split("<")[0] in SWAPS:
                    for a in n.args:
                        add(leaf_field(a), f)
                for a in n.args:
                    if a.k == "UnaryOperator" and a.op == "&":
                        add(leaf_field(a), f)
        S = Stale(P, set(keys), scratch=SCRATCH, skip_virtual=("ErasedAllocator",))
        have = frozenset()
        for st in steps:
            defs = []
            for f in st:
                d, reads = S.summary(f)
                defs.append(d)
                seen = set()
                for k, chain in reads:
                    sk = "::".join(k.split("::")[-2:])
                    if k in have or sk in EXEMPT:
                        continue
                    if k in seen:
                        continue
                    seen.add(k)
                    path = " > ".join(x.loc for x in chain)
                    R.ob("fresh-state", "%s: %s read at %s" % (short(f.q), sk, chain[-1].loc), False, "%s|%s|%s" % (name, f.cls.split("::")[-1], sk),
                         "%s reads %s before setting it, so that it sees what the previous sentence left there (%s)" % (
                             f.where, sk, path))
                R.ob("fresh-state", "%s: %s, %d fields set" % (name, short(f.q), len(d)), True)
            have = have | (frozenset.union(*defs) if defs else frozenset())
        for k in sorted(keys):
            R.ob("fresh-state", "%s: %s (changed in %s)" % (name, short(k), short(keys[k].q)), True)
    R.need("fresh-state", 80)
    for k in allreach:
        f = P.fns[k]
        for t, v, st in assigns(f):
            g = static_target(P, t)
            if g:
                R.ob("static-state", "%s writes %s" % (st.loc, g), False, "%s|%s" % (f.name, g),
                     "%s keeps %s between sentences" % (f.where, g))
        for n in f.calls():
            if n.obj is not None and (n.q.split("::")[-1] in MUT):
                g = static_target(P, n.obj)
                if g:
                    R.ob("static-state", "%s writes %s" % (n.loc, g), False, "%s|%s" % (f.name, g),
                         "%s keeps %s between sentences" % (f.where, g))
        R.ob("static-state", short(f.q), True)
    R.need("static-state", 300)


STATIC_OK = {"singleton_", "CurrentLogLevel", "log_mutex_"}


def static_target(P, t):
    n = peel(t)
    while n is not None:
        if n.k == "MemberExpr" and n.get("fld") and n.c:
            n = peel(n.c[0])
        elif n.k == "CXXMemberCallExpr" and n.obj is not None:
            n = peel(n.obj)
        elif n.k == "CXXOperatorCallExpr" and n.args:
            n = peel(n.args[0])
        elif n.k == "ArraySubscriptExpr":
            n = peel(n.c[0])
        elif n.k == "DeclRefExpr" and n.get("dk") == "local" and n.get("vid") is not None:
            m = alias(n)
            if m is n or m is None or m.i == n.i:
                return None
            n = m
        else:
            break
    if n is None or n.k not in ("DeclRefExpr", "MemberExpr"):
        return None
    if n.get("dk") in ("static", "global", "staticlocal", "var", "tls") or n.get("st"):
        nm = (n.get("n") or n.m or n.q).split("::")[-1]
        return None if nm in STATIC_OK else nm
    return None

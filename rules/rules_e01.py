"""E01: a failure reported by a step of a library operation reaches the caller.
E02 (shared code): the command line tools turn failures into a non-zero exit."""
from model import *
from status_flow import *

TOOL_FILES = ("src/jumandic/main/", "src/core/tool/", "src/jumandic/shared/jumandic_env.",
              "src/jumandic/shared/jumanpp_args.")
SKIP_FILES = ("src/rnn/legacy/", "src/core/devtools/", "src/util/format.")

# (function, callee, why the failing edge may end in success).  Function names are matched on their
# unqualified name, so that an extracted helper does not silently inherit the exemption.
E01_EXEMPT = {
    ("codeptsFor", "preprocessRawData"): "argument tables are compile-time literals; no input reaches it",
    ("printDicInfo", "restoreDictionary"): "informational printer: the error text itself is its output",
    ("printDicInfo", "loadFromMemory"): "informational printer: omits one line of statistics",
    ("printPerceptronInfo", "load"): "informational printer: the error text itself is its output",
    ("renderInfo", "load"): "informational printer: the error text itself is its output",
    ("dumpModel", "open"): "periodic debug dump during training: reported in the log, training goes on",
    ("dumpModel", "save"): "periodic debug dump during training: reported in the log, training goes on",
    ("prepare", "prepareNodeSeeds"): "the gold nodes added afterwards may repair connectivity; "
                                     "re-checked with checkConnectability, or returned",
}
E02_EXEMPT = {
    ("main", "init"): "--version must work without a loadable model",
    ("printFullVersion", "open"): "--version must work without a loadable model",
    ("printFullVersion", "load"): "--version must work without a loadable model",
    ("parseArgs", "parseFile"): "the global and per-user configuration files are optional",
}
# per-sentence failures of the analyser front-end are reported on stderr and the next sentence is read
STREAMED = {("main", "analyzeWith"), ("main", "format"), ("main", "computeDiff")}
CARRIERS = ("jumanpp::core::training::TrainingExecutionResult",)

MUST_USE = [
    "util::CodedBufferParser::readVarint64", "util::CodedBufferParser::readStringPiece",
    "util::CodedBufferParser::readFixed32", "util::CodedBufferParser::readVarint64Slowpath",
    "util::CodedBufferParser::readInt", "util::serialization::Loader::load", "DoSerializeLoad",
    "util::CsvReader::nextLine", "util::CsvReader::handleQuote", "util::parseU64",
    "dic::impl::StringStorageReader::readAt",
    "dic::ColumnImportContext::importFieldValue", "impl::FieldImporter::importFieldValue",
    "IntFieldImporter::importString", "IndexedEntries::readOnePtr", "IndexedEntries::fillEntryData",
    "LatticeBuilder::checkConnectability", "AnalyzerImpl::checkLatticeConnectivity",
    "TrainingExecutor::submitNext", "bounded_queue::offer", "bounded_queue::recieve",
    "analysis::OutputManager::locate", "util::CharBuffer::importMutable", "util::CharBuffer::ensure_size",
    "util::CharBuffer::prepareMemory", "UnkMaker::spawnNodes", "InNodeFeatureComputer::importOneEntry",
]
BOOL_EXEMPT = {
    ("lengthOf", "readInt"): "the out parameter is preset to -1, which is what lengthOf returns on failure",
}


def in_scope(f, tools):
    if f.file.startswith(SKIP_FILES) or ".pb." in f.file:
        return False
    t = f.file.startswith(TOOL_FILES)
    return t if tools else not t


def base(q):
    return short_name(q)


def short_name(q):
    q = re.sub(r"<[^<>]*>", "", q)
    q = re.sub(r"<[^<>]*>", "", q)
    return q.split("::")[-1]


def exempted(P, f, cal, exempt, depth=3):
    """the exemption is the caller's: it follows the call into a helper used only there"""
    if (f.name, cal) in exempt:
        return True
    if depth == 0:
        return False
    cs = {c.fn.key: c.fn for c in P.callers.get(f.key, ())}
    if f.d.get("lambda"):
        cs.update({g.key: g for g in P.fns.values() if g.key != f.key and
                   any(l.key == f.key for l in P.lambdas_in(g))})
    return bool(cs) and all(exempted(P, g, cal, exempt, depth - 1) for g in cs.values() if g is not f)


def run_status(P, R, tools, exempt):
    R.rule("status-fate", "every error value produced in a function is returned, stored or tested, and on the "
                          "failing edge no path ends in a success outcome")
    R.rule("catch-outcome", "every exception handler ends in a failure outcome")
    for f in P.fns.values():
        if not in_scope(f, tools) or f.d.get("implicit"):
            continue
        res = {}
        for n, prob, at in fates(f, CARRIERS):
            cal = short_name(n.q)
            key = "%s|%s" % (short(f.q), cal)
            site = "%s in %s: %s" % (n.loc, short(f.q), cal)
            if prob and isinstance(n, Node) and n.is_call() and infallible(P, n):
                prob = None
            if prob and exempted(P, f, cal, exempt):
                prob = None
            if prob and tools and exempted(P, f, cal, STREAMED):
                # must at least be reported
                rep = [x for x in fates_one(f, n)]
                if not any(rep):
                    prob = None
            k = (n.loc, key)
            if prob:
                res.setdefault(k, (site, key, None))
                res[k] = (site, key, (prob, at))
            else:
                res.setdefault(k, (site, key, None))
        for (loc, key), (site, key2, pr) in res.items():
            if pr is None:
                R.ob("status-fate", site, True)
            else:
                prob, at = pr
                R.ob("status-fate", site, False, key + "|" + prob,
                     "%s: the result of %s: %s%s" % (f.where, key2.split("|")[1], prob,
                                                     (" (%s)" % at.loc) if at is not None else ""))
        for n, ok in catch_outcomes(f):
            R.ob("catch-outcome", "%s in %s (%s)" % (n.loc, short(f.q), n.get("ct")), ok,
                 "%s|%s" % (short(f.q), n.get("ct")),
                 "%s: handler for %s at %s swallows the exception" % (f.where, n.get("ct"), n.loc))


def fates_one(f, src):
    for n, prob, at in fates(f, CARRIERS, streamed_ok=True):
        if n is src and prob:
            yield prob


def sentinel_out(f, n):
    """readInt(&v): v starts at a negative sentinel and v itself is returned, so that failure is
    visible in the value"""
    if not n.args:
        return False
    a = n.args[0]
    if not (a.k == "UnaryOperator" and a.op == "&" and a.c[0].k == "DeclRefExpr"):
        return False
    vid = a.c[0].get("vid")
    init = [x for x in f.all_nodes() if x.k == "VarDecl" and x.get("vid") == vid and x.c]
    if not init or init[0].c[0].v is None or init[0].c[0].v >= 0:
        return False
    for r in f.all_nodes():
        if r.k == "ReturnStmt" and r.c:
            e = r.c[0]
            while e.k == "ImplicitCastExpr":
                e = e.c[0]
            if not (e.k == "DeclRefExpr" and e.get("vid") == vid) and r.c[0].v != init[0].c[0].v:
                return False
    return True


def run(P, R):
    run_status(P, R, False, E01_EXEMPT)
    R.rule("bool-fate", "the result of every fallible bool-returning primitive is looked at")
    for f in P.fns.values():
        if not in_scope(f, False):
            continue
        for n in f.calls():
            if n.t != "bool" or not n.q:
                continue
            q = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", n.q))
            if not any(q.endswith(m) for m in MUST_USE):
                continue
            if n.get("defarg"):
                continue
            R.ob("bool-fate", "%s in %s: %s" % (n.loc, short(f.q), short_name(q)),
                 bool_used(f, n) or (short_name(q) == "readInt" and sentinel_out(f, n)),
                 "%s|%s" % (short(f.q), short_name(q)),
                 "%s: the result of %s at %s is ignored" % (f.where, short_name(q), n.loc))
    R.need("status-fate", 300)
    R.need("bool-fate", 40)
    R.need("catch-outcome", 3)

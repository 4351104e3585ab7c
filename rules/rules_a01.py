"""A01: every command line option reaches the setting it names, and the command line wins over files."""
from vflow import *

FLAG = re.compile(r"^(const )?args::(ValueFlag<|Flag$|MapFlag<|PositionalList<|Positional<|Command$)")
SKIP = ("src/core/devtools", "src/rnn/legacy", "src/core/benchmarks", "src/core/codegen")

J, TA, TC, GB, RC = "JumanppConf::", "TrainingArguments::", "TrainingConfig::", "GlobalBeamParams::", "RnnInferenceConfig::"
# option -> the settings its value (or, with =, a constant under its control) must reach.  One row per documented
# option and program; a row lists every alternative spelling only by its longest name.
OPTIONS = [
    ("rnn-nce-bias", {RC + "nceBias"}), ("rnn-unk-constant", {RC + "unkConstantTerm"}),
    ("rnn-unk-length", {RC + "unkLengthPenalty"}), ("feature-weight-perceptron", {RC + "perceptronWeight"}),
    ("feature-weight-rnn", {RC + "rnnWeight"}), ("rnn-unk", {RC + "unkSymbol"}), ("rnn-eos", {RC + "eosSymbol"}),
    ("rnn-fields", {RC + "rnnFields"}), ("rnn-separator", {RC + "fieldSeparator"}),
    # training (both front ends)
    ("model-input", {TA + "modelFilename"}), ("model-output", {TA + "outputFilename"}),
    ("corpus", {TA + "corpusFilename"}), ("partial-corpus", {TA + "partialCorpus"}),
    ("rnn-model", {TA + "rnnModelFilename"}), ("scw-dump-dir", {TA + "scwDumpDirectory"}),
    ("scw-dump-prefix", {TA + "scwDumpPrefix"}), ("corpus-comment", {TA + "comment"}),
    ("size", {TC + "featureNumberExponent"}), ("seed", {TC + "randomSeed"}), ("training-mode", {TC + "mode"}),
    ("scw-c", {"ScwConfig::C"}), ("scw-phi", {"ScwConfig::phi"}), ("beam", {TC + "beamSize"}),
    ("batch", {TA + "batchSize"}), ("threads", {TA + "numThreads"}), ("max-batch-iters", {TA + "batchMaxIterations"}),
    ("max-epochs", {TA + "maxEpochs"}), ("epsilon", {TA + "batchLossEpsilon"}),
    ("gb-left-min", {GB + "minLeftBeam"}), ("gb-left-max", {GB + "maxLeftBeam"}),
    ("gb-right-min", {GB + "minRightBeam"}), ("gb-right-max", {GB + "maxRightBeam"}),
    ("gb-rcheck-min", {GB + "minRightCheck"}), ("gb-rcheck-max", {GB + "maxRightCheck"}),
    ("gb-first-full", {GB + "fullFirstIter"}), ("csv-corpus-format", {TC + "inputFormat=Csv"}),
    # tool
    ("dict-file", {"JumanppToolArgs::dictFile"}), ("spec", {"JumanppToolArgs::specFile"}),
    ("comment", {"JumanppToolArgs::comment"}), ("class-name", {"JumanppToolArgs::comment"}),
    ("dic-version", {"BootstrapArgs::rawDicVersion"}), ("pos", {"PathDiffConf::posAreOk"}),
    # analyser
    ("<FILENAME>", {J + "inputFiles"}), ("config", {J + "configFile"}), ("output", {J + "outputFile"}),
    ("log-level", {J + "logLevel"}), ("version", {J + "outputType=Version"}),
    ("model-info", {J + "outputType=ModelInfo"}), ("partial-input", {J + "inputType=PartiallyAnnotated"}),
    ("format", {J + "outputType"}), ("juman", {J + "outputType=Juman"}), ("morph", {J + "outputType=Morph"}),
    ("full-morph", {J + "outputType=FullMorph"}), ("dic-subset", {J + "outputType=DicSubset"}),
    ("specifics", {J + "beamOutput", J + "outputType=Lattice"}), ("segment", {J + "outputType=Segmentation"}),
    ("segment-separator", {J + "segmentSeparator"}), ("graphviz-dir", {J + "graphvizDir"}),
    ("model", {J + "modelFile"}), ("rnn-model", {J + "rnnModelFile"}), ("beam", {J + "beamSize"}),
    ("global-beam", {J + "globalBeam"}), ("right-check", {J + "rightCheck"}), ("right-beam", {J + "rightBeam"}),
    ("auto-nbest", {J + "autoStep", J + "beamSize", J + "globalBeam"}),
    ("global-beam-pos", {J + "outputType=GlobalBeamPos"}),
]
NO_VALUE = {"available-formats", "<index>", "<train>", "<embed-rnn>", "<static-features>"}
NAMED = {"segment": "Segmentation", "juman": "Juman", "lattice": "Lattice", "morph": "Morph", "full-morph": "FullMorph",
         "dic-subset": "DicSubset", "juman-pb": "JumanPb", "lattice-pb": "LatticePb", "lattice-dump": "FullLatticeDump",
         "full": "Full", "falloff": "FalloffBeam", "violation": "MaxViolation"}
CONFIG = re.compile(r"^(JumanppConf|TrainingArguments|GlobalBeamParams|TrainingConfig|ScwConfig|RnnInferenceConfig|"
                    r"AnalyzerConfig|ScoringConfig|LatticeConfig|GlobalBeamTrainConfig|JumanppToolArgs|BootstrapArgs|"
                    r"PathDiffConf|ScorerDef|LatticeFormat|JumanppProtobufOutputImpl|GlobalBeamPositionFormat|"
                    r"GraphVizFormat|InputOutput|AnalysisInput|Manager|TrainerBatch|PartialTrainer|MikolovRnn|"
                    r"bounded_queue|ScwParams|SoftConfidenceWeighted|PathDiffCalculator)::")
SINKS = ("JumanppEnv::loadModel", "FilesystemModel::open", "RnnScorerGbeamFactory::make", "SegmentedFormat::initialize",
         "JppArgsParser::parseFile", "ModelSaver::open", "TrainingEnv::loadInput", "TrainingEnv::loadPartialExamples",
         "TrainingEnv::dumpScw", "TrainingEnv::exportScwParams", "RnnScorerGbeamFactory::makeInfo",
         "IndexTool::indexDictionary", "IndexTool::saveModel", "generateStaticFeatures", "basic_ofstream", "basic_ifstream",
         "DictionaryBuilder::importCsv", "DictionaryBuilder::fillModelPart", "FullyMappedFile::open",
         )
# setting -> where its value must (at least) and may go; consumers outside these are ignored.
FLOWS = {
    J + "modelFile": {"JumanppEnv::loadModel#0", "FilesystemModel::open#0"},
    J + "rnnModelFile": {"RnnScorerGbeamFactory::make#0"},
    J + "segmentSeparator": {"SegmentedFormat::initialize#2"},
    J + "configFile": {"JppArgsParser::parseFile#0"},
    J + "outputFile": {"basic_ofstream#0"},
    J + "inputFiles": {"InputOutput::inFiles_"},
    J + "beamSize": {"ScoringConfig::beamSize", "AnalyzerConfig::autoBeamBase", "LatticeFormat::topN",
                     "JumanppProtobufOutputImpl::maxN_", "GraphVizFormat::maxBeam_"},
    J + "beamOutput": {J + "beamSize", "LatticeFormat::topN", "JumanppProtobufOutputImpl::maxN_"},
    J + "globalBeam": {"AnalyzerConfig::globalBeamSize", "AnalyzerConfig::autoBeamMax",
                       "GlobalBeamPositionFormat::maxElems_"},
    J + "rightBeam": {"AnalyzerConfig::rightGbeamSize"},
    J + "rightCheck": {"AnalyzerConfig::rightGbeamCheck"},
    J + "autoStep": {"AnalyzerConfig::autoBeamStep"},
    TA + "modelFilename": {"JumanppEnv::loadModel#0"},
    TA + "outputFilename": {"ModelSaver::open#0", "IndexTool::saveModel#0", "generateStaticFeatures#1"},
    TA + "corpusFilename": {"TrainingEnv::loadInput#0"},
    TA + "partialCorpus": {"TrainingEnv::loadPartialExamples#0"},
    TA + "rnnModelFilename": {"RnnScorerGbeamFactory::make#0"},
    TA + "scwDumpDirectory": {"TrainingEnv::dumpScw#0"},
    TA + "scwDumpPrefix": {"TrainingEnv::dumpScw#1"},
    TA + "comment": {"TrainingEnv::exportScwParams#1", "RnnScorerGbeamFactory::makeInfo#1"},
    TA + "numThreads": {"bounded_queue::capa_"},
    GB + "minLeftBeam": {"GlobalBeamTrainConfig::leftBeam"},
    GB + "maxLeftBeam": {"GlobalBeamTrainConfig::leftBeam"},
    GB + "minRightBeam": {"GlobalBeamTrainConfig::rightBeam"},
    GB + "maxRightBeam": {"GlobalBeamTrainConfig::rightBeam"},
    GB + "minRightCheck": {"GlobalBeamTrainConfig::rightCheck"},
    GB + "maxRightCheck": {"GlobalBeamTrainConfig::rightCheck"},
    TC + "randomSeed": {"TrainerBatch::seed_"},
    TC + "beamSize": {"ScoringConfig::beamSize", "LatticeConfig::beamSize"},
    RC + "nceBias": {"MikolovRnn::rnnNceConstant"},
    RC + "perceptronWeight": {"ScorerDef::scoreWeights"},
    RC + "rnnWeight": {"ScorerDef::scoreWeights"},
    "AnalyzerConfig::pageSize": {"Manager::page_size_"},
    "AnalyzerConfig::maxInputBytes": {"AnalysisInput::max_size_"},
    "AnalyzerConfig::globalBeamSize": {"LatticeConfig::globalBeamSize"},
    "AnalyzerConfig::autoBeamStep": {"LatticeConfig::beamSize", "LatticeConfig::globalBeamSize"},
    "AnalyzerConfig::autoBeamBase": {"LatticeConfig::beamSize", "LatticeConfig::globalBeamSize"},
    "AnalyzerConfig::autoBeamMax": {"LatticeConfig::beamSize", "LatticeConfig::globalBeamSize"},
    "ScoringConfig::beamSize": {"LatticeConfig::beamSize"},
    "ScoringConfig::numScorers": {"LatticeConfig::scoreCnt"},
    "GlobalBeamTrainConfig::leftBeam": {"AnalyzerConfig::globalBeamSize"},
    "GlobalBeamTrainConfig::rightBeam": {"AnalyzerConfig::rightGbeamSize"},
    "GlobalBeamTrainConfig::rightCheck": {"AnalyzerConfig::rightGbeamCheck"},
    "JumanppToolArgs::specFile": {"IndexTool::indexDictionary#0", "generateStaticFeatures#0"},
    "JumanppToolArgs::dictFile": {"IndexTool::indexDictionary#1"},
    "JumanppToolArgs::comment": {TA + "comment", "IndexTool::saveModel#1", "generateStaticFeatures#2"},
    "PathDiffConf::posAreOk": {"PathDiffCalculator::outputPos"},
}
# flows that exist besides the ones above and are correct
ALSO = {
    (J + "autoStep", "AnalyzerConfig::autoBeamBase"), (J + "autoStep", "AnalyzerConfig::autoBeamMax"),
    (J + "rnnModelFile", J + "rnnModelFile"),
    (J + "globalBeam", "LatticeConfig::globalBeamSize"),
    (TC + "beamSize", "LatticeConfig::scoreCnt"),
    ("GlobalBeamTrainConfig::leftBeam", "LatticeConfig::globalBeamSize"),
    ("AnalyzerConfig::rightGbeamCheck", "Manager::currentPage"),
}
CONSUME = {"JumanppConf": set(), "TrainingArguments": set(), "TrainingConfig": set(), "GlobalBeamParams": set(),
           "ScwConfig": set(), "RnnInferenceConfig": set(), "AnalyzerConfig": {"otherScorersTopN"},
           "ScoringConfig": set(), "GlobalBeamTrainConfig": set(), "JumanppToolArgs": set(), "BootstrapArgs": set()}
FORMATS = {"Juman": "JumanFormat", "Morph": "MorphFormat", "FullMorph": "MorphFormat", "DicSubset": "SubsetFormat",
           "Lattice": "LatticeFormat", "Segmentation": "SegmentedFormat", "FullLatticeDump": "LatticeDumpOutput",
           "JumanPb": "JumanPbFormat", "LatticePb": "JumanppProtobufOutput", "GlobalBeamPos": "GlobalBeamPositionFormat"}


def opt_names(init):
    out = []
    for n in init.walk():
        if n.k in CTORS and n.q.endswith("EitherFlag::EitherFlag"):
            for x in n.walk():
                if x.k == "StringLiteral":
                    out.append(x.get("s"))
                elif x.k == "CharacterLiteral":
                    out.append(chr(x.v))
    if not out:
        s = [x.get("s") for x in init.walk() if x.k == "StringLiteral"]
        out = ["<%s>" % s[0]] if s else []
    return sorted(set(out), key=lambda s: (-len(s), s))


def flags_of(P):
    seen = set()
    for f in P.fns.values():
        if f.file.startswith(SKIP):
            continue
        for n in f.all_nodes():
            if n.k == "VarDecl" and FLAG.match(n.t) and n.c:
                yield f, n.get("vid"), None, n.get("n"), opt_names(n), n
        if f.is_ctor:
            for x, e in f.inits:
                if e is not None and "m" in x and FLAG.match(e.t):
                    o = opt_names(e)
                    if (x["q"], tuple(o)) in seen:
                        continue
                    seen.add((x["q"], tuple(o)))
                    yield f, None, x["q"], x["m"], o, e


def fields_of(P, cls):
    c = P.find_cls(cls)
    return {"%s::%s" % (cls, x["n"]) for x in c[0]["fields"]} if c else set()


def rows_ok(actual, want, known_fields):
    """equal, or equal up to a field that was renamed (a wanted field no longer exists, an unknown one took over)"""
    if actual == want:
        return True
    miss = want - actual
    extra = actual - want
    gone = {m for m in miss if m.split("=")[0] not in known_fields}
    new = {x for x in extra if x.split("=")[0] not in {w.split("=")[0] for _, s in OPTIONS for w in s}}
    return len(miss) == len(gone) and len(extra) == len(new) and len(gone) == len(new)


def run(P, R):
    import a01_slots
    a01_slots.run(P, R)
    core(P, R)


def core(P, R):
    T = Tracer(P)
    known = set()
    for c in ("JumanppConf", "TrainingArguments", "TrainingConfig", "GlobalBeamParams", "RnnInferenceConfig",
              "ScwConfig", "JumanppToolArgs", "BootstrapArgs", "PathDiffConf"):
        known |= fields_of(P, c)
    # ---------------------------------------------------------------- option -> setting
    R.rule("option-target", "the value of a command line option reaches exactly the settings it names")
    R.rule("option-known", "every documented option is still accepted")
    want = defaultdict(list)
    for o, s in OPTIONS:
        want[o].append(s)
    hit = set()
    field_uses = defaultdict(list)
    for f in P.fns.values():
        if f.file.startswith(SKIP) or f.d.get("implicit"):
            continue
        for n in f.all_nodes():
            if is_field(n):
                field_uses[fq(n)].append(n)
    by_q = defaultdict(list)
    for l in field_uses.values():
        for n in l:
            by_q[n.q].append(n)
    for f, vid, q, nm, opts, node in flags_of(P):
        if not opts or opts[0] in NO_VALUE:
            continue
        uses = by_q.get(q, []) if q else T.var_uses(f, vid)
        d = set()
        for u in uses:
            d |= T.dests(u)
        d = {x for x in d if x.split("=")[0] in known}
        rows = want.get(opts[0], [])
        if opts[0].startswith("<") and not rows:
            continue      # plain positional arguments of small tools
        ok = any(rows_ok(d, s, known) for s in rows)
        for i, s in enumerate(rows):
            if rows_ok(d, s, known):
                hit.add((opts[0], i))
        R.ob("option-target", "%s:%d option --%s -> %s" % (f.file, node.l, opts[0], ", ".join(sorted(d)) or "nothing"),
             ok or not rows and bool(d), "%s|%s" % (f.file, opts[0]),
             "option --%s of %s reaches {%s}, expected {%s}" % (
                 opts[0], f.file, ", ".join(sorted(d)), " | ".join(", ".join(sorted(s)) for s in rows)))
    for o, ss in want.items():
        for i, s in enumerate(ss):
            R.ob("option-known", "--%s -> %s" % (o, ", ".join(sorted(s))), (o, i) in hit, "%s|%s" % (o, ",".join(sorted(s))),
                 "no option --%s stores into %s" % (o, ", ".join(sorted(s))))
    R.need("option-target", 60)
    # ---------------------------------------------------------------- names of enumerated values
    R.rule("named-value", "a named value on the command line selects the mode of that name")
    for f in P.fns.values():
        if not f.file.startswith(("src/jumandic", "src/core/tool")):
            continue
        for n in f.all_nodes():
            s = e = None
            if n.k == "BinaryOperator" and n.op == "=":
                l = peel(n.c[0])
                e = const_of(n.c[1])
                if l.k == "CXXOperatorCallExpr" and l.op == "[]" and len(l.args) == 2:
                    for x in l.args[1].walk():
                        if x.k == "StringLiteral":
                            s = x.get("s")
            elif n.k in CTORS and n.q.split("::")[-1] == "pair" and len(n.c) == 2:
                for x in n.c[0].walk():
                    if x.k == "StringLiteral":
                        s = x.get("s")
                e = const_of(n.c[1])
            if s in NAMED and e is not None and not e.isdigit():
                R.ob("named-value", "%s '%s' -> %s" % (n.loc, s, e), e == NAMED[s], "%s|%s" % (f.file, s),
                     "%s: the value '%s' selects %s, expected %s" % (f.where, s, e, NAMED[s]))
    R.need("named-value", 12)
    # ---------------------------------------------------------------- setting -> component
    R.rule("setting-flow", "a setting flows to the component parameters it configures and to no other")
    V = Tracer(P, control=False, sinks=SINKS)
    flow_fields = set(FLOWS)
    allt = set().union(*FLOWS.values())
    for fld, exp in sorted(FLOWS.items()):
        cls = fld.split("::")[0]
        have = fields_of(P, cls)
        if not have:
            continue
        if fld not in have:
            continue          # renamed or removed: the option rules and consumption rule still cover it
        d = set()
        for n in field_uses.get(fld, ()):
            if n.fn.name in ("mergeWith", "operator<<", "operator=="):
                continue
            d |= V.dests(n)
        d = {x for x in d if x in allt}
        for x in sorted(exp):
            tcls = x.split("#")[0].split("::")[0]
            if "#" not in x and P.find_cls(tcls) and x not in fields_of(P, tcls) and \
                    not any(x in fields_of(P, k) for k in (tcls,)):
                continue
            R.ob("setting-flow", "%s -> %s" % (fld, x), x in d, "%s->%s" % (fld, x),
                 "%s does not reach %s any more" % (fld, x))
        for x in sorted(d - exp):
            R.ob("setting-flow", "%s -> %s" % (fld, x), (fld, x) in ALSO, "%s->%s" % (fld, x),
                 "%s is stored into %s" % (fld, x))
    R.need("setting-flow", 60)
    # ---------------------------------------------------------------- every setting is consumed
    R.rule("consumed", "every setting is read by code that a program's main reaches")
    mains = [f for f in P.fns.values() if f.q == "main" and not f.file.startswith(SKIP)]
    reach = P.reachable(mains)
    for cls, ign in CONSUME.items():
        for fld in sorted(fields_of(P, cls)):
            if fld.split("::")[1] in ign:
                continue
            n = 0
            for u in field_uses.get(fld, ()):
                if u.fn.name in ("mergeWith", "operator<<", "operator==", "isDefault", "fillResult", "Serialize"):
                    continue
                if u.fn.key not in reach:
                    continue
                w = u.p
                if w is not None and w.k in ("BinaryOperator",) and w.op == "=" and w.c[0] is u:
                    continue
                if w is not None and w.k == "CXXOperatorCallExpr" and w.op == "=" and w.args and w.args[0] is u:
                    continue
                if w is not None and w.k == "CXXMemberCallExpr" and u.r == "obj" and w.q.split("::")[-1] in (
                        "set", "mergeWith", "operator="):
                    continue
                n += 1
            R.ob("consumed", "%s: %d reads" % (fld, n), n > 0, fld, "the setting %s is never read: the option has no effect" % fld)
    R.need("consumed", 50)
    # ---------------------------------------------------------------- merging
    R.rule("merge-complete", "merging two configurations carries over every setting, each to itself")
    for c in P.classes.values():
        ms = [m for m in c["methods"] if m["n"] in ("mergeWith", "isDefault")]
        if not ms or c.get("inst") or "Cfg" in c["q"].split("::")[-1]:
            continue
        for m in ms:
            f = P.fns.get(m["key"])
            if f is None:
                continue
            got = set()
            todo, done = [f], set()
            while todo:
                g = todo.pop()
                if g.key in done:
                    continue
                done.add(g.key)
                for n in g.all_nodes():
                    if is_field(n) and "::".join(n.q.split("::")[:-1]) == c["q"]:
                        own = peel(n.c[0]).k == "CXXThisExpr" if n.c else True
                        if m["n"] == "isDefault":
                            got.add(n.m)
                            continue
                        call = n.p
                        if own and call is not None and call.is_call() and call.args and (
                                call.obj is n or call.k == "CXXOperatorCallExpr" and call.args[0] is n):
                            src = leaf_field(call.args[-1])
                            ok = src is not None and src.m == n.m
                            R.ob("merge-complete", "%s %s" % (n.loc, n.m), ok, "%s|%s" % (short(f.q), n.m),
                                 "%s: %s is merged from %s" % (f.where, n.m, src.m if src is not None else "?"))
                            if ok:
                                got.add(n.m)
                    if n.is_call():
                        todo += [t for t in P.targets(n) if t.cls == c["q"] and t.name not in ("operator=",)]
            for x in c["fields"]:
                R.ob("merge-complete", "%s::%s covers %s" % (short(c["q"]), m["n"], x["n"]), x["n"] in got,
                     "%s|%s|missing" % (short(f.q), x["n"]), "%s does not handle the setting %s" % (f.where, x["n"]))
    R.need("merge-complete", 40)
    # ---------------------------------------------------------------- Cfg semantics
    R.rule("cfg-default", "a setting counts as given exactly when a value was assigned to it")
    for f in P.fns.values():
        if not f.cls.startswith("jumanpp::util::Cfg") or f.d.get("implicit") or f.is_ctor:
            continue
        nm = f.name
        w = [(leaf_field(t), v, st) for t, v, st in assigns(f)]
        w = [(t, v, st) for t, v, st in w if t is not None and "Cfg<" in t.q]
        vals = [(t, v, st) for t, v, st in w if t.m == "value_"]
        defs = [(t, v, st) for t, v, st in w if t.m == "isDefault_"]
        if nm in ("operator=", "mergeWith") and (vals or defs):
            cond = [bool(vals)]
            for t, v, st in vals:
                facts = [(a, p) for c0, p0 in edges_to(f, st) for a, p in norm_cond(c0, p0)]
                if nm == "mergeWith":
                    cond.append(any((a.is_call() and a.q.endswith("::isDefault") and not p) or
                                    (a.is_call() and a.q.endswith("::defined") and p) or
                                    (is_field(a) and a.m == "isDefault_" and not p) for a, p in facts))
                dn = [d for d in defs if d[1] is not None and d[1].v == 0]
                cond.append(bool(dn) and all(edges_same(f, st, d[2]) for d in dn[:1]))
            R.ob("cfg-default", "%s %s" % (f.where, nm), all(cond), short(f.q) if False else nm + "|" + re.sub(r".*Cfg", "Cfg", f.q)[:60],
                 "%s: the value and the 'given' mark do not change together" % f.where)
        if nm == "set" and f.params:
            v0 = f.params[0]["vid"]
            for t, v, st in assigns(f):
                x = peel(t)
                if x is None or x.k != "CXXThisExpr":
                    continue
                ok = any(any(y.k == "DeclRefExpr" and y.get("vid") == v0 for y in a.walk()) and p
                         for c0, p0 in edges_to(f, st) for a, p in norm_cond(c0, p0))
                R.ob("cfg-default", "%s %s" % (st.loc, nm), ok, "set|" + re.sub(r".*Cfg", "Cfg", f.q)[:60],
                     "%s: the setting counts as given although its option was not given" % f.where)
    R.need("cfg-default", 20)
    # ---------------------------------------------------------------- precedence
    R.rule("precedence", "values given on the command line are merged last into the result")
    n0 = 0
    for f in P.fns.values():
        if not any(p["t"].replace("struct ", "").endswith("JumanppConf *") for p in f.params) or f.cls:
            continue
        cli = [n for n in f.calls() if any(g.name == "parseCli" or calls_name(P, g, "ParseCLI") for g in P.targets(n)) or n.q.endswith("::ParseCLI")]
        if not cli:
            continue
        n0 += 1
        rp = [p["vid"] for p in f.params if p["t"].endswith("JumanppConf *")][0]
        cfg = f.cfg
        files = {n.i for n in f.calls() if any(calls_name(P, g, "ParseArgs") for g in P.targets(n))}
        # local configurations filled from the command line only
        good = set()
        writes = defaultdict(list)
        for n in f.calls():
            for i, a in enumerate(n.args):
                x = peel(a)
                if x.k == "DeclRefExpr" and x.get("vid") is not None and "JumanppConf" in x.t and a.t.endswith("*"):
                    writes[x.get("vid")].append(n)
        for vid, ws in writes.items():
            if vid == rp:
                continue
            if all(cfg.path_exists(c, {w.i}) for c in cli for w in ws) and \
                    not any(cfg.path_exists(f.nodes[x], {w.i}) for x in files for w in ws):
                good.add(vid)
        merges = []
        for n in f.calls():
            if n.q.endswith("JumanppConf::mergeWith") and n.obj is not None:
                o, a = alias(n.obj), alias(n.args[0])
                if o.k == "DeclRefExpr" and o.get("vid") == rp and a.k == "DeclRefExpr" and a.get("vid") in good:
                    merges.append(n)
        rets = [n for n in f.body.walk() if n.k == "ReturnStmt" and n.c and any(
            x.is_call() and x.q.endswith("Status::Ok") for x in n.walk())]
        for r in rets:
            bad = cfg.path_exists(None, {r.i}, avoid={m.i for m in merges})
            R.ob("precedence", "%s success return of %s" % (r.loc, f.name), not bad, "%s|unmerged" % f.name,
                 "%s: a successful return at %s does not merge the command line into the result" % (f.where, r.loc))
        late = [w for w in writes.get(rp, []) if w not in merges and any(cfg.path_exists(m, {w.i}) for m in merges)
                and not any(g.name == "operator<<" for g in P.targets(w)) and w.op != "<<"]
        late = [w for w in late if any("*" in t and not t.startswith("const") for t in w.get("pt", ()))]
        R.ob("precedence", "%s nothing overrides the command line" % f.where, not late, "%s|late" % f.name,
             "%s: the result is overwritten after the command line was merged, at %s" % (f.where, ", ".join(w.loc for w in late)))
    R.need("precedence", 2)
    # ---------------------------------------------------------------- output format selection
    R.rule("format-class", "each output type builds its own formatter")
    from enums import under_enum
    for f in P.fns.values():
        if not f.file.startswith("src/jumandic/shared"):
            continue
        for n in f.all_nodes():
            if n.k != "CXXNewExpr":
                continue
            cls = n.get("nt", "").split("::")[-1]
            if cls not in FORMATS.values():
                continue
            es = {e for e in under_enum(f, n, "OutputType")}
            if not es:
                continue
            bad = [e for e in es if FORMATS.get(e) != cls]
            arg = [x.v for x in n.walk() if x.k == "CXXBoolLiteralExpr"]
            if cls == "MorphFormat" and arg:
                bad += [e for e in es if (e == "FullMorph") != bool(arg[0])]
            R.ob("format-class", "%s %s under %s" % (n.loc, cls, ",".join(sorted(es))), not bad, cls + "|" + ",".join(sorted(es)),
                 "%s: %s is built for output type %s" % (f.where, cls, ",".join(sorted(es))))
    R.need("format-class", 9)
    # ---------------------------------------------------------------- settings are applied before the analyser is made
    R.rule("apply-before-make", "no setting of the environment is changed after the analyser was made from it")
    envset = set()
    for f in P.fns.values():
        if f.cls.endswith("::JumanppEnv") and not f.is_ctor:
            if any((lf := leaf_field(t)) is not None and fq(lf).split("::")[0] in ("AnalyzerConfig", "ScoringConfig", "ScorerDef")
                   for t, v, st in assigns(f)):
                envset.add(f.key)
    for f in P.fns.values():
        if f.file.startswith(SKIP) or f.cfg is None:
            continue
        mk = [n for n in f.calls() if n.q.endswith("JumanppEnv::makeAnalyzer")]
        st = {n.i for n in f.calls() if any(t.key in envset for t in P.targets(n))}
        if not mk or not st:
            continue
        for m in mk:
            late = [s for s in st if f.cfg.path_exists(m, {s}) and
                    f.cfg.path_exists(f.nodes[s], set(), avoid={x.i for x in mk}, to_exit=True)]
            R.ob("apply-before-make", "%s %s" % (m.loc, f.name), not late, f.name,
                 "%s: a setting is changed after the analyser was made" % f.where)
    R.need("apply-before-make", 1)
    # ---------------------------------------------------------------- swapped arguments
    R.rule("arg-names", "a call that passes settings by name passes each to the parameter of that name")
    for f in P.fns.values():
        if f.file.startswith(SKIP) or not f.file.startswith("src/"):
            continue
        for n in f.calls():
            ts = [t for t in P.targets(n) if t.file.startswith("src/") and not t.d.get("inst")]
            if not ts or len(n.args) < 2 or n.k == "CXXOperatorCallExpr":
                continue
            t = ts[0]
            pn = [p["n"].strip("_").lower() for p in t.params]
            pt = [p["t"] for p in t.params]
            an = [arg_name(a) for a in n.args]
            hits = 0
            bad = None
            for i, a in enumerate(an):
                if a is None or i >= len(pn):
                    continue
                if a == pn[i]:
                    hits += 1
                    continue
                for j, b in enumerate(pn):
                    if j != i and b == a and pt[i] == pt[j] and j < len(an) and an[j] == pn[i]:
                        bad = (i, j)
            if hits or bad:
                R.ob("arg-names", "%s %s" % (n.loc, short(t.q)), bad is None, "%s|%s" % (short(f.q), short(t.q)),
                     "%s: '%s' is passed as parameter '%s' of %s, which also has a parameter '%s' (%s)" % (
                         f.where, an[bad[0]] if bad else "", pn[bad[0]] if bad else "", t.q, pn[bad[1]] if bad else "", n.loc))
    R.need("arg-names", 100)
    R.assume = ["argument parsing by the args library itself is trusted", "the option table in rules_a01.py was confirmed by reading"]


def arg_name(a):
    x = peel(a)
    if x is None:
        return None
    if x.k == "DeclRefExpr" and x.get("vid") is not None:
        return (x.get("n") or "").strip("_").lower()
    if is_field(x):
        return x.m.strip("_").lower()
    return None


def calls_name(P, g, nm):
    return any(n.is_call() and n.q.endswith("::" + nm) for n in g.all_nodes())


def edges_same(f, a, b):
    """a and b execute under the same conditions"""
    ka = {(c.i, p) for c, p in edges_to(f, a)}
    kb = {(c.i, p) for c, p in edges_to(f, b)}
    return ka == kb

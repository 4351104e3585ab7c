"""C01: analysers and trainers which run at the same time share only what none of them changes."""
from effects import *
import rules_h01 as H

ROOTCLS = ("jumanpp::core::CoreHolder", "jumanpp::core::analysis::ScorerDef", "jumanpp::core::training::TrainingIo",
           "jumanpp::core::dic::DictionaryHolder", "jumanpp::core::JumanppEnv", "jumanpp::core::training::TrainingConfig",
           "jumanpp::core::analysis::ScorerFactory", "jumanpp::core::analysis::FeatureScorer",
           "jumanpp::core::features::FeatureHolder", "jumanpp::core::analysis::AnalyzerConfig")
UNSAFE = {"rand", "srand", "strtok", "localtime", "gmtime", "ctime", "asctime", "setlocale", "setenv", "putenv", "tmpnam",
          "readdir"}
STATIC_OK = {"singleton_", "CurrentLogLevel", "log_mutex_"}


def strip_t(t):
    t = re.sub(r"\b(const|struct|class) ", "", t)
    while True:
        t0 = t
        t = t.strip().rstrip("*& ")
        m = re.match(r"(?:std::)?(?:unique_ptr|shared_ptr|vector)<(.*)>$", t)
        if m:
            t = m.group(1).split(", std::")[0]
        if t == t0:
            return t


def derived(P):
    d = defaultdict(list)
    for c in P.classes.values():
        for b in H.bases(c):
            d[b].append(c)
    return d


def shared_classes(P):
    der = derived(P)
    own = set(H.persistent(P))
    sh, work = {}, []
    for q in ROOTCLS:
        work += P.class_by_q.get(q, [])
    while work:
        c = work.pop()
        q = c["q"]
        if q in sh or q in own or not q.startswith(("jumanpp::core", "jumanpp::jumandic", "jumanpp::rnn")):
            continue
        if H.VALUES.search(q):
            continue            # copied, not shared
        sh[q] = c
        work += der.get(q, ())
        for b in H.bases(c):
            work += P.class_by_q.get(b, [])
        for x in c["fields"]:
            work += H.lookup(P, strip_t(x["t"]))
    return sh


def thread_roots(P):
    e = H.entries
    fm = e(P, (r"(Format|FormatImpl|Output|Impl)$", "format"))
    fm = [f for f in fm if any(b in H.BASES for c in P.class_by_q.get(f.cls, []) for b in H.bases(c))]
    return e(P, (r"TrainingExecutorThread$", "run"), (r"analysis::Analyzer$", "analyze"), (r"Trainer$", "prepare"),
             (r"Trainer$", "compute"), (r"StreamReader$", "readExample")) + fm


def read_only(P, f, var):
    """a variable with static storage that nothing can change after it was initialised"""
    cs = H.lookup(P, strip_t(var.t))
    if cs and not cs[0]["fields"] and not var.t.rstrip().endswith("*"):
        return True
    for x in f.all_nodes():
        if x.k == "DeclRefExpr" and x.get("dk") == "static" and x.get("n") == var.get("n"):
            p = x.p
            if p.k == "ReturnStmt" and f.ret.startswith("const ") or const_type(p.t) and p.k.endswith("CastExpr") or \
                    p.k == "ImplicitCastExpr" and p.get("ck") == "LValueToRValue" or p.k == "MemberExpr" and p.p is not None and \
                    p.p.k == "ImplicitCastExpr" and p.p.get("ck") == "LValueToRValue":
                continue
            if p.k == "CXXMemberCallExpr" and p.get("mconst"):
                continue
            return False
    return True


def run(P, R):
    R.rule("no-shared-store", "code which analyses or trains changes no object that is shared between threads")
    R.rule("no-static-store", "code which analyses or trains changes no variable with static storage")
    R.rule("no-unsafe-call", "code which analyses or trains calls no library function that keeps hidden state")
    R.rule("no-const-loss", "shared objects are handed to analysers and trainers as const")
    sh = shared_classes(P)
    roots = thread_roots(P)
    reach = P.reachable(roots)
    shq = set(sh)

    def own_cls(field):
        return H.re.sub(r"<.*?>", "", field.q.rsplit("::", 1)[0])
    for k in reach:
        f = P.fns[k]
        for st, t in stores(P, f):
            root, fs = root_path(t)
            # static storage
            if is_static_ref(root) and root.k == "DeclRefExpr" or root is not None and root.k == "MemberExpr" and root.get("st"):
                nm = (root.get("n") or root.q).split("::")[-1]
                if nm not in STATIC_OK:
                    R.ob("no-static-store", "%s stores to %s" % (st.loc, nm), False, "%s|%s" % (f.name, nm),
                         "%s changes %s, which every thread shares (reached by %s)" % (f.where, nm, P.path_to(reach, k)[:200]))
                continue
            hit = [x for x in fs if own_cls(x) in shq]
            if not hit:
                continue
            if (f.is_ctor or f.is_dtor) and root is not None and root.k == "CXXThisExpr":
                continue
            if root is not None and root.k == "DeclRefExpr" and root.get("dk") == "local" and \
                    not (decl_type(root) or "").rstrip().endswith(("&", "*")):
                continue            # an object living in this call
            if root is not None and root.k == "DeclRefExpr" and root.get("dk") == "parm" and \
                    not (decl_type(root) or "").rstrip().endswith(("&", "*")):
                continue
            x = hit[0]
            R.ob("no-shared-store", "%s stores to %s" % (st.loc, short(x.q)), False, "%s|%s" % (f.q, x.q.split("::")[-1]),
                 "%s changes %s of an object which all threads share (reached by %s)" % (f.where, short(x.q), P.path_to(reach, k)[:200]))
        for n in f.all_nodes():
            if n.k == "VarDecl" and n.get("static") and not n.get("const") and not n.get("tls") and \
                    not re.search(r"\batomic\b|mutex", n.t) and not read_only(P, f, n):
                R.ob("no-static-store", "%s static %s" % (n.loc, n.get("n")), False, "%s|static %s" % (f.name, n.get("n")),
                     "%s has the variable %s with static storage, which all threads share (reached by %s)" % (
                         f.where, n.get("n"), P.path_to(reach, k)[:200]))
        for n in f.calls():
            b = n.q.split("::")[-1]
            if b in UNSAFE and n.q in (b, "std::" + b):
                R.ob("no-unsafe-call", "%s calls %s" % (n.loc, b), False, "%s|%s" % (f.name, b),
                     "%s calls %s, which is not safe with several threads" % (f.where, b))
        for n in f.all_nodes():
            if n.k == "CXXConstCastExpr":
                t = strip_t(n.t)
                cs = {c["q"] for c in H.lookup(P, t)}
                R.ob("no-const-loss", "%s const_cast to %s" % (n.loc, n.t), not (cs & shq), "%s|%s" % (f.name, n.t),
                     "%s casts away the const of a shared %s" % (f.where, n.t))
        R.ob("no-shared-store", short(f.q), True)
        R.ob("no-static-store", short(f.q), True)
        R.ob("no-unsafe-call", short(f.q), True)
    for q, c in sorted(sh.items()):
        for x in c["fields"]:
            if x.get("mutable"):
                R.ob("no-shared-store", "mutable " + q + "::" + x["n"], False, "mutable|" + q + "::" + x["n"],
                     "%s::%s is mutable although objects of this class are shared between threads" % (short(q), x["n"]))
    R.rules["no-shared-store"]["shared classes"] = sorted(short(q) for q in sh)
    R.need("no-shared-store", 300)

"""R01: exceptions end up in an error result of the operation, never in a terminated program."""
from dfl import *

EXEMPT_T = {"std::bad_alloc"}           # out of memory ends the program
# order of an n-gram feature: addChild() has refused every order these do not know before they run
EXEMPT_F = ("NgramFeatureCodegen::makePartialObject", "PartialNgramPrinter::PartialNgramPrinter")


def ctype(t):
    t = re.sub(r"\b(const|class|struct) ", "", t or "")
    return t.rstrip("&* ").strip()


def bases_of(P, t):
    out, work = set(), [t]
    while work:
        x = work.pop()
        if x in out:
            continue
        out.add(x)
        for c in P.class_by_q.get(x, []):
            work += list(c.get("bases") or ())
    if any(x.startswith("std::") for x in out):
        out.add("std::exception")
    if {"std::range_error", "std::overflow_error", "std::system_error", "std::regex_error"} & out:
        out.add("std::runtime_error")
    if {"std::out_of_range", "std::invalid_argument", "std::length_error"} & out:
        out.add("std::logic_error")
    return out


def catches(P, node, types):
    """an enclosing handler takes an exception of one of these types (None: everything)"""
    c, p = node, node.p
    while p is not None:
        if p.k == "CXXTryStmt" and p.c and c is p.c[0]:
            for h in p.c[1:]:
                t = ctype(h.t or h.get("ct") or "")
                if h.get("all") or t in ("", "...") or t in types:
                    if not rethrows(h):
                        return True
        c, p = p, p.p
    return False


def rethrows(h):
    return any(x.k == "CXXThrowExpr" and not x.c for x in h.walk())


def thread_entries(P):
    out = []
    for c in P.classes.values():
        for x in c["fields"]:
            if x["t"] == "std::thread" and c["q"].startswith("jumanpp::"):
                out += [f for f in P.fns.values() if f.cls == c["q"] and f.name in ("run", "runMain")]
                for f in P.fns.values():
                    if f.is_ctor and f.cls == c["q"]:
                        for x2, e in f.inits:
                            if e is not None:
                                out += [P.fns[y.get("key")] for y in e.walk() if y.k == "DeclRefExpr" and y.get("key") in P.fns]
    return out


THROWING = re.compile(r"^std::(sto[a-z]+|__cxx11::sto[a-z]+)$")


def run(P, R):
    R.rule("caught", "an exception thrown by the library is caught by a function which returns an error result for it")
    R.rule("by-value", "exceptions are thrown by value and caught by reference")
    R.rule("thread", "an exception does not leave a thread")
    mains = {f.key for f in P.fns.values() if f.name == "main"}
    tentry = {f.key for f in thread_entries(P)}
    memo = {}
    parses = [n for f in P.fns.values() if f.file.startswith("src/") for n in f.calls()
              if re.search(r"pegtl::parse(<.*)?$", n.q)]

    def escapes(f, types, seen):
        """root reached without a handler, as a list of functions"""
        k = (f.key, types)
        if k in memo:
            return memo[k]
        if f.key in seen:
            return None
        if f.key in mains or f.key in tentry:
            memo[k] = [f]
            return [f]
        seen = seen | {f.key}
        r = None
        cs = P.callers[f.key]
        if not cs and f.name == "apply":        # a grammar action: run by the parser
            cs = parses
        for n in cs:
            if testfile(n.fn.file) or not n.fn.file.startswith(("src/", "gen/")):
                continue
            if catches(P, n, types):
                continue
            g = n.fn
            r = escapes(g, types, seen)
            if r:
                r = [f] + r
                break
        memo[k] = r
        return r

    for f in list(P.fns.values()):
        if not f.file.startswith("src/") or testfile(f.file) or "util/format" in f.file:
            continue
        for n in f.all_nodes():
            if n.k == "CXXThrowExpr" and n.c:
                t = ctype(n.c[0].t)
                R.ob("by-value", n.loc, not n.c[0].t.rstrip().endswith("*"), "%s|pointer" % f.q,
                     "%s throws a pointer, which no handler takes" % f.where)
                if t in EXEMPT_T or f.q.endswith(EXEMPT_F) or catches(P, n, bases_of(P, t)):
                    R.ob("caught", n.loc, True)
                    continue
                p = escapes(f, frozenset(bases_of(P, t)), frozenset())
                R.ob("caught", n.loc, not p, "%s|%s" % (f.q, t),
                     "%s throws %s, which nothing catches before %s" % (f.where, t, p and " < ".join(x.q for x in reversed(p))))
            elif n.is_call() and THROWING.search(n.q):
                ok = catches(P, n, {"std::exception", "std::invalid_argument", "std::logic_error"})
                p = None if ok else escapes(f, frozenset(["std::exception", "std::invalid_argument", "std::logic_error"]), frozenset())
                R.ob("caught", n.loc, not p, "%s|%s" % (f.q, n.q), "%s calls %s, whose exception nothing catches before %s" % (
                    f.where, n.q, p and " < ".join(x.q for x in reversed(p))))
            elif n.k == "CXXCatchStmt":
                t = n.t or n.get("ct") or ""
                R.ob("by-value", n.loc, t in ("", "...") or t.rstrip().endswith("&"), "%s|catch" % f.q,
                     "%s catches %s by value or pointer" % (f.where, t))
    # threads
    for k in tentry:
        f = P.fns[k]
        for n in f.calls():
            if n.q.startswith("jumanpp") and (n.get("virt") or any(g.name in ("prepare", "compute") for g in P.targets(n))):
                if n.q.split("::")[-1] in ("exampleInfo",):
                    continue
                R.ob("thread", n.loc, catches(P, n, {"std::exception"}), "%s|%s" % (f.q, n.q.split("::")[-1]),
                     "%s runs %s without catching its exceptions: the program would be terminated" % (f.where, short(n.q)))
    R.need("caught", 10)


def testfile(p):
    return "_test" in p or "/test" in p or "/tests/" in p or "benchmark" in p

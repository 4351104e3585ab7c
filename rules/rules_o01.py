"""O01: one complete result for every input, in order, and nothing else on the output."""
from consts import *
from vflow import leaf_field, fq
import rules_b01

STREAM_T = re.compile(r"basic_ostream<|std::ostream|ofstream")
PRINTER = re.compile(r"FastPrinter")


def scope(f):
    return f.file.startswith("src/") and not testfile(f.file) and "/benchmarks/" not in f.file and "rnn/legacy" not in f.file and \
        "src/core/devtools" not in f.file


def leaf_calls(P, n, names, depth=3, seen=None):
    """expression n gets its value from a call of one of the functions"""
    seen = set() if seen is None else seen
    for s in n.walk():
        if s.is_call() and s.q.split("::")[-1] in names:
            return True
    for s in sources(n):
        if (s.fn.key, s.i) in seen:
            continue
        seen.add((s.fn.key, s.i))
        if s.is_call() and s.q.split("::")[-1] in names:
            return True
        if s.k == "DeclRefExpr" and s.get("dk") in ("parm", "param") and depth:
            for i, p in enumerate(s.fn.params):
                if p["vid"] == s.get("vid"):
                    for c in P.callers[s.fn.key]:
                        if i < len(c.args) and leaf_calls(P, c.args[i], names, depth - 1, seen):
                            return True
    return False


def result_write(P, n):
    """`stream << result` of a result of the formatter or of the substitute for it"""
    if not (n.is_call() and n.op == "<<" and len(n.args) == 2):
        return False
    if not STREAM_T.search(n.args[0].t or ""):
        return False
    if any(x.k == "DeclRefExpr" and re.match(r"std::(cerr|clog)$", x.q or "") for x in n.args[0].walk()):
        return False
    if any(x.k == "DeclRefExpr" and x.get("dk") == "local" and "ofstream" in (x.t or "") and "*" not in x.t for x in n.args[0].walk()):
        return False            # a file of its own
    v = n.args[1]
    if not re.search(r"StringPiece|string", v.t or ""):
        return False
    return leaf_calls(P, v, {"result", "emptyResult"})


class Counter:
    """how many results can one call of a function write: subset of {0, 1, 2}"""

    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.writers = None

    def has(self):
        if self.writers is None:
            w = {f.key for f in src_fns(self.P) if scope(f) and any(result_write(self.P, n) for n in f.calls())}
            while True:
                more = {c.fn.key for k in w for c in self.P.callers[k] if scope(c.fn)} - w
                if not more:
                    break
                w |= more
            self.writers = w
        return self.writers

    def node(self, n):
        if result_write(self.P, n):
            return {1}
        if n.is_call():
            ts = [t for t in self.P.targets(n) if t.key in self.has()]
            if ts:
                out = set()
                for t in ts:
                    out |= self.fn(t)
                return out
        return None

    def fn(self, f):
        if f.key in self.memo:
            return self.memo[f.key]
        self.memo[f.key] = {0}
        self.memo[f.key] = self.flow(f, f.cfg.entry, None)[0] if f.cfg is not None else {0}
        return self.memo[f.key]

    def flow(self, f, start, stop, within=None):
        """(counts at the exit, counts on reaching `stop`) of the paths from block start"""
        cfg = f.cfg
        inn = {start: {0}}
        st = [start]
        at_exit, at_stop = set(), set()
        first = True
        while st:
            x = st.pop()
            cur = set(inn[x])
            if x == stop and not first:
                continue
            first = False
            for e in cfg.b[x].e:
                if isinstance(e, int):
                    c = self.node(f.nodes[e])
                    if c:
                        cur = {min(2, a + b) for a in cur for b in c}
            if x == cfg.exit:
                at_exit |= cur
                continue
            for s in cfg.b[x].s:
                if s < 0:
                    continue
                if s == stop:
                    at_stop |= cur
                    continue
                if s not in inn or not cur <= inn[s]:
                    inn[s] = inn.get(s, set()) | cur
                    st.append(s)
        return at_exit, at_stop


def loops(f):
    return [n for n in f.all_nodes() if n.k in ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt")]


def header(f, loop):
    """the block which decides whether another iteration starts, and the block the iteration starts with"""
    cfg = f.cfg
    body = loop.role("body") or loop.c[-1]
    inside = {x.i for x in body.walk()}
    bl = {b.id for b in cfg.b.values() if any(isinstance(e, int) and e in inside for e in b.e)}
    if not bl:
        return None
    entry = [b for b in bl if any(p not in bl for p in cfg.b[b].p)]
    return bl, entry


def reaches(P, names):
    """keys of functions from which one of the named functions is called"""
    w = {f.key for f in P.fns.values() if f.q in names or any(f.q.endswith(x) for x in names)}
    for f in src_fns(P):
        if any(n.q in names or any(n.q.endswith(x) for x in names) for n in f.calls()):
            w.add(f.key)
    while True:
        more = {c.fn.key for k in w for c in P.callers[k] if scope(c.fn)} - w
        if not more:
            return w
        w |= more


def touching(P, f, nodes, keys, names):
    out = []
    for n in nodes:
        if n.is_call() and (any(n.q.endswith(x) for x in names) or any(t.key in keys for t in P.targets(n))):
            out.append(n)
    return out


READ, ANALYZE, FORMAT = ("Reader::readExample",), ("Reader::analyzeWith", "Analyzer::analyze"), ("OutputFormat::format",)


def run(P, R):
    R.rule("one-result", "each turn of the input loop writes exactly one result, whatever fails")
    R.rule("order", "an input is read, analysed and formatted in this order, each step only after the one before succeeded")
    R.rule("stdout", "nothing but results is written to the standard output while inputs are processed")
    R.rule("terminator", "every successful result ends with the terminator of its format, which it contains once")
    R.rule("substitute", "what is written instead of a result which could not be computed ends like a result")
    R.rule("comment", "the comment of an input is not lost in formats which print it")
    C = Counter(P)
    rd, an, fm = (reaches(P, x) for x in (READ, ANALYZE, FORMAT))
    found = []
    for f in src_fns(P):
        if not scope(f) or f.cfg is None:
            continue
        if f.key not in rd or f.key not in fm or "path_diff" in f.file:
            continue
        for lp in loops(f):
            ns = list(lp.walk())
            A, B, D = (touching(P, f, ns, k, nm) for k, nm in ((rd, READ), (an, ANALYZE), (fm, FORMAT)))
            if not A or not D:
                continue
            if any(lp.inside(o) for o in loops(f) if o is not lp and any(x in A for x in o.walk())):
                continue
            found.append((f, lp, A, B, D))
    for f, lp, A, B, D in found:
        R.ob("order", lp.loc, bool(B), "%s|unanalysed" % f.q, "%s formats inputs without analysing them" % f.where)
        h = header(f, lp)
        if h is None:
            continue
        bl, entry = h
        for e in entry:
            # counts at the moment the next turn starts or the loop is left
            cur = iteration(C, f, bl, e, lp, {x.i for x in A})
            for kind, cnt in sorted(cur.items()):
                if kind == "early":
                    R.bad("one-result", "%s|early" % f.q, lp.loc, "%s stops processing inputs after it has read one although there may be more" % f.where)
                    continue
                if kind == "left" and cnt == {0}:
                    continue            # not read anything in this turn
                what = "starts the next turn" if kind == "again" else "leaves the loop"
                R.ob("one-result", lp.loc, cnt == {1}, "%s|%s" % (f.q, kind),
                     "%s %s after writing %s results for an input" % (f.where, what, "/".join("%d" % c for c in sorted(cnt))))
        inloop = {n.i for n in lp.walk()}
        for g, xs in steps(P, f, [n for n in f.calls() if n.i in inloop], rd, an, fm):
            a, b, d = xs
            for later, earlier, nm in ((d, b, "formats an input"), (b, a, "analyses an input")):
                for y in later:
                    for x in earlier:
                        if x is y:
                            continue
                        ok = after_ok(P, g, x, y)
                        R.ob("order", y.loc, ok, "%s|%s" % (g.q, nm), "%s %s although the step before it failed or was not run" % (g.where, nm))
            for n in g.calls():
                if result_write(P, n) and leaf_calls(P, n.args[1], {"result"}) and not leaf_calls(P, n.args[1], {"emptyResult"}):
                    for x in d:
                        R.ob("order", n.loc, after_ok(P, g, x, n), "%s|result" % g.q, "%s writes a result although formatting failed" % g.where)
        # stdout
        roots = [P.fns[t.key] for n in f.calls() if n.i in inloop for t in P.targets(n)]
        reach = P.reachable(roots)
        cnt = 0
        for k in reach:
            g = P.fns[k]
            cnt += 1
            for n in g.all_nodes():
                if to_stdout(n) and "_test" not in g.file:
                    R.bad("stdout", "%s" % g.q, n.loc, "%s writes to the standard output while inputs are processed: %s" % (g.where, P.path_to(reach, k)))
        for n in lp.walk():
            if to_stdout(n):
                R.bad("stdout", "%s|loop" % f.q, n.loc, "%s writes to the standard output while inputs are processed" % f.where)
        R.ob("stdout", f.loc if hasattr(f, "loc") else f.where, not any(v["rule"] == "stdout" for v in R.viol), "loop|%d" % cnt)
        # before the loop: only when the program then ends
        pre = P.reachable([f])
        other = {g.file for g in P.fns.values() if g.name == "main" and g.file != f.file}
        for k in pre:
            g = P.fns[k]
            if k in reach or not scope(g) or g.file in other:
                continue
            for n in g.all_nodes():
                if not to_stdout(n) or (g is f and n.i in inloop):
                    continue
                if n.p is not None and n.p.k == "UnaryOperator" and n.p.op == "&":
                    continue            # chosen as the output
                R.ob("stdout", n.loc, ends_after(P, f, A, g, n), "%s|before" % g.q,
                     "%s writes to the standard output before the results" % g.where)
    if not found:
        raise_broken("no loop which reads and formats inputs")
    streams(P, R)
    formats(P, R)


def streams(P, R):
    """a file which was opened as input or output is the one which is read or written"""
    from pathcut import after, strip
    R.rule("stream", "the file which was opened is the stream which is read or written, unless opening it failed")
    for f in src_fns(P):
        if not f.file.startswith("src/jumandic/main") or f.cfg is None:
            continue
        opened = []
        for n in f.calls():
            if n.k == "CXXMemberCallExpr" and n.q.endswith("::reset") and n.obj is not None and is_field(strip(n.obj)) and \
                    re.search(r"unique_ptr<std::basic_[io]?fstream", strip(n.obj).t or "") and n.args:
                opened.append((n, strip(n.obj).q))
        for t, v, st in assigns(f):
            x = strip(t)
            if is_field(x) and re.search(r"unique_ptr<std::basic_[io]?fstream", x.t or "") and v is not None:
                opened.append((st, x.q))
        for n, q in opened:
            def used(m):
                if not (m.is_call() and m.obj is not None or m.k == "CXXOperatorCallExpr" and m.op == "*" and m.args):
                    return False
                o = strip(m.obj) if m.obj is not None else strip(m.args[0])
                if o is None or not is_field(o) or o.q != q:
                    return False
                return m.op == "*" or m.q.endswith("::get") or m.q.endswith("::release")

            def failed(a, p):
                a = strip(a)
                m = [x for x in a.walk() if is_field(x) and x.q == q]
                if not m:
                    return False
                nm = a.q.split("::")[-1] if a.is_call() else ""
                return p if nm in ("fail", "bad", "operator!") else not p if nm in ("good", "is_open", "operator bool") else False
            ids = after(f, n, failed, used)
            R.ob("stream", n.loc, "exit" not in ids, "%s|%s" % (f.q, q.split("::")[-1]),
                 "%s opens %s, but goes on without using it as its stream" % (f.where, q.split("::")[-1]))


def raise_broken(msg):
    from facts import Broken
    raise Broken(msg)


def iteration(C, f, bl, entry, lp, reads):
    """counts of results at the end of an iteration: again (back to the head) / left"""
    cfg = f.cfg
    body = lp.role("body") or lp.c[-1]
    # blocks executed between the body's entry and the head
    st = [entry]
    out = {}
    headblocks = set()
    cond = lp.role("cond")
    cn = {x.i for x in cond.walk()} if cond is not None else set()
    inc = lp.role("inc")
    for b in cfg.b.values():
        if any(isinstance(e, int) and e in cn for e in b.e) or b.cond in cn:
            headblocks.add(b.id)
    inside = {x.i for x in lp.walk()}
    inn = {entry: {(0, 0)}}
    while st:
        x = st.pop()
        cur = set(inn[x])
        for e in cfg.b[x].e:
            if isinstance(e, int):
                c = C.node(f.nodes[e])
                if c:
                    cur = {(min(2, a + b), r) for a, r in cur for b in c}
                if e in reads:
                    cur = {(a, 1) for a, r in cur}
        for s in cfg.b[x].s:
            if s < 0:
                continue
            els = [e for e in cfg.b[s].e if isinstance(e, int)]
            if s in headblocks or s == entry:
                out.setdefault("again", set()).update(a for a, r in cur)
            elif not els and s not in bl and s != cfg.exit:
                # an empty latch block
                if s not in inn or not cur <= inn[s]:
                    inn[s] = inn.get(s, set()) | cur
                    st.append(s)
            elif s == cfg.exit or not any(e in inside for e in els):
                if noreturn(f, x):
                    continue
                out.setdefault("left", set()).update(a for a, r in cur)
                if any(r for a, r in cur):
                    out.setdefault("early", set()).add(1)
            elif s not in inn or not cur <= inn[s]:
                inn[s] = inn.get(s, set()) | cur
                st.append(s)
    return out


def noreturn(f, b):
    return any(isinstance(e, int) and f.nodes[e].is_call() and f.nodes[e].q.split("::")[-1] in ("exit", "abort", "_exit", "terminate")
               for e in f.cfg.b[b].e)


def steps(P, f, nodes, rd, an, fm, depth=3):
    """functions which run at least two of the steps themselves, with the calls which do"""
    a, b, d = (touching(P, f, nodes, k, nm) for k, nm in ((rd, READ), (an, ANALYZE), (fm, FORMAT)))
    multi = [n for n in nodes if sum(n in x for x in (a, b, d)) > 1]
    a, b, d = ([n for n in x if n not in multi] for x in (a, b, d))
    out = []
    if sum(bool(x) for x in (a, b, d)) + bool(multi) > 1 or a or b or d:
        out.append((f, (a + multi, b + multi, d + multi)))
    if depth:
        for n in multi:
            for t in P.targets(n):
                if t.body is not None and t.cfg is not None and scope(t):
                    out += steps(P, t, list(t.calls()), rd, an, fm, depth - 1)
    return out


def good(a, pol, v):
    if a.is_call() and a.obj is not None and re.search(r"::(operator bool|isOk)$", a.q) and re.search(r"Status", a.obj.t or ""):
        return pol
    if a.is_call() and re.search(r"\bbool\b", a.t or "") and not a.op:
        return pol
    return False


def after_ok(P, g, x, y):
    """y runs only after x, on the side where x succeeded"""
    cfg = g.cfg
    if cfg.where(x) is None or cfg.where(y) is None:
        return False
    if cfg.path_exists_from_entry(y, {x.i}) if hasattr(cfg, "path_exists_from_entry") else entry_path(cfg, y, x):
        return False
    if same_block_before(cfg, x, y):
        return False
    return rules_b01.after_guarded(P, g, x, y, good)


def same_block_before(cfg, x, y):
    a, b = cfg.where(x), cfg.where(y)
    return a[0] == b[0] and a[1] < b[1] and not y.inside(x) and not x.inside(y)


def entry_path(cfg, y, avoid):
    """y can be reached from the entry without passing avoid"""
    wy, wa = cfg.where(y), cfg.where(avoid)
    if wy[0] == wa[0]:
        if wa[1] <= wy[1]:
            return False
    seen, st = {cfg.entry}, [cfg.entry]
    while st:
        x = st.pop()
        if x == wy[0]:
            return True
        if x == wa[0]:
            continue
        for s in cfg.b[x].s:
            if s >= 0 and s not in seen:
                seen.add(s)
                st.append(s)
    return False


def to_stdout(n):
    if n.k == "DeclRefExpr" and n.q in ("std::cout", "std::wcout", "stdout"):
        return True
    return n.is_call() and n.q in ("printf", "puts", "putchar", "vprintf", "std::printf", "std::puts", "std::putchar", "fmt::print")


def ends_after(P, f, reads, g, n, depth=5, seen=None):
    """after n in g the program ends, or at least no input is read"""
    seen = set() if seen is None else seen
    if g.cfg is None or depth == 0:
        return False
    if g is f:
        return not any(g.cfg.path_exists(n, {r.i}) for r in reads)
    # nothing returns to the caller
    ex = {m.i for m in g.calls() if m.q.split("::")[-1] in ("exit", "_exit", "abort", "terminate", "quick_exit")}
    if ex and not g.cfg.path_exists(n, set(), avoid=ex, to_exit=True):
        return True
    if g.key in seen:
        return True
    seen.add(g.key)
    cs = [c for c in P.callers[g.key]]
    return bool(cs) and all(ends_after(P, f, reads, c.fn, c, depth - 1, seen) for c in cs if c.fn.key in P.reachable([f]) or c.fn is f)


# ------------------------------------------------------------------ formats
def literal(n):
    n = strip0(n)
    if n is None:
        return None
    for x in n.walk():
        if x.k == "StringLiteral":
            return x.get("s") if x.get("s") is not None else x.v
        if x.k == "CharacterLiteral":
            return chr(x.v)
    return None


class Last:
    """what was printed last (literal or '?') and how often the terminator was printed, at each return"""

    def __init__(self, P, term):
        self.P, self.term = P, term
        self.memo = {}

    def printer_call(self, n):
        return n.is_call() and n.op == "<<" and n.args and PRINTER.search(n.args[0].t or "")

    def effect(self, n, depth):
        """list of (last or None, count) a node may cause; None: nothing printed"""
        if self.printer_call(n) and len(n.args) == 2:
            l = None
            for a in [n.args[1]] + list(sources(n.args[1])):
                if strip0(a).k in ("StringLiteral", "CharacterLiteral") or \
                        any(x.k in ("StringLiteral", "CharacterLiteral") for x in a.walk()) and not any(
                            x.is_call() and not x.k.startswith("CXXConstruct") and x.k != "CXXTemporaryObjectExpr" for x in a.walk()):
                    l = literal(a)
                    break
            if l is None and re.search(r"\bchar\b", n.args[1].t or "") and strip0(n.args[1]).v is not None:
                l = chr(int(strip0(n.args[1]).v))
            if l is None:
                return [("?", 0)]
            return [(l, int(l == self.term))]
        if n.is_call():
            takes = any(PRINTER.search(a.t or "") for a in n.args)
            ts = [t for t in self.P.targets(n) if t.body is not None and scope(t) and t.cfg is not None]
            own = n.k == "CXXMemberCallExpr" and (n.obj is None or strip0(n.obj).k == "CXXThisExpr")
            if n.q.endswith("FastPrinter::reset"):
                return [("", 0)]
            if (takes or own) and ts and depth:
                out = []
                for t in ts:
                    out += self.fn(t, depth - 1)
                return sorted(set(out), key=str)
            if takes:
                return [("?", 0)]
            if n.obj is not None and PRINTER.search(n.obj.t or "") and n.q.split("::")[-1] in ("print", "write", "append", "operator<<"):
                return [("?", 0)]
        return None

    def fn(self, f, depth=3, rets=None):
        k = (f.key, rets is not None)
        if k in self.memo and rets is None:
            return self.memo[k]
        self.memo[k] = [(None, 0)]
        cfg = f.cfg
        inn = {cfg.entry: {(None, 0)}}
        st = [cfg.entry]
        out = set()
        at = {}
        while st:
            x = st.pop()
            cur = set(inn[x])
            for e in cfg.b[x].e:
                if isinstance(e, int):
                    n = f.nodes[e]
                    if n.k == "ReturnStmt":
                        at.setdefault(n.i, set()).update(cur)
                        continue
                    ef = self.effect(n, depth)
                    if ef:
                        cur = {(l2 if l2 is not None else l, min(2, c + c2)) for l, c in cur for l2, c2 in ef}
            if x == cfg.exit:
                out |= cur
                continue
            for s in cfg.b[x].s:
                if s >= 0 and (s not in inn or not cur <= inn[s]):
                    inn[s] = inn.get(s, set()) | cur
                    st.append(s)
        if rets is not None:
            rets.update(at)
        self.memo[k] = sorted(out, key=str)
        return self.memo[k]


def formats(P, R):
    from guards import ret_ok
    term = {}
    for f in src_fns(P):
        if not (scope(f) and f.name == "format" and "Status" in (f.get("ret") or "Status") if hasattr(f, "get") else f.name == "format"):
            continue
        if not scope(f) or f.cfg is None or len(f.params) != 2 or "Analyzer" not in f.params[0]["t"]:
            continue
        lits = set()
        for n in f.calls():
            pass
        L0 = Last(P, "EOS\n")
        rets = {}
        L0.fn(f, 3, rets)
        succ = {i: v for i, v in rets.items() if may_succeed(f, f.nodes[i])}
        lasts = {l for v in succ.values() for l, c in v}
        cand = sorted({l for l in lasts if isinstance(l, str) and l.endswith("\n")}, key=lambda x: (x != "EOS\n", x))
        eos = any(literal(a) == "EOS\n" for n in L0_calls(P, f) for a in n.args[1:])
        if eos:
            cand = ["EOS\n"]
        if cand:
            t = cand[0]
            once = any(t == x[0] for n in f.calls() for x in L0.effect(n, 3) or () if enclosing(n, {"WhileStmt", "ForStmt", "CXXForRangeStmt", "DoStmt"}) is None)
            if not once:
                # one line for each item: an empty result is possible
                for i, v in succ.items():
                    R.ob("terminator", f.nodes[i].loc, all(l in (t, "", None) for l, c in v), "%s|last" % f.q,
                         "%s can end a line without %r" % (f.where, t))
                continue
            term[f.cls] = t
            for i, v in succ.items():
                ok = all(l == t for l, c in v)
                R.ob("terminator", f.nodes[i].loc, ok, "%s|last" % f.q, "%s can end a result without %r" % (f.where, t))
                if t == "EOS\n":
                    ok = all(c == 1 for l, c in v)
                    R.ob("terminator", f.nodes[i].loc, ok, "%s|count" % f.q, "%s can write %r more than once or not at all" % (f.where, t))
        elif any(l not in (None, "") for l in lasts):
            for i, v in succ.items():
                R.ob("terminator", f.nodes[i].loc, False, "%s|newline" % f.q, "%s can end a result without a line break" % f.where)
        cm = f.params[1]["vid"]
        refs = {n.i for n in f.all_nodes() if n.k == "DeclRefExpr" and n.get("vid") == cm}
        if refs:
            for n in f.all_nodes():
                if n.k == "ReturnStmt" and ret_ok(n) is True:
                    w = f.cfg.where(n)
                    ok = not uses_avoided(f, refs, n)
                    R.ob("comment", n.loc, ok, "%s" % f.q, "%s can succeed without looking at the comment" % f.where)
    R.need("terminator", 5)
    R.need("comment", 4)
    # substitutes
    made = {}
    wanted = {e[2] for f in src_fns(P) if f.name == "emptyResult" and scope(f) for e in enum_values(P, f)}
    for f in src_fns(P):
        if not scope(f) or f.cfg is None:
            continue
        news = [n for n in f.all_nodes() if n.k == "CXXNewExpr" and any(re.sub(r"\s*\*$", "", n.t or "") == c for c in term)]
        if not news:
            continue
        for e in enum_values(P, f):
            if e[2] not in wanted:
                continue
            C = Consts(P, f, lambda n, e=e: {e[1]} if e[2] in (n.t or "") and n.v is None else None)
            for n in news:
                if C.at(n) is not None:
                    made.setdefault(e[0], (e, re.sub(r"\s*\*$", "", n.t)))
    for f in src_fns(P):
        if f.name != "emptyResult" or f.cfg is None or not scope(f):
            continue
        for name, (e, cls) in sorted(made.items()):
            C = Consts(P, f, lambda n: {e[1]} if e[2] in (n.t or "") and n.v is None else None)
            for r in f.all_nodes():
                if r.k == "ReturnStmt" and C.at(r) is not None and r.c:
                    l = literal(r.c[0])
                    if l is None and any(x.k in ("ConditionalOperator",) for x in r.c[0].walk()):
                        continue
                    R.ob("substitute", r.loc, l is not None and l.endswith(term[cls]), "%s|%s" % (f.q, name),
                         "%s: an input which can not be analysed gets %r with the output type %s, results end with %r" % (
                             f.where, l or "", name, term[cls]))
    R.need("substitute", 4)


def may_succeed(f, r):
    from guards import ret_ok
    ok = ret_ok(r)
    if ok is not None:
        return ok
    vids = {x.get("vid") for x in r.walk() if x.k == "DeclRefExpr" and x.get("dk") == "local"}
    for c, p in edges_to(f, r):
        for a, p2 in branch_facts(c, p):
            if not p2 and a.is_call() and a.obj is not None and re.search(r"::(operator bool|isOk)$", a.q) and \
                    any(x.get("vid") in vids for x in a.obj.walk() if x.k == "DeclRefExpr"):
                return False
    return True


def L0_calls(P, f, depth=2):
    out = [n for n in f.calls() if n.op == "<<" and n.args and PRINTER.search(n.args[0].t or "")]
    return out


def uses_avoided(f, refs, ret):
    """the return can be reached without evaluating any of the references"""
    cfg = f.cfg
    blocks = {}
    for i in refs:
        w = cfg.where(f.nodes[i])
        if w is not None:
            blocks.setdefault(w[0], []).append(w[1])
    wr = cfg.where(ret)
    seen, st = {cfg.entry}, [cfg.entry]
    while st:
        x = st.pop()
        if x == wr[0]:
            return not any(i <= wr[1] for i in blocks.get(x, ()))
        if x in blocks:
            continue
        for s in cfg.b[x].s:
            if s >= 0 and s not in seen:
                seen.add(s)
                st.append(s)
    return False


def enum_values(P, f):
    """(name, value, type) of the enumerators the function dispatches on"""
    out = {}
    for n in f.all_nodes():
        if n.k == "DeclRefExpr" and n.get("dk") == "enum" and n.v is not None:
            p = n.q.split("::")
            out[n.q] = (p[-1], int(n.v), p[-2])
    return sorted(out.values())

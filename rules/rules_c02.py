"""C02: the queues between the training threads: lock discipline, waiting, waking up, shutting down."""
from effects import *
from enums import enum_of

LOCKS = re.compile(r"^(const )?std::(unique_lock|lock_guard|scoped_lock)<")


def has_field(c, pat):
    return [x["n"] for x in c["fields"] if re.search(pat, x["t"])]


def lock_vars(f):
    return [n for n in f.all_nodes() if n.k == "VarDecl" and LOCKS.search(n.t)]


def locked_at(f, node):
    """a lock object is alive and not released at this node"""
    cfg = f.cfg
    if cfg is None:
        return False
    for lv in lock_vars(f):
        w = cfg.where(lv)
        x = cfg.where(node)
        if w is None or x is None:
            continue
        if not (cfg.dominates_block(w[0], x[0]) and (w[0] != x[0] or w[1] < x[1])):
            continue
        if lv.c and any("defer_lock" in (y.q or y.t) for y in lv.c[0].walk()):
            continue
        scope = lv.p.p if lv.p is not None else None        # DeclStmt -> CompoundStmt
        if scope is not None and scope.k == "CompoundStmt" and not node.inside(scope):
            continue
        unl = [n for n in f.calls() if n.k == "CXXMemberCallExpr" and n.q.split("::")[-1] == "unlock" and
               n.obj is not None and peel(n.obj).get("vid") == lv.get("vid")]
        rel = {n.i for n in f.calls() if n.k == "CXXMemberCallExpr" and n.q.split("::")[-1] == "lock" and
               n.obj is not None and peel(n.obj).get("vid") == lv.get("vid")}
        if any(cfg.path_exists(u, {node.i}, avoid=rel) for u in unl):
            continue
        return True
    return False


def cname(q):
    while True:
        r = re.sub(r"<[^<>]*>", "", q)
        if r == q:
            return r
        q = r


def methods(P, c):
    return [f for f in P.fns.values() if cname(f.cls) == cname(c["q"]) and (f.cls == c["q"] or f.cls == c["t"] or True)]


def field_accesses(f, names):
    for n in f.all_nodes():
        if n.k == "MemberExpr" and n.get("fld") and n.m in names and n.c and peel(n.c[0]) is not None and \
                peel(n.c[0]).k == "CXXThisExpr":
            yield n


def run(P, R):
    R.rule("guarded", "the state of an object that has a mutex is only used while the mutex is held")
    R.rule("wait-loop", "waiting on a condition variable re-tests the condition after every wake-up")
    R.rule("notify", "adding an item to a queue wakes up a thread that waits for one")
    R.rule("refuse-untouched", "a queue that refuses an item leaves it with the caller; a counter moves with each item")
    R.rule("thread-last", "a thread is started when everything it uses has been set up")
    R.rule("join", "every started thread is told to stop, woken up and joined before what it uses is destroyed")
    R.rule("answer", "every trainer taken from the queue is answered exactly once")
    R.rule("submit", "every trainer submitted to the threads is waited for, and what is refused is submitted again")
    seen = set()
    for c in P.classes.values():
        if not c["q"].startswith("jumanpp::") or not has_field(c, r"\bstd::(recursive_)?mutex"):
            continue
        names = {x["n"] for x in c["fields"] if not re.search(r"mutex|condition_variable|atomic|const ", x["t"])}
        ms = [f for f in P.fns.values() if f.cls and cname(f.cls) == cname(c["q"]) and f.cfg is not None]
        lockers = {f.key for f in ms if lock_vars(f)}

        def protected(f, depth=0):
            """every call of a method without a lock of its own happens under the lock"""
            cs = [n for n in P.callers[f.key]]
            if not cs:
                return None
            for n in cs:
                g = n.fn
                if cname(g.cls) != cname(c["q"]):
                    if not g.file.startswith("src/") or "_test" in g.file:
                        continue
                    # unlocked use from outside: only allowed when nothing calls that
                    if not P.callers[g.key] and not g.is_dtor and g.name not in ("main",):
                        continue
                    return False
                if locked_at(g, n):
                    continue
                if depth > 4 or protected(g, depth + 1) is False:
                    return False
            return True
        for f in ms:
            if f.is_ctor or f.is_dtor or f.d.get("defaulted"):
                continue
            acc = list(field_accesses(f, names))
            if not acc:
                continue
            if setup_only(P, f, acc):
                R.ob("guarded", "%s: used before the object is shared" % short(f.q), True)
                continue
            pr = None
            for n in acc:
                ok = locked_at(f, n)
                if not ok:
                    if pr is None:
                        pr = protected(f)
                    ok = pr is not False and f.key not in lockers
                sid = (f.file, n.l, n.m)
                if sid in seen and ok:
                    continue
                seen.add(sid)
                R.ob("guarded", "%s %s" % (n.loc, n.m), ok, "%s|%s" % (cname(f.q), n.m),
                     "%s uses %s without holding the lock of the queue" % (f.where, n.m))
        # waiting
        for f in ms:
            for n in f.calls():
                if n.q.split("::")[-1] in ("wait", "wait_for", "wait_until") and "condition_variable" in n.q:
                    pred = len(n.args) >= (2 if n.q.endswith("::wait") else 3)
                    lp = enclosing(n, {"WhileStmt", "DoStmt", "ForStmt"})
                    ok = pred or lp is not None and lp.role("cond") is not None and lp.role("cond").v is None
                    if not ok and lp is not None:
                        # a loop left only under a test of the condition
                        ok = any(x.k in ("BreakStmt", "ReturnStmt") and controlling(x) for x in lp.walk())
                    R.ob("wait-loop", n.loc, ok, cname(f.q), "%s waits without testing the condition again in a loop" % f.where)
        # producers
        conds = has_field(c, "condition_variable")
        if not conds:
            continue
        store = {x["n"] for x in c["fields"] if re.search(r"std::(vector|deque|queue|list)<", x["t"])}
        def lift(f, node, test, depth=0):
            """test holds at the node, or at every place which calls a helper that has no lock of its own"""
            if test(f, node):
                return True
            if depth > 3 or lock_vars(f):
                return False
            cs = [n for n in P.callers[f.key] if cname(n.fn.cls) == cname(c["q"]) and n.fn.cfg is not None]
            return bool(cs) and all(lift(n.fn, n, test, depth + 1) for n in cs)

        def notified(f, p):
            nots = {n.i for n in f.calls() if n.q.split("::")[-1] in ("notify_one", "notify_all")}
            for g in f.calls():
                for h in P.targets(g):
                    if h.file.startswith("src/") and h.key != f.key and h.cfg is not None:
                        hn = {x.i for x in h.calls() if x.q.split("::")[-1] in ("notify_one", "notify_all")}
                        if hn and not h.cfg.path_exists(None, set(), avoid=hn, to_exit=True):
                            nots.add(g.i)
            return not f.cfg.path_exists(p, set(), avoid=nots, to_exit=True) or before_under_lock(f, p, nots)

        def counted(f, p):
            cnt = {st.i for t, v, st in assigns(f) if is_counter(t)}
            return bool(cnt) and (not f.cfg.path_exists(p, set(), avoid=cnt, to_exit=True) or
                                  not f.cfg.path_exists(None, {p.i}, avoid=cnt))

        def tested(f, p):
            return bool(edges_to(f, p)) or any(x.k in ("WhileStmt", "DoStmt") for x in f.all_nodes()) or \
                any(n.q.endswith("::wait") and len(n.args) > 1 for n in f.calls())

        def refused(f, p):
            """no path from here to an exit which tells the caller that the item was refused"""
            mv = [x for x in f.all_nodes() if x.is_call() and x.q == "std::move" and
                  any(y.k == "DeclRefExpr" and y.get("dk") == "parm" for y in x.walk())]
            for r in f.all_nodes():
                if r.k == "ReturnStmt" and r.c and r.c[0].v == 0 and f.ret == "bool":
                    if f.cfg.path_exists(p, {r.i}) or any(f.cfg.path_exists(x, {r.i}) for x in mv):
                        return False
            return True
        for f in ms:
            if f.is_ctor or f.is_dtor:
                continue
            puts, takes = [], []
            for t, v, st in assigns(f):
                root, fs = root_path(t)
                if fs and fs[-1].m in store and root is not None and root.k == "CXXThisExpr" and \
                        (len(fs) > 1 or peel(t).k in ("CXXOperatorCallExpr", "CXXMemberCallExpr", "ArraySubscriptExpr")):
                    puts.append(st)
            for n in f.calls():
                if n.k == "CXXMemberCallExpr" and n.obj is not None and \
                        n.q.split("::")[-1] in ("push_back", "emplace_back", "push", "emplace"):
                    root, fs = root_path(n.obj)
                    if fs and fs[-1].m in store:
                        puts.append(n)
                if n.q == "std::move" and n.args:
                    root, fs = root_path(n.args[0])
                    if fs and fs[-1].m in store and root is not None and root.k == "CXXThisExpr":
                        takes.append(n)
            for p in puts:
                R.ob("notify", p.loc, lift(f, p, notified), cname(f.q),
                     "%s adds an item but does not wake up a waiting thread on every path" % f.where)
                R.ob("refuse-untouched", "%s counter" % p.loc, lift(f, p, counted), cname(f.q) + "|counter",
                     "%s stores an item without counting it" % f.where)
                R.ob("refuse-untouched", "%s refusing" % p.loc, refused(f, p), cname(f.q) + "|refused",
                     "%s can refuse an item after it has taken it" % f.where)
                R.ob("refuse-untouched", "%s room tested" % p.loc, lift(f, p, tested), cname(f.q) + "|room",
                     "%s stores an item without testing that there is room" % f.where)
            for n in takes:
                R.ob("refuse-untouched", "%s counter" % n.loc, lift(f, n, counted), cname(f.q) + "|taken",
                     "%s hands out an item without counting it, so that it is handed out twice" % f.where)
                R.ob("refuse-untouched", "%s tested" % n.loc, lift(f, n, tested), cname(f.q) + "|empty",
                     "%s hands out an item without testing that there is one" % f.where)
    threads(P, R)
    R.need("guarded", 8)
    R.need("wait-loop", 1)
    R.need("notify", 1)


def is_counter(t):
    n = peel(t)
    return is_field(n) and re.match(r"(const )?(unsigned|int|long|std::size_t|size_t|unsigned int|unsigned long)", n.t) is not None


def before_under_lock(f, p, nots):
    """notified earlier while holding the same lock: the woken thread can only run after the item is stored"""
    return any(f.cfg.dominates_block(f.cfg.where(f.nodes[i])[0], f.cfg.where(p)[0]) and locked_at(f, f.nodes[i]) and locked_at(f, p)
               for i in nots if f.cfg.where(f.nodes[i]) is not None)


def setup_only(P, f, acc):
    """called only from functions which create the object's users (no thread runs yet)"""
    if not any(re.search(r"resize|assign", n.q) for n in f.calls()):
        return False
    return not any(lock_vars(n.fn) for n in P.callers[f.key])


def threads(P, R):
    for c in P.classes.values():
        if not c["q"].startswith("jumanpp::"):
            continue
        fl = c["fields"]
        ti = [i for i, x in enumerate(fl) if re.search(r"^std::thread$", x["t"])]
        for i in ti:
            # fields declared after the thread are set up after it has started
            late = [x["n"] for x in fl[i + 1:]]
            started = False
            for f in P.fns.values():
                if f.is_ctor and f.cls == c["q"]:
                    for x, e in f.inits:
                        if x.get("m") == fl[i]["n"] and e is not None and e.k in CTORS and e.c:
                            started = True
            R.ob("thread-last", "%s::%s" % (short(c["q"]), fl[i]["n"]), not (started and late), short(c["q"]),
                 "%s starts its thread before %s is set up" % (short(c["q"]), ", ".join(late)))
            joins = [f for f in P.fns.values() if f.cls == c["q"] and any(
                n.q == "std::thread::join" and root_path(n.obj)[1] and root_path(n.obj)[1][-1].m == fl[i]["n"] for n in f.calls())]
            R.ob("join", "%s::%s is joined" % (short(c["q"]), fl[i]["n"]), bool(joins), short(c["q"]) + "|join",
                 "nothing joins the thread of %s" % short(c["q"]))
            for o in P.classes.values():
                if any(c["q"] in x["t"] for x in o["fields"]) and o is not c:
                    owner(P, R, o, c, joins)
            for f in P.fns.values():
                if f.cfg is not None and f.file.startswith("src/"):
                    starters(P, R, f, c)
    for f in P.fns.values():
        if f.file.startswith("src/core/training") and f.cfg is not None:
            workers(P, R, f)
            submits(P, R, f)


def starters(P, R, f, c):
    """creates the threads: the queues through which they are stopped must be usable before that"""
    news = [n for n in f.all_nodes() if n.k in CTORS and n.q.startswith(c["q"] + "::") and not n.get("copy") and not n.get("move") and n.c]
    if not news or f.is_ctor and f.cls == c["q"]:
        return
    inits = {n.i for n in f.calls() if n.q.split("::")[-1] == "initialize" and "queue" in n.q}
    for n in news:
        if inits:
            bad = f.cfg.path_exists(None, {n.i}, avoid=inits)
            R.ob("thread-last", "%s queues are ready" % n.loc, not bad, short(f.q) + "|queues",
                 "%s starts threads before the queues can take their stop signals" % f.where)
    for i in inits:
        a = f.nodes[i].args
        vs = [x for y in a for x in y.walk() if x.k == "DeclRefExpr" and x.get("dk") == "parm"]
        if vs:
            vid = vs[0].get("vid")
            ok = any(x.k == "BinaryOperator" and x.op in ("==", "<", "<=", ">", ">=", "!=") and
                     any(peel(y).get("vid") == vid for y in x.c) and any(peel(y).v in (0, 1) for y in x.c) or
                     x.is_call() and x.q == "std::max" and any(y.get("vid") == vid for y in x.walk())
                     for x in f.all_nodes())
            R.ob("submit", "%s room for an item" % f.nodes[i].loc, ok, short(f.q) + "|zero",
                 "%s accepts zero threads, so that the first trainer waits forever" % f.where)


def reaches_call(P, n, fns, depth=3):
    keys = {g.key for g in fns}
    for g in P.targets(n):
        if g.key in keys:
            return True
        if depth and g.file.startswith("src/"):
            if any(reaches_call(P, m, fns, depth - 1) for m in g.calls()):
                return True
    return False


def owner(P, R, o, c, joins):
    ds = [f for f in P.fns.values() if f.cls == o["q"] and f.is_dtor and not f.d.get("defaulted")]
    inner = [f for f in P.fns.values() if f.cls == c["q"] and f.is_dtor and f in joins]
    if inner:
        return
    R.ob("join", "destructor of %s" % short(o["q"]), bool(ds), short(o["q"]) + "|dtor", "%s has no destructor which stops its threads" % short(o["q"]))
    for f in ds:
        jn = [n for n in f.calls() if reaches_call(P, n, joins)]
        loops = [n for n in jn if enclosing(n, {"ForStmt", "CXXForRangeStmt", "WhileStmt"}) is not None or
                 n.q.endswith("for_each")]
        esc = f.cfg is None or f.cfg.path_exists(None, set(), avoid={x.i for n in jn for x in [n]}, to_exit=True) and not loops
        R.ob("join", "%s joins every thread" % short(f.q), bool(loops) and not esc, short(f.q) + "|all", "%s does not join every thread" % f.where)
        for n in loops:
            lp = enclosing(n, {"ForStmt", "CXXForRangeStmt", "WhileStmt"})
            brk = [x for x in lp.walk() if x.k in ("BreakStmt", "ReturnStmt")] if lp is not None else []
            R.ob("join", "%s loop is complete" % n.loc, not brk and not controlling_in(n, lp), short(f.q) + "|complete",
                 "%s leaves threads which are not joined" % f.where)
        stops = [n for n in f.calls() if any(x.k == "CXXNullPtrLiteralExpr" for a in n.args for x in a.walk()) and
                 re.search(r"offer|submit|push|send", n.q.split("::")[-1])]
        stops += [n for n in f.calls() if any(any(y.k == "CXXNullPtrLiteralExpr" for y in m.walk()) and
                                              re.search(r"offer|push", m.q.split("::")[-1])
                                              for g in P.targets(n) if g.file.startswith("src/core/training") for m in g.calls())]
        R.ob("join", "%s sends the stop signal" % short(f.q), bool(stops), short(f.q) + "|stop", "%s sends no stop signal to its threads" % f.where)
        for j in jn:
            ok = any(f.cfg.path_exists(s, {j.i}) for s in stops)
            first = all(not f.cfg.path_exists(j, {s.i}) for s in stops)
            R.ob("join", "%s stop signal before joining" % j.loc, ok and first, short(f.q) + "|order",
                 "%s joins its threads before it sends the stop signal" % f.where)


def controlling_in(n, lp):
    if lp is None:
        return False
    ids = {x.i for x in lp.walk()}
    for cnd, pol in controlling(n):
        if cnd is not None and cnd.i in ids and not (lp.role("cond") is not None and cnd.i == lp.role("cond").i):
            return True
    return False


def workers(P, R, f):
    """takes a trainer from one queue, answers into another"""
    waits = [n for n in f.calls() if cname(n.q).endswith("bounded_queue::waitFor") or n.q.split("::")[-1] == "waitFor"]
    offers = [n for n in f.calls() if n.q.split("::")[-1] == "offer"]
    if not waits or not offers:
        return
    cfg = f.cfg
    oi = {n.i for n in offers}
    for w in waits:
        vd = enclosing(w, {"VarDecl"})
        vid = vd.get("vid") if vd is not None else None
        rets = [r for r in f.all_nodes() if r.k == "ReturnStmt"]
        for r in rets:
            stop = any(is_null_test(a, pol, vid) for cnd, p in edges_to(f, r) for a, pol in norm_cond(cnd, p))
            bad = cfg.path_exists(w, {r.i}, avoid=oi) and not stop
            R.ob("answer", r.loc, not bad, short(f.q) + "|return", "%s stops without answering the trainer it has taken" % f.where)
        # the next take must not come before the answer
        bad = cfg.path_exists(w, {w.i}, avoid=oi)
        R.ob("answer", w.loc, not bad, short(f.q) + "|next", "%s takes the next trainer without answering the one before" % f.where)
        tested = [n for n in f.all_nodes() if n.k in ("BinaryOperator", "UnaryOperator", "ImplicitCastExpr") and is_null_test(n, True, vid)]
        R.ob("answer", "%s stop signal" % w.loc, bool(tested), short(f.q) + "|stop", "%s does not recognise the stop signal" % f.where)
    for o in offers:
        # a refused answer is offered again
        lp = enclosing(o, {"WhileStmt", "DoStmt", "ForStmt"})
        retried = lp is not None and lp.role("cond") is not None and any(x.i == o.i for x in lp.role("cond").walk())
        used = False
        c, p = o, o.p
        while p is not None and (p.k.endswith("CastExpr") or p.k in ("ParenExpr", "UnaryOperator", "ExprWithCleanups")):
            c, p = p, p.p
        used = p is not None and p.k not in ("CompoundStmt",) and not (c.r == "body")
        R.ob("answer", "%s refused answers" % o.loc, retried or used, short(f.q) + "|retry", "%s drops its answer when the queue is full" % f.where)
        if retried:
            # loops while refused
            pol = polarity(lp.role("cond"), o)
            R.ob("answer", "%s repeats while refused" % o.loc, pol is not True, short(f.q) + "|while",
                 "%s answers again and again while the answer is accepted" % f.where)


def polarity(cond, o):
    """True when the loop continues while o is true"""
    pol = True
    n = cond
    while n is not None and n.i != o.i:
        if n.k == "UnaryOperator" and n.op == "!":
            pol = not pol
        n = next((x for x in n.c if any(y.i == o.i for y in x.walk())), None)
    return pol


def is_null_test(a, pol, vid):
    if a.k == "BinaryOperator" and a.op in ("==", "!=") and any(x.k in ("CXXNullPtrLiteralExpr",) for y in a.c for x in y.walk()):
        if any(x.k == "DeclRefExpr" and x.get("vid") == vid for y in a.c for x in y.walk()):
            return (a.op == "==") == pol
    p = peel(a)
    if p is not None and p.k == "DeclRefExpr" and p.get("vid") == vid and a.k != "BinaryOperator":
        return not pol
    return False


def submits(P, R, f):
    subs = [n for n in f.calls() if n.q.split("::")[-1] == "submitNext"]
    waits = [n for n in f.calls() if n.q.split("::")[-1] in ("waitOne",)]
    if not subs:
        return
    R.ob("submit", "%s waits" % short(f.q), bool(waits), short(f.q) + "|wait", "%s submits trainers and waits for none" % f.where)
    cfg = f.cfg
    for s in subs:
        # the counter of submitted trainers only moves when the trainer was accepted
        inc = [st for t, v, st in assigns(f) if st.i in cfg.pos or True]
        trainer = None
        for a in s.args:
            for x in sources(a):
                if x.is_call() and x.args:
                    trainer = peel(x.args[-1])
        if trainer is None or trainer.get("vid") is None:
            continue
        vid = trainer.get("vid")
        for t, v, st in assigns(f):
            if peel(t).get("vid") != vid:
                continue
            ok = any(any(y.i == s.i for y in cnd.walk()) and p is True for cnd, p in facts_at(f, st))
            R.ob("submit", "%s counted when accepted" % st.loc, ok, short(f.q) + "|count",
                 "%s counts a trainer as submitted although the queue refused it" % f.where)
    # as many waits as trainers: the loop around waitOne runs over the same total as the loop around submitNext
    for w in waits:
        lw = enclosing(w, {"ForStmt", "WhileStmt", "DoStmt"})
        R.ob("submit", "%s waits in a loop" % w.loc, lw is not None, short(f.q) + "|loop", "%s does not wait for every trainer" % f.where)
        for s in subs:
            ls = enclosing(s, {"ForStmt", "WhileStmt", "DoStmt"})
            if lw is None or ls is None or lw.role("cond") is None or ls.role("cond") is None or ls.i == lw.i:
                continue
            bw, bs = bound(lw), bound(ls)
            ok = bw is None or bs is None or bw == bs
            R.ob("submit", "%s as many answers as trainers" % w.loc, ok, short(f.q) + "|total",
                 "%s waits for a different number of trainers than it submits" % f.where)


def bound(lp):
    c = peel(lp.role("cond"))
    if c is None or c.k != "BinaryOperator" or c.op not in ("<", "<=", "!=", ">", ">="):
        return None
    r = alias(c.c[1] if c.op in ("<", "<=", "!=") else c.c[0])
    return (c.op in ("<=", ">="), struct(r))


def facts_at(f, node):
    out = []
    for c, p in edges_to(f, node):
        out += [(a, pol) for a, pol in norm_cond(c, p)]
    for c, p in controlling(node):
        out += [(a, pol) for a, pol in norm_cond(c, p)]
    return out

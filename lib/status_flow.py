"""Fate of error values: every Status produced is tested, and on the failing edge the
function's outcome is a failure (returned error, non-zero/false result, throw, exit, stored)."""
from model import *

ST = "jumanpp::Status"
SC = "jumanpp::status_impl::StatusConstructor"


def is_status_t(t):
    t = t.replace("const ", "").replace("&", "").replace(" ", "")
    return t == ST


def is_err_t(t):
    t = t.replace("const ", "").replace("&", "").replace(" ", "")
    return t in (ST, SC)


def unwrap(n):
    """peel copies/moves/casts"""
    while n is not None:
        if n.k in CTORS and len(n.c) == 1 and is_err_t(n.t):
            n = n.c[0]
        elif n.k == "ImplicitCastExpr" or n.k.endswith("CastExpr"):
            if not n.c:
                return n
            n = n.c[0]
        elif n.is_call() and n.q in ("std::move", "std::forward") and n.args:
            n = n.args[0]
        else:
            return n
    return n


def test_of(cond):
    """cond -> (kind, payload, edge_bad) where edge_bad is successor index (0 = true) on failure.
    kind: 'var' vid, 'field' name, 'call' node."""
    neg = False
    n = cond
    while n is not None:
        if n.k == "UnaryOperator" and n.op == "!":
            neg = not neg
            n = n.c[0]
            continue
        if n.is_call() and n.q == "__builtin_expect":
            n = n.args[0]
            continue
        if n.k == "ImplicitCastExpr" or n.k.endswith("CastExpr"):
            n = n.c[0]
            continue
        if n.k == "BinaryOperator" and n.op in ("==", "!=") and n.c[1].v in (0, 1) and n.c[1].k in (
                "CXXBoolLiteralExpr", "IntegerLiteral", "ImplicitCastExpr"):
            val = n.c[1].v
            same = (n.op == "==") == (val == 1)
            if not same:
                neg = not neg
            n = n.c[0]
            continue
        break
    if n is None:
        return None
    if n.k == "CXXMemberCallExpr" and n.q in (ST + "::isOk", ST + "::operator bool"):
        o = unwrap(n.obj)
        bad = 0 if neg else 1
        return target(o, bad)
    if n.k == "DeclRefExpr" and n.get("vid") is not None and n.t.replace("const ", "") == "bool":
        return ("bool", n.get("vid"), 0 if neg else 1)
    return None


def target(o, bad):
    if o is None:
        return None
    if o.k == "DeclRefExpr" and o.get("vid") is not None:
        return ("var", o.get("vid"), bad)
    if o.is_call():
        return ("call", o, bad)
    if o.k == "MemberExpr":
        b = o.c[0] if o.c else None
        if b is not None and b.k == "DeclRefExpr" and b.get("vid") is not None:
            return ("var", b.get("vid"), bad)
        return ("field", o.q, bad)
    return None


class Flow:
    """forward exploration from one error source in one function"""

    def __init__(self, fn, streamed_ok=False):
        self.fn = fn
        self.streamed_ok = streamed_ok
        self.cfg = fn.cfg
        self.retvars = set()
        for n in fn.body.walk():
            if n.k == "ReturnStmt" and n.c:
                e = n.c[0]
                while e.k == "ImplicitCastExpr":
                    e = e.c[0]
                if e.k == "DeclRefExpr" and e.get("vid") is not None:
                    self.retvars.add(e.get("vid"))
        # bool b = s.isOk() aliases
        self.boolalias = {}
        for n in fn.body.walk():
            if n.k == "VarDecl" and n.t.replace("const ", "") == "bool" and n.c:
                t = test_of(n.c[0])
                if t and t[0] in ("var", "call"):
                    self.boolalias[n.get("vid")] = t

    def consumed(self, n, vid):
        """does executing node n hand the error in vid to someone? (not logging, not testing)"""
        if n.k == "ReturnStmt":
            return any(x.k == "DeclRefExpr" and x.get("vid") == vid for x in n.walk())
        return False

    def passes(self, ref):
        """DeclRef of the status var used as argument / rhs somewhere: is it consumed?"""
        n = ref
        p = n.p
        while p is not None:
            if p.is_call():
                if p.q in ("std::move", "std::forward"):
                    n, p = p, p.p
                    continue
                if p.q.startswith(ST + "::") and p.k == "CXXMemberCallExpr":
                    return False
                if p.k == "CXXOperatorCallExpr" and p.op == "<<":
                    if self.streamed_ok:
                        return True
                    # streaming into an error being built and returned counts via ReturnStmt
                    return any(a.k == "ReturnStmt" or a.k == "CXXThrowExpr" for a in p.ancestors())
                if p.k == "CXXOperatorCallExpr" and p.op == "=":
                    return n is not p.args[0]
                if p.q.endswith("StatusOps::StatusOps"):
                    return False
                return True
            if p.k in CTORS:
                if is_status_t(p.t):
                    n, p = p, p.p
                    continue
                if p.t.endswith("StatusOps"):
                    return False
                return True
            if p.k == "UnaryOperator" and p.op == "&":
                n, p = p, p.p
                continue
            if p.k == "ReturnStmt":
                return True
            if p.k == "VarDecl":
                return True
            if p.k.endswith("CastExpr") or p.k == "MemberExpr":
                n, p = p, p.p
                continue
            if p.k in ("ConditionalOperator",):
                return True
            return False
        return False

    def success_return(self, n, env):
        r = self.fn.ret
        if not n.c:
            return True  # void return
        e = n.c[0]
        if is_status_t(r):
            u = unwrap(e)
            if u is not None and u.is_call() and u.q == ST + "::Ok":
                return True
            return False
        u = e
        while u.k == "ImplicitCastExpr":
            u = u.c[0]
        val = e.v
        if val is None and u.k == "DeclRefExpr" and u.get("vid") in env:
            val = env[u.get("vid")]
        if r == "bool":
            return val == 1
        if r in ("int", "unsigned int", "long"):
            return val == 0
        return False

    def recorded(self, n):
        """an exit code (int) is set to a failure value and nothing ever sets it back to success"""
        if not (n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ("=", "|=") and n.c[1].v not in (None, 0) and n.c[0].t == "int"):
            return False
        l = n.c[0]
        if l.k == "DeclRefExpr" and l.get("vid") is not None:
            vid, ret = l.get("vid"), False
            for x in self.fn.body.walk():
                if x.k == "BinaryOperator" and x.op == "=" and x.c[0].k == "DeclRefExpr" \
                        and x.c[0].get("vid") == vid and x.c[1].v in (None, 0):
                    return False
                if x.k == "ReturnStmt" and any(y.k == "DeclRefExpr" and y.get("vid") == vid for y in x.walk()):
                    ret = True
            return ret
        if l.k == "MemberExpr":
            ret = False
            for f in self.fn.prog.fns.values():
                for x in f.all_nodes():
                    if x.k == "BinaryOperator" and x.op == "=" and x.c[0].k == "MemberExpr" \
                            and x.c[0].q == l.q and x.c[1].v in (None, 0):
                        return False
                    if x.k == "ReturnStmt" and any(y.k == "MemberExpr" and y.q == l.q for y in x.walk()):
                        ret = True
            return ret
        return False

    def run(self, start_block, start_idx, vid, phase):
        """explore; returns list of (reason, node) failures. phase 'pend' or 'bad'"""
        cfg, fn = self.cfg, self.fn
        out = []
        seen = set()
        env0 = ()
        # constants of returned ints known at the start: collect dominating simple inits
        st = [(start_block, start_idx, phase, env0)]
        while st:
            b, i, ph, env = st.pop()
            key = (b, i, ph, env)
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 20000:
                break
            blk = cfg.b[b]
            envd = dict(env)
            stop = False
            for e in blk.e[i:]:
                if isinstance(e, dict):
                    if e.get("dtor") == vid and vid is not None and ph == "pend":
                        out.append(("error value goes out of scope untested", None))
                        stop = True
                        break
                    continue
                n = fn.nodes.get(e)
                if n is None:
                    continue
                if n.k == "ReturnStmt":
                    if vid is not None and self.consumed(n, vid):
                        stop = True
                        break
                    if ph == "bad":
                        if self.success_return(n, envd):
                            out.append(("failure is followed by a success return", n))
                        stop = True
                        break
                    # pending & return of something else
                    out.append(("returns without looking at the error", n))
                    stop = True
                    break
                if n.k == "CXXThrowExpr":
                    stop = True
                    break
                if n.is_call() and n.op == "=" and n.args and n.k == "CXXOperatorCallExpr":
                    a0 = n.args[0]
                    if a0.k == "DeclRefExpr" and a0.get("vid") == vid and vid is not None:
                        if any(x.k == "DeclRefExpr" and x.get("vid") == vid for x in n.args[1].walk()):
                            continue
                        if ph == "pend":
                            out.append(("error value overwritten before being tested", n))
                        else:
                            out.append(("failure overwritten by a later result", n))
                        stop = True
                        break
                if n.k == "DeclRefExpr" and vid is not None and n.get("vid") == vid:
                    if self.passes(n):
                        stop = True
                        break
                if n.is_call() and n.q in ("exit", "std::exit", "abort", "std::abort", "std::terminate", "_exit"):
                    stop = True
                    break
                if ph == "bad":
                    if self.recorded(n):
                        stop = True
                        break
                    if n.k in ("BinaryOperator",) and n.op == "=":
                        l = n.c[0]
                        val = n.c[1].v
                        if l.k == "DeclRefExpr" and l.get("vid") is not None:
                            if l.get("vid") in self.retvars:
                                envd[l.get("vid")] = val
                    if n.k == "VarDecl" and n.get("vid") in self.retvars and n.c:
                        envd[n.get("vid")] = n.c[0].v
            if stop:
                continue
            if blk.noret:
                continue
            if b == cfg.exit:
                if ph == "bad" and fn.ret == "void":
                    out.append(("failure is dropped at the end of a void function", None))
                elif ph == "pend":
                    out.append(("error value never tested", None))
                continue
            env2 = tuple(sorted((k, v) for k, v in envd.items()))
            bad_edge = None
            if blk.cond is not None and len(blk.s) == 2:
                t = test_of(fn.nodes[blk.cond])
                if t:
                    if t[0] == "bool" and t[1] in self.boolalias:
                        a = self.boolalias[t[1]]
                        t = (a[0], a[1], a[2] if t[2] == 1 else 1 - a[2])
                    if t[0] == "var" and t[1] == vid and vid is not None:
                        bad_edge = t[2]
            if bad_edge is not None:
                # good edge: done with this error; bad edge continues
                s = blk.s[bad_edge]
                if s >= 0:
                    st.append((s, 0, "bad", env2))
                continue
            for s in blk.s:
                if s >= 0:
                    st.append((s, 0, ph, env2))
        return out


DISCARD_PARENTS = {"CompoundStmt", "CaseStmt", "DefaultStmt", "LabelStmt"}


def discarded(n):
    p = n.p
    if p is None:
        return False
    if p.k in DISCARD_PARENTS and n.r not in ("lhs", "rhs"):
        return True
    if p.k in ("IfStmt", "ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt") and n.r in ("then", "else", "body", "inc"):
        return True
    if p.k.endswith("CastExpr") and p.t == "void":
        return True
    if p.k == "BinaryOperator" and p.op == "," and p.c[0] is n:
        return True
    if p.k in CTORS and is_status_t(p.t):
        return discarded(p)
    return False


_INF = {}


def infallible(P, n):
    """every resolved callee only ever returns Status::Ok()"""
    ts = P.targets(n)
    if not ts:
        return False
    for t in ts:
        k = (id(P), t.key)
        if k not in _INF:
            rets = [r for r in t.body.walk() if r.k == "ReturnStmt"]
            ok = bool(rets)
            for r in rets:
                u = unwrap(r.c[0]) if r.c else None
                if u is None or not (u.is_call() and u.q == ST + "::Ok"):
                    ok = False
            _INF[k] = ok
        if not _INF[k]:
            return False
    return True


def root_of_stream(n):
    r = n
    while r is not None:
        if r.k == "CXXOperatorCallExpr" and r.op == "<<" and r.args:
            r = r.args[0]
        elif r.k == "CXXMemberCallExpr" and r.q.endswith("operator<<"):
            r = r.obj
        else:
            return r
    return r


def fates(fn, carriers=(), streamed_ok=False):
    """yield (source node, problem or None, node where it goes wrong) for every error value in fn"""
    cfg = fn.cfg
    flow = None

    def mk():
        nonlocal flow
        if flow is None:
            flow = Flow(fn, streamed_ok)
        return flow

    def follow(n, w, vid, ph):
        if cfg is None or w is None:
            return [(n, None, None)]
        probs = mk().run(w[0], w[1], vid, ph)
        return [(n, a, b) for a, b in probs] or [(n, None, None)]

    def isval(t):
        t = t.replace("const ", "").strip()
        return t == ST or t in carriers
    # carriers passed by value: the error they carry is this function's to handle
    for p in fn.params:
        if p["t"] in carriers and cfg is not None and not fn.d.get("implicit"):
            class _N:  # pseudo source
                pass
            yield from follow(ParamSource(fn, p), (cfg.entry, 0), p["vid"], "pend")
    for n in fn.all_nodes():
        if (n.is_call() or n.k in CTORS) and is_err_t(n.t):
            if n.q == ST + "::Ok" or n.q.endswith("operator="):
                continue
            if n.q.endswith("operator<<"):
                r = root_of_stream(n)
                if r is not None and r.k == "DeclRefExpr":
                    continue
            if discarded(n):
                yield n, "error value is discarded", n
                continue
        if not (n.is_call() and isval(n.t) and not n.get("lv")):
            # std::move(local status) initialising another status is a hand-over, tracked below
            if not (n.is_call() and n.q == "std::move" and isval(n.t.replace("&", "").strip())):
                continue
        if n.q == ST + "::Ok" or n.q == "std::forward":
            continue
        if n.is_call() and n.q == "std::move":
            p = n.p
            while p is not None and p.k in CTORS and isval(p.t):
                p = p.p
            if p is None or p.k != "VarDecl":
                continue
        if discarded(n):
            yield n, "error value is discarded", n
            continue
        p = n
        q = p.p
        while q is not None and ((q.k in CTORS and isval(q.t)) or q.k == "ImplicitCastExpr" or
                                 (q.is_call() and q.q == "std::move") or q.k == "ConditionalOperator"):
            p, q = q, q.p
        if q is None or cfg is None or q.k == "ReturnStmt":
            yield n, None, None
            continue
        if q.k == "VarDecl":
            w = cfg.where(q.p)
            yield from follow(n, (w[0], w[1] + 1) if w else None, q.get("vid"), "pend")
            continue
        if q.k == "CXXOperatorCallExpr" and q.op == "=" and q.args and q.args[0].k == "DeclRefExpr" \
                and q.args[0].get("vid") is not None:
            vid = q.args[0].get("vid")
            if any(x["vid"] == vid for x in fn.params):
                yield n, None, None   # stored through a reference parameter: the caller's to look at
                continue
            w = cfg.where(q)
            yield from follow(n, (w[0], w[1] + 1) if w else None, vid, "pend")
            continue
        if q.k == "CXXMemberCallExpr" and q.q in (ST + "::isOk", ST + "::operator bool"):
            x, hit = q, None
            while x is not None:
                for b in cfg.b.values():
                    if b.cond == x.i and len(b.s) == 2:
                        hit = b
                        break
                if hit or x.k.endswith("Stmt"):
                    break
                x = x.p
            t = test_of(fn.nodes[hit.cond]) if hit else None
            if t is None:
                # not branched on here: value of an expression
                if discarded(q):
                    yield n, "error value is discarded", n
                else:
                    yield n, None, None
                continue
            s = hit.s[t[2]]
            if s >= 0:
                yield from follow(n, (s, 0), None, "bad")
            else:
                yield n, None, None
            continue
        if streamed_ok:
            yield n, None, None
            continue
        yield n, None, None


class ParamSource:
    def __init__(self, fn, p):
        self.fn = fn
        self.l = fn.line
        self.k = "ParmVarDecl"
        self.q = "parameter " + p["n"]
        self.loc = "%s:%d" % (fn.file, fn.line)
        self.t = p["t"]
        self.d = {}
        self.c = []

    def get(self, k, d=None):
        return d


# ------------------------------------------------------------------ must-use booleans
def bool_used(fn, n):
    """is the boolean result of call n looked at?"""
    if discarded(n):
        return False
    p = n.p
    while p is not None and (p.k == "ImplicitCastExpr" or (p.k == "UnaryOperator" and p.op == "!")):
        p = p.p
    if p is not None and p.k == "VarDecl":
        vid = p.get("vid")
        for x in fn.all_nodes():
            if x.k == "DeclRefExpr" and x.get("vid") == vid:
                if not (x.p and x.p.k == "BinaryOperator" and x.p.op == "=" and x.p.c[0] is x) and not discarded(x):
                    return True
        return False
    return True


# ------------------------------------------------------------------ catch handlers
def catch_outcomes(fn):
    """yield (catch node, ok): does every handler end in a failure outcome?"""
    for n in fn.body.walk():
        if n.k != "CXXCatchStmt":
            continue
        ok = False
        body = n.c[-1] if n.c else None
        if body is None:
            yield n, False
            continue
        for x in body.walk():
            if x.k == "CXXThrowExpr":
                ok = True
            if x.is_call() and x.q in ("exit", "std::exit", "abort", "std::abort", "std::terminate"):
                ok = True
            if x.k == "CXXOperatorCallExpr" and x.op == "=" and x.args and is_status_t(x.args[0].t):
                ok = True
            if x.is_call() and x.q.endswith("operator=") and x.obj is not None and is_status_t(x.obj.t):
                ok = True
            if x.k == "ReturnStmt":
                if not x.c:
                    continue
                e = x.c[0]
                if is_status_t(fn.ret):
                    u = unwrap(e)
                    if not (u is not None and u.is_call() and u.q == ST + "::Ok"):
                        ok = True
                elif fn.ret == "bool":
                    ok = ok or e.v != 1
                elif fn.ret in ("int",):
                    ok = ok or e.v != 0
                else:
                    ok = True
            if x.k == "BinaryOperator" and x.op == "=" and x.c[1].v is not None and x.c[0].t in ("bool", "int"):
                ok = True
        yield n, ok

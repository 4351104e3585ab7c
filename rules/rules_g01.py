"""G01: a feature has one value, whichever route computes it."""
import re
from pathcut import *
from dfl import *
from vnum import VN, flat, sub, walk, show, LOOPS

NS = "jumanpp::"
CLS = {1: "UnigramFeature", 2: "BigramFeature", 3: "TrigramFeature"}
NAME = {1: "uni", 2: "bi", 3: "tri"}


def last(q):
    return flat(q).split("::")[-1]


def digit(name):
    m = re.match(r"^(?:t|p|patT|patternT|pattT)_?([012])(?![0-9])", name or "")
    return int(m.group(1)) if m else None


def const(t):
    return t[1] if isinstance(t, tuple) and t and t[0] == "c" else None


def chain(t):
    """(start, ops, masked): nested hash states are spliced"""
    masked = False
    if t[0] == "mask":
        t, masked = t[1], True
    elif t[0] == "res":
        t = t[1]
    if t[0] != "h":
        return None
    start, ops = t[1], list(t[2])
    while start is not None and start[0] in ("res", "h"):
        inner = start[1] if start[0] == "res" else start
        if inner[0] != "h":
            break
        ops = list(inner[2]) + ops
        start = inner[1]
    return start, ops, masked


def elemof(t):
    return (t[1], t[2]) if t[0] == "at" else None


def opaque_fn(f):
    return not re.search(r"::(FeatureBuffer|PrimitiveFeatureContext|Sliceable|ConstSliceable|ArraySlice|MutableArraySlice)(<[^:]*>)?::", f.q) and \
        f.name not in ("access", "computeUnrolled4RawPerceptron", "mixPrmitives") and not f.q.startswith("std::")


def number(P, f, this=("this",)):
    v = VN(P, inline=opaque_fn)
    r = v.run(f, this)
    return v, r


def buffer_of(t):
    return len(t) > 1 and t[0] == "call" and isinstance(t[1], str) and "FeatureBuffer" in t[1]


def fn_of(n):
    return flat(n.q)


# ------------------------------------------------------------------ the three feature classes

def roles(P, R, seeds):
    """ctor parameter position -> target / index / pattern reference, for each class, from what the methods do"""
    out = {}
    for N, cname in CLS.items():
        fns = [f for f in P.fns.values() if f.body is not None and flat(f.q).split("::")[-2:-1] == [cname] and f.file.startswith("src/")
               and not testfile(f.file)]
        ctors = [f for f in fns if f.is_ctor and len(f.params) == N + 2]
        if not ctors:
            continue
        c = ctors[0]
        pos = {}
        for d, x in c.inits:
            n = strip(x)
            while n is not None and n.k in ("InitListExpr",) + tuple(CTORS) and len(n.c) == 1:
                n = strip(n.c[0])
            if n is not None and n.k == "DeclRefExpr":
                for i, p in enumerate(c.params):
                    if p["vid"] == n.get("vid"):
                        pos[d["m"]] = i
        methods = [f for f in fns if not f.is_ctor and not f.is_dtor]
        runs = [(f,) + number(P, f) for f in methods]
        idxf = tgt = None
        first = None
        for f, v, r in runs:
            for t in [e[3] for e in v.effects] + ([r] if r else []):
                ch = chain(t)
                if ch and ch[0] is None and len(ch[1]) >= 3 and ch[1][1][0] == "f":
                    idxf = idxf or ch[1][1][2]
                    e = elemof(ch[1][3]) if len(ch[1]) > 3 else None
                    if e and e[1][0] == "f":
                        first = first or e[1][2]
            for e in v.effects:
                if e[2][0] == "f":
                    tgt = tgt or e[2][2]
        refs = [m for m, i in sorted(pos.items(), key=lambda x: x[1]) if m not in (idxf, tgt)]
        role = {}
        for m, i in pos.items():
            role[i] = "target" if m == tgt else "index" if m == idxf else refs.index(m)
        out[N] = role
        for f, v, r in runs:
            site = "%s::%s (%s)" % (cname, f.name, f.where)
            for e in v.effects:
                R.ob("its-own-slot", site, not (e[2][0] == "f" and tgt and e[2][2] != tgt), "%s::%s/slot" % (cname, f.name),
                     "%s is written to place %s of `%s`; the value of a feature is kept at its %s" % (show(e[3]), show(e[2]), show(e[1]), tgt))
            for t in [e[3] for e in v.effects] + ([r] if r else []):
                check_chain(R, P, "%s::%s" % (cname, f.name), site, t, N, seeds, idxf, tgt, refs, f, stored=any(e[3] is t for e in v.effects))
    return out


def check_chain(R, P, key, site, t, N, seeds, idxf, tgt, refs, f, stored):
    ch = chain(t)
    if ch is None:
        return
    start, ops, masked = ch
    if start is None:
        if len(ops) < 3:
            R.ob("formula", site, False, key + "/prefix", "a fresh n-gram hash without its length, number and kind")
            return
        R.ob("formula", site, const(ops[0]) in (None, N + 2), key + "/length",
             "the hash of an order-%d feature starts with %s; the other routes start it with %d" % (N, show(ops[0]), N + 2))
        R.ob("formula", site, not (ops[1][0] == "f" and ops[1][2] == tgt) and ops[1][0] != "at" and (ops[1][0] != "f" or idxf is None or ops[1][2] == idxf),
             key + "/number", "the second part of the hash is %s, not the number of the feature" % show(ops[1]))
        R.ob("formula", site, seeds.get(N) is None or const(ops[2]) in (None, seeds[N]), key + "/seed",
             "the kind constant is %s; an order-%d feature has %s" % (show(ops[2]), N, seeds.get(N)))
        rest, at = ops[3:], 0
    else:
        e = elemof(start)
        if e:
            R.ob("formula", site, not (e[1][0] == "f" and tgt and e[1][2] != tgt), key + "/state",
                 "the hash continues from place %s of `%s`; the state of a feature is kept at its %s" % (show(e[1]), show(e[0]), tgt))
        rest, at = ops, None
    slices, fields = [], []
    for x in rest:
        e = elemof(x)
        if e and e[1][0] == "f":
            slices.append(e[0])
            fields.append(e[1][2])
        elif x[0] == "p" and "64" in pt(f, x) or x[0] == "p" and "long" in pt(f, x):
            fields.append(None)
            slices.append(None)
        else:
            return
    ks = [refs.index(m) if m in refs else None for m in fields]
    if at is None:
        known = [(i, k) for i, k in enumerate(ks) if k is not None]
        at = known[0][1] - known[0][0] if known else N - len(ks)
        R.ob("formula", site, at >= 1, key + "/again", "a continued hash mixes pattern %d again" % at)
    R.ob("formula", site, all(k is None or k == at + i for i, k in enumerate(ks)), key + "/order",
         "patterns are mixed in the order %s; the feature takes the word itself first, then the one before it, then the one before that"
         % ", ".join("t%s" % k for k in ks))
    end = at + len(ks)
    if masked:
        R.ob("formula", site, end == N, key + "/end", "the finished hash takes %d of the %d patterns of the feature" % (end, N))
    elif stored:
        R.ob("formula", site, end < N, key + "/finished", "a state kept for the next step already takes all %d patterns" % N)
    named = [s for s in slices if s is not None]
    R.ob("formula", site, len(set(named)) == len(named), key + "/word", "two patterns are taken from the same word (%s)" % ", ".join(show(s) for s in named))
    for i, s in enumerate(slices):
        if s is not None and s[0] == "p" and digit(s[1]) is not None and s[1].startswith("t"):
            R.ob("formula", site, digit(s[1]) == at + i, key + "/slice%d" % i,
                 "pattern number %d of the feature is taken from the patterns of %s" % (at + i, s[1]))


def pt(f, t):
    return f.params[t[2]]["t"] if t[0] == "p" and t[2] < len(f.params) else ""


def all_at_once(P, R):
    """NgramFeatureImpl<N>::apply: the formula the others must reproduce"""
    seeds = {}
    for f in list(P.fns.values()):
        m = re.search(r"NgramFeatureImpl<(\d)>::apply$", f.q)
        if not m or f.body is None:
            continue
        N = int(m.group(1))
        v, r = number(P, f)
        for e in v.effects:
            ch = chain(e[3])
            site = "NgramFeatureImpl<%d>::apply (%s)" % (N, f.where)
            if ch is None or ch[0] is not None or len(ch[1]) < 3:
                continue
            ops = ch[1]
            seeds[N] = const(ops[2])
            key = "NgramFeatureImpl<%d>" % N
            R.ob("formula", site, const(ops[0]) in (None, N + 2), key + "/length", "the hash starts with %s; the other routes start it with %d" % (show(ops[0]), N + 2))
            R.ob("formula", site, len(ops) == 3 + N, key + "/count", "%d patterns are mixed into an order-%d feature" % (len(ops) - 3, N))
            R.ob("formula", site, ops[1] == e[2], key + "/number", "the value hashed with number %s is put at place %s" % (show(ops[1]), show(e[2])))
            for k, x in enumerate(ops[3:]):
                el = elemof(x)
                if el is None:
                    continue
                d = digit(el[0][1]) if el[0][0] == "p" else None
                R.ob("formula", site, d in (None, k), key + "/slice%d" % k, "pattern number %d is taken from the patterns of %s" % (k, show(el[0])))
                if el[1][0] == "at":
                    R.ob("formula", site, const(el[1][2]) in (None, k), key + "/ref%d" % k, "pattern number %d is looked up with reference %s" % (k, show(el[1])))
    return seeds


# ------------------------------------------------------------------ calls hand slices over in their order

def root_name(n):
    n = strip(n)
    while n is not None:
        if n.k == "DeclRefExpr":
            d = single_def(n) if n.get("dk") != "parm" else None
            if digit(n.get("n")) is not None or d is None:
                return n.get("n")
            n = strip(d)
        elif n.k == "CXXMemberCallExpr" and n.obj is not None and (last(n.q) in ("row", "at") or digit_call(n) is not None):
            if digit_call(n) is not None:
                return "t%d" % digit_call(n)
            n = strip(n.obj)
        elif n.k in CTORS and len(n.c) == 1:
            n = strip(n.c[0])
        else:
            return None
    return None


def digit_call(n):
    m = re.match(r"^(?:pattern|pat)?T([012])$", last(n.q))
    return int(m.group(1)) if m else None


def single_def(n):
    if n.get("vid") is None or n.fn is None:
        return None
    d = var_defs(n.fn).get(n.get("vid"), [])
    return d[0] if len(d) == 1 else None


def slices_in_order(P, R):
    for f in src_fns(P) + gen_fns(P):
        if not any(s in f.file for s in ("feature", "score_processor", "partial_trainer", "trainer", "gen/")):
            continue
        for c in f.calls():
            ts = P.targets(c)
            if not ts or len(c.args) < 2:
                continue
            t = ts[0]
            ps = [digit(p.get("n")) if "lice" in p["t"] else None for p in t.params]
            if sum(x is not None for x in ps) < 2:
                continue
            for i, a in enumerate(c.args[:len(ps)]):
                if ps[i] is None or not (t.params[i]["n"] or "").startswith(("t", "p")):
                    continue
                if re.search(r"idx", t.params[i]["n"]):
                    continue
                nm = root_name(a)
                d = digit(nm)
                R.ob("slices-in-order", "%s: %s(... %s: `%s`)" % (c.loc, last(c.q), t.params[i]["n"], expr_str(a)),
                     d is None or d == ps[i], "%s/%s/%s" % (f.q.split("::")[-1], last(c.q), t.params[i]["n"]),
                     "patterns of t%s are handed over as %s" % (d, t.params[i]["n"]))


def gen_fns(P):
    return [f for f in P.fns.values() if f.file.startswith("gen/") and f.body is not None]


# ------------------------------------------------------------------ loops that score one row while hashing the next

class Rows:
    """which row (relative to a counter) a buffer holds, through swaps and increments"""

    def __init__(self, P, f):
        self.P, self.f = P, f

    def lin(self, n):
        """(vid, offset) of `row`, `row - 1`"""
        n = strip(n)
        if n is None:
            return None
        if n.v is not None and not isinstance(n.v, str):
            return (None, int(n.v))
        if n.k == "DeclRefExpr" and n.get("vid") is not None:
            return (n.get("vid"), 0)
        if n.k == "BinaryOperator" and n.op in ("+", "-") and len(n.c) == 2:
            a, b = self.lin(n.c[0]), self.lin(n.c[1])
            if a and b and b[0] is None:
                return (a[0], a[1] + (b[1] if n.op == "+" else -b[1]))
        return None

    def row_of(self, n, depth=12, seen=None):
        """the rows an expression is computed from"""
        out = set()
        seen = set() if seen is None else seen
        if depth == 0 or n is None:
            return out
        for x in n.walk():
            if x.k == "CXXMemberCallExpr" and last(x.q) == "row" and x.args:
                l = self.lin(x.args[0])
                if l is None:
                    a = strip(x.args[0])
                    if a is not None and a.k == "DeclRefExpr" and single_def(a) is not None:
                        a = strip(single_def(a))
                    if a is not None and (a.k == "CXXMemberCallExpr" and last(a.q) == "at" and a.args or a.k == "CXXOperatorCallExpr" and a.op == "[]"):
                        l = self.lin(a.args[0] if a.k == "CXXMemberCallExpr" else a.c[1])
                if l and (l[0] is None or self.counter(l[0])):
                    out.add(l)
            if x.k == "DeclRefExpr" and x.get("vid") is not None:
                if x.get("vid") in seen or x.get("vid") in self.counters or x.fn is None:
                    continue
                seen.add(x.get("vid"))
                for d in var_defs(x.fn).get(x.get("vid"), []):
                    if d is not n:
                        out |= self.row_of(d, depth - 1, seen)
        return out

    def counter(self, vid):
        return vid in self.counters

    def transfer(self, n, st):
        """state: {('buf', vid) | ('acc', vid): tag}; tag = (row vid | None, offset) | 'new' """
        k = n.k
        if k == "UnaryOperator" and n.op in ("++", "post++", "--", "post--"):
            t = strip(n.c[0])
            if t is not None and t.k == "DeclRefExpr" and t.get("vid") in self.counters:
                d = -1 if "++" in n.op else 1
                for x, tag in list(st.items()):
                    if isinstance(tag, tuple) and tag[0] == t.get("vid"):
                        st[x] = (tag[0], tag[1] + d)
        elif k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ("=", "+="):
            t = strip(n.c[0])
            if t is None:
                return
            if t.k == "DeclRefExpr" and t.get("vid") in self.counters and n.op == "=":
                v = strip(n.c[1])
                for x, tag in list(st.items()):
                    if isinstance(tag, tuple):
                        if tag[0] is None and v is not None and isinstance(v.v, (int, float)):
                            st[x] = (t.get("vid"), tag[1] - int(v.v))
                        elif tag[0] == t.get("vid"):
                            st[x] = "top"
                return
            if t.k == "DeclRefExpr" and t.get("vid") in self.accs:
                self.accumulate(t.get("vid"), n.c[1], st, n.op == "=", n)
                return
            b = self.bufref(t)
            if b is not None:
                rows = self.row_of(n.c[1])
                self.fill(b, rows, st, n)
                return
            if t.k == "DeclRefExpr" and ("buf", t.get("vid")) in st:
                st[("buf", t.get("vid"))] = "new"
                return
            self.store(n, t, n.c[1], st)
        elif k == "VarDecl":
            i = n.role("init")
            if n.get("vid") in self.accs:
                st[("acc", n.get("vid"))] = "new"
                if i is not None:
                    self.accumulate(n.get("vid"), i, st, True, n)
            elif n.get("vid") in self.bufs:
                src = None
                for x in i.walk() if i is not None else ():
                    if x.k == "DeclRefExpr" and x.get("vid") in self.bufs:
                        src = x.get("vid")
                st[("buf", n.get("vid"))] = st.get(("buf", src), "new") if src is not None else "new"
            elif n.get("vid") in self.counters and i is not None:
                v = strip(i)
                if v is not None and isinstance(v.v, (int, float)):
                    for x, tag in list(st.items()):
                        if isinstance(tag, tuple) and tag[0] is None:
                            st[x] = (n.get("vid"), tag[1] - int(v.v))
        elif k == "CXXMemberCallExpr" and last(n.q) == "swap" and n.obj is not None and n.args:
            a, b = strip(n.obj), strip(n.args[0])
            if a is not None and b is not None and a.k == b.k == "DeclRefExpr":
                ka, kb = ("buf", a.get("vid")), ("buf", b.get("vid"))
                st[ka], st[kb] = st.get(kb, "new"), st.get(ka, "new")
        elif n.is_call() and last(n.q) == "swap" and len(n.args) == 2:
            a, b = strip(n.args[0]), strip(n.args[1])
            if a is not None and b is not None and a.k == b.k == "DeclRefExpr":
                ka, kb = ("buf", a.get("vid")), ("buf", b.get("vid"))
                st[ka], st[kb] = st.get(kb, "new"), st.get(ka, "new")
        elif n.is_call() and n.k != "CXXOperatorCallExpr" and last(n.q) not in ("at", "row", "data", "size"):
            ts = self.P.targets(n)
            if not ts:
                return
            outs, rows = [], set()
            for i, a in enumerate(n.args):
                r = strip(a)
                while r is not None and r.k in CTORS and len(r.c) == 1:
                    r = strip(r.c[0])
                if r is not None and r.k == "DeclRefExpr" and r.get("vid") in self.bufs:
                    if i < len(ts[0].params) and "MutableArraySlice" in ts[0].params[i]["t"] and "&" in ts[0].params[i]["t"] and \
                            "const" not in ts[0].params[i]["t"]:
                        st[("buf", r.get("vid"))] = "top"
                    elif i < len(ts[0].params) and "MutableArraySlice" in ts[0].params[i]["t"]:
                        outs.append(r.get("vid"))
                else:
                    rows |= self.row_of(a)
            for b in outs:
                self.fill(b, rows, st, n)

    def fill(self, b, rows, st, n):
        if len(rows) > 1:
            self.report.append(("mixed", n, "one value is computed from different rows (%s)" % ", ".join(self.name(r) for r in sorted(rows, key=str))))
        if rows:
            new = sorted(rows, key=str)[0]
            st[("buf", b)] = new

    def name(self, r):
        if r[0] is None:
            return "row %d" % r[1]
        nm = next((x.get("n") for x in self.f.all_nodes() if x.k == "VarDecl" and x.get("vid") == r[0]), "row")
        return nm + ("" if r[1] == 0 else " %s %d" % ("+" if r[1] > 0 else "-", abs(r[1])))

    def bufref(self, t):
        if t.k == "CXXMemberCallExpr" and last(t.q) == "at" and t.obj is not None or t.k == "CXXOperatorCallExpr" and t.op == "[]":
            o = strip(t.obj if t.k == "CXXMemberCallExpr" else t.c[0])
            if o is not None and o.k == "DeclRefExpr" and o.get("vid") in self.bufs:
                return o.get("vid")
        return None

    def reads(self, n, st):
        """tags of what an expression reads"""
        out = []
        for x in n.walk():
            if x.k == "DeclRefExpr" and x.get("vid") in self.bufs:
                out.append((x, st.get(("buf", x.get("vid")), "new")))
            if x.k == "DeclRefExpr" and x.get("vid") in self.accs:
                out.append((x, st.get(("acc", x.get("vid")), "new")))
        return out

    def accumulate(self, vid, e, st, fresh, n):
        tags = {t for _, t in self.reads(e, st) if isinstance(t, tuple)}
        cur = st.get(("acc", vid), "new")
        if fresh:
            cur = "new"
        for t in tags:
            if isinstance(cur, tuple) and cur != t and cur[0] == t[0]:
                self.report.append(("mixed", n, "`%s` adds up weights of %s and of %s" % (expr_str(n)[:50], self.name(cur), self.name(t))))
            cur = t
        st[("acc", vid)] = cur

    def store(self, n, target, e, st):
        if not (target.k == "CXXMemberCallExpr" and last(target.q) == "at" and target.args or target.k == "CXXOperatorCallExpr" and target.op == "[]"):
            return
        ix = self.lin(target.args[0] if target.k == "CXXMemberCallExpr" else target.c[1])
        if ix is None or ix[0] is not None and not self.counter(ix[0]):
            if ix is None or not self.limit(ix[0]):
                return
            # `numItems - 1` behind the loop: the last row, which is one less than the counter
            cands = [t for _, t in self.reads(e, st) if isinstance(t, tuple)]
            for t in cands:
                self.obs.append((n, t[1] == ix[1], "%s of %s" % (expr_str(n)[:60], self.name(t))))
            return
        for x, t in self.reads(e, st):
            if isinstance(t, tuple) and t[0] == ix[0]:
                self.obs.append((n, t == ix, "place %s receives the score of %s" % (self.name(ix), self.name(t))))
        for x in e.walk():                     # an element of the same row
            if x.k == "CXXMemberCallExpr" and last(x.q) == "at" and x.args and x is not e:
                a = strip(x.args[0])
                inner = a.args[0] if a is not None and a.k == "CXXMemberCallExpr" and last(a.q) == "at" and a.args else None
                if inner is not None:
                    l = self.lin(inner)
                    if l and l[0] == ix[0] and l[0] is not None:
                        self.obs.append((n, l == ix, "place %s receives what was computed for %s" % (self.name(ix), self.name(l))))

    def limit(self, vid):
        return vid in self.limits

    def go(self):
        f = self.f
        self.bufs, self.accs, self.counters, self.limits = set(), set(), set(), set()
        self.report, self.obs = [], []
        for v in f.all_nodes():
            if v.k == "VarDecl" and v.get("vid") is not None:
                if re.search(r"MutableArraySlice<(unsigned int|jumanpp::u32|u32)>", v.t):
                    self.bufs.add(v.get("vid"))
                if v.t in ("float",):
                    self.accs.add(v.get("vid"))
        for p in f.params:
            if re.search(r"MutableArraySlice<(unsigned int|jumanpp::u32|u32)>", p["t"]):
                self.bufs.add(p["vid"])
        for x in f.all_nodes():
            if x.k == "UnaryOperator" and x.op in ("++", "post++"):
                t = strip(x.c[0])
                if t is not None and t.k == "DeclRefExpr":
                    self.counters.add(t.get("vid"))
            if x.k in LOOPS and x.role("cond") is not None:
                c = strip(x.role("cond"))
                if c is not None and c.k == "BinaryOperator" and c.op in ("<", "!=") and len(c.c) == 2:
                    r = strip(c.c[1])
                    if r is not None and r.k == "DeclRefExpr":
                        self.limits.add(r.get("vid"))
        if not self.bufs or any(x.k == "VarDecl" and x.get("vid") in self.bufs and x.t.rstrip().endswith(("&", "*")) for x in f.all_nodes()):
            return None
        cfg = f.cfg
        ins = {b: None for b in cfg.b}
        entry = cfg.entry
        ins[entry] = {}
        work = [entry]
        ids = f.nodes
        final = None
        n = 0
        while work and n < 4000:
            n += 1
            b = work.pop(0)
            st = dict(ins[b])
            self.report, self.obs = [], []
            self.block(b, st)
            for s in cfg.b[b].s:
                if s is None or s not in cfg.b:
                    continue
                old = ins[s]
                new = dict(st) if old is None else self.join(old, st)
                if new != old:
                    ins[s] = new
                    if s not in work:
                        work.append(s)
        self.report, self.obs = [], []
        rep, obs = [], []
        for b in sorted(cfg.b):
            if ins[b] is not None:
                self.report, self.obs = [], []
                self.block(b, dict(ins[b]))
                rep += self.report
                obs += self.obs
        return rep, obs

    def block(self, b, st):
        for i in dict.fromkeys(self.f.cfg.b[b].e):
            n = self.f.nodes.get(i) if isinstance(self.f.nodes, dict) else self.f.nodes[i]
            if n is None:
                continue
            if n.k == "DeclStmt":
                for v in n.c:
                    if v.k == "VarDecl":
                        self.transfer(v, st)
            else:
                self.transfer(n, st)

    def join(self, a, b):
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k, "new"), b.get(k, "new")
            out[k] = x if x == y else y if x == "new" else x if y == "new" else "top"
        return out


def pipelines(P, R):
    for f in src_fns(P) + gen_fns(P):
        if "feature" not in f.file and not f.file.startswith("gen/"):
            continue
        if testfile(f.file):
            continue
        r = Rows(P, f).go()
        if r is None:
            continue
        rep, obs = r
        key = "%s::%s" % ((flat(f.cls or "").split("::")[-1]), f.name)
        for i, (n, ok, msg) in enumerate(obs):
            R.ob("row-of-the-score", "%s: `%s`" % (n.loc, expr_str(n)[:70]), ok, "%s/%d" % (key, i), msg)
        for i, (kind, n, msg) in enumerate(rep):
            R.ob("row-of-the-score", "%s" % n.loc, False, "%s/mixed%d" % (key, i), msg)


def per_word(P, R):
    """what is computed once per distinct word is read through the numbers of the words"""
    for f in src_fns(P) + gen_fns(P):
        if testfile(f.file) or f.body is None:
            continue
        nums = {p["vid"] for p in f.params if re.search(r"(?<!Mutable)ArraySlice<(unsigned int|jumanpp::u32|u32)>", p["t"])}
        outs = {p["vid"] for p in f.params if re.search(r"MutableArraySlice<float>", p["t"])}
        if not nums or not outs:
            continue

        def through(n, depth=3):
            n = strip(n)
            if n is None or depth == 0:
                return None
            if n.k == "CXXMemberCallExpr" and last(n.q) == "at" and n.args or n.k == "CXXOperatorCallExpr" and n.op == "[]":
                o = strip(n.obj if n.k == "CXXMemberCallExpr" else n.c[0])
                return o is not None and o.k == "DeclRefExpr" and o.get("vid") in nums
            if n.k == "DeclRefExpr" and n.get("vid") is not None:
                d = single_def(n)
                if d is not None and var_is_number(n, f):
                    r = through(d, depth - 1)
                    if r is not None:
                        return r
                return False
            if n.v is not None:
                return False
            if n.k == "BinaryOperator" and n.op in ("+", "-"):
                return through(n.c[0], depth)
            return None
        written, read = set(), []
        for n in f.all_nodes():
            if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ("=", "+="):
                t = float_at(n.c[0])
                if t is None:
                    continue
                written.add(t[0])
                for x in n.c[1].walk():
                    s = float_at(x)
                    if s is not None and s[0] != t[0] and t[0] in outs:
                        read.append((n, s))
        for n, (vid, name, ix) in read:
            if vid in written:
                r = through(ix)
                R.ob("row-of-the-score", "%s: `%s`" % (n.loc, expr_str(n)[:70]), r is not False, "%s/per-word" % f.name,
                     "the score in %s belongs to one of the distinct words; which one, is given by the numbers handed over with them" % name)
        for c in f.calls():                  # the middle word of a trigram
            ts = P.targets(c)
            if not ts or len(c.args) < 3:
                continue
            ps = [digit(p["n"]) if "ArraySlice<unsigned long>" in p["t"] and (p["n"] or "").startswith("t") else None for p in ts[0].params]
            if 1 in ps and 2 in ps and ps.index(2) < len(c.args):
                e1, e2 = row_arg(c.args[ps.index(1)]), row_arg(c.args[ps.index(2)])
                if e1 is not None and e2 is not None:
                    R.ob("row-of-the-score", "%s: `%s`" % (c.loc, expr_str(c)[:70]), through(e1) is not False, "%s/middle" % f.name,
                         "the middle word is one of the distinct words; which one, is given by the numbers handed over with them")


def var_is_number(n, f):
    return n.get("dk") != "parm"


def float_at(n):
    n = strip(n)
    if n is None or not (n.k == "CXXMemberCallExpr" and last(n.q) == "at" and n.args or n.k == "CXXOperatorCallExpr" and n.op == "[]" and len(n.c) == 2):
        return None
    o = strip(n.obj if n.k == "CXXMemberCallExpr" else n.c[0])
    if o is not None and o.k == "DeclRefExpr" and "MutableArraySlice<float>" in (o.t or ""):
        return o.get("vid"), o.get("n"), (n.args[0] if n.k == "CXXMemberCallExpr" else n.c[1])
    return None


def row_arg(n, depth=4):
    n = strip(n)
    while n is not None and n.k in CTORS and len(n.c) == 1:
        n = strip(n.c[0])
    if n is None or depth == 0:
        return None
    if n.k == "CXXMemberCallExpr" and last(n.q) == "row" and n.args:
        return n.args[0]
    if n.k == "DeclRefExpr" and single_def(n) is not None:
        return row_arg(single_def(n), depth - 1)
    return None


def emitted(P, R):
    """the generator prints the constants of a feature in the order of the constructor"""
    for f in src_fns(P):
        if f.body is None or "codegen" not in f.file or testfile(f.file):
            continue
        for st in f.all_nodes():
            if st.p is None or st.p.k not in ("CompoundStmt", "CaseStmt", "DefaultStmt") or "<<" not in (st.op or "") and st.k != "ExprWithCleanups":
                continue
            cls, seq = None, []
            for x in order(st):
                if x.k == "StringLiteral" and isinstance(x.get("s"), str):
                    m = re.search(r"\b(Unigram|Bigram|Trigram)Feature$", x.get("s"))
                    if m:
                        cls, seq = m.group(1), []
                if is_field(x) and x.q.split("::")[-1] in ("target_", "index") and cls:
                    seq.append((x.q.split("::")[-1], x))
                ix = ref_index(x)
                if ix is not None and cls:
                    seq.append((ix, x))
            if cls is None or not seq:
                continue
            N = {"Unigram": 1, "Bigram": 2, "Trigram": 3}[cls]
            want = ["target_", "index"] + list(range(N))
            R.ob("construction", "%s: constants of a %sFeature (%s)" % (st.loc, cls, f.name), [a for a, _ in seq] == want, "emit/%s" % cls,
                 "the generator prints %s for a %sFeature; it takes %s" % (", ".join(map(str, [a for a, _ in seq])), cls, ", ".join(map(str, want))))
        lit = None
        for x in order(f.body):
            if x.k == "StringLiteral" and isinstance(x.get("s"), str):
                m = re.search(r"\bt([12])(Bi|Tri)FeatureIdxes\[", x.get("s"))
                if m:
                    lit = (int(m.group(1)), m.group(0))
                elif "};" in x.get("s"):
                    lit = None
            ix = ref_index(x)
            if ix is not None and lit:
                R.ob("construction", "%s: %s (%s)" % (x.loc, lit[1], f.name), ix == lit[0], "emit/" + lit[1],
                     "the table of the patterns of t%d is filled with reference %d" % (lit[0], ix))


def ref_index(x):
    o = ix = None
    if x.k == "CXXOperatorCallExpr" and x.op == "[]" and len(x.c) >= 2:
        o, ix = strip(x.c[-2]), strip(x.c[-1])
    elif x.k == "CXXMemberCallExpr" and last(x.q) == "at" and x.args:
        o, ix = strip(x.obj), strip(x.args[0])
    if o is not None and ix is not None and is_field(o) and o.q.endswith("NgramFeatureDescriptor::references") and isinstance(ix.v, (int, float)):
        return int(ix.v)
    return None


# ------------------------------------------------------------------ building the interpreting features

def construction(P, R, role):
    vec = {}
    for f in src_fns(P):
        if f.body is None or "feature_impl" not in f.file:
            continue
        for c in f.calls():
            if last(c.q) in ("emplace_back", "push_back") and c.obj is not None:
                m = re.search(r"(Unigram|Bigram|Trigram)Feature", c.obj.t or "")
                if not m:
                    continue
                N = {"Unigram": 1, "Bigram": 2, "Trigram": 3}[m.group(1)]
                args = c.args
                if last(c.q) == "push_back" and len(args) == 1:
                    a = strip(args[0])
                    args = a.c if a is not None and a.k in CTORS + ("InitListExpr",) else []
                if len(args) != N + 2 or N not in role:
                    continue
                v = VN(P)
                st = {"env": {}, "this": ("this",), "ret": [], "depth": 3, "fn": f}
                for i, p in enumerate(f.params):
                    st["env"][p["vid"]] = ("p", p.get("n") or "", i)
                for vd in f.all_nodes():
                    if vd.k == "VarDecl" and vd.role("init") is not None and vd.get("vid") is not None:
                        st["env"][vd.get("vid")] = v.val(vd.role("init"), st)
                o = v.val(c.obj, st)
                vec[N] = o
                for i, a in enumerate(args):
                    t = v.val(a, st)
                    r = role[N].get(i)
                    site = "%s: `%s`" % (c.loc, expr_str(c)[:90])
                    key = "%s/%s/%s" % (f.name, CLS[N], r)
                    if r == "target":
                        ok = not (t[0] == "call" and last(t[1]) == "size" and t[2] != o) and t[0] not in ("c", "at") and not (t[0] == "f" and t[2] == "index")
                        R.ob("construction", site, ok, key, "the place of the feature is %s instead of the number of %s features there are so far" % (
                            show(t), NAME[N]))
                    elif r == "index":
                        R.ob("construction", site, not (t[0] == "at" or t[0] == "call" and last(t[1]) == "size" or t[0] == "c"), key,
                             "the number of the feature is %s" % show(t))
                    elif isinstance(r, int):
                        R.ob("construction", site, not (t[0] == "at" and const(t[2]) is not None and const(t[2]) != r) and
                             not (t[0] == "f" and t[2] == "index"), key, "pattern number %d of the feature is %s" % (r, show(t)))
                # how many references select this vector
                for b, i in edges_to(f, c):
                    cv = case_values(f, b, i)
                    if cv:
                        R.ob("construction", "%s: case %s" % (c.loc, sorted(cv)), N in cv, "%s/%s/case" % (f.name, CLS[N]),
                             "features with %s references become %s" % (sorted(cv), CLS[N]))
        # new NgramFeatureDynamicAdapter<K>{nf.index, refs...}
        for n in f.all_nodes():
            if n.k in CTORS and "NgramFeatureDynamicAdapter<" in (n.q or ""):
                K = int(re.search(r"NgramFeatureDynamicAdapter<(\d)", n.q).group(1))
                v = VN(P)
                st = {"env": {}, "this": ("this",), "ret": [], "depth": 3, "fn": f}
                for i, p in enumerate(f.params):
                    st["env"][p["vid"]] = ("p", p.get("n") or "", i)
                for vd in f.all_nodes():
                    if vd.k == "VarDecl" and vd.role("init") is not None and vd.get("vid") is not None:
                        st["env"][vd.get("vid")] = v.val(vd.role("init"), st)
                site = "%s: `%s`" % (n.loc, expr_str(n)[:90])
                for i, a in enumerate(n.c):
                    t = v.val(a, st)
                    if i == 0:
                        R.ob("construction", site, not (t[0] == "at" or t[0] == "c"), "%s/adapter%d/index" % (f.name, K), "the number of the feature is %s" % show(t))
                    elif t[0] == "at" and const(t[2]) is not None:
                        R.ob("construction", site, const(t[2]) == i - 1, "%s/adapter%d/%d" % (f.name, K, i), "pattern number %d is %s" % (i - 1, show(t)))
                for b, i in edges_to(f, n):
                    cv = case_values(f, b, i)
                    if cv:
                        R.ob("construction", site, K in cv, "%s/adapter%d/case" % (f.name, K), "features with %s references become order-%d features" % (sorted(cv), K))
    return vec


def order_of(name):
    m = re.match(r"^(?:apply)?(uni|bi|tri)(?![a-z])", name, re.I)
    m = m or re.match(r"^(uni|bi|tri)", name)
    return {"uni": 1, "bi": 2, "tri": 3}[m.group(1).lower()] if m else None


def dynamic_steps(P, R):
    """each step goes over the features of its order, and lets each do the step which reads and writes what the step does"""
    for f in src_fns(P):
        if "PartialNgramDynamicFeatureApply" not in (f.cls or "") or f.body is None:
            continue
        N = order_of(f.name)
        if N is None:
            continue
        loops = [l for l in f.all_nodes() if l.k in LOOPS]
        seen = set()
        for c in f.calls():
            m = re.search(r"::(Unigram|Bigram|Trigram)Feature::", c.q or "")
            if m:
                seen.add({"Unigram": 1, "Bigram": 2, "Trigram": 3}[m.group(1)])
        R.ob("steps", "%s (%s)" % (f.q.split("::")[-1], f.where), not seen or seen == {N}, "dyn/" + f.name,
             "%s works on %s features" % (f.name, ", ".join(NAME[x] for x in sorted(seen))))
        # a step that gets a state and makes a state is not the one that finishes the hash
        v, r = number(P, f)
        for e in v.effects:
            ch = chain(e[3])
            if ch is None:
                continue
            start, ops, masked = ch
            narrow = e[1][0] == "p" and re.search(r"<(unsigned int|jumanpp::u32|u32)>", pt(f, e[1]))
            wide = e[1][0] == "p" and re.search(r"<(unsigned long|jumanpp::u64|u64)>", pt(f, e[1]))
            R.ob("steps", "%s (%s)" % (f.q.split("::")[-1], f.where), not (wide and masked) and not (narrow and not masked), "dyn/%s/kind" % f.name,
                 "a %s is kept where a %s is expected" % (("finished value", "state") if wide else ("state", "finished value")))
            hasstate = any(p.get("n") == "state" and "Mutable" not in p["t"] for p in f.params)
            R.ob("steps", "%s (%s)" % (f.q.split("::")[-1], f.where), not (hasstate and start is None), "dyn/%s/state" % f.name, "the state of the earlier step is not continued")


# ------------------------------------------------------------------ buffers

COUNT = {"numUnigrams": 1, "numBigrams": 2, "numTrigrams": 3}
BUF = {"t1Buf": 2, "t2Buf1": 3, "t2Buf2": 3}


def widths(P, R, counts):
    """a row of a state buffer is as wide as there are features of the order it keeps"""
    for f in src_fns(P) + gen_fns(P):
        if testfile(f.file) or "feature" not in f.file and not f.file.startswith("gen/"):
            continue
        for c in f.calls():
            nm = last(c.q)
            if "FeatureBuffer::" not in (c.q or "") or not c.args:
                continue
            N = BUF.get(nm)
            if N is None:
                continue
            a = strip(c.args[0])
            for _ in range(3):
                if a is not None and a.k == "DeclRefExpr" and single_def(a) is not None and a.v is None:
                    a = strip(single_def(a))
            got = None
            if a is not None and a.is_call() and last(a.q) in COUNT:
                got = COUNT[last(a.q)]
                R.ob("buffers", "%s: `%s`" % (c.loc, expr_str(c)[:70]), got == N, "%s/%s" % (f.name, nm), "a row of the %s states is as wide as there are %sgrams" % (
                    NAME[N] + "gram", NAME[got]))
            elif a is not None and isinstance(a.v, (int, float)) and f.file.startswith("gen/") and counts.get(N) is not None:
                R.ob("buffers", "%s: `%s`" % (c.loc, expr_str(c)[:70]), int(a.v) == counts[N], "%s/%s" % (f.name, nm),
                     "a row of the %sgram states is %s wide; there are %s" % (NAME[N], a.v, counts[N]))
        # which buffer keeps what: the states of an order
        v, r = (None, None)
        for n in f.all_nodes():
            if n.k == "BinaryOperator" and n.op == "=":
                t = strip(n.c[0])
                if not is_field(t):
                    continue
                b = {"t1Buffer": 2, "t2Buffer1": 3, "t2Buffer2": 3}.get(t.q.split("::")[-1])
                if b is None:
                    continue
                used = {COUNT[last(x.q)] for x in n.c[1].walk() if x.is_call() and last(x.q) in COUNT}
                R.ob("buffers", "%s: `%s`" % (n.loc, expr_str(n)[:80]), not used or b in used, "%s/%s" % (f.name, t.q.split("::")[-1]),
                     "the buffer for %sgram states has room for %s" % (NAME[b], ", ".join(NAME[x] + "grams" for x in used)))


def step_order(P, R):
    """the intermediate states: written by one step, read by the next"""
    for f in src_fns(P) + gen_fns(P):
        if testfile(f.file) or not re.match(r"apply(Bi|Tri)Step\d|applyBiTri|patternsAndUnigramsApply", f.name):
            continue
        used = [(last(c.q), c) for c in f.calls() if "FeatureBuffer::" in (c.q or "") and last(c.q) in BUF]
        want = {"applyBiStep1": {"t1Buf"}, "applyBiStep2": {"t1Buf"}, "applyTriStep1": {"t2Buf1"}, "applyTriStep2": {"t2Buf1", "t2Buf2"},
                "applyTriStep3": {"t2Buf2"}, "applyBiTri": {"t1Buf", "t2Buf1"}, "patternsAndUnigramsApply": {"t1Buf", "t2Buf1"}}.get(f.name)
        if want is None or not used:
            continue
        for nm, c in used:
            R.ob("buffers", "%s: %s in %s" % (c.loc, nm, f.name), nm in want, "%s/which/%s" % (f.name, nm), "%s works on %s, not on %s" % (
                f.name, " and ".join(sorted(want)), nm))
    for f in src_fns(P):
        if f.name == "applyTriStep2" and "PartialNgramFeatureApplyImpl" in f.q and f.body is not None:
            v, r = number(P, f)
            for n, obj, args in v.calls:
                if last(n.q) == "triStep1":
                    src = [x for a in args[1:2] for x in walk(a) if buffer_of(x)]
                    dst = [x for a in args[2:3] for x in walk(a) if buffer_of(x)]
                    R.ob("buffers", "%s: `%s`" % (n.loc, expr_str(n)), all(last(x[1]) == "t2Buf1" for x in src) and all(last(x[1]) == "t2Buf2" for x in dst),
                         "applyTriStep2/direction", "the first states are kept in t2Buf1 and the second ones in t2Buf2")


# ------------------------------------------------------------------ generated code

def generated(P, R, role, seeds):
    counts = {}
    by = {}
    for f in gen_fns(P):
        by.setdefault(f.cls, []).append(f)
    G = {}
    for cls, fns in by.items():
        if "NgramFeatureStaticApply" in (cls or "") and "Part" not in cls:
            for f in fns:
                if f.name != "apply":
                    continue
                v, r = number(P, f)
                for e in v.effects:
                    i, ch = const(e[2]), chain(e[3])
                    if i is None or ch is None or len(ch[1]) < 4:
                        continue
                    ops = ch[1]
                    N = len(ops) - 3
                    site = "%s result.at(%d)" % (f.name, i)
                    R.ob("generated", site, const(ops[0]) == N + 2 and const(ops[1]) == i and (seeds.get(N) is None or const(ops[2]) == seeds[N]),
                         "all/%d" % i, "feature %d of %d patterns is hashed as (%s)" % (i, N, ", ".join(show(x) for x in ops[:3])))
                    refs = []
                    for k, x in enumerate(ops[3:]):
                        el = elemof(x)
                        d = digit(el[0][1]) if el and el[0][0] == "p" else None
                        R.ob("generated", site, d in (None, k), "all/%d/%d" % (i, k), "pattern number %d of feature %d is taken from %s" % (k, i, show(x)))
                        refs.append(const(el[1]) if el else None)
                    R.ob("generated", site, i not in G, "all/%d/twice" % i, "feature %d is computed twice" % i)
                    G[i] = refs
    if not G:
        return counts
    R.ob("generated", "all n-gram features", sorted(G) == list(range(len(G))), "all/numbers", "the features are numbered %s" % sorted(G)[:8])
    rank = {N: sorted(i for i in G if len(G[i]) == N) for N in CLS}
    counts = {N: len(rank[N]) for N in CLS}
    kern = kernel_roles(P, R)
    for cls, fns in by.items():
        nm = flat(cls or "")
        if "PartNgram" in nm:
            partial(P, R, fns, G, rank, counts, seeds, kern)
        if "PatternFeature" in nm:
            patterns(P, R, fns, G, rank, counts, seeds)
    return counts


def slots(R, key, site, got, n, what):
    R.ob("generated", site, sorted(got) == list(range(n)), key, "%s: places %s are filled, there are %d" % (
        what, ("%s missing" % sorted(set(range(n)) - set(got))[:6]) if set(range(n)) - set(got) else "%s twice" % sorted(x for x in set(got) if got.count(x) > 1)[:6], n))


def partial(P, R, fns, G, rank, counts, seeds, kern):
    for f in fns:
        if f.name in COUNT:
            v, r = number(P, f)
            if r is not None and const(r) is not None:
                R.ob("generated", f.name, const(r) == counts[COUNT[f.name]], "part/" + f.name, "%s() is %d; %d such features are generated" % (
                    f.name, const(r), counts[COUNT[f.name]]))
            continue
        N = order_of(f.name)
        if f.name == "applyBiTri":
            kernel_call(P, R, f, G, rank, counts, kern)
            continue
        if N is None:
            continue
        v, r = number(P, f)
        groups = {}
        for e in v.effects:
            ch, t = chain(e[3]), const(e[2])
            if ch is None or t is None:
                continue
            start, ops, masked = ch
            el = elemof(start) if start is not None else None
            slice_ = next((elemof(x)[0] for x in ops if elemof(x)), None)
            groups.setdefault((el[0] if el else slice_), []).append(t)
            site = "%s: place %d" % (f.name, t)
            key = "part/%s/%d" % (f.name, t)
            if t >= len(rank[N]):
                R.ob("generated", site, False, key, "there are %d %sgrams" % (len(rank[N]), NAME[N]))
                continue
            i = rank[N][t]
            if start is None:
                R.ob("generated", site, [const(x) for x in ops[:3]] == [N + 2, i, seeds.get(N, const(ops[2]))], key + "/prefix",
                     "place %d of the %sgrams holds feature %d, which is hashed as (%s)" % (t, NAME[N], i, ", ".join(show(x) for x in ops[:3])))
                refs = [const(elemof(x)[1]) if elemof(x) else None for x in ops[3:]]
                at = 0
            else:
                R.ob("generated", site, el is None or const(el[1]) in (None, t), key + "/state", "place %d continues the state of place %s" % (t, show(el[1]) if el else ""))
                refs = [const(elemof(x)[1]) if elemof(x) else None for x in ops]
                at = N - len(refs) if masked else 1
            R.ob("generated", site, all(a is None or at + k < N and a == G[i][at + k] for k, a in enumerate(refs)), key + "/refs",
                 "feature %d takes pattern %s in this step; computed at once it takes %s" % (i, refs, G[i][at:at + len(refs)]))
            if masked:
                R.ob("generated", site, at + len(refs) == N, key + "/end", "the value of feature %d takes %d of its %d patterns" % (i, at + len(refs), N))
        for g, got in groups.items():
            slots(R, "part/%s/slots" % f.name, f.name, got, counts[N], "features of %s" % f.name)
        reads_all(P, R, f, counts[N])


def reads_all(P, R, f, n):
    """in a loop over rows, the weights of all places are added, and all sums are stored"""
    for l in f.all_nodes():
        if l.k not in LOOPS or l.role("body") is None:
            continue
        got, accs, where = [], set(), None
        for x in l.role("body").walk():
            if x.k == "CXXMemberCallExpr" and last(x.q) == "at" and x.args:
                a = strip(x.args[0])
                if a is not None and a.k == "CXXMemberCallExpr" and last(a.q) == "at" and a.args and "Weight" in (x.q or ""):
                    ix = strip(a.args[0])
                    if ix is not None and isinstance(ix.v, (int, float)):
                        got.append(int(ix.v))
            if x.k == "VarDecl" and x.t == "float":
                accs.add(x.get("vid"))
        if not got:
            continue
        slots(R, "reads/%s" % f.name, "%s: weights added up per row" % f.name, got, n, "weights")
        for x in l.role("body").walk():
            if x.k in ("BinaryOperator", "CompoundAssignOperator") and x.op in ("=", "+="):
                t = strip(x.c[0])
                if t is not None and t.k == "CXXMemberCallExpr" and last(t.q) == "at" and t.t == "float":
                    used = [y.get("vid") for y in x.c[1].walk() if y.k == "DeclRefExpr" and y.get("vid") in accs]
                    if used:
                        R.ob("generated", "%s: `%s`" % (x.loc, expr_str(x)[:70]), sorted(used) == sorted(accs), "sum/%s" % f.name,
                             "of %d partial sums %d are added to the score" % (len(accs), len(set(used))))


def kernel_roles(P, R):
    """parameter position of the joint kernel -> ('state', N) or ('refs', N, k)"""
    out = {}
    for f in src_fns(P):
        if f.name != "applyBiTriFullKernel" or f.body is None:
            continue
        v, r = number(P, f)
        for e in v.effects:
            ch = chain(e[3])
            if ch is None or ch[0] is None or not ch[2]:
                continue
            start, ops, masked = ch
            st = elemof(start)
            if st is None or st[0][0] != "p":
                continue
            N = len(ops) + 1
            site = "applyBiTriFullKernel (%s): %s" % (e[4].loc, show(e[3])[:80])
            key = "kernel/%s" % NAME[N]
            put(R, out, st[0][2], ("state", N), site, f)
            R.ob("kernel", site, st[1] == e[2] or "?" in str(st[1]), key + "/place", "place %s is computed from the state of place %s" % (show(e[2]), show(st[1])))
            for k, x in enumerate(ops):
                el = elemof(x)
                if el is None:
                    continue
                row, ix = el
                ie = elemof(ix)
                if ie and ie[0][0] == "p":
                    put(R, out, ie[0][2], ("refs", N, k + 1), site, f)
                    R.ob("kernel", site, ie[1] == st[1], key + "/ref%d" % k, "the state of place %s is continued with the pattern of place %s" % (show(st[1]), show(ie[1])))
                if row[0] == "row" and row[1][0] == "p":
                    put(R, out, row[1][2], ("rows", k + 1), site, f)
                    dg = digit(row[1][1])
                    R.ob("kernel", site, dg in (None, k + 1), key + "/row%d" % k, "pattern number %d is taken from a row of %s" % (k + 1, row[1][1]))
                    idx = row[2]
                    if k == 0 and N == 3:
                        R.ob("kernel", site, idx[0] == "at" or idx[0] == "?", key + "/t1row",
                             "the middle word of a trigram is row %s of %s; which one it is, is given per beam element" % (show(idx), row[1][1]))
                    elif k == 0 and N == 2:
                        R.ob("kernel", site, idx[0] != "at", key + "/t1row", "the bigram scores are per distinct word, not per beam element")
    return out


def put(R, out, i, what, site, f):
    R.ob("kernel", site, out.get(i, what) == what, "kernel/param/%s" % f.params[i]["n"], "%s serves as %s and as %s" % (f.params[i]["n"], out.get(i), what))
    out.setdefault(i, what)


def kernel_call(P, R, f, G, rank, counts, kern):
    for c in f.calls():
        if last(c.q) != "applyBiTriFullKernel":
            continue
        v = VN(P, inline=opaque_fn)
        for i, a in enumerate(c.args):
            what = kern.get(i)
            n = strip(a)
            if what is None or n is None:
                continue
            if what[0] == "state":
                src = [x for x in deep(n) if x.is_call() and "FeatureBuffer::" in (x.q or "") and last(x.q) in BUF]
                for x in src:
                    R.ob("generated", "%s: `%s`" % (c.loc, expr_str(a)), BUF[last(x.q)] == what[1] and last(x.q) != "t2Buf2", "kernel/state%d" % what[1],
                         "the %sgram states are taken from %s" % (NAME[what[1]], last(x.q)))
            elif what[0] == "refs":
                arr = None
                for x in deep(n):
                    if x.k == "InitListExpr":
                        arr = [strip(y).v if strip(y) is not None else None for y in x.c]
                        break
                if arr is not None:
                    want = [G[i2][what[2]] for i2 in rank[what[1]]]
                    bad = next((k for k in range(max(len(arr), len(want))) if k >= len(arr) or k >= len(want) or arr[k] != want[k]), None)
                    R.ob("generated", "%s: %s" % (c.loc, expr_str(a)), bad is None, "kernel/refs/%d/%d" % (what[1], what[2]),
                         "pattern number %d of the %sgram at place %s is %s; computed at once it is %s" % (
                             what[2], NAME[what[1]], bad, arr[bad] if bad is not None and bad < len(arr) else "missing",
                             want[bad] if bad is not None and bad < len(want) else "missing"))
            elif what[0] == "rows":
                d = digit(root_name(a))
                R.ob("generated", "%s: `%s`" % (c.loc, expr_str(a)), d in (None, what[1]), "kernel/rows%d" % what[1], "the patterns of t%s are taken for those of t%d" % (d, what[1]))


def deep(n, depth=4):
    out = list(n.walk())
    if depth:
        for x in list(out):
            if x.k == "DeclRefExpr" and x.get("dk") == "static" and x.fn is not None:
                for y in x.fn.all_nodes():
                    if y.k == "VarDecl" and y.get("n") == (x.get("n") or x.q) and y.c:
                        out += deep(y.c[0], depth - 1)
            elif x.k == "DeclRefExpr" and x.get("dk") != "parm" and single_def(x) is not None:
                out += deep(single_def(x), depth - 1)
    return out


def groups(t):
    """number of features mixed into a pattern after its three constants, and the three constants"""
    if t[0] == "res":
        t = t[1]
    if t[0] == "ite":
        a = groups(t[2])
        b = groups(t[3])
        if a is None or b is None:
            return None
        pa, pb = base_len(t[2], t[3])
        return (a[0], pa + 1) if a[0] == b[0] else None
    if t[0] != "h":
        return None
    if t[1] is None:
        return tuple(const(x) for x in t[2][:3]), len(t[2]) - 3
    g = groups(t[1])
    return None if g is None else (g[0], g[1] + len(t[2]))


def base_len(a, b):
    """groups in what two branches share"""
    fa, fb = parts(a), parts(b)
    k = 0
    while k < len(fa) and k < len(fb) and fa[k] == fb[k]:
        k += 1
    # a conditional feature mixes at least one value in some branch
    return (k - 3, k - 3) if k >= 3 else (0, 0)


def parts(t):
    if t[0] == "res":
        t = t[1]
    if t[0] == "ite":
        a, b = parts(t[2]), parts(t[3])
        k = 0
        while k < len(a) and k < len(b) and a[k] == b[k]:
            k += 1
        return a[:k] + [("ite", t[1], tuple(a[k:]), tuple(b[k:]))]
    if t[0] != "h":
        return [t]
    return (parts(t[1]) if t[1] is not None else []) + list(t[2])


def patterns(P, R, fns, G, rank, counts, seeds):
    for f in fns:
        if f.name != "patternsAndUnigramsApply":
            continue
        v, r = number(P, f)
        seed = None
        for g in P.fns.values():
            for x in g.all_nodes() if "feature_impl_pattern" in g.file else ():
                if x.k == "DeclRefExpr" and (x.q or x.get("n") or "").endswith("PatternFeatureSeed") and x.v is not None:
                    seed = int(x.v)
        stored, uni, st = {}, [], {2: [], 3: []}
        computed = {}
        for e in v.effects:
            t, ch = const(e[2]), chain(e[3])
            if t is None:
                continue
            p = parts(e[3])
            if len(p) >= 4 and seed is not None and const(p[2]) == seed and e[3][0] == "res":
                stored[t] = e[3]
                pattern_ob(R, t, p, seed, computed)
                R.ob("generated", "patterns.at(%d)" % t, const(p[0]) == t, "pattern/%d/place" % t, "pattern %s is kept at place %d" % (show(p[0]), t))
                continue
            if ch is None or ch[0] is not None or len(ch[1]) < 4:
                continue
            ops, masked = ch[1], ch[2]
            N = next((k for k, s in seeds.items() if s == const(ops[2])), const(ops[0]) - 2 if const(ops[0]) else None)
            if N not in rank:
                continue
            site = "patternsAndUnigramsApply: %sgram at place %d" % (NAME[N], t)
            key = "joint/%s/%d" % (NAME[N], t)
            if t >= len(rank[N]):
                R.ob("generated", site, False, key, "there are %d" % len(rank[N]))
                continue
            i = rank[N][t]
            R.ob("generated", site, [const(x) for x in ops[:3]] == [N + 2, i, seeds.get(N)], key + "/prefix", "place %d holds feature %d, which is hashed as (%s)" % (
                t, i, ", ".join(show(x) for x in ops[:3])))
            R.ob("generated", site, masked == (N == 1) and len(ops) == 4, key + "/kind", "the step for one word takes one pattern, and finishes unigrams only")
            x = ops[3]
            el = elemof(x)
            if el:
                k = const(el[1])
                R.ob("generated", site, k == G[i][0], key + "/ref", "feature %d takes pattern %s; computed at once it takes %s" % (i, k, G[i][0]))
                R.ob("generated", site, k in stored, key + "/ready", "pattern %s is used before it is computed" % k)
            else:
                p = parts(x)
                if len(p) >= 3 and const(p[2]) == seed:
                    pattern_ob(R, const(p[0]), p, seed, computed)
                    R.ob("generated", site, const(p[0]) == G[i][0], key + "/ref", "feature %d takes pattern %s; computed at once it takes %s" % (i, show(p[0]), G[i][0]))
            (uni if N == 1 else st[N]).append(t)
            if N > 1:
                src = [y for y in walk(e[1]) if buffer_of(y)]
                R.ob("generated", site, all(BUF.get(last(y[1])) == N and last(y[1]) != "t2Buf2" for y in src), key + "/buffer", "the %sgram state is kept in %s" % (
                    NAME[N], ", ".join(last(y[1]) for y in src)))
        slots(R, "joint/uni/slots", "unigrams", uni, counts[1], "unigrams")
        for N in (2, 3):
            slots(R, "joint/%s/slots" % NAME[N], NAME[N] + "grams", st[N], counts[N], NAME[N] + "grams")
        needed = {k for i, refs in G.items() for k in refs if len(refs) > 1}
        R.ob("generated", "patterns kept for later words", needed <= set(stored), "pattern/kept", "patterns %s are used by bigrams and trigrams and not kept" %
             sorted(needed - set(stored))[:8])
        reads_all(P, R, f, counts[1])
        R.ob("uni-only", "patterns stored by %s" % f.name, sorted(stored) == list(range(len(stored))), "pattern/first",
             "rows are cut to the patterns that are not only for unigrams; the generated code stores place %s of %d" % (
                 next((k for k in sorted(stored) if k >= len(stored)), "?"), len(stored)))


def pattern_ob(R, t, p, seed, computed):
    site = "pattern %s" % t
    R.ob("generated", site, len(p) - 3 == const(p[1]), "pattern/%s/count" % t, "the pattern is hashed with %s and mixes %d features" % (show(p[1]), len(p) - 3))
    was = computed.setdefault(t, p)
    R.ob("generated", site, was == p, "pattern/%s/same" % t, "the pattern is computed in two ways")


# ------------------------------------------------------------------ patterns in the interpreting code and in the generator

def interpreting(P, R):
    for f in src_fns(P):
        if f.body is None:
            continue
        fq = flat(f.q)
        if f.name == "apply" and re.search(r"DynamicPatternFeatureImpl::apply$", fq):
            for n in f.all_nodes():
                if n.k == "CXXMemberCallExpr" and last(n.q) == "mix":
                    pass
            v, r = number(P, f)
            init = None
            for vd in f.all_nodes():
                if vd.k == "VarDecl" and vd.role("init") is not None and "FastHash" in vd.t:
                    st = {"env": {}, "this": ("this",), "ret": [], "depth": 3, "fn": f}
                    for i, p in enumerate(f.params):
                        st["env"][p["vid"]] = ("p", p.get("n") or "", i)
                    for v2 in f.all_nodes():
                        if v2.k == "VarDecl" and v2 is not vd and v2.role("init") is not None and v2.get("vid") is not None and v2.inside(vd) is False \
                                and not v2.get("n", "").startswith("__"):
                            st["env"][v2.get("vid")] = VN(P, inline=opaque_fn).val(v2.role("init"), st)
                    init = chain(VN(P, inline=opaque_fn).val(vd.role("init"), st))
                    break
            if init and init[0] is None and len(init[1]) >= 3:
                ops = init[1]
                site = "%s (%s)" % (fq.split("::", 4)[-1], f.where)
                R.ob("pattern-route", site, ops[0][0] == "f", "dynpattern/number", "the hash of a pattern starts with %s, in generated code with its number" % show(ops[0]))
                R.ob("pattern-route", site, const(ops[1]) is None and (ops[1][0] != "f" or ops[1] != ops[0]), "dynpattern/count",
                     "the second part is %s, in generated code the number of its features" % show(ops[1]))
                R.ob("pattern-route", site, const(ops[2]) is not None, "dynpattern/seed", "the third part is %s, in generated code the pattern constant" % show(ops[2]))
                for e in v.effects:
                    if e[1][0] == "p":
                        R.ob("pattern-route", site, e[2] == ops[0] or e[2][0] == "?", "dynpattern/place", "pattern number %s is kept at %s" % (show(ops[0]), show(e[2])))
        if f.name == "mixPrmitives":
            sides(P, R, f, lambda n: branch_name(n, f, P), "interpreting")
        if f.name == "printCompute":
            emit_sides(P, R, f)
        if f.name == "initialize" and "ExprComputeFeatureImpl" in fq:
            for c in f.calls():
                if last(c.q) == "push_back" and is_field(strip(c.obj)):
                    dst = strip(c.obj).q.split("::")[-1]
                    lp = enclosing(c, LOOPS)
                    src = None
                    for x in lp.c if lp is not None else ():
                        if x.r == "range":
                            for y in x.walk():
                                if is_field(y) and y.q.split("::")[-1] in ("trueBranch", "falseBranch"):
                                    src = y.q.split("::")[-1]
                    if src:
                        w = "true" if "true" in dst.lower() else "false" if "false" in dst.lower() else None
                        R.ob("pattern-route", "%s: `%s` for %s" % (c.loc, expr_str(c)[:60], src), w is None or src.startswith(w), "compute/init/" + dst,
                             "the features of %s are put into %s" % (src, dst))


def branch_name(n, f, P):
    for y in n.walk():
        if is_field(y):
            nm = y.q.split("::")[-1].lower()
            if "true" in nm:
                return "true"
            if "false" in nm:
                return "false"
    return None


def sides(P, R, f, name, what):
    """the loop over the features of the true branch runs when the condition is not zero"""
    for l in f.all_nodes():
        if l.k != "CXXForRangeStmt":
            continue
        rg = l.role("range")
        nm = name(rg) if rg is not None else None
        if nm is None:
            continue
        for a in l.ancestors():
            if a.k == "IfStmt":
                c = a.role("cond")
                n = strip(c)
                truth = None
                if n is not None and n.k == "BinaryOperator" and n.op in ("!=", "=="):
                    if any(strip(y) is not None and strip(y).v == 0 for y in n.c):
                        truth = n.op == "!="
                elif n is not None and n.k == "BinaryOperator" and n.op == ">" and strip(n.c[1]).v == 0:
                    truth = True
                elif n is not None and n.k == "UnaryOperator" and n.op == "!":
                    truth = False
                elif n is not None and n.k in ("DeclRefExpr",):
                    truth = True
                if truth is None:
                    break
                then = a.role("then")
                side = truth if then is not None and l.inside(then) else not truth
                R.ob("pattern-route", "%s: features of the %s branch (%s)" % (l.loc, nm, f.name), side == (nm == "true"), "compute/%s/%s" % (f.name, nm),
                     "the features of the %s branch are mixed when the condition is %s" % (nm, "not zero" if side else "zero"))
                break


def emit_sides(P, R, f):
    """the printed conditional: `!= 0` first, features of the true branch, `else`, features of the false branch"""
    ev = []
    for n in f.all_nodes():
        if n.k == "StringLiteral" and isinstance(n.get("s"), str):
            s = n.get("s")
            if "!= 0" in s:
                ev.append((n.i, "cond", True))
            elif "== 0" in s:
                ev.append((n.i, "cond", False))
            if re.search(r"\belse\b", s):
                ev.append((n.i, "else", None))
        if n.k == "CXXForRangeStmt" and n.role("range") is not None:
            nm = branch_name(n.role("range"), f, P)
            if nm:
                ev.append((n.i, "loop", nm))
    pos = {n.i: k for k, n in enumerate(order(f.body))}
    ev.sort(key=lambda e: pos.get(e[0], 0))
    side = None
    for _, k, x in ev:
        if k == "cond":
            side = x
        elif k == "else" and side is not None:
            side = not side
        elif k == "loop" and side is not None:
            R.ob("pattern-route", "%s (%s): features of the %s branch" % (f.name, f.where, x), (x == "true") == side, "compute/emit/" + x,
                 "the generated code mixes the features of the %s branch when the condition is %s" % (x, "not zero" if side else "zero"))


def order(n):
    """source order"""
    out = []

    def go(x):
        out.append(x)
        for y in x.c:
            go(y)
    go(n)
    return out


def factories(P, R):
    """one class per kind of primitive feature, in the interpreting code and in the generator; parameters from the same references"""
    dyn, emit = {}, {}
    for f in src_fns(P):
        if f.body is None or f.name not in ("initPrimitive", "primFeatureObjectName"):
            continue
        for n in f.all_nodes():
            if n.k != "CaseStmt":
                continue
            l = strip(n.role("lhs"))
            kind = (l.q or l.get("n") or "").split("::")[-1] if l is not None else None
            if not kind:
                continue
            stmts = case_body(n)
            if f.name == "initPrimitive":
                for s in stmts:
                    for x in s.walk():
                        m = re.search(r"DynamicPrimitiveFeature<(?:[\w:]*::)?(\w+)>", x.t or "") if x.k == "CXXNewExpr" or x.k in CTORS else None
                        if m:
                            dyn.setdefault(kind, (m.group(1), x))
            else:
                seq = []
                for s in stmts:
                    for x in order(s):
                        if x.k == "StringLiteral" and isinstance(x.get("s"), str) and re.fullmatch(r"\w+FeatureImpl|\w+PrimFeatureImpl", x.get("s")):
                            seq.append(("class", x.get("s"), x))
                        ix = None
                        if x.k == "CXXOperatorCallExpr" and x.op == "[]" and len(x.c) == 2:
                            o, ix = strip(x.c[0]), strip(x.c[1])
                        elif x.k == "CXXMemberCallExpr" and last(x.q) == "at" and x.args:
                            o, ix = strip(x.obj), strip(x.args[0])
                        if ix is not None and is_field(o) and o.q.endswith("::references") and ix.v is not None and not inside_call(x, s):
                            seq.append(("ref", int(ix.v), x))
                emit.setdefault(kind, seq)
    for kind, seq in emit.items():
        cls = next((x for k, x, _ in seq if k == "class"), None)
        if cls is None or kind not in dyn:
            continue
        n = next(x for k, _, x in seq if k == "class")
        R.ob("primitive-route", "%s: %s -> %s" % (n.loc, kind, cls), cls == dyn[kind][0], "prim/" + kind,
             "the generated code uses %s for %s, the interpreting code %s" % (cls, kind, dyn[kind][0]))
        # parameters
        refs = [x for k, x, _ in seq if k == "ref"]
        ctor = [g for g in P.fns.values() if g.is_ctor and flat(g.q).split("::")[-2:-1] == [cls] and g.inits and len(g.params) >= max(1, len(refs)) and
                not (len(g.params) == 1 and cls in g.params[0]["t"])]
        init = [g for g in P.fns.values() if g.name == "initialize" and flat(g.q).split("::")[-2:-1] == [cls] and g.body is not None]
        if not ctor or not init:
            continue
        fld = {}
        for d, x in ctor[0].inits:
            for y in x.walk() if x is not None else ():
                if y.k == "DeclRefExpr":
                    for i, p in enumerate(ctor[0].params):
                        if p["vid"] == y.get("vid"):
                            fld[i] = d["m"]
        got = {}
        for n2 in init[0].all_nodes():
            if n2.k == "BinaryOperator" and n2.op == "=":
                t, e = strip(n2.c[0]), strip(n2.c[1])
                ix = None
                for y in [e] if e is not None else []:
                    z = y
                    while z is not None and z.k not in ("CXXOperatorCallExpr", "CXXMemberCallExpr") and len(z.c) == 1:
                        z = strip(z.c[0])
                    if z is not None and z.k == "CXXOperatorCallExpr" and z.op == "[]" and len(z.c) == 2:
                        ix = strip(z.c[1])
                    elif z is not None and z.k == "CXXMemberCallExpr" and last(z.q) == "at" and z.args:
                        ix = strip(z.args[0])
                if is_field(t) and ix is not None and ix.v is not None:
                    got[t.q.split("::")[-1]] = int(ix.v)
        for i, r in enumerate(refs):
            m = fld.get(i)
            if m in got:
                R.ob("primitive-route", "%s: parameter %d of %s" % (n.loc, i, cls), got[m] == r, "prim/%s/%d" % (kind, i),
                     "%s is reference %d in generated code and reference %d in the interpreting code" % (m, r, got[m]))


def inside_call(x, top):
    for a in x.ancestors():
        if a is top:
            return False
        if a.is_call() and a.k != "CXXOperatorCallExpr":
            return True
    return False


def case_body(n):
    """statements of a case up to the next one"""
    out = [x for x in n.c if x.r not in ("lhs", "rhs")]
    par = n.p
    if par is not None and par.k == "CompoundStmt":
        k = par.c.index(n)
        for x in par.c[k + 1:]:
            if x.k in ("CaseStmt", "DefaultStmt"):
                break
            out.append(x)
    return out


# ------------------------------------------------------------------ generated code only for its own specification

def fingerprint(P, R):
    for f in src_fns(P):
        if f.body is None:
            continue
        uses = [c for c in f.calls() if last(c.q) in ("pattern", "ngram", "ngramPartial") and "StaticFeatureFactory" in (c.q or "")]
        if uses and not testfile(f.file):
            for c in uses:
                ok = guarded(P, f, c)
                R.ob("own-specification", "%s: `%s`" % (c.loc, expr_str(c)[:60]), ok, "%s/%s" % (f.name, last(c.q)),
                     "generated code is taken without comparing the specification of the model with the one it was generated from")
        if f.name == "hashSpec" and flat(f.q).endswith("spec::hashSpec"):
            got = set()
            for n in f.all_nodes():
                if is_field(n) and "AnalysisSpec::" in n.q:
                    got.add(n.q.split("::")[-1])
            have = next((c for c in P.classes if (c["q"] if isinstance(c, dict) else c).endswith("spec::AnalysisSpec")), None) if not isinstance(P.classes, dict) \
                else next((c for q, c in P.classes.items() if q.endswith("spec::AnalysisSpec")), None)
            fields = {x["n"] for x in have["fields"]} if have else set()
            for w in ("dictionary", "features"):
                if w in fields:
                    R.ob("own-specification", "hashSpec (%s): %s" % (f.where, w), w in got, "hashSpec/" + w,
                         "the %s part of a specification does not take part in its fingerprint" % w)
        if f.name == "hash" and "SpecHashImpl<" in f.q and f.params:
            # the value takes part in the hash
            p = f.params[-1]["vid"]
            uses = [n for n in f.all_nodes() if n.k == "DeclRefExpr" and n.get("vid") == p]
            R.ob("own-specification", "%s" % f.q.split("::", 3)[-1][:70], bool(uses), "SpecHash/" + f.q[-60:], "the value is not hashed")
            mixes = [n for n in f.all_nodes() if n.is_call() and (last(n.q) in ("mix", "merge", "hash", "Serialize", "operator&") or n.op == "&")]
            R.ob("own-specification", "%s" % f.q.split("::", 3)[-1][:70], bool(mixes), "SpecHash/mix/" + f.q[-60:], "the value is not mixed into the hash")
    # the fingerprint written into generated code
    for f in src_fns(P):
        if f.body is None or "feature_codegen" not in f.file or testfile(f.file):
            continue
        for n in f.all_nodes():
            if n.k == "StringLiteral" and isinstance(n.get("s"), str) and "runtimeHash" in n.get("s"):
                R.ob("own-specification", "%s (%s)" % (f.name, f.where), any(c.is_call() and last(c.q) == "hashSpec" for c in f.calls()),
                     "emit/runtimeHash", "generated code does not carry the fingerprint of its specification")


def guarded(P, f, c):
    """every way to the call passes hashSpec(..) == runtimeHash()"""
    cfg = f.cfg
    b = place(cfg, c)
    if b is None:
        return True

    def cut(a, p):
        n = strip(a)
        if n is None or n.k not in ("BinaryOperator", "CXXOperatorCallExpr") or n.op not in ("==", "!=") or len(n.c) != 2:
            return False
        if (n.op == "==") != p:
            return False
        names = set()
        for x in n.c:
            for y in deep(x):
                if y.is_call():
                    names.add(last(y.q))
        return "hashSpec" in names and "runtimeHash" in names
    ids = after(f, None, cut)
    return c.i not in ids and not executes(ids, c, f)


def pattern_number(P, R):
    for f in src_fns(P):
        if f.body is None or testfile(f.file):
            continue
        for x in f.all_nodes():
            if x.k == "BinaryOperator" and x.op == "=" and is_field(strip(x.c[0])) and strip(x.c[0]).q.endswith("DynamicPatternFeatureImpl::index_"):
                v = strip(x.c[1])
                if is_field(v) and "PatternFeatureDescriptor::" in v.q:
                    R.ob("construction", "%s: `%s`" % (x.loc, expr_str(x)), v.q.endswith("::index"), "pattern/number",
                         "the number of a pattern is its %s" % v.q.split("::")[-1])


def case_value(f, n):
    for x in n.walk():
        if x.k == "ReturnStmt" and x.c:
            v = strip(x.c[0])
            return v.v if v is not None and isinstance(v.v, (int, float)) else None
    return None


def uni_only(P, R):
    """patterns used only by unigrams come last; their number cuts the rows"""
    for f in src_fns(P):
        if f.body is None or testfile(f.file):
            continue
        # the order of the patterns
        sw = [x for x in f.all_nodes() if x.k == "SwitchStmt" and x.role("cond") is not None and
              any(is_field(y) and y.q.endswith("PatternFeatureInfo::usage") for y in x.role("cond").walk())]
        for s in sw:
            val, fall = {}, []
            for x in order(s):
                if x.k == "CaseStmt":
                    l = strip(x.role("lhs"))
                    if l is not None and isinstance(l.v, (int, float)):
                        fall.append(int(l.v))
                elif x.k == "ReturnStmt" and x.c and fall:
                    v = strip(x.c[0])
                    for k in fall:
                        val[k] = v.v if v is not None else None
                    fall = []
            if isinstance(val.get(1), (int, float)):
                bad = [k for k in range(2, 8) if isinstance(val.get(k), (int, float)) and val[k] >= val[1]]
                R.ob("uni-only", "%s: order of patterns by usage (%s)" % (s.loc, f.name), not bad, "order",
                     "patterns with usage %s are not put before those used only by unigrams" % ", ".join(bin(k) for k in bad))
        for x in f.all_nodes():
            if x.k in ("BinaryOperator", "CompoundAssignOperator") and x.op == "|=":
                t = strip(x.c[0])
                if is_field(t) and t.q.endswith("PatternFeatureInfo::usage"):
                    e = strip(x.c[1])
                    if e is not None and e.k == "BinaryOperator" and e.op == "<<":
                        a, b = strip(e.c[0]), strip(e.c[1])
                        ok = a is None or a.v is None or a.v == 1
                        if b is not None and b.k == "BinaryOperator" and b.op == "-":
                            ok = ok and (strip(b.c[1]) is None or strip(b.c[1]).v in (None, 1))
                        elif b is not None and b.k == "DeclRefExpr" and single_def(b) is not None:
                            d = strip(single_def(b))
                            ok = ok and not (d is not None and d.is_call() and last(d.q) == "size")
                        R.ob("uni-only", "%s: `%s`" % (x.loc, expr_str(x)), ok, "usage",
                             "an n-gram of order k is noted in bit k - 1")
            if x.k == "BinaryOperator" and x.op == "-":
                b = strip(x.c[1])
                if is_field(b) and b.q.endswith("FeaturesSpec::numUniOnlyPats"):
                    a = strip(x.c[0])
                    o = strip(a.obj) if a is not None and a.is_call() and last(a.q) == "size" and a.obj is not None else None
                    nm = (o.q or "").split("::")[-1] if is_field(o) else None
                    R.ob("uni-only", "%s: `%s`" % (x.loc, expr_str(x)), nm is None or "pattern" in nm.lower(), "cut/%s" % f.name,
                         "the number of unigram-only patterns is taken from the number of %s" % nm)
            if x.k in ("BinaryOperator",) and x.op == "=" and is_field(strip(x.c[0])) and strip(x.c[0]).q.endswith("FeaturesSpec::numUniOnlyPats"):
                v = strip(x.c[1])
                if v is None or v.k != "DeclRefExpr":
                    continue
                for y in f.all_nodes():
                    if y.k in ("CompoundAssignOperator", "UnaryOperator", "BinaryOperator") and y.op in ("+=", "++", "post++") and \
                            strip(y.c[0]) is not None and strip(y.c[0]).get("vid") == v.get("vid"):
                        for c in controlling_conds(y):
                            for m in c.walk():
                                if m.k == "BinaryOperator" and m.op in ("==", "!=", "&", ">=", "<=", "<", ">") and \
                                        any(is_field(strip(z)) and strip(z).q.split("::")[-1] == "usage" for z in m.c):
                                    o = next(strip(z) for z in m.c if not (is_field(strip(z)) and strip(z).q.split("::")[-1] == "usage"))
                                    R.ob("uni-only", "%s: `%s`" % (m.loc, expr_str(m)), m.op in ("==", "!=") and (o is None or o.v in (None, 1)), "count",
                                         "patterns used only by unigrams are those whose usage is 1")


def controlling_conds(n):
    for a in n.ancestors():
        if a.k == "IfStmt" and a.role("cond") is not None:
            yield a.role("cond")
        if a.k in LOOPS:
            return


def whole_sum(P, R):
    """unrolled sums take every element once"""
    done = set()
    for f in P.fns.values():
        if f.body is None or not f.file.startswith("src/") or testfile(f.file) or not last(f.q).startswith("computeUnrolled4"):
            continue
        if f.where in done:
            continue
        done.add(f.where)

        def offset(n):
            for y in n.walk():
                if y.k == "CXXMemberCallExpr" and last(y.q) == "at" and y.args or y.k == "CXXOperatorCallExpr" and y.op == "[]":
                    a = strip(y.args[0] if y.k == "CXXMemberCallExpr" else y.c[1])
                    if a is None:
                        continue
                    if a.k == "DeclRefExpr" and a.get("vid") in steps:
                        return 0
                    if a.k == "BinaryOperator" and a.op == "+" and strip(a.c[0]) is not None and strip(a.c[0]).get("vid") in steps and \
                            isinstance(strip(a.c[1]).v, (int, float)):
                        return int(strip(a.c[1]).v)
            return None
        steps, accs = {}, {}
        for x in f.all_nodes():
            if x.k in ("CompoundAssignOperator", "BinaryOperator") and x.op == "+=" and x.t in ("int", "unsigned int", "unsigned long", "long"):
                t, v = strip(x.c[0]), strip(x.c[1])
                if t is not None and t.k == "DeclRefExpr" and v is not None and isinstance(v.v, (int, float)):
                    steps[t.get("vid")] = int(v.v)
        if len(steps) != 1:
            continue
        step = list(steps.values())[0]
        tail = {}
        for l in f.all_nodes():
            if l.k in LOOPS and l.role("body") is not None:
                got = []
                for x in l.role("body").walk():
                    if x.k in ("CompoundAssignOperator", "BinaryOperator") and x.op == "+=" and x.t == "float":
                        o = offset(x.c[1])
                        if o is not None:
                            got.append(o)
                            accs.setdefault(strip(x.c[0]).get("vid"), strip(x.c[0]).get("n"))
                if got and None not in got:
                    R.ob("whole-sum", "%s: %s per round" % (l.loc, last(f.q)), sorted(got) == list(range(step)), last(f.q) + "/round",
                         "a round adds elements %s and moves on by %d" % (sorted(got), step))
                c = strip(l.role("cond")) if l.role("cond") is not None else None
                if got and c is not None and c.k == "BinaryOperator" and c.op in ("<=", "<"):
                    a = strip(c.c[0])
                    if a is not None and a.k == "BinaryOperator" and a.op == "+" and isinstance(strip(a.c[1]).v, (int, float)):
                        k = int(strip(a.c[1]).v) + (0 if c.op == "<=" else 1)
                        R.ob("whole-sum", "%s: `%s`" % (c.loc, expr_str(c)), k == step, last(f.q) + "/bound",
                             "a round of %d elements starts when %d are left" % (step, k))
        for s in f.all_nodes():
            if s.k != "SwitchStmt":
                continue
            live, covered = [], {}
            for x in order(s):
                if x.k == "CaseStmt":
                    l = strip(x.role("lhs"))
                    if l is not None and isinstance(l.v, (int, float)):
                        live.append(int(l.v))
                elif x.k in ("BreakStmt", "ReturnStmt"):
                    live = []
                elif x.k in ("CompoundAssignOperator", "BinaryOperator") and x.op == "+=" and x.t == "float":
                    o = offset(x.c[1])
                    accs.setdefault(strip(x.c[0]).get("vid"), strip(x.c[0]).get("n"))
                    for k in live:
                        covered.setdefault(k, []).append(o)
            for k in range(1, step):
                if k in covered and None in covered[k]:
                    continue
                R.ob("whole-sum", "%s: %s, %d left" % (s.loc, last(f.q), k), sorted(covered.get(k, [])) == list(range(k)), last(f.q) + "/tail%d" % k,
                     "with %d elements left, %s are added" % (k, covered.get(k, [])))
        for x in f.all_nodes():
            if x.k == "ReturnStmt" and x.c and accs:
                used = [y.get("vid") for y in x.c[0].walk() if y.k == "DeclRefExpr" and y.get("vid") in accs]
                if used:
                    R.ob("whole-sum", "%s: %s" % (x.loc, last(f.q)), sorted(used) == sorted(accs), last(f.q) + "/return",
                         "of the partial sums %s, %s are returned" % (sorted(accs.values()), sorted(accs[u] for u in used)))


def run(P, R):
    R.rule("uni-only", "patterns used only by unigrams come last, so that rows cut by their number keep all others")
    R.rule("whole-sum", "an unrolled sum of weights takes every element once")
    R.rule("formula", "every hash of an n-gram feature is (order + 2, its number, the constant of its order, then the patterns of the word, of the one before, and of the one "
           "before that), split at most between patterns, and kept at the place of the feature")
    R.rule("its-own-slot", "a method of a feature writes to the place of that feature")
    R.rule("slices-in-order", "patterns of the word, of the one before it and of the one before that are handed over as such")
    R.rule("row-of-the-score", "in loops that hash one row while adding up the weights of another, the score of a row is stored for that row")
    R.rule("construction", "place, number and patterns of a feature are its own")
    R.rule("steps", "a step works on the features of its order and keeps a state or a value as the next step expects")
    R.rule("buffers", "states are kept in rows as wide as the number of features of the order, and read back from where they were written")
    R.rule("kernel", "the joint computation continues the state of a place with the patterns of the same place, from the rows of the right word")
    R.rule("generated", "the tables of generated code describe the same features in all of its parts")
    R.rule("pattern-route", "a pattern feature hashes its number, the number of its features, the pattern constant and its features; conditional ones the same way in both routes")
    R.rule("primitive-route", "a kind of primitive feature has the same class and parameters in both routes")
    R.rule("own-specification", "generated code is used only for the specification it was generated from")
    seeds = all_at_once(P, R)
    role = roles(P, R, seeds)
    slices_in_order(P, R)
    pipelines(P, R)
    per_word(P, R)
    emitted(P, R)
    construction(P, R, role)
    dynamic_steps(P, R)
    counts = generated(P, R, role, seeds)
    widths(P, R, counts)
    step_order(P, R)
    interpreting(P, R)
    factories(P, R)
    fingerprint(P, R)
    uni_only(P, R)
    pattern_number(P, R)
    whole_sum(P, R)

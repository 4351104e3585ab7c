"""Program model over the facts: functions, trees, CFGs, call graph, dataflow helpers."""
import re
from collections import defaultdict

CALLS = {"CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral"}
CTORS = {"CXXConstructExpr", "CXXTemporaryObjectExpr"}


class Node:
    __slots__ = ("i", "k", "l", "t", "c", "p", "d", "fn", "r")

    def __init__(self, d, parent, fn):
        self.d = d
        self.p = parent
        self.fn = fn
        self.i = d["i"]
        self.k = d["k"]
        self.l = d.get("l", 0)
        self.t = d.get("t", "")
        self.r = d.get("r")
        fn.nodes[self.i] = self
        self.c = [Node(x, self, fn) for x in d.get("c", ())]

    def get(self, k, dflt=None):
        return self.d.get(k, dflt)

    @property
    def q(self):
        return self.d.get("q", "")

    @property
    def op(self):
        return self.d.get("op", "")

    @property
    def m(self):
        return self.d.get("m", "")

    @property
    def v(self):
        x = self.d.get("v")
        return None if x is None else int(x)

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed(n.c))

    def role(self, r):
        for x in self.c:
            if x.r == r:
                return x
        return None

    def roles(self, r):
        return [x for x in self.c if x.r == r]

    @property
    def args(self):
        if self.k in CTORS:
            return self.c
        return [x for x in self.c if x.r == "arg"]

    @property
    def obj(self):
        return self.role("obj")

    def is_call(self):
        return self.k in CALLS

    def ancestors(self):
        n = self.p
        while n is not None:
            yield n
            n = n.p

    def inside(self, other):
        n = self
        while n is not None:
            if n is other:
                return True
            n = n.p
        return False

    @property
    def loc(self):
        return "%s:%d" % (self.fn.file, self.l)

    def __repr__(self):
        return "<%s #%d %s>" % (self.k, self.i, self.loc)


class Block:
    __slots__ = ("id", "e", "term", "cond", "s", "p", "noret", "label")

    def __init__(self, d):
        self.id = d["id"]
        self.e = d["e"]
        self.term = d.get("term")
        self.cond = d.get("cond")
        self.s = d["s"]
        self.p = []
        self.noret = d.get("noret", 0)
        self.label = d.get("label")


class Cfg:
    def __init__(self, fn, d):
        self.fn = fn
        self.entry = d["entry"]
        self.exit = d["exit"]
        self.b = {}
        for x in d["b"]:
            self.b[x["id"]] = Block(x)
        self._named_conditions()
        for b in self.b.values():
            for s in b.s:
                if s >= 0:
                    self.b[s].p.append(b.id)
        # reachable
        seen = {self.entry}
        st = [self.entry]
        while st:
            n = st.pop()
            for s in self.b[n].s:
                if s >= 0 and s not in seen:
                    seen.add(s)
                    st.append(s)
        self.reach = seen
        self.pos = {}
        for b in self.b.values():
            for idx, e in enumerate(b.e):
                if isinstance(e, int) and e not in self.pos:
                    self.pos[e] = (b.id, idx)
        self._dom = None
        self._pdom = None

    def _named_conditions(self):
        """bool c = a && b; if (c) ..  has the same edges as  if (a && b) .."""
        nodes = None
        for J in self.b.values():
            if J.cond is None or len(J.s) != 2 or not J.e:
                continue
            if nodes is None:
                nodes = self.fn.nodes
            x, flip = _bare(nodes[J.cond])
            if x is None or x.k != "DeclRefExpr" or x.get("dk") != "local" or (x.t or "").replace("const ", "") != "bool":
                continue
            own = {y.i for y in nodes[J.cond].walk()}
            at = next((i for i in range(len(J.e) - 1, -1, -1) if not (isinstance(J.e[i], int) and J.e[i] in own)), None)
            st = nodes.get(J.e[at]) if at is not None and isinstance(J.e[at], int) else None
            if st is None or st.k != "DeclStmt" or len(st.c) != 1 or st.c[0].get("vid") != x.get("vid") or len(st.c[0].c) != 1:
                continue
            init = st.c[0].c[0]
            v, turned = _bare(init)
            flip ^= turned
            succ = [J.s[1], J.s[0]] if flip else list(J.s)
            if v.k == "BinaryOperator" and v.op in ("&&", "||"):
                # only the pieces of the condition may stand in the block
                pieces = {y.i for y in init.walk()} | own | {st.i, st.c[0].i}
                if any(not isinstance(e, int) or e not in pieces for e in J.e):
                    continue
                preds = [b for b in self.b.values() if J.id in b.s]
                if any(len(b.s) == 2 and (b.cond is None or b.s[0] == b.s[1] or nodes[b.cond].i not in pieces) or len(b.s) not in (1, 2) for b in preds):
                    continue
                if not any(len(b.s) == 1 for b in preds):
                    continue
                for b in preds:
                    if len(b.s) == 1:
                        b.cond, b.term, b.s = v.i, J.term, list(succ)
                    else:
                        b.s = [succ[i] if t == J.id else t for i, t in enumerate(b.s)]
            else:
                J.cond, J.s = v.i, succ

    def order(self):
        # reverse postorder
        seen = set()
        out = []
        st = [(self.entry, iter([s for s in self.b[self.entry].s if s >= 0]))]
        seen.add(self.entry)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter([x for x in self.b[s].s if x >= 0])))
                    break
            else:
                out.append(n)
                st.pop()
        out.reverse()
        return out

    def doms(self):
        if self._dom is None:
            self._dom = _dominators(self.order(), self.entry, lambda n: self.b[n].p)
        return self._dom

    def dominates_block(self, a, b):
        return a in self.doms().get(b, ())

    def dominates(self, a, b):
        """node a is evaluated on every path before node b"""
        wa, wb = self.where(a), self.where(b)
        if wa is None or wb is None:
            return False
        return wa[1] < wb[1] if wa[0] == wb[0] else self.dominates_block(wa[0], wb[0])

    def where(self, node):
        """(block, idx) of a node, or of the nearest enclosing/contained element."""
        n = node
        while n is not None:
            if n.i in self.pos:
                return self.pos[n.i]
            # statement that owns no element itself (e.g. ReturnStmt has one; CompoundStmt not)
            n = n.p
        return None

    def stmts_after(self, node):
        """Every element possibly executed after node (node ids), by forward reachability."""
        w = self.where(node)
        if w is None:
            return set()
        b, i = w
        out = set(e for e in self.b[b].e[i + 1:] if isinstance(e, int))
        seen = set()
        st = [s for s in self.b[b].s if s >= 0]
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            out.update(e for e in self.b[n].e if isinstance(e, int))
            st.extend(s for s in self.b[n].s if s >= 0)
        return out

    def path_exists(self, src, dst_nodes, avoid=frozenset(), to_exit=False):
        """Is there a path from just after node src (None = entry) to one of dst_nodes
        (node ids) or the exit, not executing any element in avoid?  Returns True/False."""
        if src is None:
            start, idx = self.entry, 0
        else:
            w = self.where(src)
            if w is None:
                return False
            start, idx = w[0], w[1] + 1

        def scan(b, i0):
            for e in self.b[b].e[i0:]:
                if isinstance(e, int):
                    if e in avoid:
                        return "stop"
                    if e in dst_nodes:
                        return "hit"
            return None
        seen = set()
        st = [(start, idx)]
        while st:
            b, i0 = st.pop()
            r = scan(b, i0)
            if r == "hit":
                return True
            if r == "stop":
                continue
            if b == self.exit and to_exit:
                return True
            for s in self.b[b].s:
                if s >= 0 and s not in seen:
                    seen.add(s)
                    st.append((s, 0))
        return False


def _sum(n):
    """t = t + e is t += e"""
    v = _uncast(n.c[1])
    if v.k != "BinaryOperator" or v.op not in ("+", "-", "*", "/", "%", "|", "&", "^", "<<", ">>") or len(v.c) != 2:
        return
    if _same(n.c[0], v.c[0]):
        e = v.c[1]
    elif v.op in ("+", "*", "|", "&", "^") and _same(n.c[0], v.c[1]):
        e = v.c[0]
    else:
        return
    n.k = "CompoundAssignOperator"
    n.d = dict(n.d, op=v.op + "=")
    e.p, e.r = n, n.c[1].r
    n.c = [n.c[0], e]


def _uncast(n):
    while (n.k == "ParenExpr" or n.k.endswith("CastExpr")) and n.c:
        n = n.c[0]
    return n


def _same(a, b):
    """the same place, named without side effects"""
    a, b = _uncast(a), _uncast(b)
    if a.k != b.k or len(a.c) != len(b.c) or a.q != b.q or a.op != b.op or a.get("vid") != b.get("vid") or a.get("v") != b.get("v"):
        return False
    if a.k in ("UnaryOperator",) and a.op in ("++", "--") or a.is_call() and not (a.k == "CXXOperatorCallExpr" and a.op == "[]"):
        return False
    if a.k in CTORS or a.k in ("BinaryOperator", "CompoundAssignOperator") and a.op.endswith("=") and a.op not in ("==", "<=", ">=", "!="):
        return False
    if a.k not in ("DeclRefExpr", "MemberExpr", "UnaryOperator", "BinaryOperator", "ArraySubscriptExpr", "CXXOperatorCallExpr", "CXXThisExpr",
                   "IntegerLiteral"):
        return False
    return all(_same(x, y) for x, y in zip(a.c, b.c))


def _bare(n):
    """the condition without casts and negations, and whether it was negated"""
    flip = False
    while n is not None and n.c:
        if n.k == "UnaryOperator" and n.op == "!":
            flip = not flip
        elif not (n.k == "ParenExpr" or n.k == "ExprWithCleanups" or n.k.endswith("CastExpr") and n.get("ck") != "UserDefinedConversion"):
            break
        n = n.c[0]
    return n, flip


def _dominators(order, root, preds):
    allb = set(order)
    dom = {n: None for n in order}
    dom[root] = {root}
    ch = True
    while ch:
        ch = False
        for n in order:
            if n == root:
                continue
            new = None
            for p in preds(n):
                if p in allb and dom[p] is not None:
                    new = set(dom[p]) if new is None else (new & dom[p])
            new = (new or set()) | {n}
            if new != dom[n]:
                dom[n] = new
                ch = True
    return dom


class Fn:
    def __init__(self, d, prog):
        self.d = d
        self.prog = prog
        self.key = d["key"]
        self.q = d["q"]
        self.file = d["file"]
        self.line = d["line"]
        self.ret = d["ret"]
        self.cls = d.get("cls", "")
        self.params = d["params"]
        self._nodes = None
        self._cfg = None

    def _build(self):
        self._nodes = {}
        self._inits = []
        for x in self.d.get("inits", ()):
            n = Node(x["e"], None, self) if x.get("e") else None
            self._inits.append((x, n))
        self._body = Node(self.d["body"], None, self)
        for n in list(self._nodes.values()):
            if n.k == "BinaryOperator" and n.op == "=" and len(n.c) == 2:
                _sum(n)

    @property
    def nodes(self):
        if self._nodes is None:
            self._build()
        return self._nodes

    @property
    def body(self):
        self.nodes
        return self._body

    @property
    def inits(self):
        self.nodes
        return self._inits

    @property
    def cfg(self):
        if self._cfg is None and "cfg" in self.d:
            self._cfg = Cfg(self, self.d["cfg"])
        return self._cfg

    @property
    def name(self):
        q = re.sub(r"<[^<>]*>", "", self.q)
        return q.split("::")[-1]

    def all_nodes(self):
        for _, n in self.inits:
            if n is not None:
                yield from n.walk()
        yield from self.body.walk()

    def calls(self):
        for n in self.all_nodes():
            if n.is_call():
                yield n

    @property
    def is_ctor(self):
        return bool(self.d.get("ctor"))

    @property
    def is_dtor(self):
        return bool(self.d.get("dtor"))

    @property
    def where(self):
        return "%s:%d (%s)" % (self.file, self.line, self.q)

    def __repr__(self):
        return "<Fn %s %s:%d>" % (self.q, self.file, self.line)


class Program:
    def __init__(self, data):
        self.data = data
        self.tus = data["tus"]
        self.gen = data["gen"]
        self.fns = {}
        self.classes = {}
        self.class_by_q = defaultdict(list)
        self.class_by_t = {}
        self.enums = {}
        self.vars = {}
        self.by_q = defaultdict(list)
        self.dups = set()
        import canon
        self.renamed = canon.apply(data["objs"])
        self.warnings = [o for o in data["objs"] if o["kind"] == "warn"]
        for o in data["objs"]:
            k = o["kind"]
            if k == "fn":
                f = Fn(o, self)
                if f.key in self.fns:
                    g = self.fns[f.key]
                    if g.key == f.key and "#" not in g.key:
                        self.fns[g.key + "#" + g.file] = g
                        self.dups.add(g.key)
                    f.key = f.key + "#" + f.file
                self.fns[f.key] = f
                self.by_q[f.q].append(f)
            elif k == "class":
                self.classes[o["key"]] = o
                self.class_by_q[o["q"]].append(o)
                self.class_by_t[o["t"]] = o
            elif k == "enum":
                self.enums[o["q"]] = o
            elif k == "var":
                self.vars[o["key"]] = o
        for k in self.dups:
            g = self.fns.pop(k)
            g.key = k + "#" + g.file
        self._callers = None
        self._ovr = None

    # ---- lookups
    def fn(self, q, cls=None):
        """the unique function with qualified name q (suffix match on ::)"""
        r = self.find(q)
        from facts import Broken
        if not r:
            raise Broken("anchor function %s not found" % q)
        return r[0]

    def find(self, q):
        if q in self.by_q:
            return list(self.by_q[q])
        suf = "::" + q
        res = []
        for name, l in self.by_q.items():
            if name.endswith(suf):
                res.extend(l)
        return res

    def cls(self, q):
        r = self.find_cls(q)
        from facts import Broken
        if not r:
            raise Broken("anchor class %s not found" % q)
        return r[0]

    def find_cls(self, q):
        if q in self.class_by_q:
            return list(self.class_by_q[q])
        suf = "::" + q
        res = []
        for name, l in self.class_by_q.items():
            if name.endswith(suf):
                res.extend(l)
        return res

    # ---- virtual dispatch: key of declared method -> overriders' keys (transitive)
    @property
    def overriders(self):
        if self._ovr is None:
            up = defaultdict(set)
            for c in self.classes.values():
                for m in c["methods"]:
                    for o in m.get("ovr", ()):
                        up[o].add(m["key"])
            # transitive
            res = {}

            def get(k):
                if k in res:
                    return res[k]
                res[k] = set()
                s = set(up.get(k, ()))
                for x in list(s):
                    s |= get(x)
                res[k] = s
                return s
            for k in list(up):
                get(k)
            self._ovr = res
        return self._ovr

    def targets(self, call):
        """possible Fn targets of a call node (virtual calls resolved to all overriders)"""
        k = call.get("key")
        if not k:
            return []
        out = []
        if k in self.dups:
            k2 = k + "#" + call.fn.file
            if k2 in self.fns:
                return [self.fns[k2]]
            return [f for kk, f in self.fns.items() if kk.startswith(k + "#")]
        if k in self.fns:
            out.append(self.fns[k])
        if call.get("virt"):
            for o in self.overriders.get(k, ()):
                if o in self.fns:
                    out.append(self.fns[o])
        return out

    def lambdas_in(self, fn):
        for n in fn.all_nodes():
            if n.k == "LambdaExpr" and n.get("fn") in self.fns:
                yield self.fns[n.get("fn")]

    def callees(self, fn):
        """keys of every function fn may call directly (incl. ctors, virtual overriders, lambdas defined in it)"""
        c = fn.__dict__.get("_callees")
        if c is not None:
            return c
        out = set()
        for n in fn.all_nodes():
            if n.is_call() or n.k in CTORS:
                for t in self.targets(n):
                    out.add(t.key)
            elif n.k == "LambdaExpr":
                if n.get("fn") in self.fns:
                    out.add(n.get("fn"))
            elif n.k == "DeclRefExpr" and n.get("dk") == "fn":
                if n.get("key") in self.fns:
                    out.add(n.get("key"))
        fn._callees = out
        return out

    def reachable(self, roots, stop=lambda f: False):
        seen = {}
        st = []
        for r in roots:
            seen[r.key] = None
            st.append(r)
        while st:
            f = st.pop()
            if stop(f):
                continue
            for k in self.callees(f):
                if k not in seen:
                    seen[k] = f.key
                    st.append(self.fns[k])
        return seen

    def path_to(self, seen, key):
        out = []
        while key is not None:
            out.append(self.fns[key].q)
            key = seen[key]
        return " <- ".join(out)

    @property
    def callers(self):
        if self._callers is None:
            self._callers = defaultdict(list)
            for f in self.fns.values():
                for n in f.all_nodes():
                    if n.is_call() or n.k in CTORS:
                        for t in self.targets(n):
                            self._callers[t.key].append(n)
        return self._callers


def short(q):
    q = re.sub(r"jumanpp::(core::|jumandic::|util::)?", "", q)
    return q


# ------------------------------------------------------------------ printing
def expr_str(n, depth=0):
    if n is None:
        return ""
    k = n.k
    if depth > 12:
        return "..."
    e = lambda x: expr_str(x, depth + 1)
    if k == "DeclRefExpr":
        return n.get("n") or n.q.split("::")[-1]
    if k == "MemberExpr":
        b = e(n.c[0]) if n.c else ""
        if n.c and n.c[0].k == "CXXThisExpr":
            return n.m
        return b + ("->" if n.get("arrow") else ".") + n.m
    if k == "CXXThisExpr":
        return "this"
    if k in ("IntegerLiteral", "CharacterLiteral", "CXXBoolLiteralExpr"):
        return str(n.get("v"))
    if k == "FloatingLiteral":
        return str(n.get("fv"))
    if k == "StringLiteral":
        return repr(n.get("s"))
    if k in ("BinaryOperator", "CompoundAssignOperator"):
        return "(%s %s %s)" % (e(n.c[0]), n.op, e(n.c[1]))
    if k == "UnaryOperator":
        return (e(n.c[0]) + n.op) if n.get("post") else (n.op + e(n.c[0]))
    if k == "CXXMemberCallExpr":
        return "%s.%s(%s)" % (e(n.obj), n.q.split("::")[-1], ", ".join(e(a) for a in n.args))
    if k == "CXXOperatorCallExpr":
        a = n.args
        if n.op == "[]":
            return "%s[%s]" % (e(a[0]), e(a[1]))
        if n.op == "()":
            return "%s(%s)" % (e(a[0]), ", ".join(e(x) for x in a[1:]))
        if len(a) == 2:
            return "(%s %s %s)" % (e(a[0]), n.op, e(a[1]))
        return "%s%s" % (n.op, e(a[0]) if a else "")
    if k == "CallExpr":
        return "%s(%s)" % (n.q.split("::")[-1] or e(n.role("callee")), ", ".join(e(a) for a in n.args))
    if k in CTORS:
        if len(n.c) == 1 and (n.get("copy") or n.get("move")):
            return e(n.c[0])
        return "%s{%s}" % (n.t.split("::")[-1], ", ".join(e(a) for a in n.c))
    if k == "ArraySubscriptExpr":
        return "%s[%s]" % (e(n.c[0]), e(n.c[1]))
    if k in ("ImplicitCastExpr",):
        return e(n.c[0])
    if k.endswith("CastExpr"):
        return "(%s)%s" % (n.t.split("::")[-1], e(n.c[0]) if n.c else "")
    if k == "ConditionalOperator":
        return "(%s ? %s : %s)" % tuple(e(x) for x in n.c[:3])
    if k == "UnaryExprOrTypeTraitExpr":
        return "sizeof(%s)" % n.get("at")
    if k == "ReturnStmt":
        return "return " + (e(n.c[0]) if n.c else "")
    if k == "VarDecl":
        return "%s %s = %s" % (n.t.split("::")[-1], n.get("n"), e(n.c[0]) if n.c else "")
    if k == "DeclStmt":
        return "; ".join(e(x) for x in n.c)
    return "%s(%s)" % (k, ", ".join(e(x) for x in n.c))

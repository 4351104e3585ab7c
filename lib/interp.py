"""Finite interpretation of small pure functions (comparators, equalities, conditions) over symbolic scalar keys.

Every maximal part of an expression which depends on one element only is a key; the function is evaluated over all small
assignments of values to the keys of its elements.  Whatever is not understood raises Unsupported."""
import itertools, re
from model import *
from dfl import var_defs, peel

CMP = {"<": lambda x, y: x < y, ">": lambda x, y: x > y, "<=": lambda x, y: x <= y, ">=": lambda x, y: x >= y,
       "==": lambda x, y: x == y, "!=": lambda x, y: x != y}
ARI = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}
THREE = re.compile(r"(^|::)(strncmp|strcmp|memcmp|compare|compareTo)$")
WRAP = {"ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr",
        "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CXXDefaultArgExpr"}
DEPENDENT = "$"


class Unsupported(Exception):
    pass


class SelfCompare(Exception):
    def __init__(self, node):
        self.node = node


def bare(n):
    while n is not None:
        if n.k in WRAP and n.c:
            n = n.c[-1]
        elif n.k in CTORS and len(n.c) == 1 and (n.get("copy") or n.get("move")):
            n = n.c[0]
        elif n.is_call() and n.q in ("std::move", "std::forward", "std::ref", "std::cref") and n.args:
            n = n.args[0]
        elif n.k == "CXXMemberCallExpr" and "::operator " in (n.q or "") and not n.args and n.obj is not None:
            n = n.obj
        else:
            return n
    return n


class Interp:
    """one function; elems: vids of its element parameters ('this' for the object of a member operator)"""

    def __init__(self, P, fn, elems):
        self.P, self.fn = P, fn
        self.top = {v: "$%d" % i for i, v in enumerate(elems)}
        self.types = {}          # key -> type
        self.keys = set()        # keys of elements, written with $
        self.consts = set()
        self.val = None
        self.selfcmp = []
        self.cache = {}

    # ---- texts
    def text(self, n, bind, depth=0):
        """normal form of an expression with element i written $i"""
        if depth > 40:
            raise Unsupported("deep")
        n = bare(n)
        if n is None:
            return ""
        if n.v is not None and not isinstance(n.v, str) and n.k not in ("DeclRefExpr",):
            return str(n.v)
        if n.k == "UnaryOperator" and n.op in ("*", "&"):
            return self.text(n.c[0], bind, depth + 1)
        if n.k == "CXXThisExpr":
            return bind.get("this", "this")
        if n.k == "DeclRefExpr":
            vid = n.get("vid")
            if vid in bind:
                b = bind[vid]
                return b if isinstance(b, str) else self.text(b[0], b[1], depth + 1)
            if n.get("dk") == "local":
                ds = var_defs(n.fn).get(vid, [])
                if ds and n.fn is self.curfn(n):
                    parts = []
                    for d in ds:
                        if any(x.k == "DeclRefExpr" and x.get("vid") == vid for x in d.walk()):
                            parts.append("rec(%s)" % ",".join(self.text(x, bind, depth + 1) for x in d.walk()
                                                              if x.k == "DeclRefExpr" and x.get("vid") != vid))
                        else:
                            parts.append(self.text(d, bind, depth + 1))
                    return "|".join(parts) if len(parts) > 1 else parts[0]
            return n.get("n") or n.q or "v%s" % vid
        if n.k == "MemberExpr":
            base = self.text(n.c[0], bind, depth + 1) if n.c else "this"
            return "%s.%s" % (base, n.m)
        if n.is_call():
            inl = self.trivial(n)
            if inl is not None:
                f, e = inl
                b = {p["vid"]: (a, bind) for p, a in zip(f.params, n.args)}
                if n.obj is not None:
                    b["this"] = self.text(n.obj, bind, depth + 1)
                elif n.k == "CXXOperatorCallExpr" and f.cls and len(n.args) == len(f.params) + 1:
                    b = {p["vid"]: (a, bind) for p, a in zip(f.params, n.args[1:])}
                    b["this"] = self.text(n.args[0], bind, depth + 1)
                return self.text(e, b, depth + 1)
            args = [self.text(a, bind, depth + 1) for a in n.args]
            if n.obj is not None:
                args = [self.text(n.obj, bind, depth + 1)] + args
            return "%s(%s)" % ((n.q or n.op or "call").split("::")[-1], ",".join(args))
        return "%s%s[%s]" % (n.k, n.op or "", ",".join(self.text(c, bind, depth + 1) for c in n.c))

    def curfn(self, n):
        return n.fn

    def trivial(self, n):
        """a called function which is a single return of an expression"""
        ts = [t for t in self.P.targets(n) if t.body is not None]
        if len(ts) != 1 or ts[0].file.startswith("/usr"):
            return None
        rs = [x for x in ts[0].body.c]
        if len(rs) == 1 and rs[0].k == "ReturnStmt" and rs[0].c:
            return ts[0], rs[0].c[0]
        return None

    # ---- values
    def leaf(self, n, bind):
        t = self.text(n, bind)
        who = sorted(set(re.findall(r"\$(\d)", t)))
        if not who:
            self.consts.add(t)
            self.types.setdefault(t, n.t or "")
            return self.val.get(("K", t), 0)
        if len(who) > 1:
            raise Unsupported("depends on both: " + t)
        k = re.sub(r"\$\d", "$", t)
        self.keys.add(k)
        self.types.setdefault(k, n.t or "")
        return self.val.get((int(who[0]), k), 0)

    def mixed(self, n, bind):
        return len(set(re.findall(r"\$(\d)", self.text(n, bind)))) > 1

    def ev(self, n, bind, depth=0):
        if depth > 30:
            raise Unsupported("deep")
        n = bare(n)
        if n is None:
            raise Unsupported("nothing")
        if n.v is not None and not isinstance(n.v, str) and n.k != "DeclRefExpr":
            return n.v
        if n.k == "CXXBoolLiteralExpr":
            return bool(n.v)
        if n.k == "UnaryOperator" and n.op == "!":
            return not self.ev(n.c[0], bind, depth + 1)
        if n.k == "UnaryOperator" and n.op == "-":
            return -self.num(self.ev(n.c[0], bind, depth + 1))
        if n.k == "UnaryOperator" and n.op in ("*", "&") and self.text(n, bind).startswith("$"):
            return self.ev(n.c[0], bind, depth + 1) if bare(n.c[0]).k != "DeclRefExpr" else self.leaf(n, bind)
        if n.k == "BinaryOperator":
            if n.op == "&&":
                return bool(self.ev(n.c[0], bind, depth + 1)) and bool(self.ev(n.c[1], bind, depth + 1))
            if n.op == "||":
                return bool(self.ev(n.c[0], bind, depth + 1)) or bool(self.ev(n.c[1], bind, depth + 1))
            if n.op in CMP:
                return self.compare(n.op, n.c[0], n.c[1], bind, depth, n)
            if n.op in ARI:
                return ARI[n.op](self.num(self.ev(n.c[0], bind, depth + 1)), self.num(self.ev(n.c[1], bind, depth + 1)))
            if n.op == "-" or n.op == ",":
                raise Unsupported(n.op)
        if n.k == "ConditionalOperator":
            return self.ev(n.c[1] if self.ev(n.c[0], bind, depth + 1) else n.c[2], bind, depth + 1)
        if n.k == "DeclRefExpr":
            vid = n.get("vid")
            if vid in bind and not isinstance(bind[vid], str):
                e, b = bind[vid]
                return self.ev(e, b, depth + 1)
            if n.get("dk") == "local" and vid not in bind and self.mixed(n, bind):
                ds = var_defs(n.fn).get(vid, [])
                if len(ds) == 1:
                    return self.ev(ds[0], bind, depth + 1)
                raise Unsupported("local")
            return self.leaf(n, bind)
        if n.is_call():
            return self.call(n, bind, depth)
        if n.k == "CXXRewrittenBinaryOperator":
            raise Unsupported(n.k)
        return self.leaf(n, bind)

    def num(self, x):
        if isinstance(x, tuple):
            raise Unsupported("tuple")
        return x

    def compare(self, op, l, r, bind, depth, n):
        tl, tr = self.text(l, bind), self.text(r, bind)
        if tl == tr and "$" in tl:
            if n not in self.selfcmp:
                self.selfcmp.append(n)
        return CMP[op](self.ev(l, bind, depth + 1), self.ev(r, bind, depth + 1))

    def call(self, n, bind, depth):
        q = n.q or ""
        short = q.split("::")[-1]
        args = list(n.args)
        if q in ("std::tie", "std::make_tuple", "std::make_pair", "std::forward_as_tuple"):
            return tuple(self.ev(a, bind, depth + 1) for a in args)
        if THREE.search(q) and re.search(r"\bint\b|i32", n.t or ""):
            ops = ([n.obj] if n.obj is not None else []) + args
            if len(ops) >= 2 and self.mixed(n, bind):
                x, y = self.root(ops[0], bind), self.root(ops[1], bind)
                return (x > y) - (x < y)
        if n.op in CMP or short in ("operator" + o for o in CMP):
            op = n.op if n.op in CMP else short[len("operator"):]
            ops = ([n.obj] if n.obj is not None and len(args) == 1 else []) + args
            ts = [t for t in self.P.targets(n) if t.body is not None and t.file.startswith("src/") and self.small(t)]
            if len(ops) == 2 and not (ts and self.mixed(n, bind)):
                return self.compare(op, ops[0], ops[1], bind, depth, n)
        m = re.match(r"std::(less|greater|less_equal|greater_equal|equal_to)<", q)
        if m and short == "operator()" and len(args) >= 2:
            op = {"less": "<", "greater": ">", "less_equal": "<=", "greater_equal": ">=", "equal_to": "=="}[m.group(1)]
            return self.compare(op, args[-2], args[-1], bind, depth, n)
        if not self.mixed(n, bind):
            inl = self.trivial(n)
            if inl is None:
                return self.leaf(n, bind)
        ts = [t for t in self.P.targets(n) if t.body is not None and not t.file.startswith("/usr")]
        if len(ts) == 1:
            f = ts[0]
            a = args
            b = {}
            if n.obj is not None:
                b["this"] = self.text(n.obj, bind)
            elif n.k == "CXXOperatorCallExpr" and len(args) == len(f.params) + 1:
                b["this"] = self.text(args[0], bind)
                a = args[1:]
            b.update({p["vid"]: (x, bind) for p, x in zip(f.params, a)})
            if not self.mixed(n, bind):
                return self.leaf(n, bind)
            return self.body(f, b, depth + 1)
        if self.mixed(n, bind):
            raise Unsupported("call " + q)
        return self.leaf(n, bind)

    def small(self, f):
        return len(f.nodes) < 120

    def root(self, n, bind):
        """value of the element's key a pointer into its data stands for"""
        m = bare(n)
        if m.k == "CXXMemberCallExpr" and (m.q or "").split("::")[-1] in ("data", "begin", "char_begin", "ubegin", "c_str"):
            m = bare(m.obj)
        return self.leaf(m, bind)

    # ---- statements
    def body(self, f, bind, depth=0):
        r = self.stmt(f.body, dict(bind), depth)
        if r is None:
            raise Unsupported("no return")
        return r[0]

    def stmt(self, n, bind, depth):
        if n is None:
            return None
        if n.k == "CompoundStmt":
            for c in n.c:
                r = self.stmt(c, bind, depth)
                if r is not None:
                    return r
            return None
        if n.k == "ReturnStmt":
            if not n.c:
                raise Unsupported("void")
            return (self.ev(n.c[0], bind, depth + 1),)
        if n.k == "IfStmt":
            c = n.role("cond")
            if any(x.k == "DeclStmt" and x.r != "cond" and x.p is n for x in n.c):
                pass
            if self.ev(c, bind, depth + 1):
                return self.stmt(n.role("then"), bind, depth)
            return self.stmt(n.role("else"), bind, depth) if n.role("else") is not None else None
        if n.k in ("DeclStmt", "NullStmt", "ForStmt", "WhileStmt", "CXXForRangeStmt"):
            if n.k.endswith(("ForStmt", "WhileStmt", "RangeStmt")) and any(x.k == "ReturnStmt" for x in n.walk()):
                raise Unsupported("return in a loop")
            return None             # values of locals are taken from their definitions
        if any(x.k == "ReturnStmt" for x in n.walk()) or n.k in ("SwitchStmt", "GotoStmt", "CXXTryStmt"):
            raise Unsupported(n.k)
        return None

    # ---- all values
    def __call__(self, x, y):
        """value for two elements given as dicts key -> value (constants in self.kv)"""
        self.val = {(0, k): v for k, v in x.items()}
        self.val.update({(1, k): v for k, v in y.items()})
        self.val.update({("K", k): v for k, v in self.kv.items()})
        return self.run()

    kv = {}

    def run(self):
        return self.body(self.fn, self.top)

    def domain(self, k, n):
        if re.fullmatch(r"(const )?bool", self.types.get(k, "").strip()):
            return (0, 1)
        return (0, 1, 2) if n <= 2 else (0, 1)

    def states(self):
        """all assignments to the keys of one element; finds the keys first"""
        ks = set()
        while True:
            self.keys, self.consts = set(ks), set(self.consts)
            doms = [self.domain(k, len(ks)) for k in sorted(ks)]
            sts = [dict(zip(sorted(ks), v)) for v in itertools.product(*doms)] if ks else [{}]
            if len(sts) > 64:
                raise Unsupported("too many keys")
            for x in sts:
                for y in sts:
                    self(x, y)
                    if self.keys != ks:
                        break
                if self.keys != ks:
                    break
            if self.keys == ks:
                return sts
            ks = set(self.keys)
            if len(ks) > 6:
                raise Unsupported("too many keys")

    def const_states(self):
        ks = sorted(self.consts)[:2]
        for v in itertools.product((0, 1), repeat=len(ks)):
            yield dict(zip(ks, v))


class Expr(Interp):
    """a condition inside a function; elems maps element texts found in it"""

    def __init__(self, P, node, bind):
        super().__init__(P, None, [])
        self.node, self.b = node, bind

    def run(self):
        return bool(self.ev(self.node, self.b))


def strict_order(c):
    """what is wrong with a comparator, or None"""
    sts = c.states()
    for kv in c.const_states():
        c.kv = kv
        m = [[bool(c(x, y)) for y in sts] for x in sts]
        N = range(len(sts))
        for i in N:
            if m[i][i]:
                return "an element comes before itself"
        for i in N:
            for j in N:
                if m[i][j] and m[j][i]:
                    return "of two elements each comes before the other"
        for i in N:
            for j in N:
                for k in N:
                    if m[i][j] and m[j][k] and not m[i][k]:
                        return "it is not transitive"
                    if not (m[i][j] or m[j][i] or m[j][k] or m[k][j]) and (m[i][k] or m[k][i]):
                        return "elements which are equal to the same one differ"
        if c.keys and not any(any(r) for r in m) and not kv:
            return "it never orders anything"
    return None


def equivalence(c):
    sts = c.states()
    for kv in c.const_states():
        c.kv = kv
        m = [[bool(c(x, y)) for y in sts] for x in sts]
        N = range(len(sts))
        for i in N:
            if not m[i][i]:
                return "an element differs from itself"
            for j in N:
                if m[i][j] != m[j][i]:
                    return "it is not symmetric"
                for k in N:
                    if m[i][j] and m[j][k] and not m[i][k]:
                        return "it is not transitive"
    return None

"""N01: loops and recursion end: every turn of a loop changes something its exits depend on."""
from pathcut import *
from guards import relation

WIDTH = [(re.compile(r"^(const )?(unsigned char|signed char|char|u8|i8|uint8_t|int8_t|bool|jumanpp::[ui]8)$"), 8),
         (re.compile(r"^(const )?(unsigned short|short|u16|i16|uint16_t|int16_t|char16_t|jumanpp::[ui]16)$"), 16)]
ACCESS = {"begin", "end", "data", "at", "front", "back", "cbegin", "cend", "rbegin", "rend", "get", "find", "lower_bound", "upper_bound",
          "size", "length", "empty", "c_str", "value", "char_begin", "char_end", "ubegin", "uend", "row", "slice", "key", "count"}
PURE_STD = re.compile(r"^std::(min|max|abs|size|begin|end|move|forward|get|log\w*|exp|sqrt|pow|floor|ceil|round|tie|make_\w+|distance|"
                      r"isnan|isinf|isfinite|find\w*|lower_bound|upper_bound|binary_search|equal|any_of|all_of|none_of|accumulate|count\w*|"
                      r"max_element|min_element|mismatch|addressof|ref|cref|next|prev|strlen|memcmp|strcmp)$|^(strlen|memcmp|strcmp|strncmp|__builtin_\w+|isdigit|isspace)$")


def scope(f):
    return f.file.startswith("src/") and not testfile(f.file) and f.cfg is not None and f.body is not None and "rnn/legacy" not in f.file


def natural_loops(f):
    """header block -> blocks of the loop"""
    cfg = f.cfg
    out = {}
    for b in cfg.b.values():
        for s in b.s:
            if s >= 0 and cfg.dominates_block(s, b.id):
                body = out.setdefault(s, {s})
                st = [b.id]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st += [p for p in cfg.b[x].p if p >= 0]
    return out


# ------------------------------------------------------------------ what an expression reads, what an element changes
def base(n):
    while n is not None:
        n2 = strip(n)
        if n2.k == "UnaryOperator" and n2.op in ("*", "&") and n2.c:
            n = n2.c[0]
            continue
        return n2
    return None


def path_keys(n, elem=False):
    """keys of the object n denotes: its fields and its root variable"""
    out = set()
    d = 0
    while n is not None and d < 14:
        d += 1
        n = peel(n)
        if n is None:
            break
        if is_field(n):
            out.add(("f", n.q))
            if not n.c or strip(n.c[0]).k == "CXXThisExpr":
                out.add(("this",))
                break
            n = n.c[0]
        elif n.k == "CXXMemberCallExpr" and n.obj is not None:
            n = n.obj
        elif n.k == "CXXOperatorCallExpr" and n.args and n.op in ("[]", "->", "*"):
            n = n.args[0]
        elif n.k == "ArraySubscriptExpr":
            n = n.c[0]
        elif n.k == "DeclRefExpr":
            if n.get("vid") is not None:
                out.add(("v", n.get("vid")))
                t = n.t or ""
                m = alias(n)
                if m is not None and m is not n and m.i != n.i and (t.endswith("&") or decl_ref(n)):
                    n = m
                    continue
            else:
                out.add(("g", n.q))
            break
        elif n.k == "CXXThisExpr":
            out.add(("this",))
            break
        elif n.k in CTORS and len(n.c) == 1:
            n = n.c[0]
        elif n.k == "BinaryOperator" and n.op in ("+", "-") and n.c:
            n = n.c[0]
        else:
            break
    return out


def decl_ref(n):
    for x in n.fn.all_nodes():
        if x.k == "VarDecl" and x.get("vid") == n.get("vid"):
            return (x.t or "").rstrip().endswith(("&", "*"))
    return False


class Effects:
    def __init__(self, P):
        self.P = P
        self.memo = {}

    def summary(self, f, depth=6):
        """fields of its own object which a member function may change: set of keys, None if unknown"""
        if f.key in self.memo:
            return self.memo[f.key]
        self.memo[f.key] = set()
        if f.cfg is None or f.body is None or depth == 0:
            self.memo[f.key] = None
            return None
        out = set()
        for n in f.all_nodes():
            m = self.modifies(n, depth - 1)
            if m is None:
                out = None
                break
            out |= {k for k in m if k[0] in ("f", "g", "this") or k[0] == "elem" and k[1] != "v"}
            out |= {("parm", i) for i, p in enumerate(f.params)
                    if ("v", p["vid"]) in m and p["t"].endswith("&") or ("elem", "v", p["vid"]) in m and re.search(r"[&*]$", p["t"])}
        self.memo[f.key] = out
        return out

    def callee(self, n, depth):
        """(known, effects on own fields) of a call"""
        ts = self.P.targets(n)
        if not ts:
            return None
        out = set()
        for t in ts:
            if t.get("x") if isinstance(t, dict) else False:
                return None
            s = self.summary(t, depth)
            if s is None:
                return None
            out |= s
        return out

    def silent(self, n):
        """a call of a function object all whose possible bodies change nothing"""
        if re.match(r"std::(greater|less|greater_equal|less_equal|equal_to|not_equal_to|hash)<", n.q):
            return True
        ts = self.P.targets(n)
        return bool(ts) and all(t.cfg is not None and t.body is not None and not any(x.is_call() and
                                not (x.k == "CXXOperatorCallExpr" and x.op in ("[]", "*", "->", "==", "!=", "<", ">", "<=", ">=")) or
                                (x.k in ("BinaryOperator", "CompoundAssignOperator") and x.op.endswith("=") and
                                 x.op not in ("==", "!=", "<=", ">=")) or x.k == "UnaryOperator" and x.op in ("++", "--") or
                                x.k in ("CXXNewExpr", "CXXDeleteExpr") for x in t.all_nodes()) for t in ts)

    def modifies(self, n, depth=5):
        """keys an element changes; None: anything"""
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
            return self.target(n.c[0], True)
        if n.k == "UnaryOperator" and n.op in ("++", "--"):
            return self.target(n.c[0], True)
        if n.k == "CXXOperatorCallExpr":
            if n.op in ("==", "!=", "<", ">", "<=", ">=", "[]", "*", "->", "&&", "||", "!") or (n.op in ("+", "-") and len(n.args) == 2):
                return set()
            if n.op == "()":
                if self.silent(n):
                    return set()
                if n.get("mconst") and not any(x.k == "LambdaExpr" for x in n.walk()) and not lambda_call(n):
                    return set()
                return None
            out = set()
            for i, a in enumerate(n.args):
                if i == 0 or not const_t(a.t) and lvalue(a):
                    out |= self.target(a)
            return out
        if n.k == "CXXDeleteExpr" or n.k == "CXXThrowExpr":
            return set()
        if n.k in CTORS or n.k == "CXXNewExpr":
            out = set()
            if n.k in CTORS and not (n.get("copy") or n.get("move")):
                for a in n.c:
                    if a is not None and lvalue(a) and not const_t(a.t) and re.search(r"\*$", a.t or ""):
                        out |= self.target(a)
            return out
        if not n.is_call():
            return set()
        if lambda_call(n):
            return set() if self.silent(n) else None
        name = n.q.split("::")[-1]
        out = set()
        eff = self.callee(n, depth)
        if n.obj is not None and not n.get("mconst") and name not in ACCESS and not name.startswith("operator "):
            o = strip(n.obj)
            if o.k == "CXXThisExpr":
                if eff is None:
                    return None
                out |= {k for k in eff if k[0] != "parm"}
            else:
                if eff is None or eff:
                    out |= self.target(n.obj)
                    if eff:
                        out |= {k for k in eff if k[0] == "f"}
        elif n.obj is None and eff:
            out |= {k for k in eff if k[0] == "g"}
        if n.obj is not None and n.get("mconst") and re.search(r"atomic|condition_variable|thread", n.q):
            return None
        if PURE_STD.search(n.q):
            return out
        for i, a in enumerate(n.args):
            if a is None:
                continue
            if eff is not None:
                if ("parm", i) in eff:
                    out |= self.target(a)
            elif lvalue(a) and not const_t(a.t):
                x = strip(a)
                if (a.t or "").endswith("*") and x.k != "UnaryOperator":
                    out |= {("elem",) + k for k in path_keys(a)}
                    out |= {k for k in path_keys(a) if k[0] == "f"}
                else:
                    out |= self.target(a)
        return out

    def target(self, t, direct=False):
        x = strip(t)
        if direct and x.k == "DeclRefExpr" and (x.t or "").rstrip().endswith("*"):
            return path_keys(t)
        if x.k == "UnaryOperator" and x.op == "*" or x.k == "ArraySubscriptExpr" or x.k == "CXXOperatorCallExpr" and x.op in ("[]", "*"):
            inner = x.args[0] if x.k == "CXXOperatorCallExpr" else x.c[0]
            ks = path_keys(inner)
            return {("elem",) + k for k in ks} | deref_field(x)
        ks = path_keys(t)
        if x.k == "MemberExpr" and x.get("fld"):
            return ks
        return ks | {("elem",) + k for k in ks}


def deref_field(x):
    return set()


def lambda_call(n):
    if n.k == "CXXOperatorCallExpr" and n.op == "()":
        return bool(re.search(r"lambda|std::function|\(.*\)", (n.args[0].t or "") if n.args else "")) or True
    return "::operator()" in n.q or not n.q


def const_t(t):
    t = t or ""
    if t.endswith("*"):
        return bool(re.match(r"const ", t))
    return bool(re.match(r"const ", t)) or t.endswith("* const")


SCALAR = re.compile(r"^(unsigned |signed )?(int|long|short|char|bool|float|double|long long|unsigned|size_t|[iu](8|16|32|64))( int| long)*$")


def lvalue(a):
    x = a
    while x is not None and x.k == "ParenExpr":
        x = x.c[0]
    if x.k == "UnaryOperator" and x.op == "&":
        return True
    if x.k.endswith("CastExpr"):
        ck = x.get("ck") or ""
        if "LValueToRValue" in ck:
            return (x.t or "").endswith("*")
        return lvalue(x.c[0]) if x.c else False
    if SCALAR.match(x.t or ""):
        # an lvalue which is bound to a reference has no conversion
        return x.k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr") and False
    return x.k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr", "CXXThisExpr", "CXXOperatorCallExpr", "CXXMemberCallExpr", "UnaryOperator")


def reads(n):
    """keys an expression depends on"""
    out = set()
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        if x.k == "DeclRefExpr":
            if x.get("vid") is not None:
                out.add(("v", x.get("vid")))
                if not shape_only(x):
                    out.add(("elem", "v", x.get("vid")))
            elif x.get("dk") in ("global", "static", "staticlocal", "var", "tls"):
                out.add(("g", x.q))
        elif is_field(x):
            out.add(("f", x.q))
        elif x.k == "CXXThisExpr":
            if x.p is None or not is_field(x.p):
                out.add(("this",))
        if x.k in ("ArraySubscriptExpr",) or x.k == "UnaryOperator" and x.op == "*" or x.k == "CXXOperatorCallExpr" and x.op in ("[]", "*", "->") or \
                x.k == "CXXMemberCallExpr" and x.q.split("::")[-1] not in SHAPE:
            inner = x.obj if x.k == "CXXMemberCallExpr" else (x.args[0] if x.k == "CXXOperatorCallExpr" else x.c[0])
            if inner is not None:
                out |= {("elem",) + k for k in path_keys(inner)}
        st += x.c
    return out


SHAPE = {"size", "length", "empty", "numRows", "rowSize", "capacity"}


def shape_only(x):
    """the use of a variable does not depend on the elements it holds or points to"""
    p = x.p
    while p is not None and (p.k == "ParenExpr" or p.k.endswith("CastExpr")):
        p = p.p
    if p is None:
        return False
    if p.k == "MemberExpr" and p.p is not None and p.p.k == "CXXMemberCallExpr" and p.p.q.split("::")[-1] in SHAPE:
        return True
    if p.k == "CXXMemberCallExpr" and p.q.split("::")[-1] in SHAPE:
        return True
    if (x.t or "").rstrip().endswith("*") or "iterator" in (x.t or ""):
        return (p.k == "BinaryOperator" or p.k == "CXXOperatorCallExpr") and p.op in ("==", "!=", "<", ">", "<=", ">=")
    return False


def run(P, R):
    R.rule("progress", "every turn of a loop changes something which its exits depend on")
    R.rule("direction", "a counter moves towards its bound")
    R.rule("width", "a counter can reach its bound")
    R.rule("advance", "what a loop asks for its next item moves on whenever it promises one")
    R.rule("recursion", "every recursive function can return without calling itself")
    E = Effects(P)
    for f in src_fns(P):
        if not scope(f):
            continue
        for h, body in natural_loops(f).items():
            loop(P, R, E, f, h, body)
    steppers(P, R, E)
    promises(P, R)
    recursion(P, R)
    R.need("progress", 150)


def cond_of(f, b):
    """the whole condition deciding in block b"""
    return f.nodes[f.cfg.b[b].cond]


def range_for(f, h):
    t = f.cfg.b[h].term
    return isinstance(t, int) and f.nodes[t].k == "CXXForRangeStmt"


def loop(P, R, E, f, h, body):
    cfg = f.cfg
    if range_for(f, h):
        return
    exits = []
    for b in body:
        blk = cfg.b[b]
        if blk.cond is None or len([s for s in blk.s if s >= 0]) < 2:
            continue
        if any(s >= 0 and s not in body for s in blk.s):
            exits.append((b, f.nodes[blk.cond]))
    els = [f.nodes[e] for b in body for e in cfg.b[b].e if isinstance(e, int)]
    if not els:
        return
    loc = min(((n.l, n) for n in els), key=lambda x: x[0])[1].loc
    if not exits:
        # left by a switch, by throwing or not at all
        leaves = any(s >= 0 and s not in body for b in body for s in cfg.b[b].s) or any(cfg.b[b].noret for b in body)
        R.ob("progress", loc, leaves, "%s|endless" % f.q, "%s has a loop which is never left" % f.where)
        return
    eff = {}
    for n in els:
        m = E.modifies(n)
        if m is None or m:
            eff[n.i] = m
    # what the exits depend on: through variables which get their value in the loop
    K = set()
    todo = [c for _, c in exits]
    impure = set()
    inner = {n.i for n in els}
    decls = {}
    asg = defaultdict(list)
    for n in els:
        if n.k == "DeclStmt":
            for d in n.c:
                if d.k == "VarDecl" and d.c:
                    decls[d.get("vid")] = d.c[0]
        if n.k == "VarDecl" and n.c:
            decls[n.get("vid")] = n.c[0]
        if n.k == "BinaryOperator" and n.op == "=":
            for k in target_key(n.c[0]):
                asg[k].append((n, n.c[1]))
        elif n.k == "CXXOperatorCallExpr" and n.op == "=" and len(n.args) == 2:
            for k in target_key(n.args[0]):
                asg[k].append((n, n.args[1]))
    dep = defaultdict(set)
    seen = set()
    work = set()
    for c in todo:
        work |= reads(c)
        impure |= {x.i for x in c.walk() if eff.get(x.i, 0) is None or eff.get(x.i)}
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        K.add(k)
        rhs = []
        if k[0] == "v" and k[1] in decls:
            rhs.append(decls[k[1]])
        rhs += [v for _, v in asg.get(k, ())]
        for v in rhs:
            r = reads(v)
            dep[k] |= r
            impure |= {x.i for x in v.walk() if x.i in eff}
            work |= r
    if any(k[0] == "elem" for k in K):
        pass
    # transitive dependencies between keys
    def depends(k):
        out, st = set(), [k]
        while st:
            for d in dep.get(st.pop(), ()):
                if d not in out:
                    out.add(d)
                    st.append(d)
        return out

    prog = set()
    for n in els:
        if n.i in impure:
            prog.add(n.i)
            continue
        if n.i not in eff:
            continue
        m = eff[n.i]
        if m is None:
            prog.add(n.i)
            continue
        if not m & K:
            continue
        if n.k == "BinaryOperator" and n.op == "=" or n.k == "CXXOperatorCallExpr" and n.op == "=":
            v = n.c[1] if n.k == "BinaryOperator" else n.args[1]
            ks = set(target_key(n.c[0] if n.k == "BinaryOperator" else n.args[0]))
            if ks:
                r = reads(v)
                r2 = set(r)
                for x in r:
                    r2 |= depends(x)
                if r and not (r2 & ks):
                    continue
                w = strip(v)
                if w.is_call() and re.match(r"std::(find|find_if|find_if_not|lower_bound|upper_bound|search)$", w.q) and w.args and \
                        set(target_key(strip(w.args[0]))) == ks:
                    # searching again from the place which was found finds the same place
                    continue
        prog.add(n.i)
    # is there a turn without any of them?
    p = silent_turn(f, h, body, prog)
    if p is None and len(exits) > 1:
        own = [c for b, c in exits if not error_exit(f, b, body)]
        if len(own) == 1:
            ks = {k for k in reads(own[0]) if k[0] != "elem"}
            if ks and all(k[0] == "v" for k in ks) and not any(x.is_call() for x in own[0].walk()) and \
                    not any(m is None and may_touch(f.nodes[i], ks) or m and m & ks for i, m in eff.items()) and not taken(f, ks):
                p = h
    R.ob("progress", loc, p is None, "%s|%s" % (f.q, keyname(f, exits)),
         "%s can repeat a loop without changing anything its condition (%s) depends on" % (f.where, "; ".join(expr_str(c)[:60] for _, c in exits[:2])))
    if p is None and len(exits) == 1:
        counters(P, R, E, f, h, body, exits[0], els)


def may_touch(n, ks):
    return any(x.k == "LambdaExpr" for x in n.fn.all_nodes())


def taken(f, ks):
    """the address of, or a reference to one of the variables exists"""
    for n in f.all_nodes():
        if n.k == "UnaryOperator" and n.op == "&" and n.c and set(target_key(n.c[0])) & ks:
            return True
        if n.k == "VarDecl" and (n.t or "").rstrip().endswith("&") and n.c and set(target_key(n.c[0])) & ks:
            return True
    return any(("v", p["vid"]) in ks and p["t"].rstrip().endswith("&") for p in f.params)


def error_exit(f, b, body):
    """the block is left out of the loop only because something failed"""
    for i, s in enumerate(f.cfg.b[b].s):
        if s < 0 or s in body:
            continue
        fs = list(edge_facts(f, b, i))
        if not any(re.search(r"\bStatus\b", x.t or "") for a, p in fs for x in a.walk()):
            return False
    return True


def keyname(f, exits):
    return expr_str(exits[0][1])[:60]


def target_key(t):
    x = strip(t)
    if x.k == "DeclRefExpr" and x.get("vid") is not None:
        return [("v", x.get("vid"))]
    if is_field(x):
        return [("f", x.q)]
    return []


def silent_turn(f, h, body, prog):
    cfg = f.cfg

    def clean(b):
        return not any(isinstance(e, int) and e in prog for e in cfg.b[b].e)
    if not clean(h):
        return None
    seen, st = set(), [h]
    while st:
        x = st.pop()
        for s in cfg.b[x].s:
            if s == h:
                return x
            if s < 0 or s not in body or s in seen or not clean(s):
                continue
            seen.add(s)
            st.append(s)
    return None


# ------------------------------------------------------------------ counters
def counters(P, R, E, f, h, body, ex, els):
    cfg = f.cfg
    b, c = ex
    inside = [i == 0 for i, s in enumerate(cfg.b[b].s) if s in body]
    if len(inside) != 1:
        return
    r = relation(strip(c), inside[0])
    if r is None or r[1] not in ("<", "<=", ">", ">=", "!="):
        return
    l, op, rr = r
    for a, o, other in ((l, op, rr), (rr, {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op], l)):
        x = strip(a)
        ks = target_key(x)
        if not ks or x.k != "DeclRefExpr":
            continue
        steps = []
        other_changes = False
        for n in els:
            m = E.modifies(n)
            if m is None:
                continue
            if ks[0] not in m:
                continue
            d = step(n)
            if d is None or set(target_key(n.c[0] if n.c else n)) != set(ks):
                other_changes = True
            else:
                steps.append((n, d))
        if other_changes or not steps:
            continue
        if reads(other) & {k for n in els for k in (E.modifies(n) or ())} - {("this",)}:
            continue
        up = all(d > 0 for _, d in steps)
        down = all(d < 0 for _, d in steps)
        if o in ("<", "<=") and (up or down):
            R.ob("direction", steps[0][0].loc, up, "%s|%s" % (f.q, expr_str(x)), "%s counts %s away from the bound" % (f.where, expr_str(x)))
        if o in (">", ">=") and (up or down):
            R.ob("direction", steps[0][0].loc, down, "%s|%s" % (f.q, expr_str(x)), "%s counts %s away from the bound" % (f.where, expr_str(x)))
            if o == ">=" and strip(other).v == 0 and re.search(r"unsigned|size_t|\bu(8|16|32|64)\b|uint\d+_t", x.t or ""):
                R.bad("direction", "%s|%s|unsigned" % (f.q, expr_str(x)), steps[0][0].loc,
                      "%s counts the unsigned %s down below zero" % (f.where, expr_str(x)))
        w = next((w for p, w in WIDTH if p.match(x.t or "")), None)
        if w == 8 and o in ("<", "<=") and up:
            ot = strip(other)
            ow = next((w for p, w in WIDTH if p.match(ot.t or "")), 32)
            ok = ot.v is not None and ot.v < (1 << (w - 1)) or ow <= w and o == "<"
            R.ob("width", steps[0][0].loc, ok, "%s|%s|width" % (f.q, expr_str(x)), "%s counts with %d bits up to a bound which can be larger" % (f.where, w))


def step(n):
    if n.k == "UnaryOperator" and n.op in ("++", "--"):
        return 1 if n.op == "++" else -1
    if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ("+=", "-="):
        v = strip(n.c[1]).v
        if v is None:
            return None
        return v if n.op == "+=" else -v
    return None


# ------------------------------------------------------------------ functions which drive loops
def promises(P, R):
    """`hasNext` is true when something remains and false when nothing does"""
    for f in P.fns.values():
        if not scope(f) or f.name != "hasNext" or f.params:
            continue
        for r in [n for n in f.all_nodes() if n.k == "ReturnStmt" and n.c]:
            for a, p in branch_facts(r.c[0], True):
                x = strip(a)
                if x.is_call() and x.q.split("::")[-1] in ("atEnd", "empty"):
                    R.ob("advance", r.loc, not p, "%s|promise" % f.q, "%s is true at the end" % f.where)
                q = relation(x, p)
                if q is None:
                    continue
                for l, o, op in ((q[0], q[2], q[1]), (q[2], q[0], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(q[1], q[1]))):
                    l, o = strip(l), strip(o)
                    if o.v is None or not (l.is_call() and l.q.split("::")[-1] in ("remaining", "size")):
                        continue
                    ev = lambda v: {"<": v < o.v, "<=": v <= o.v, ">": v > o.v, ">=": v >= o.v, "==": v == o.v, "!=": v != o.v}[op]
                    R.ob("advance", r.loc, not ev(0) and ev(1), "%s|promise" % f.q, "%s does not tell whether something remains" % f.where)


def steppers(P, R, E):
    """the functions whose result keeps a loop going change their object on every path which keeps it going"""
    done = {}
    for t in src_fns(P):
        if scope(t) and t.cls and re.match(r"next($|[A-Z_])", t.name) and (t.ret or "").endswith("bool") and \
                any(strip(n.c[0]).v == 0 or strip(n.c[0]).v is None for n in t.all_nodes() if n.k == "ReturnStmt" and n.c):
            stepper(P, R, E, t, done)
    for f in src_fns(P):
        if not scope(f):
            continue
        for h, body in natural_loops(f).items():
            if range_for(f, h):
                continue
            drv = []
            els = [f.nodes[e] for b in body for e in f.cfg.b[b].e if isinstance(e, int)]
            ok = True
            for b in body:
                blk = f.cfg.b[b]
                if blk.cond is None or len(blk.s) != 2:
                    continue
                stay = [i == 0 for i, s in enumerate(blk.s) if s in body]
                if len(stay) != 1:
                    continue
                for a, p in edge_facts(f, b, 0 if stay[0] else 1):
                    x = strip(a)
                    if x.is_call() and p and (x.k == "CXXMemberCallExpr" and not x.get("mconst")):
                        drv.append((x, b))
            # only when nothing else in the loop moves: the call is the only exit
            for x, b in drv:
                others = [c for c, _ in exits_of(f, body) if c != b]
                if others:
                    continue
                for t in P.targets(x):
                    if t.cfg is None or t.body is None or t.file.startswith("libs") or not (t.ret or "").endswith("bool"):
                        continue
                    stepper(P, R, E, t, done)


def exits_of(f, body):
    for b in body:
        blk = f.cfg.b[b]
        if blk.cond is not None and any(s >= 0 and s not in body for s in blk.s):
            yield b, blk.cond


def stepper(P, R, E, t, done):
    if t.key in done:
        return
    done[t.key] = True
    moves = set()
    for n in t.all_nodes():
        m = E.modifies(n)
        if m is None or any(k[0] in ("f", "this", "g") or k[0] == "elem" and k[1] in ("f", "this") for k in m):
            moves.add(n.i)
    if not moves:
        # an iterator over something else: what it wraps is looked at instead
        return
    ids = after(t, None, None, lambda x: x.i in moves)
    for r in [n for n in t.all_nodes() if n.k == "ReturnStmt" and n.c]:
        if strip(r.c[0]).v == 0 or not executes(ids, r):
            continue
        if any(y.i in moves for y in r.walk()):
            continue
        if false_there(t, r):
            continue
        e = expr_str(strip(r.c[0]))
        if not executes(after(t, None, lambda a, p: not p and expr_str(strip(a)) == e, lambda x: x.i in moves), r):
            continue
        R.bad("advance", "%s|%s" % (t.q, expr_str(r.c[0])[:40]), r.loc, "%s can promise another item without moving on" % t.where)
    R.ob("advance", t.body.loc, True, t.q)
    for c in t.calls():
        if c.k == "CXXMemberCallExpr" and not c.get("mconst"):
            for u in P.targets(c):
                if u.cfg is not None and u.body is not None and (u.ret or "").endswith("bool") and c.p is not None and \
                        re.search(r"(next|read|advance|move)\w*$", c.q.split("::")[-1], re.I):
                    stepper(P, R, E, u, done)


def false_there(t, r):
    """the value returned is known to be false on the way"""
    x = strip(r.c[0])
    for c, pol in edges_to(t, r):
        for a, p in expand(t, branch_facts(c, pol)):
            if not p and struct(strip(a)) == struct(x):
                return True
    return False


# ------------------------------------------------------------------ recursion
def recursion(P, R):
    """in every cycle of the call graph some function returns on some path without calling back into the cycle"""
    own = [f for f in src_fns(P) if scope(f)]
    keys = {f.key for f in own}
    succ = {f.key: {t.key for c in f.calls() for t in P.targets(c) if t.key in keys} for f in own}
    for comp in sccs(succ):
        if len(comp) == 1 and comp[0] not in succ[comp[0]]:
            continue
        cs = set(comp)
        for k in comp:
            depth_params(P, R, P.fns[k], cs)
        fs = [P.fns[k] for k in comp]
        ok = False
        for f in fs:
            back = {n.i for n in f.calls() if any(t.key in cs for t in P.targets(n))}
            ids = after(f, None, None, lambda x: x.i in back)
            if "exit" in ids:
                ok = True
        f = fs[0]
        if len(fs) == 1 or not ok:
            R.ob("recursion", f.body.loc, ok, "%s" % min(x.q for x in fs), "%s always calls itself again" % f.where)


def depth_params(P, R, f, cs):
    """a limit which guards recursion comes closer with every call"""
    for n in f.calls():
        if not any(t.key == f.key for t in P.targets(n)):
            continue
        for i, p in enumerate(f.params):
            if not re.match(r"^(const )?(int|long|unsigned.*|jumanpp::[iu]\d+|[iu]\d+|size_t)$", p["t"]) or i >= len(n.args):
                continue
            dirs = set()
            for c, pol in edges_to(f, n):
                for a, q in branch_facts(c, pol):
                    r = relation(strip(a), q)
                    if r is None:
                        continue
                    for l, o, op in ((r[0], r[2], r[1]), (r[2], r[0], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(r[1], r[1]))):
                        if is_parm(l, p) and not any(is_parm(x, p) for x in o.walk()) and strip(o).v is not None:
                            if op in (">", ">=", "!="):
                                dirs.add("down")
                            elif op in ("<", "<="):
                                dirs.add("up")
            if len(dirs) != 1 or any(is_parm(strip(t), p) for t, v, s in assigns(f)):
                continue
            a = strip(n.args[i])
            same_ = is_parm(a, p)
            d = None
            if a.k == "BinaryOperator" and a.op in ("+", "-") and is_parm(a.c[0], p) and strip(a.c[1]).v is not None:
                d = strip(a.c[1]).v * (1 if a.op == "+" else -1)
            bad = same_ or d is not None and (d >= 0 if dirs == {"down"} else d <= 0)
            R.ob("recursion", n.loc, not bad, "%s|%s" % (f.q, p["n"]), "%s calls itself without coming closer to the limit of %s" % (f.where, p["n"]))


def is_parm(x, p):
    x = strip(x)
    return x is not None and x.k == "DeclRefExpr" and x.get("vid") == p["vid"]


def sccs(succ):
    idx, low, on, st, out, n = {}, {}, set(), [], [], [0]
    for root in succ:
        if root in idx:
            continue
        work = [(root, iter(succ[root]))]
        idx[root] = low[root] = n[0]
        n[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ[w])))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out

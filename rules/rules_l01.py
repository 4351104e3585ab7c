"""L01: the lattice has exactly the words which the dictionary and the rules for unknown words give, each at its place."""
from dfl import *
from model import *
from pathcut import expand, after, strip, place, executes, case_values
from enums import enum_of
from harness import *
from terms import Terms, num
from rules_y01 import fns, loops, innermost, turn, rel, facts_at, mentions, deep, last, vids, consts

LB = "::LatticeBuilder"
STATUS = ("Ok", "NoLeaf", "NoNode")


class Lin:
    """arithmetic form of positions, looking through local variables which are changed at most by one ++ right after"""

    def __init__(self, P):
        self.T = Terms(P, opaque={"size"})

    def form(self, n, at=None):
        x = peel(n)
        if x is None:
            return None
        if x.k in CTORS and len(x.c) == 1:
            return self.form(x.c[0], at)
        if x.k == "DeclRefExpr" and x.get("dk") == "local":
            r = self.bumped(x)
            if r is not None:
                return r
        if x.k == "BinaryOperator" and x.op in ("+", "-", "*"):
            a, b = self.form(x.c[0], at), self.form(x.c[1], at)
            if a is None or b is None:
                return None
            return a + b if x.op == "+" else a - b if x.op == "-" else a * b
        return self.T.term(x)

    def bumped(self, x):
        f = x.fn
        decl = next((d for d in f.all_nodes() if d.k == "VarDecl" and d.get("vid") == x.get("vid")), None)
        if decl is None or not decl.c:
            return None
        ch = [n for n in f.all_nodes() if n.k == "UnaryOperator" and n.op in ("++", "--", "&") and strip(n.c[0]).get("vid") == x.get("vid")]
        ch += [n for n in f.all_nodes() if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=")
               and strip(n.c[0]).get("vid") == x.get("vid")]
        if not ch:
            return self.form(decl.c[0])
        d = 0
        for n in ch:
            if n.k == "UnaryOperator" and n.op == "++":
                k = 1
            elif n.k == "CompoundAssignOperator" and n.op in ("+=", "-=") and consts(n.c[1]) is not None:
                k = consts(n.c[1]) * (1 if n.op == "+=" else -1)
            else:
                return None
            if innermost(n) is not innermost(decl):
                return None
            if n.i in after(f, x, None, lambda y: y is decl or y.k == "DeclStmt" and decl in y.c):
                return None
            if f.cfg.dominates(n, x):
                d += k
            elif f.cfg.path_exists(n, {x.i}):
                return None
        b = self.form(decl.c[0])
        return None if b is None else b + num(d)

    def same(self, a, b):
        x, y = self.form(a), self.form(b)
        return None if x is None or y is None else x.same(y)


def inner_turn(f, lp, cut, stop=None, start=None):
    """one turn of a loop, not going past an element outside it"""
    ins = {x.i for x in lp.walk()}
    return turn(f, lp, cut, lambda n: n.i not in ins or stop is not None and stop(n), start)


def makers(P):
    """the functions which look for the words of an input"""
    for f in fns(P, None, "spawnNodes"):
        if f.body is not None:
            yield f


def status_cuts(s):
    """(cut, case) which leave only the paths on which a step of the trie answered s"""
    def cut(a, p):
        r = rel(a, p)
        if r is None:
            return False
        for y in r[1:]:
            e = enum_of(y, "TraverseStatus")
            if e is not None:
                if r[0] == "==":
                    return e != s
                if r[0] == "!=":
                    return e == s
        return False

    def case(cond, vals):
        if cond is None or "TraverseStatus" not in (strip(cond).t or "") and "TraverseStatus" not in (cond.t or ""):
            return False
        es = [enum_of(v, "TraverseStatus") for v in vals]
        if vals:
            return None not in es and s not in es
        sw = cond.p
        while sw is not None and sw.k != "SwitchStmt":
            sw = sw.p
        named = {enum_of(c.role("lhs"), "TraverseStatus") for c in (sw.walk() if sw is not None else []) if c.k == "CaseStmt"}
        return s in named
    return cut, case


def step_calls(f):
    return [n for n in f.calls() if last(n.q) == "step" and "Traversal" in n.q]


def codepoint_index(n):
    """the index expression of the character an expression talks about (codepoints[i].bytes, through references)"""
    for x in n.walk():
        y = x
        if x.k == "DeclRefExpr" and x.get("dk") == "local":
            y = peel(alias(x))
        if y is not None and (y.k == "CXXOperatorCallExpr" and y.op == "[]" or y.is_call() and last(y.q) == "at") and y.args:
            return y.args[-1]
    return None


# ---------------------------------------------------------------- every word spans the characters it was made from
def spans(P, R, L):
    R.rule("span", "a word which is put in the lattice starts and ends where its characters do")
    for f in makers(P):
        steps = step_calls(f)
        for a in [n for n in f.calls() if last(n.q) == "appendSeed"]:
            if len(a.args) < 3:
                continue
            ptr, s, e = a.args
            mk = [x for x in deep(ptr) if x.is_call() and last(x.q) == "makePtr"]
            if mk and mk[0].args:
                surf = mk[0].args[0]
                sub = [x for x in deep(surf) if x.is_call() and last(x.q) == "surface"]
                if sub and len(sub[0].args) == 2:
                    for i, what in ((0, "start"), (1, "end")):
                        r = L.same(sub[0].args[i], a.args[i + 1])
                        R.ob("span", a.loc, r is not False, "%s|%s" % (f.q, what),
                             "%s puts a word in the lattice which does not %s where its surface does" % (f.where, what))
                else:
                    ix = codepoint_index(surf)
                    if ix is not None:
                        i, b, c = L.form(ix), L.form(s), L.form(e)
                        if None not in (i, b, c):
                            R.ob("span", a.loc, i.same(b) and (i + num(1)).same(c), "%s|char" % f.q,
                                 "%s puts a word of one character at another place than the character" % f.where)
            elif steps and any(x.is_call() and last(x.q) == "currentPtr" for x in deep(ptr)):
                st = [x for x in steps if f.cfg.dominates(x, a)]
                if len(st) == 1:
                    ix = codepoint_index(st[0].args[0])
                    j, c = (L.form(ix), L.form(e)) if ix is not None else (None, None)
                    if j is not None and c is not None:
                        R.ob("span", a.loc, (j + num(1)).same(c), "%s|last" % f.q,
                             "%s puts a word in the lattice which does not end behind the last character which was looked up" % f.where)
                    lp = innermost(st[0])
                    ini = loop_start(lp)
                    if ini is not None:
                        b, c = L.form(ini), L.form(s)
                        R.ob("span", a.loc, b is None or c is None or b.same(c), "%s|first" % f.q,
                             "%s puts a word in the lattice which does not start at the first character which was looked up" % f.where)
        # a traversal starts anew at each position, and at that position
        for lp in loops(f):
            if innermost(lp) is not None:
                continue
            tr = [d for d in f.all_nodes() if d.k == "VarDecl" and d.c and any(x.is_call() and last(x.q) == "traversal" for x in d.c[0].walk())
                  and "Traversal" in (d.t or "")]
            for d in tr:
                R.ob("span", d.loc, d.inside(lp) or not any(x.inside(lp) for x in steps), "%s|fresh" % f.q,
                     "%s goes on with the traversal of another position" % f.where)


def loop_start(lp):
    if lp is None or lp.k != "ForStmt" or lp.role("init") is None:
        return None
    d = [x for x in lp.role("init").walk() if x.k == "VarDecl" and x.c]
    return d[0].c[0] if len(d) == 1 else None


# ---------------------------------------------------------------- every position is tried
def positions(P, R, L):
    R.rule("every-position", "words are looked for at every position of the input")
    for f in makers(P):
        for lp in loops(f):
            if innermost(lp) is not None or not any(n.inside(lp) and last(n.q) == "appendSeed" for n in f.calls()):
                continue
            ini = loop_start(lp)
            if ini is not None and strip(ini).v is not None:
                R.ob("every-position", lp.loc, consts(ini) == 0, "%s|first" % f.q, "%s leaves out the first position" % f.where)
            r = rel(lp.role("cond"), True)
            if r is not None and lp.k == "ForStmt":
                bound = r[2] if r[0] in ("<", "!=", "<=") else r[1]
                t = peel(alias(bound)) if bound is not None else None
                sz = t is not None and t.is_call() and last(t.q) in ("size", "numCodepoints")
                minus = any(x.k == "BinaryOperator" and x.op == "-" for x in deep(bound))
                R.ob("every-position", lp.loc, not minus and not (sz and r[0] == "<=" and strip(r[1]).k == "DeclRefExpr"), "%s|bound" % f.q,
                     "%s does not go over the positions of the input" % f.where)
            ids = after(f, lp.role("cond"), lambda a, p: not p and a.i in {x.i for x in lp.role("cond").walk()},
                        lambda n: n.i in {x.i for x in lp.role("cond").walk()} and n.i == lp.role("cond").i)
            R.ob("every-position", lp.loc, not leaves(f, lp), "%s|all" % f.q, "%s stops before the last position of the input" % f.where)
            inc = lp.role("inc")
            if inc is not None:
                steps = [x for x in inc.walk() if x.k == "UnaryOperator" and x.op in ("++", "--") or x.k == "CompoundAssignOperator"]
                for x in steps:
                    ok = x.k == "UnaryOperator" and x.op == "++" or x.k == "CompoundAssignOperator" and x.op == "+=" and consts(x.c[1]) in (1, None)
                    R.ob("every-position", x.loc, ok, "%s|step" % f.q, "%s leaves out positions" % f.where)
        # the letters a rule is about
        app = {n.i for n in f.calls() if last(n.q) == "appendSeed"}
        cls = [n for n in f.calls() if last(n.q) == "hasClass" and n.args and any(x.k == "MemberExpr" and x.m == "charClass_" for x in n.args[0].walk())]
        if cls and app:
            def no(a, p):
                x = strip(a)
                return x.is_call() and last(x.q) == "hasClass" and p
            def yes(a, p):
                x = strip(a)
                return x.is_call() and last(x.q) == "hasClass" and not p
            ids = after(f, None, no)
            R.ob("every-position", f.where, not (app & ids), "%s|class" % f.q, "%s makes words of characters which are not of its class" % f.where)
            for s in STATUS[1:]:
                cut, case = status_cuts(s)
                ids = after(f, None, lambda a, p: yes(a, p) or cut(a, p), None, None, case)
                R.ob("every-position", f.where, bool(app & ids), "%s|chars|%s" % (f.q, s), "%s makes no words of the characters of its class" % f.where)


def leaves(f, lp, ok=None):
    """can the loop be left other than by its condition"""
    cond = {x.i for x in lp.role("cond").walk()}
    inside = {x.i for x in lp.walk()}
    ids = after(f, lp.role("cond"), lambda a, p: not p and a.i in cond,
                lambda n: n.i == lp.role("cond").i or n.k == "ReturnStmt")
    if any(f.nodes[i].k == "ReturnStmt" and not (ok is not None and ok(f.nodes[i])) for i in ids if isinstance(i, int) and i in inside):
        return True
    return any(i not in inside for i in ids if isinstance(i, int)) or "exit" in ids


# ---------------------------------------------------------------- what the dictionary answers
def outcomes(P, R, L):
    R.rule("trie", "words follow from what the dictionary answers: a word for each entry, an unknown word only where there is none, longer "
           "words are looked for as long as some entry starts so")
    for f in makers(P):
        steps = step_calls(f)
        if not steps or not any("TraverseStatus" in (n.t or "") for n in f.all_nodes()):
            continue
        app = [n for n in f.calls() if last(n.q) == "appendSeed"]
        unk = [n for n in app if any(x.is_call() and last(x.q) == "makePtr" for x in deep(n.args[0]))]
        dic = [n for n in app if n not in unk]
        si = {n.i for n in steps}
        pat = lambda a, p: strip(a).is_call() and last(strip(a).q) == "dicPatternMatches"
        for st in steps:
            lp = innermost(st)
            inl = {x.i for x in lp.walk()} if lp is not None else None
            stop = lambda n: n.i in si and n is not st or inl is not None and (n.i == lp.role("cond").i or n.i not in inl)
            for s in STATUS:
                cut, case = status_cuts(s)
                c2 = lambda a, p: cut(a, p) or pat(a, p) and not p
                ids = after(f, st, c2, None, None, case)
                here = after(f, st, c2, stop, None, case)
                go = lp is not None and (lp.role("cond").i in here or any(x.i in here for x in lp.role("cond").walk())) and same_traversal(f, lp, st)
                if dic:
                    got = any(n.i in here for n in dic)
                    R.ob("trie", st.loc, got == (s == "Ok"), "%s|entries|%s" % (f.q, s),
                         "%s %s when the dictionary answers %s" % (f.where, "makes no words" if s == "Ok" else "makes words", s))
                    if lp is not None and s != "NoNode":
                        R.ob("trie", st.loc, go, "%s|longer|%s" % (f.q, s), "%s does not look for longer words when the dictionary answers %s" % (f.where, s))
                    if lp is not None and s == "NoNode":
                        R.ob("trie", st.loc, not go or not same_traversal(f, lp, st), "%s|longer|%s" % (f.q, s),
                             "%s goes on although no word starts so" % f.where)
                if unk and not steps_loop_only(f, st, unk):
                    got = any(n.i in here for n in unk)
                    R.ob("trie", st.loc, got == (s != "Ok"), "%s|unknown|%s" % (f.q, s),
                         "%s %s when the dictionary answers %s" % (f.where, "makes no unknown word" if s != "Ok" else "makes an unknown word", s))
        # the words which are made tell whether something longer is there
        for n in unk:
            mk = [x for x in deep(n.args[0]) if x.is_call() and last(x.q) == "makePtr"][0]
            if len(mk.args) != 3 or not re.search(r"\bbool\b", param_type(P, mk, 2)):
                continue
            for s in ("NoNode", "NoLeaf"):
                cut, case = status_cuts(s)
                sw = [x for x in f.all_nodes() if x.k == "SwitchStmt" or x.k == "IfStmt"]
                for st in steps:
                    lp = innermost(st)
                    stop = lambda x: x.i in si or lp is not None and x.i == lp.role("cond").i
                    ids = after(f, st, cut, stop if n.inside(lp or f.body) or lp is None else None, None, case)
                    if not executes(ids, mk):
                        continue
                    if not only_under(f, st, mk, s):
                        v = None
                        x = peel(mk.args[2])
                        if x.k == "DeclRefExpr":
                            vs = {consts(val) for t, val, stt in assigns(f) if strip(t).get("vid") == x.get("vid") or stt.k == "VarDecl" and stt.get("vid") == x.get("vid")
                                  if executes(ids, stt) and val is not None}
                            if len(vs) == 1:
                                v = vs.pop()
                        if v is None:
                            continue
                    else:
                        v = consts(mk.args[2])
                        if v is None:
                            continue
                    R.ob("trie", mk.loc, bool(v) == (s == "NoNode"), "%s|prefix|%s" % (f.q, s),
                         "%s tells that %s for an unknown word although the dictionary answers %s" % (f.where, "no entry starts so" if v else "an entry starts so", s))
        # a failed step is remembered
        for st in steps:
            lp = innermost(st)
            if lp is None or not unk or any(n.inside(lp) for n in app):
                continue
            cut, case = status_cuts("NoNode")
            sv = [t for t, v, s2 in assigns(f) if v is not None and any(x is st for x in v.walk())]
            inl = {x.i for x in lp.walk()}
            ids = after(f, st, cut, lambda x: x.i == lp.role("cond").i or x.i not in inl, None, case)
            kept = [s2 for t, v, s2 in assigns(f) if s2.inside(lp) and s2.i in ids and not any(x is st for x in (v.walk() if v is not None else []))
                    and strip(t).k == "DeclRefExpr" and (consts(v) is not None if v is not None else False)]
            goes = any(x.i in ids for x in lp.role("cond").walk())
            R.ob("trie", st.loc, not goes or bool(kept), "%s|failed" % f.q,
                 "%s goes on with a traversal which has failed and believes what it answers later" % f.where)
            # and what was remembered decides
            fl = {strip(s2.c[0]).get("vid") for s2 in kept if s2.k != "VarDecl" and s2.c and consts(s2.c[1]) == 1}
            outer = innermost(lp)
            if not goes or len(fl) != 1 or outer is None or not sv:
                continue
            sv = {strip(t).get("vid") for t in sv}
            reset = {s2.i for t, v, s2 in assigns(f) if s2.k != "VarDecl" and strip(t).get("vid") in sv and enum_of(v, "TraverseStatus") == "NoNode"}
            done = reset | {x.i for n in unk for x in deep(n.args[0]) if x.is_call() and last(x.q) == "makePtr" and len(x.args) == 3 and consts(x.args[2]) == 1}
            # a value which is chosen by what was remembered, or which is computed from it
            for n in f.all_nodes():
                if n.k == "ConditionalOperator" and vids(n.c[0]) & fl:
                    done |= {x.i for x in n.c[1].walk()}
                    if any(x.op == "!" for x in n.c[0].walk()):
                        done |= {x.i for x in n.c[2].walk()}
                elif n.is_call() and any(vids(a) & fl for a in n.args):
                    done.add(n.i)
            for t, v, s2 in assigns(f):
                if v is not None and vids(v) & fl and not vids(t) & fl:
                    done |= {x.i for x in v.walk()} | {s2.i}
            lc, oc = {x.i for x in lp.role("cond").walk()}, {x.i for x in outer.role("cond").walk()}
            for s in ("Ok", "NoLeaf"):
                cut, case = status_cuts(s)
                ids = after(f, lp.role("cond"), lambda a, p: cut(a, p) or p and a.i in lc or strip(a).get("vid") in fl and not p, lambda x: x.i in done or x.i in oc, None, case)
                R.ob("trie", st.loc, not (oc & ids), "%s|remembered|%s" % (f.q, s), "%s forgets that the traversal has failed before it answered %s" % (f.where, s))


def param_type(P, call, i):
    for t in P.targets(call):
        if i < len(t.params):
            return t.params[i]["t"]
    return ""


def only_under(f, st, n, s):
    """n executes after st only when the status is s"""
    for o in STATUS:
        if o == s:
            continue
        cut, case = status_cuts(o)
        lp = innermost(st)
        ids = after(f, st, cut, lambda x: x is not st and x.i in {y.i for y in step_calls(f)} or lp is not None and x.i == lp.role("cond").i and n.inside(lp), None, case)
        if executes(ids, n):
            return False
    return True


def same_traversal(f, lp, st):
    """the object which is stepped lives longer than a turn of the loop"""
    v = vids(st.obj) if st.obj is not None else set()
    return not any(d.k == "VarDecl" and d.get("vid") in v and d.inside(lp) for d in f.all_nodes())


def steps_loop_only(f, st, unk):
    """the status is not used inside the loop which steps, but after it"""
    lp = innermost(st)
    return lp is not None and not any(n.inside(lp) for n in unk)


# ---------------------------------------------------------------- counting
def counting(P, R, L):
    R.rule("count", "the number of words which start and end at a position is the number of those which are there")
    for f in fns(P, LB):
        for n in f.all_nodes():
            t = None
            if n.k == "UnaryOperator" and n.op in ("++", "--"):
                t = strip(n.c[0])
            elif n.k == "CompoundAssignOperator" and n.op in ("+=", "-="):
                t = strip(n.c[0])
            if t is None or not is_field(t) or t.m not in ("startCount", "endCount"):
                continue
            ix = [x for x in t.walk() if x.k == "CXXOperatorCallExpr" and x.op == "[]" or x.is_call() and last(x.q) == "at"]
            if not ix:
                continue
            fs = {x.m for x in ix[0].args[-1].walk() if x.k == "MemberExpr"} & {"codepointStart", "codepointEnd"}
            want = "codepointStart" if t.m == "startCount" else "codepointEnd"
            R.ob("count", n.loc, not fs or fs == {want}, "%s|%s" % (f.q, t.m), "%s counts a word where it does not %s" % (f.where, t.m[:-5]))
            if n.k == "CompoundAssignOperator":
                R.ob("count", n.loc, consts(n.c[1]) in (1, None), "%s|%s|one" % (f.q, t.m), "%s counts a word more than once" % f.where)
    for f in fns(P, LB, "prepare"):
        lps = [lp for lp in loops(f) if any(x.k == "MemberExpr" and x.m == "seeds_" for x in lp.walk())]
        for m in ("startCount", "endCount"):
            inc = [n for n in f.all_nodes() if (n.k == "UnaryOperator" and n.op == "++" or n.k == "CompoundAssignOperator" and n.op == "+=")
                   and is_field(strip(n.c[0])) and strip(n.c[0]).m == m]
            if inc:
                R.ob("count", f.where, True, "%s|%s|up" % (f.q, m), "")
                for i in inc:
                    lp = innermost(i)
                    if lp is not None:
                        _, nxt = turn(f, lp, None, lambda n: n.i == i.i)
                        R.ob("count", i.loc, not nxt, "%s|%s|each" % (f.q, m), "%s does not count each word" % f.where)
            elif lps:
                R.ob("count", f.where, any(f2 for f2 in [1] if any(P.targets(c) for c in f.calls() if c.inside(lps[0]) and last(c.q) not in ("operator[]", "at", "begin", "end", "operator++", "operator*", "operator!="))),
                     "%s|%s|up" % (f.q, m), "%s does not count the words which %s at a position" % (f.where, m[:-5]))
        # a position's words lie behind those of the positions before it
        for t, v, st in assigns(f):
            x = strip(t)
            if is_field(x) and x.m == "firstNodeOffset" and v is not None:
                lp = innermost(st)
                tx = [y for y in x.walk() if y.k == "CXXOperatorCallExpr" and y.op == "[]"]
                if lp is None or not tx:
                    continue
                i = L.form(tx[0].args[-1])
                parts = {}
                for y in v.walk():
                    if y.k == "MemberExpr" and y.m in ("firstNodeOffset", "startCount", "endCount"):
                        z = [w for w in y.walk() if w.k == "CXXOperatorCallExpr" and w.op == "[]"]
                        parts[y.m] = L.form(z[0].args[-1]) if z else None
                if not parts:
                    continue
                ok = set(parts) <= {"firstNodeOffset", "startCount"} and (len(parts) == 2 or not parts)
                for k, q in parts.items():
                    if i is not None and q is not None:
                        ok = ok and q.same(i - num(1))
                R.ob("count", st.loc, ok, "%s|offset" % f.q, "%s does not put the words of a position behind those of the position before" % f.where)
                ini = loop_start(lp)
                R.ob("count", lp.loc, ini is None or consts(ini) in (1, None), "%s|offset-first" % f.q, "%s leaves out positions" % f.where)
        one = {}
        for t, v, st in assigns(f):
            x = strip(t)
            if is_field(x) and x.m in ("startCount", "endCount") and v is not None and consts(v) is not None:
                ix = [y for y in x.walk() if y.k == "CXXOperatorCallExpr" and y.op == "[]" or y.is_call() and last(y.q) in ("front", "back", "at")]
                if ix:
                    first = last(ix[0].q) == "front" or bool(ix[0].args) and consts(ix[0].args[-1]) == 0
                    one[x.m] = (consts(v), first, st)
        for m, (v, first, st) in one.items():
            R.ob("count", st.loc, v == 1 and first == (m == "endCount"), "%s|edge|%s" % (f.q, m), "%s does not count the begin or end of the sentence once" % f.where)
        if one and not mentions(f.body, "addEdges"):
            R.ob("count", f.where, set(one) == {"startCount", "endCount"}, "%s|edges" % f.q, "%s does not count both ends of the sentence" % f.where)
        sort = [c for c in P.callers.get(f.key, ())]


# ---------------------------------------------------------------- whole sentences
def connected(P, R, L):
    R.rule("connected", "a sentence is taken to be covered exactly if words lead from its begin to its end")
    for f in fns(P, LB, "checkConnectability"):
        sets = [(t, v, st) for t, v, st in assigns(f) if st.k != "VarDecl" and any(x.k == "MemberExpr" and x.m == "connectible" for x in t.walk())]
        loopsets = [x for x in sets if innermost(x[2]) is not None]
        init = [x for x in sets if innermost(x[2]) is None]
        for t, v, st in init:
            R.ob("connected", st.loc, consts(v) == 1, "%s|begin" % f.q, "%s takes the begin of a sentence for unreachable" % f.where)
        lp0 = [lp for lp in loops(f) if any(x.k == "MemberExpr" and x.m == "seeds_" for x in lp.walk())]
        if lp0 and not init and not any(last(c.q) in ("set", "assign", "push_back", "front") for c in f.calls()):
            R.ob("connected", f.where, False, "%s|begin" % f.q, "%s has no begin from which words are followed" % f.where)
        for t, v, st in loopsets:
            fs = {x.m for x in t.walk() if x.k == "MemberExpr"}
            R.ob("connected", st.loc, "codepointStart" not in fs, "%s|to" % f.q, "%s does not go to the end of a word" % f.where)

            def starts(a):
                return any(x.k == "MemberExpr" and x.m == "connectible" for x in a.walk()) and any(x.k == "MemberExpr" and x.m == "codepointStart" for x in deep(a))
            if consts(v) == 1:
                g = [p for a, p in facts_at(f, st) if starts(a)]
                lp = innermost(st)
                _, nxt = turn(f, lp, lambda a, p: starts(a) and not p, lambda n: n.i == st.i)
                R.ob("connected", st.loc, True in g and False not in g, "%s|from" % f.q, "%s follows words which can not be reached" % f.where)
                R.ob("connected", st.loc, not nxt, "%s|each" % f.q, "%s does not follow each word" % f.where)
        # seeds are in the order of their starts
        so = [c for c in f.calls() if last(c.q) in ("sortSeeds", "sort", "stable_sort")]
        if loopsets:
            first = {place(f.cfg, loopsets[0][2])}
            srt = {c.i for c in so} | {c.i for c in f.calls() if any(any(last(k.q) in ("sort", "stable_sort", "sortSeeds") for k in t.calls()) for t in P.targets(c))}
            ids = after(f, None, None, lambda n: n.i in srt)
            R.ob("connected", f.where, loopsets[0][2].i not in ids, "%s|sorted" % f.q, "%s follows words which are not sorted" % f.where)
        for r in f.all_nodes():
            if r.k == "ReturnStmt" and r.c and loopsets:
                x = strip(r.c[0])
                R.ob("connected", r.loc, consts(r.c[0]) != 1 and not (any(y.is_call() and last(y.q) == "front" for y in r.c[0].walk())) and not (
                    x.k == "UnaryOperator" and x.op == "!"), "%s|answer" % f.q, "%s does not answer whether the end can be reached" % f.where)
    for f in fns(P, LB, "sortSeeds"):
        pass
    # seeds are sorted by where they start
    for f in P.fns.values():
        if f.file.endswith("analysis/lattice_builder.cc") and f.cfg is not None and f.name == "operator()" and len(f.params) == 2 and \
                all("LatticeNodeSeed" in p["t"] for p in f.params):
            for r in f.all_nodes():
                if r.k != "ReturnStmt" or not r.c:
                    continue
                q = rel(r.c[0], True)
                if q is not None and q[0] in ("<", ">"):
                    a, b = peel(q[1]), peel(q[2])
                    if is_field(a) and is_field(b):
                        v = [p["vid"] for p in f.params]
                        ok = a.m == b.m == "codepointStart" and (vids(a) == {v[0]}) == (q[0] == "<")
                        R.ob("connected", r.loc, ok, "%s|order" % f.file, "%s does not sort words by where they start" % f.where)
    for f in fns(P, "::AnalyzerImpl"):
        chk = [n for n in f.calls() if last(n.q) in ("checkLatticeConnectivity", "checkConnectability")]
        s2 = [n for n in f.calls() if last(n.q) == "makeUnkNodes2"]
        if chk and s2:
            isck0 = lambda a: strip(a).is_call() and last(strip(a).q) in ("checkLatticeConnectivity", "checkConnectability")
            okv = {}
            for t, v, st in assigns(f):
                okv.setdefault(strip(t).get("vid"), []).append(v is not None and isck0(v))
            isck = lambda a: isck0(a) or strip(a).k == "DeclRefExpr" and all(okv.get(strip(a).get("vid"), [False]))
            ok = [r for r in f.all_nodes() if r.k == "ReturnStmt" and r.c and not status_bad(r)]
            early = [n for n in f.calls() if last(n.q) in ("makeNodeSeedsFromDic", "makeUnkNodes1")]
            prep = [n for n in f.calls() if last(n.q) == "prepare" and "LatticeBuilder" in n.q]
            ids = after(f, None, lambda a, p: isck(a) and p)
            good = after(f, None, lambda a, p: isck(a) and p or failed(a, p))
            R.ob("connected", f.where, not any(p2.i in good for p2 in prep), "%s|uncovered" % f.q, "%s goes on with a sentence which is not covered" % f.where)
            c1 = min(chk, key=lambda n: n.i)
            ids = after(f, None, lambda a, p: isck(a) and not p)
            R.ob("connected", f.where, not any(n.i in ids for n in s2), "%s|second" % f.q, "%s makes the words of the second stage for a covered sentence" % f.where)
            ids = after(f, None, lambda a, p: isck(a) and p, lambda n: n.i in {x.i for x in s2})
            R.ob("connected", f.where, any(n.i in ids for n in s2), "%s|tried" % f.q, "%s does not try the second stage" % f.where)
            for n in s2:
                a2 = after(f, n, failed, lambda x: x.i in {c.i for c in chk})
                R.ob("connected", n.loc, not any(p2.i in a2 for p2 in prep) and not any(r.i in a2 for r in ok), "%s|again" % f.q,
                     "%s does not look whether the second stage has helped" % f.where)
            for e in chk:
                pre = after(f, None, None, lambda n: n.i in {x.i for x in early if last(x.q) == "makeUnkNodes1"})
                if early:
                    R.ob("connected", e.loc, e.i not in pre, "%s|first" % f.q, "%s looks whether the sentence is covered before all words of the first stage are there" % f.where)
            if prep or not any(last(c.q) == "prepare" and "LatticeBuilder" in c.q for n in f.calls() for t in P.targets(n) for c in t.calls()):
                i3 = after(f, None, failed, lambda n: n.i in {x.i for x in prep})
                R.ob("connected", f.where, not any(r.i in i3 for r in ok), "%s|prepared" % f.q, "%s can end well without the positions prepared" % f.where)
            for nm in ("makeNodeSeedsFromDic", "makeUnkNodes1"):
                c = [n for n in f.calls() if last(n.q) == nm]
                oth = [n for n in early if last(n.q) != nm]
                if oth or c:
                    i4 = after(f, None, failed, lambda n: n.i in {x.i for x in c})
                    R.ob("connected", f.where, bool(c) and not any(x.i in i4 for x in chk), "%s|%s" % (f.q, nm), "%s does not look for all words (%s)" % (f.where, nm))


def failed(a, p):
    """an edge taken when a Status was not ok"""
    x = strip(a)
    return x.is_call() and last(x.q) in ("isOk", "operator bool") and "Status" in x.q and not p


def status_bad(r):
    return any(x.is_call() and re.search(r"Status::(Invalid|NotImpl|Unknown)", x.q or "") or "StatusConstructor" in (x.t or "") for x in r.walk())


# ---------------------------------------------------------------- places of nodes
def places(P, R, L):
    R.rule("place", "each word is at the boundary where it starts and among the words which end at the boundary where it ends")
    nb = None
    for f in fns(P, LB, "makeBos"):
        mb = [n for n in f.calls() if last(n.q) == "makeBoundary"]
        if not mb:
            continue
        nb = len(mb)
        add = {n.i for n in f.calls() if last(n.q) == "addBos"}
        R.ob("place", f.where, nb == 2, "%s|two" % f.q, "%s makes %d boundaries before the sentence" % (f.where, nb))
        for n in mb:
            nx = {m.i for m in mb if m is not n}
            ids = after(f, n, failed, lambda x: x.i in add)
            bad = "exit" in ids and any(f.nodes[i].k == "ReturnStmt" and not status_bad(f.nodes[i]) for i in ids if isinstance(i, int) and f.nodes[i].k == "ReturnStmt") or bool(nx & ids)
            R.ob("place", n.loc, not add or not ok_return(f, ids) and not (nx & ids), "%s|bos" % f.q, "%s makes a boundary before the sentence without the node which is there" % f.where)
        ini = sorted([d for d in f.all_nodes() if d.k == "VarDecl" and "LatticeBoundaryConfig" in (d.t or "") and d.c], key=lambda d: d.i)
        got = []
        for d in ini:
            x = d.c[0]
            xs = [c for c in x.c] if x.k in ("InitListExpr",) or x.k in CTORS else []
            got.append([consts(y) for y in xs])
        if len(got) == nb and all(len(g) == 3 and None not in g for g in got):
            R.ob("place", f.where, [g[2] for g in got] == [1] * nb and [g[0] for g in got] == list(range(nb)) and [g[1] for g in got] == [0] + [1] * (nb - 1),
                 "%s|config" % f.q, "%s does not make one node per boundary before the sentence" % f.where)
    if nb is None:
        nb = 2
    for f in fns(P, LB):
        for d in f.all_nodes():
            if d.k != "VarDecl" or "LatticeBoundaryConfig" not in (d.t or "") or not d.c or f.name == "makeBos":
                continue
            x = d.c[0]
            xs = x.c if x.k == "InitListExpr" or x.k in CTORS else []
            if len(xs) != 3:
                continue
            R.ob("place", d.loc, not mentions(xs[1], "startCount") and not mentions(xs[2], "endCount"), "%s|counts" % f.q,
                 "%s mixes up the words which start and those which end" % f.where)
            ft = L.form(xs[0])
            ix = [y for y in deep(xs[1]) if y.k == "CXXOperatorCallExpr" and y.op == "[]" or y.is_call() and last(y.q) == "at"]
            if ft is not None and ix and len(f.params) >= 1 and mentions(xs[1], "endCount"):
                i = L.form(ix[0].args[-1])
                dd = ft - i if i is not None else None
                if dd is not None and dd.const() is not None:
                    # the boundary of the end of the sentence counts one more
                    want = nb if not any(y.k == "MemberExpr" and y.m == "maxBoundaries_" for y in xs[0].walk()) else None
                    if want is not None:
                        R.ob("place", d.loc, dd.const() == want, "%s|shift" % f.q, "%s takes the counts of another position" % f.where)
    for f in fns(P, LB, "makeEos"):
        mb = [n for n in f.calls() if last(n.q) == "makeBoundary"]
        add = [n for n in f.calls() if last(n.q) == "addEos"]
        if mb and (add or not any(last(c.q) == "addEos" for n in f.calls() for t in P.targets(n) for c in t.calls()) and not any(
                x.is_call() and last(x.q) == "EOS" for x in f.all_nodes())):
            ids = after(f, None, failed, lambda x: x.i in {n.i for n in add})
            R.ob("place", f.where, not ok_return(f, ids), "%s|eos" % f.q, "%s makes no node for the end of the sentence" % f.where)
        for d in f.all_nodes():
            if d.k == "VarDecl" and "LatticeBoundaryConfig" in (d.t or "") and d.c:
                x = d.c[0]
                xs = x.c if x.k == "InitListExpr" or x.k in CTORS else []
                if len(xs) == 3:
                    ix = [y for y in deep(xs[1]) if y.k == "CXXOperatorCallExpr" and y.op == "[]"]
                    mx = [y for y in ix if any(z.k == "MemberExpr" and z.m == "maxBoundaries_" for z in y.args[-1].walk())]
                    if mx:
                        t = L.form(mx[0].args[-1]) - L.T.term([z for z in mx[0].args[-1].walk() if z.k == "MemberExpr" and z.m == "maxBoundaries_"][0])
                        R.ob("place", d.loc, t.const() is None or t.const() == -1, "%s|eos-count" % f.q, "%s takes the number of words which end somewhere else" % f.where)
    for f in fns(P, LB, "fillEnds"):
        adds = [n for n in f.calls() if last(n.q) == "addEnd"]
        inl = [n for n in adds if innermost(n) is not None]
        pre = [n for n in adds if innermost(n) is None]
        got = []
        for n in pre:
            b = [x for x in n.obj.walk() if x.is_call() and last(x.q) == "boundary"] if n.obj is not None else []
            p = [x for x in n.args[0].walk() if x.k in CTORS or x.k == "InitListExpr"]
            v = next(([consts(y) for y in x.c] for x in p if len(x.c) == 2), None)
            if b and b[0].args and v is not None and consts(b[0].args[0]) is not None and None not in v:
                got.append((consts(b[0].args[0]), tuple(v)))
        if got and len(got) == len(pre):
            R.ob("place", f.where, sorted(got) == [(i + 1, (i, 0)) for i in range(nb)], "%s|bos" % f.q, "%s does not connect the nodes before the sentence" % f.where)
        for n in inl:
            lp = innermost(n)

            def same(a, p):           # a fact of an erased word
                r = rel(a, p)
                if r is None:
                    return False
                fs = {peel(y).m for y in r[1:] if is_field(peel(y))}
                return fs == {"codepointStart", "codepointEnd"} and r[0] == "=="

            def differ(a, p):
                r = rel(a, p)
                if r is None:
                    return False
                fs = {peel(y).m for y in r[1:] if is_field(peel(y))}
                return fs == {"codepointStart", "codepointEnd"} and r[0] == "!="
            _, nxt = turn(f, lp, same, lambda x: x.i == n.i)
            R.ob("place", n.loc, not nxt and not leaves(f, lp), "%s|each" % f.q, "%s leaves out words" % f.where)
            ids, _ = turn(f, lp, differ)
            R.ob("place", n.loc, n.i not in ids, "%s|erased" % f.q, "%s connects words which were erased" % f.where)
            ini = loop_start(lp)
            R.ob("place", lp.loc, ini is None or consts(ini) in (0, None), "%s|from" % f.q, "%s leaves out words" % f.where)
            bn = [x for x in deep(n.obj) if x.is_call() and last(x.q) == "boundary"] if n.obj is not None else []
            if bn:
                a = bn[0].args[0]
                fs = {x.m for x in deep(a) if x.k == "MemberExpr"} & {"codepointStart", "codepointEnd"}
                R.ob("place", n.loc, fs <= {"codepointEnd"}, "%s|end" % f.q, "%s connects a word where it does not end" % f.where)
                t = L.form(a)
                c = t.n.get((), 0) if t is not None else None
                R.ob("place", n.loc, t is None or c == nb, "%s|shift-end" % f.q, "%s connects a word at another boundary" % f.where)
            ptr = peel(n.args[0])
            for _ in range(4):
                if ptr.k in CTORS and len(ptr.c) == 1:
                    ptr = peel(ptr.c[0])
                elif ptr.k == "DeclRefExpr":
                    ptr = peel(alias(ptr))
            if ptr.k == "DeclRefExpr":
                ptr = peel(next((d.c[0] for d in f.all_nodes() if d.k == "VarDecl" and d.get("vid") == ptr.get("vid") and d.c), ptr))
            xs = ptr.c if ptr.k in CTORS or ptr.k == "InitListExpr" else []
            if len(xs) == 2:
                t = L.form(xs[0])
                fs = {x.m for x in deep(xs[0]) if x.k == "MemberExpr"} & {"codepointStart", "codepointEnd"}
                R.ob("place", n.loc, fs <= {"codepointStart"} and (t is None or t.n.get((), 0) == nb), "%s|start" % f.q,
                     "%s points to a word at a boundary where it does not start" % f.where)
                off = [x for x in deep(xs[1]) if x.k == "MemberExpr" and x.m in ("firstNodeOffset", "startCount", "endCount")]
                if off:
                    R.ob("place", n.loc, {x.m for x in off} == {"firstNodeOffset"}, "%s|offset" % f.q, "%s points to another word of the boundary" % f.where)
                    ob = [x for o in off for x in deep(o) if x.k == "MemberExpr" and x.m in ("codepointStart", "codepointEnd")]
                    R.ob("place", n.loc, all(x.m == "codepointStart" for x in ob), "%s|offset-of" % f.q, "%s counts from the words of another boundary" % f.where)
                    ft = L.form(xs[1])
                    if ft is not None:
                        R.ob("place", n.loc, () not in ft.n, "%s|offset-const" % f.q, "%s points to another word of the boundary" % f.where)
    for f in fns(P, LB, "constructSingleBoundary"):
        for t, v, st in assigns(f):
            x = strip(t)
            lp = innermost(st)
            if lp is None or v is None or "NodeInfo" not in (t.t or ""):
                continue
            i = codepoint_index(t)
            bs = [peel(alias(y.c[0])) for y in v.walk() if y.k == "MemberExpr" and y.m in ("entryPtr", "codepointStart", "codepointEnd") and y.c]
            js = [y for y in bs if y is not None and y.args and (y.k == "CXXOperatorCallExpr" and y.op == "[]" or y.is_call() and last(y.q) == "at")]
            if i is not None and js:
                R.ob("place", st.loc, all(L.same(i, j.args[-1]) is not False for j in js), "%s|which" % f.q, "%s puts a word in the place of another" % f.where)
            order = [y.m for y in v.walk() if y.k == "MemberExpr" and y.m in ("entryPtr", "codepointStart", "codepointEnd")]
            R.ob("place", st.loc, len(order) != 3 or order == ["entryPtr", "codepointStart", "codepointEnd"], "%s|info" % f.q, "%s mixes up the data of a word" % f.where)
        for d in f.all_nodes():
            if d.k == "VarDecl" and d.c and "LatticeNodeSeed" in (d.t or "") and "Slice" in (d.t or ""):
                xs = d.c[0].c
                if len(xs) == 3:
                    R.ob("place", d.loc, not mentions(xs[1], "startCount", "endCount") and not mentions(xs[2], "firstNodeOffset", "endCount"), "%s|slice" % f.q,
                         "%s takes other words than those which start at the position" % f.where)
    for f in fns(P, "::LatticeConstructionContext"):
        for t, v, st in assigns(f):
            if v is not None and "NodeInfo" in (t.t or ""):
                names = {last(x.q) for x in v.walk() if x.is_call()} & {"BOS", "EOS"}
                want = {"addBos": "BOS", "addEos": "EOS"}.get(f.name)
                if want and names:
                    R.ob("place", st.loc, names == {want}, "%s|entry" % f.q, "%s puts the wrong word at the edge of a sentence" % f.where)


def ok_return(f, ids):
    return any(f.nodes[i].k == "ReturnStmt" and not status_bad(f.nodes[i]) for i in ids if isinstance(i, int))


# ---------------------------------------------------------------- rules for unknown words
def setup(P, R, L):
    R.rule("unk-rule", "every rule for unknown words a specification has is made with its stage, class, pattern and fields, and is applied")
    enum_cls = {"Chunking": "ChunkingUnkMaker", "Single": "SingleUnkMaker", "Onomatopoeia": "OnomatopoeiaUnkMaker", "Numeric": "NumericUnkMaker",
                "Normalize": "NormalizedNodeMaker"}
    from enums import case_regions
    for f in fns(P, "::UnkMakerFactory", "make"):
        news = [n for n in f.all_nodes() if n.k == "CXXNewExpr" or n.is_call() and "make_unique" in n.q]
        known = set(enum_cls.values())
        for n in news:
            k = [c for c in known if c in (n.t or "")]
            if len(k) != 1:
                continue
            es = under(f, n, "UnkMakerType")
            R.ob("unk-rule", n.loc, not es or es == {e for e, c in enum_cls.items() if c == k[0]}, "%s|%s" % (f.q, k[0]),
                 "%s makes a %s for %s" % (f.where, k[0], "/".join(sorted(es))))
        for t, v, st in assigns(f):
            if v is None or st.k == "VarDecl":
                continue
            m = [x.m for x in v.walk() if x.k == "MemberExpr" and x.m in ("stage1", "stage2")]
            if len(m) == 1:
                cs = under(f, st, None)
                if cs:
                    R.ob("unk-rule", st.loc, cs == {"0" if m[0] == "stage1" else "1"}, "%s|%s" % (f.q, m[0]), "%s puts rules of priority %s in %s" % (f.where, "/".join(sorted(cs)), m[0]))
        for lp in loops(f):
            if innermost(lp) is not None or not any(x.inside(lp) for x in news):
                continue
            ni = {n.i for n in news}
            mk = {n.i for n in f.calls() if last(n.q) in ("emplace_back", "push_back")}
            _, nxt = turn(f, lp, failed, lambda n: n.i in mk)
            R.ob("unk-rule", lp.loc, not nxt, "%s|each" % f.q, "%s leaves out rules" % f.where)
            cfgs = [d for d in f.all_nodes() if d.k == "VarDecl" and "UnkNodeConfig" in (d.t or "") and d.inside(lp)]
            pieces = {"replaceWithSurface": [n for n in f.calls() if n.inside(lp) and any(x.k == "MemberExpr" and x.m == "replaceWithSurface" for x in n.walk()) and not n.k == "MemberExpr"],
                      "fillPatternFields": [n for n in f.calls() if last(n.q) == "fillPatternFields"],
                      "targetPlaceholder": [n for n in f.calls() if any(mentions_write(t, "targetPlaceholder") for t in P.targets(n))] +
                                           [st for t, v, st in assigns(f) if is_field(strip(t)) and strip(t).m == "targetPlaceholder"]}
            inlined = [t for n in f.calls() if n.inside(lp) for t in P.targets(n)]
            for k, ns in pieces.items():
                if not cfgs or k == "replaceWithSurface" and not ns and inlined and any(mentions_write(t, k) for t in inlined if t.name not in ("fillPatternFields", "fillElems")):
                    continue
                if k == "fillPatternFields" and any(any(last(c.q) == k for c in t.calls()) or mentions_write(t, "patternFields") for t in inlined if t.name != k) and not ns:
                    continue
                ids, _ = turn(f, lp, failed, lambda n: any(n.i == y.i for y in ns))
                R.ob("unk-rule", f.where, not (mk & ids), "%s|%s" % (f.q, k), "%s makes rules without their %s" % (f.where, k))
            fp, rp = pieces["fillPatternFields"], pieces["replaceWithSurface"]
            for x in fp:
                for y in rp:
                    if y is not x and innermost(x) is lp:
                        ids, _ = turn(f, lp, None, None, start=x)
                        R.ob("unk-rule", x.loc, y.i not in ids, "%s|order" % f.q, "%s takes fields for compared which are set later" % f.where)
            for d in cfgs:
                ent = [n for n in f.calls() if last(n.q) == "readEntry"]
                if ent:
                    R.ob("unk-rule", d.loc, any(f.cfg.dominates(n, d) for n in ent), "%s|pattern" % f.q, "%s makes a rule before its pattern was read" % f.where)
    for f in fns(P, "::UnkNodeConfig", "fillPatternFields"):
        for n in f.calls():
            if last(n.q) == "push_back":
                fs = [r[0] for a, p in facts_at(f, n) if (r := rel(a, p)) is not None and any(x.is_call() and last(x.q) == "find" for y in r[1:] for x in y.walk())]
                R.ob("unk-rule", n.loc, "!=" not in fs, "%s|compared" % f.q, "%s compares just the fields which are replaced" % f.where)
    for f in fns(P, "::UnkNodeConfig", "fillElems"):
        lp = [l for l in loops(f)]
        w = [(t, v, st) for t, v, st in assigns(f) if st.k != "VarDecl"]
        for t, v, st in w:
            if lp and v is not None and innermost(st) is not None and f.params:
                R.ob("unk-rule", st.loc, bool(vids(v) & {f.params[-1]["vid"]}), "%s|value" % f.q, "%s does not set the value it was given" % f.where)
    for f in fns(P, "::AnalyzerImpl"):
        st = [x for x in f.all_nodes() if x.k == "MemberExpr" and x.m in ("stage1", "stage2")]
        sp = [n for n in f.calls() if last(n.q) == "spawnNodes"]
        if not st or not sp:
            continue
        want = {"makeUnkNodes1": "stage1", "makeUnkNodes2": "stage2"}.get(f.name)
        if want:
            R.ob("unk-rule", f.where, {x.m for x in st} == {want}, "%s|stage" % f.q, "%s applies the rules of another stage" % f.where)
        for n in sp:
            lp = innermost(n)
            if lp is None:
                continue
            _, nxt = turn(f, lp, None, lambda x: x.i == n.i)
            R.ob("unk-rule", n.loc, not nxt, "%s|applied" % f.q, "%s leaves out rules" % f.where)
            issp = lambda a: strip(a).is_call() and last(strip(a).q) == "spawnNodes"
            R.ob("unk-rule", n.loc, not leaves(f, lp, status_bad), "%s|leave" % f.q, "%s leaves out rules" % f.where)
            ids, nxt = turn(f, lp, lambda a, p: issp(a) and not p, start=n)
            out = {x.i for x in f.all_nodes() if x.k == "ReturnStmt" and x.inside(lp)}
            R.ob("unk-rule", n.loc, nxt and not (out & ids), "%s|on" % f.q, "%s stops after a rule which was applied" % f.where)
    # how a word is made
    for f in fns(P, "::UnkNodesContext", "makePtr"):
        ph = [n for n in f.calls() if last(n.q) == "putPlaceholderData"]
        fe = [n for n in f.calls() if last(n.q) == "fillElems"]
        rets = [r for r in f.all_nodes() if r.k == "ReturnStmt"]
        for what, ns, cut in (("placeholder", ph, lambda a, p: (r := rel(a, p)) is not None and r[0] == "==" and mentions(r[1], "targetPlaceholder") and consts(r[2]) == -1
                               or (r is not None and mentions(r[1], "targetPlaceholder") and (r[0] == "<" and consts(r[2]) == 0 or r[0] == "<=" and consts(r[2]) == -1))), ("fields", fe, None)):
            writes = {x.i for x in ns}
            if what == "fields":
                writes |= {st.i for t, v, st in assigns(f) if st.k != "VarDecl" and innermost(st) is not None}
                if not ns and writes:
                    continue
            if what == "placeholder" and not ns:
                if any(any(last(c.q) == "putPlaceholderData" for c in t.calls()) for n in f.calls() for t in P.targets(n)):
                    continue
            ids = after(f, None, cut, lambda n: n.i in writes)
            R.ob("unk-rule", f.where, not any(r.i in ids for r in rets), "%s|%s|%d" % (f.q, what, len(f.params)), "%s makes words without their %s" % (f.where, what))
        for n in ph:
            pv = {p["vid"] for p in f.params[2:]}
            R.ob("unk-rule", n.loc, len(n.args) < 3 or not pv or bool(vids(n.args[2]) & pv) or not all(x.k in ("DeclRefExpr",) or x.v is not None for x in [peel(n.args[2])]), "%s|told|%d" % (f.q, len(f.params)),
                 "%s does not note what it was told about the word" % f.where)
    for f in fns(P, "::UnkNodesContext", "dicPatternMatches"):
        def differ(a, p):
            r = rel(a, p)
            return r is not None and r[0] == "==" and all(any(y2.is_call() and last(y2.q) == "at" or y2.k == "CXXOperatorCallExpr" and y2.op == "[]" for y2 in deep(y)) for y in r[1:])

        def agree(a, p):
            r = rel(a, p)
            return r is not None and r[0] == "!=" and all(any(y2.is_call() and last(y2.q) == "at" or y2.k == "CXXOperatorCallExpr" and y2.op == "[]" for y2 in deep(y)) for y in r[1:])
        bad = lambda a, p: strip(a).is_call() and last(strip(a).q) == "fillEntryData" and not p
        lps = [l for l in loops(f) if innermost(l) is not None]
        if len(lps) != 1 or not any(rel(n, True) is not None and (differ(n, True) or agree(n, True)) for n in f.all_nodes()):
            continue
        lp = lps[0]
        body = {x.i for x in lp.walk()}
        _, nxt = inner_turn(f, lp, differ)
        R.ob("unk-rule", lp.loc, not nxt, "%s|all" % f.q, "%s goes on to the next field although this one differs" % f.where)
        t = {r.i for r in f.all_nodes() if r.k == "ReturnStmt" and r.c and consts(r.c[0]) == 1}
        ids, _ = inner_turn(f, lp, None)
        R.ob("unk-rule", lp.loc, not (t & ids & body), "%s|early" % f.q, "%s takes an entry for matching before all fields were compared" % f.where)
        fl = {r.i for r in f.all_nodes() if r.k == "ReturnStmt" and r.c and consts(r.c[0]) == 0}
        outer = innermost(lp)
        i2, n2 = turn(f, outer, bad)
        R.ob("unk-rule", lp.loc, n2 and not any(i in {x.i for x in outer.walk()} for i in fl & i2), "%s|next" % f.q, "%s gives up before all entries were compared" % f.where)
        fin = [r for r in f.all_nodes() if r.k == "ReturnStmt" and r.c and innermost(r) is None]
        for r in fin:
            R.ob("unk-rule", r.loc, consts(r.c[0]) != 1, "%s|none" % f.q, "%s answers that an entry matches although none does" % f.where)


def mentions_write(f, name):
    return f.body is not None and any(x.k == "MemberExpr" and x.m == name for x in f.all_nodes())


def under(f, n, enum):
    """names or values of the switch labels n executes under"""
    cfg = f.cfg
    w = place(cfg, n)
    out = set()
    from enums import case_regions
    sw = enclosing(n, {"SwitchStmt"})
    while sw is not None:
        conde = next((c for c in sw.c if c.r == "cond"), None)
        if enum is None or conde is not None and enum in (strip(conde).t or "") + (conde.t or ""):
            for lab, blocks in case_regions(f, sw):
                if w[0] in blocks and lab.k == "CaseStmt":
                    x = lab.role("lhs")
                    e = enum_of(x, enum)
                    out.add(e if e else str(consts(x)))
            return out
        sw = enclosing(sw, {"SwitchStmt"})
    for a, p in facts_at(f, n):
        r = rel(a, p)
        if r is not None and r[0] == "==":
            for y in r[1:]:
                e = enum_of(y, enum) if enum else None
                if e:
                    out.add(e)
                elif enum is None and consts(y) is not None and mentions(a, "priority"):
                    out.add(str(consts(y)))
    return out


# ---------------------------------------------------------------- normalised spellings
KINDS = {"isRemovableProlong": ("DELETE", "DELETE_PROLONG"), "CheckRemovableHatsuon": ("DELETE", "DELETE_HASTSUON"),
         "CheckRemovableYouon": ("DELETE", "DELETE_SMALLKANA"), "CheckSubstituteChoon": ("REPLACE", "REPLACE_PROLONG"),
         "CheckSubstituteLower": ("REPLACE", "REPLACE_SMALLKANA")}


def flags(n):
    return {e for x in deep(n) if (e := enum_of(x, "Modifiers"))}


def normalised(P, R, L):
    R.rule("normalised", "a word which is written in another way is found through the characters it stands for, is noted with what was changed, and spans "
           "the characters of the input")
    CL, CT = "::charlattice::CharLattice", "::charlattice::CharLattceTraversal"
    for f in fns(P):
        use = [n for n in f.calls() if last(n.q) in ("isApplicable", "traversal") and "CharLattice::" in n.q]
        if use:
            ids = after(f, None, None, lambda n: n.is_call() and last(n.q) == "Parse" or n.is_call() and any(
                any(last(c.q) == "Parse" for c in t.calls()) for t in P.targets(n)))
            for n in use:
                R.ob("normalised", n.loc, n.i not in ids, "%s|parsed" % f.q, "%s uses a character lattice which was not filled" % f.where)
    for f in fns(P, CT):
        first = [n for n in f.calls() if last(n.q) == "push_back" and n.obj is not None and any(x.k == "MemberExpr" and x.m in ("states1_", "states2_") for x in n.obj.walk())]
        steps = step_calls(f)
        if steps and f.name != "tryWalk":
            sets = {st.i for t, v, st in assigns(f) if is_field(strip(t)) and strip(t).m == "lastStatus"}
            if sets or not any(mentions_write(t, "lastStatus") for n in f.calls() for t in P.targets(n)):
                for st in steps:
                    ids = after(f, st, None, lambda n: n.i in sets)
                    R.ob("normalised", f.where, not any(n.i in ids for n in first), "%s|status" % f.q, "%s goes on from a state without what the dictionary has answered there" % f.where)
        walk = [n for n in f.calls() if last(n.q) == "doTraverseStep"]
        swap = {n.i for n in f.calls() if last(n.q) in ("swap", "operator=", "move", "assign") and {x.m for x in n.walk() if x.k == "MemberExpr"} >= {"states1_", "states2_"}}
        if not any(last(c.q) in ("swap", "operator=", "move", "assign") and {x.m for x in c.walk() if x.k == "MemberExpr"} >= {"states1_", "states2_"} for n in walk for t in P.targets(n) for c in t.calls()):
            for n in walk:
                lp = innermost(n)
                if lp is not None:
                    ids = after(f, n, None, lambda x: x.i in swap)
                    R.ob("normalised", n.loc, n.i not in ids, "%s|swap" % f.q, "%s does not go on from what it has reached" % f.where)
    for f in fns(P, CL, "Parse"):
        for lp in loops(f):
            if innermost(lp) is not None:
                continue
            for n in f.calls():
                if n.inside(lp) and last(n.q) in KINDS:
                    for a in n.args:
                        x = strip(a)
                        if x.k == "DeclRefExpr" and x.get("dk") == "local" and x.t == "bool":
                            ch = [st for t, v, st in assigns(f) if strip(t).get("vid") == x.get("vid") and st.inside(lp)]
                            ch += [c for c in f.calls() if c.inside(lp) and last(c.q) not in KINDS and any(strip(y).get("vid") == x.get("vid") for y in c.args)]
                            R.ob("normalised", n.loc, bool(ch) or any(d.k == "VarDecl" and d.get("vid") == x.get("vid") and d.inside(lp) for d in f.all_nodes()), "%s|carried|%s" % (f.q, last(n.q)),
                                 "%s never notes that a character was left out" % f.where)
    for f in fns(P, CT, "tryWalk"):
        steps = step_calls(f)
        keep = [n for n in f.calls() if last(n.q) == "push_back" and n.obj is not None and any(x.k == "MemberExpr" and x.m == "states2_" for x in n.obj.walk())]
        res = [n for n in f.calls() if last(n.q) in ("push_back", "emplace_back") and n.obj is not None and any(x.k == "MemberExpr" and x.m == "result_" for x in n.obj.walk())]
        bools = {p["vid"] for p in f.params if re.match(r"(const )?bool", p["t"])}
        for st in steps:
            g = [p for a, p in facts_at(f, st) if strip(a).k == "DeclRefExpr" and strip(a).get("vid") in bools]
            R.ob("normalised", st.loc, not bools or g == [True], "%s|step" % f.q, "%s looks up characters which are left out, or leaves out those which are there" % f.where)
        for s in STATUS:
            cut, case = status_cuts(s)
            ids = after(f, None, cut, None, None, case)
            if keep:
                R.ob("normalised", f.where, any(n.i in ids for n in keep) == (s != "NoNode"), "%s|kept|%s" % (f.q, s),
                     "%s %s when the dictionary answers %s" % (f.where, "does not go on" if s != "NoNode" else "goes on", s))
            if res:
                R.ob("normalised", f.where, any(n.i in ids for n in res) == (s == "Ok"), "%s|found|%s" % (f.q, s),
                     "%s %s when the dictionary answers %s" % (f.where, "finds no word" if s == "Ok" else "finds a word", s))

        def plain(a, p):          # contradicts: nothing was changed
            r = rel(a, p)
            return r is not None and any(enum_of(y, "Modifiers") == "ORIGINAL" for y in r[1:]) and r[0] == "!="

        def changed(a, p):
            r = rel(a, p)
            return r is not None and any(enum_of(y, "Modifiers") == "ORIGINAL" for y in r[1:]) and r[0] == "=="
        for n in res:
            other = [a for a, p in facts_at(f, n) if rel(a, p) is not None and mentions(a, "allFlags") and flags(a) and flags(a) != {"ORIGINAL"} and flags(a) <= {"EMPTY", "REPLACE", "DELETE"}]
            R.ob("normalised", n.loc, not other, "%s|plain" % f.q, "%s finds words in which nothing was changed" % f.where)
        if res and any(rel(n, True) is not None and (plain(n, True) or changed(n, True)) for n in f.all_nodes()):
            R.ob("normalised", f.where, not any(n.i in after(f, None, plain) for n in res), "%s|plain" % f.q, "%s finds words in which nothing was changed" % f.where)
            R.ob("normalised", f.where, any(n.i in after(f, None, changed) for n in res), "%s|changed" % f.q, "%s finds no words in which something was changed" % f.where)
        if keep:
            sets = {st.i for t, v, st in assigns(f) if is_field(strip(t)) and strip(t).m == "lastStatus"}
            ids = after(f, None, None, lambda n: n.i in sets)
            if sets or not any(mentions_write(t, "lastStatus") for n in f.calls() for t in P.targets(n)):
                R.ob("normalised", f.where, not any(n.i in ids for n in keep), "%s|status" % f.q, "%s goes on from a state without what the dictionary has answered there" % f.where)
        # the flag of a word which ends in a character that is left out
        for t, v, st in assigns(f):
            if v is not None and "DELETE_LAST" in flags(v) and st.k != "VarDecl":
                g = [(p, flags(a)) for a, p in facts_at(f, st) if strip(a).is_call() and last(strip(a).q) in ("ExistFlag", "hasType")]
                g += [((r[0] == "!="), flags(a)) for a, p in facts_at(f, st) if (r := rel(a, p)) is not None and "DELETE" in flags(a)]
                R.ob("normalised", st.loc, not g or any(p and "DELETE" in fl for p, fl in g), "%s|last" % f.q, "%s notes the wrong change of the last character" % f.where)
        for n in res:
            order = [y.m for a in n.args for y in a.walk() if y.k == "MemberExpr" and y.m in ("start", "end")]
            R.ob("normalised", n.loc, order in ([], ["start", "end"]), "%s|span" % f.q, "%s finds words at other places" % f.where)
        for n in f.calls():
            if last(n.q) == "make" and len(n.args) >= 4:
                t = L.form(n.args[2])
                d = [x for x in deep(n.args[2]) if x.k == "MemberExpr" and x.m in ("start", "end")]
                R.ob("normalised", n.loc, not d or {x.m for x in d} == {"end"}, "%s|next" % f.q, "%s does not go on behind the characters which were used" % f.where)
                adds = [x for x in deep(n.args[2]) if x.k == "BinaryOperator" and x.op == "+" and any(y.k == "MemberExpr" and y.m == "end" for y in x.walk())]
                for x in adds:
                    tt = L.form(x)
                    R.ob("normalised", x.loc, tt is None or tt.n.get((), None) in (None, 1), "%s|one" % f.q, "%s does not go on one character" % f.where)
                if d and not adds and not any(x.is_call() and P.targets(x) for x in deep(n.args[2])):
                    R.ob("normalised", n.loc, any(x.k == "UnaryOperator" and x.op == "++" for x in f.all_nodes()), "%s|one" % f.q, "%s does not go on one character" % f.where)
                fl = {p["vid"] for p in f.params if "Modifiers" in p["t"]}
                R.ob("normalised", n.loc, not fl or bool(vidsdeep(n.args[3]) & fl) and mentions(n.args[3], "allFlags"), "%s|flags" % f.q, "%s does not keep what was changed" % f.where)
    for f in fns(P, CT, "doTraverseStep"):
        tw = [n for n in f.calls() if last(n.q) == "tryWalk" and len(n.args) == 4]
        for n in tw:
            fl = flags(n.args[2])
            if enum_of(peel(n.args[2]), "Modifiers"):
                R.ob("normalised", n.loc, fl == {"ORIGINAL"} and consts(n.args[3]) in (1, None), "%s|itself" % f.q, "%s does not try the character itself" % f.where)
                lp = innermost(n)
                if lp is not None:
                    _, nxt = inner_turn(f, lp, None, lambda x: x.i == n.i)
                    R.ob("normalised", n.loc, not nxt, "%s|itself-each" % f.q, "%s does not try the character itself from each state" % f.where)
            else:
                x = peel(alias(n.args[3]))
                neg = 0
                y = x
                while y is not None and y.k == "UnaryOperator" and y.op == "!":
                    neg += 1
                    y = peel(y.c[0])
                if y is not None and y.is_call() and (last(y.q) == "hasType" and "DELETE" in flags(y) or last(y.q) == "isDelete"):
                    R.ob("normalised", n.loc, neg % 2 == 1, "%s|left-out" % f.q, "%s looks up characters which are left out" % f.where)
                elif x is not None and x.v is not None:
                    R.ob("normalised", n.loc, False, "%s|left-out" % f.q, "%s treats characters which are left out like those which are replaced" % f.where)
                lp = innermost(n)
                if lp is not None:
                    _, nxt = inner_turn(f, lp, None, lambda z: z.i == n.i)
                    R.ob("normalised", n.loc, not nxt, "%s|instead-each" % f.q, "%s leaves out characters which can stand there" % f.where)
        kinds = {bool(enum_of(peel(n.args[2]), "Modifiers")) for n in tw}
        if tw:
            R.ob("normalised", f.where, kinds == {True, False}, "%s|both" % f.q, "%s does not try both the character itself and those which can stand for it" % f.where)
    for f in fns(P, CL, "Parse"):
        adds = [n for n in f.calls() if last(n.q) == "add" and len(n.args) == 3]
        skip = {d.get("vid") for d in f.all_nodes() if d.k == "VarDecl" and d.c and any(x.k == "StringLiteral" and (x.get("s") or "") == "" for x in d.c[0].walk()) and "Codepoint" in (d.t or "")}
        for n in adds:
            fl = flags(n.args[2])
            left = bool(vids(n.args[1]) & skip)
            if not fl:
                continue
            R.ob("normalised", n.loc, ("DELETE" in fl) == left and ("REPLACE" in fl) != left, "%s|kind|%s" % (f.q, "+".join(sorted(fl))),
                 "%s notes a character which is %s as %s" % (f.where, "left out" if left else "replaced", "|".join(sorted(fl))))
            facts = [(strip(a), p) for a, p in facts_at(f, n)]
            t = [(last(a.q), p, a) for a, p in facts if a.is_call() and last(a.q) in KINDS]
            pos = [k for k, p, a in t if p]
            for k in set(pos):
                R.ob("normalised", n.loc, set(KINDS[k]) <= fl, "%s|%s" % (f.q, k), "%s notes what %s has found as %s" % (f.where, k, "|".join(sorted(fl))))
            R.ob("normalised", n.loc, bool(pos) or not t, "%s|tested|%s" % (f.q, "+".join(sorted(fl))), "%s changes a character which must not be changed" % f.where)
            # the map which was tested is the one which is used
            maps = {x.m for x in deep(n.args[1]) if x.k == "MemberExpr" and x.q and "CharDb" in x.q}
            tested = {x.m for k, p, a in t if p for y in a.args for x in deep(y) if x.k == "MemberExpr" and x.q and "CharDb" in x.q}
            if "CheckSubstituteLower" in pos:
                tested |= {"lower2upper"}
            R.ob("normalised", n.loc, not maps or not tested or maps <= tested, "%s|map|%s" % (f.q, "+".join(sorted(maps))), "%s takes characters of a map which has not been asked" % f.where)
            R.ob("normalised", n.loc, ("REPLACE_EROW_WITH_E" in fl) == ("prolongedMapForErow" in maps) or not maps, "%s|erow" % f.q, "%s notes the wrong change" % f.where)
            finds = [x for x in deep(n.args[1]) if x.is_call() and last(x.q) == "find"]
            for x in finds:
                ix = [y for z in x.args for y in deep(z) if y.k == "CXXOperatorCallExpr" and y.op == "[]"]
                m = {y.m for y in (x.obj.walk() if x.obj is not None else []) if y.k == "MemberExpr"}
                back = any(c2 is not None and c2.const() is not None and c2.const() == -1 for y in ix for c2 in [diff(L, y.args[-1], n.args[0])])
                here = any(c2 is not None and c2.const() == 0 for y in ix for c2 in [diff(L, y.args[-1], n.args[0])])
                if ix and (back or here):
                    R.ob("normalised", n.loc, (m != {"lower2upper"}) == back, "%s|which|%s" % (f.q, "+".join(sorted(m))), "%s asks for another character than it tested" % f.where)
            # a character which was left out counts for the next one
            if left:
                lp = innermost(n)
                carry = carries(f, lp) if lp is not None else None
                if carry:
                    cur, nxt = carry
                    st = {s.i for t2, v, s in assigns(f) if strip(t2).k == "DeclRefExpr" and strip(t2).get("vid") == nxt and consts(v) == 1 and s.inside(lp)}
                    pre, _ = inner_turn(f, lp, None, lambda x: x.i in st)
                    rest, on = inner_turn(f, lp, None, lambda x: x.i in st, start=n)
                    R.ob("normalised", n.loc, not (n.i in pre and on), "%s|noted|%s" % (f.q, "+".join(sorted(fl))), "%s does not note that a character was left out" % f.where)
        for lp in loops(f):
            c = carries(f, lp)
            if c:
                cur, nxt = c
                z = {s.i for t2, v, s in assigns(f) if strip(t2).k == "DeclRefExpr" and strip(t2).get("vid") == nxt and v is not None and consts(v) == 0 and s.inside(lp)}
                one = {s.i for t2, v, s in assigns(f) if strip(t2).k == "DeclRefExpr" and strip(t2).get("vid") == nxt and v is not None and consts(v) == 1 and s.inside(lp)}
                cp = {s.i for t2, v, s in assigns(f) if strip(t2).k == "DeclRefExpr" and strip(t2).get("vid") == cur and s.inside(lp) and s.k != "VarDecl"}
                ids, on = inner_turn(f, lp, None, lambda x: x.i in z)
                R.ob("normalised", lp.loc, not (cp & ids), "%s|reset" % f.q, "%s takes a character for left out because an earlier one was" % f.where)
                ids, on = inner_turn(f, lp, None, lambda x: x.i in cp)
                R.ob("normalised", lp.loc, not on, "%s|carried" % f.q, "%s does not tell the next character what happened to this one" % f.where)
                ids, on = inner_turn(f, lp, None, None, start=f.nodes[next(iter(cp))]) if cp else (set(), False)
                R.ob("normalised", lp.loc, not (one & ids), "%s|late" % f.q, "%s notes that a character was left out too late" % f.where)
    for f in fns(P, CT, "lookupCandidatesFrom"):
        tr = [n for n in f.calls() if last(n.q) == "doTraverseStep"]
        for n in tr:
            lp = innermost(n)
            if lp is None:
                continue
            x = peel(n.args[0])
            if x.k == "DeclRefExpr" and f.params:
                inc = {s.i for s in f.all_nodes() if s.k == "UnaryOperator" and s.op == "++" and strip(s.c[0]).get("vid") == x.get("vid") or
                       s.k == "CompoundAssignOperator" and s.op == "+=" and consts(s.c[1]) == 1 and strip(s.c[0]).get("vid") == x.get("vid")}
                ids, on = inner_turn(f, lp, None, lambda y: y.i in inc, start=n)
                R.ob("normalised", n.loc, not on or not inc, "%s|step" % f.q, "%s looks at the same character again" % f.where)
                ini = next((d for d in f.all_nodes() if d.k == "VarDecl" and d.get("vid") == x.get("vid") and d.c), None)
                if ini is not None:
                    t = L.form(ini.c[0])
                    v = L.T.term(ini.c[0])
                    dd = t - atomv(L, f.params[0], f) if t is not None else None
                    R.ob("normalised", ini.loc, dd is None or dd.const() in (None, 1), "%s|second" % f.q, "%s does not go on with the second character" % f.where)
                sw = {y.i for y in f.calls() if last(y.q) == "swap" and any(z.k == "MemberExpr" and z.m in ("states1_", "states2_") for z in y.walk())}
                ids, on = inner_turn(f, lp, None, lambda y: y.i in sw, start=n)
                R.ob("normalised", n.loc, not sw or not on, "%s|swap" % f.q, "%s does not go on from the states of the last character" % f.where)
        for n in f.calls():
            if last(n.q) == "make" and len(n.args) >= 4 and innermost(n) is None and f.params:
                v = atomv(L, f.params[0], f)
                a, b = L.form(n.args[1]), L.form(n.args[2])
                for z, k, w in ((a, 0, "start"), (b, 1, "end")):
                    dd = (z - v).const() if z is not None else None
                    R.ob("normalised", n.loc, dd in (None, k), "%s|%s" % (f.q, w), "%s begins with a state which does not %s where the first character does" % (f.where, w))
                R.ob("normalised", n.loc, flags(n.args[3]) <= {"ORIGINAL"}, "%s|first-flags" % f.q, "%s begins with something changed" % f.where)
        first = [n for n in step_calls(f) if innermost(n) is None]
        for st in first:
            for s in STATUS:
                cut, case = status_cuts(s)
                ids = after(f, st, cut, None, None, case)
                R.ob("normalised", st.loc, any(n.i in ids for n in tr) == (s != "NoNode") or not tr, "%s|begin|%s" % (f.q, s),
                     "%s %s when the dictionary answers %s for the first character" % (f.where, "stops" if s != "NoNode" else "goes on", s))
            sets = {x.i for t, v, x in assigns(f) if is_field(strip(t)) and strip(t).m == "lastStatus"}
            if sets:
                ids = after(f, st, None, lambda n: n.i in sets)
                R.ob("normalised", st.loc, not any(n.i in ids for n in tr), "%s|begin-status" % f.q, "%s goes on from a state without what the dictionary has answered there" % f.where)


# ---------------------------------------------------------------- characters which are looked at
def is_chars(n):
    t = peel(n).t if peel(n) is not None else ""
    return "InputCodepoint" in (t or "") and ("vector" in t or "Slice" in t) or "CodepointStorage" in (t or "")


def bounds(P, f, n, L, size, depth=2):
    """forms which are not negative when n is reached"""
    out = []
    facts = []
    for a, p in expand(f, facts_at(f, n)):
        facts.append((a, p, None))
    # conditions evaluated before n in the same expression
    x, q = n, n.p
    while q is not None and q.k not in ("CompoundStmt",):
        if q.k == "BinaryOperator" and q.op in ("&&", "||") and len(q.c) == 2 and any(y is x for y in q.c[1].walk()):
            facts += [(a, p, None) for a, p in branch_facts(q.c[0], q.op == "&&")]
        x, q = q, q.p
    # a variable which only grows is never below its begin
    lp = enclosing(n, {"ForStmt"})
    while lp is not None:
        ini = loop_start(lp)
        if ini is not None:
            d = next(x for x in lp.role("init").walk() if x.k == "VarDecl" and x.c)
            ch = [m for m in f.all_nodes() if m.k in ("UnaryOperator", "CompoundAssignOperator", "BinaryOperator") and m.c and strip(m.c[0]).get("vid") == d.get("vid")
                  and (m.op in ("++", "--", "&") if m.k == "UnaryOperator" else m.op.endswith("=") and m.op not in ("==", "!=", "<=", ">="))]
            use = [x for x in f.all_nodes() if x.k == "DeclRefExpr" and x.get("vid") == d.get("vid")]
            if use and all(m.op == "++" or m.op == "+=" and (consts(m.c[1]) or 0) > 0 for m in ch):
                v, b = L.form(use[0]), L.form(ini)
                if v is not None and b is not None:
                    out.append(v - b)
        lp = enclosing(lp, {"ForStmt"})
    for a, p, env in facts:
        out += as_forms(a, p, L)
        c = strip(a)
        if c.is_call() and p and depth and not c.op:
            ts = P.targets(c)
            if len(ts) == 1 and ts[0].cfg is not None and ts[0].body is not None:
                out += callee_forms(P, ts[0], c, L, depth - 1)
    return out


def as_forms(a, p, L):
    r = rel(a, p)
    if r is None:
        x = strip(a)
        if x.k == "BinaryOperator":
            return []
        return []
    l, g = L.form(r[1]), L.form(r[2])
    if l is None or g is None:
        return []
    if r[0] == "<":
        return [g - l - num(1)]
    if r[0] == "<=":
        return [g - l]
    if r[0] == ">":
        return [l - g - num(1)]
    if r[0] == ">=":
        return [l - g]
    if r[0] == "==":
        return [l - g, g - l]
    if r[0] == "!=" and g.const() == 0 and unsigned(r[1]):
        return [l - num(1)]
    return []


def unsigned(n):
    x = strip(n)
    while x is not None and x.k.endswith("CastExpr") and x.c:
        x = x.c[0]
    return True


def callee_forms(P, g, call, L, depth):
    rs = [r for r in g.all_nodes() if r.k == "ReturnStmt" and r.c and consts(r.c[0]) != 0]
    if len(rs) != 1:
        return []
    fs = list(facts_at(g, rs[0])) + list(branch_facts(rs[0].c[0], True))
    env = {}
    for p, a in zip(g.params, call.args):
        t = L.form(a)
        if t is not None:
            env["v:%s#%s" % (p["n"], p["vid"])] = t
    out = []
    for a, p in fs:
        for t in as_forms(a, p, L):
            u = subst(t, env)
            if u is not None:
                out.append(u)
    return out


def subst(t, env):
    if t.d != {(): 1}:
        return None
    r = num(0)
    for m, c in t.n.items():
        k = num(c)
        for nm, e in m:
            if nm not in env:
                if nm.startswith("v:"):
                    return None
                from terms import atom
                v = atom(nm)
            else:
                v = env[nm]
            for _ in range(e):
                k = k * v
        r = r + k
    return r


def nonneg(t, facts, depth=2):
    if t.d != {(): 1}:
        return False
    if all(c >= 0 for c in t.n.values()):
        return True
    if depth == 0:
        return False
    return any(nonneg(t - f, facts, depth - 1) for f in facts)


def in_range(P, R, L):
    R.rule("char", "a character of the input is looked at only where the position was compared with the length of the input")
    for f in fns(P):
        if not f.file.startswith("src/core/analysis/") or f.body is None:
            continue
        chars = {p["vid"] for p in f.params if "InputCodepoint" in p["t"] or "Codepoint" in p["t"] and ("vector" in p["t"] or "Slice" in p["t"])}
        ints = [p for p in f.params if re.match(r"(const )?(unsigned )?(jumanpp::)?(core::)?(LatticePosition|size_t|int|long|short|unsigned short|u16|u32|i32)( &)?$", p["t"])]
        for n in f.all_nodes():
            if not (n.k == "CXXOperatorCallExpr" and n.op == "[]" and len(n.args) == 2 and is_chars(n.args[0])):
                continue
            base = peel(n.args[0])
            i = L.form(n.args[1])
            if i is None or i.d != {(): 1}:
                continue
            at = {nm for m in i.n for nm, _ in m}
            sz = [x for x in f.calls() if last(x.q) == "size" and x.obj is not None and struct(peel(x.obj)) == struct(base)]
            if not sz:
                continue
            from terms import atom
            S = L.form(sz[0])
            facts = bounds(P, f, n, L, S)
            if base.k == "DeclRefExpr" and base.get("vid") in chars and ints:
                t = S - num(1)
                for p in ints:
                    t = t - atomv(L, p, f)
                facts.append(t)
            sat = list(S.n)[0][0][0]
            rel_at = {nm for t in facts if any(x == sat for m in t.n for x, _ in m) for m in t.n for nm, _ in m} | {sat}
            todo = True
            if not at <= rel_at:
                continue
            up = S - i - num(1)
            R.ob("char", n.loc, nonneg(up, facts), "%s|%s|upper" % (f.q, sig(i)), "%s looks at a character which can be behind the end of the input" % f.where)
            if any(c < 0 for c in i.n.values()):
                R.ob("char", n.loc, nonneg(i, facts), "%s|%s|lower" % (f.q, sig(i)), "%s looks at a character which can be before the begin of the input" % f.where)


def windows(P, R, L):
    """an early rejection by length must not reject what the search would accept"""
    for f in fns(P):
        if not f.file.startswith("src/core/analysis/") or f.body is None or not any(is_chars(n.args[0]) for n in f.all_nodes() if n.k == "CXXOperatorCallExpr" and n.op == "[]" and len(n.args) == 2):
            continue
        from terms import atom
        for lp in loops(f):
            if lp.k != "ForStmt" or loop_start(lp) is None or innermost(lp) is not None:
                continue
            d = next(x for x in lp.role("init").walk() if x.k == "VarDecl" and x.c)
            v0 = L.form(d.c[0])
            hs = []
            for a, p in branch_facts(lp.role("cond"), True):
                for t in as_forms(a, p, L):
                    if v0 is not None and any("call:size" in nm for m in t.n for nm, _ in m):
                        u = subst_var(t, "v:%s#%s" % (d.get("n"), d.get("vid")), v0)
                        if u is not None:
                            hs.append(u)
            if not hs:
                continue
            for a, p in facts_at(f, d):
                for g in as_forms(a, p, L):
                    if not any("call:size" in nm for m in g.n for nm, _ in m):
                        continue
                    for h in hs:
                        k = (h - g).const()
                        if k is not None:
                            R.ob("char", a.loc, k <= 0, "%s|window" % f.q, "%s rejects positions where what it looks for would fit" % f.where)


def subst_var(t, name, v):
    from terms import atom
    if t.d != {(): 1}:
        return None
    r = num(0)
    for m, c in t.n.items():
        k = num(c)
        for nm, e in m:
            for _ in range(e):
                k = k * (v if nm == name else atom(nm))
        r = r + k
    return r


def sig(t):
    return "+".join(sorted("*".join(re.sub(r"#.*", "", nm) for nm, _ in m) + (":%s" % c if not m else "") for m, c in t.n.items()))


def vidsdeep(n):
    return {x.get("vid") for x in deep(n) if x.k == "DeclRefExpr" and x.get("vid") is not None}


def diff(L, a, b):
    x, y = L.form(a), L.form(b)
    return None if x is None or y is None else x - y


def atomv(L, p, f):
    from terms import atom
    return atom("v:%s#%s" % (p["n"], p["vid"]))


def carries(f, lp):
    """(what is known of the last turn, what this one will tell) of two flags of a loop"""
    for t, v, st in assigns(f):
        if st.k == "VarDecl" or not st.inside(lp) or v is None:
            continue
        a, b = strip(t), strip(v)
        if a.k == b.k == "DeclRefExpr" and a.get("dk") == b.get("dk") == "local" and (a.t or "") == "bool" and a.get("vid") != b.get("vid"):
            return a.get("vid"), b.get("vid")
    return None


def run(P, R):
    L = Lin(P)
    spans(P, R, L)
    positions(P, R, L)
    outcomes(P, R, L)
    counting(P, R, L)
    connected(P, R, L)
    places(P, R, L)
    setup(P, R, L)
    normalised(P, R, L)
    in_range(P, R, L)
    windows(P, R, L)

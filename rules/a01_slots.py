"""A01, second part: score weights, guards of settings, modes of the program, pieces of a configuration file."""
from vflow import *
from pathcut import after, strip
from enums import enum_of, under_enum

SKIPF = ("src/core/devtools", "src/rnn/legacy", "src/core/benchmarks", "src/core/codegen")


def scope(f):
    return f.file.startswith("src/") and not f.file.startswith(SKIPF) and not testfile(f.file) and f.cfg is not None


def weight_of(v):
    """perceptronWeight / rnnWeight when the value is that setting"""
    v = alias(v) if v is not None else None
    if v is None:
        return None
    w = {x.m for x in v.walk() if is_field(x) and fq(x) in ("RnnInferenceConfig::perceptronWeight", "RnnInferenceConfig::rnnWeight")}
    return w.pop() if len(w) == 1 else None


def weight_stores(f):
    """(node, slot or None, setting)"""
    out = []
    for t, v, st in assigns(f):
        x = peel(t)
        if x.k == "CXXOperatorCallExpr" and x.op == "[]" or x.k == "CXXMemberCallExpr" and x.q.endswith("::at"):
            lf = leaf_field(x)
            if lf is None or fq(lf) != "ScorerDef::scoreWeights":
                continue
            k = peel(x.args[-1]).v if x.args else None
            w = weight_of(v)
            if w:
                out.append((st, k, w))
    for n in f.calls():
        if n.k == "CXXMemberCallExpr" and re.search(r"::(push_back|emplace_back)$", n.q) and n.obj is not None and n.args:
            lf = leaf_field(n.obj)
            if lf is not None and fq(lf) == "ScorerDef::scoreWeights":
                w = weight_of(n.args[0])
                if w:
                    out.append((n, None, w))
    return out


def weights(P, R):
    R.rule("weight-slot", "the weights of the linear model and of the RNN stand in their places, and one is not set without the other")
    rnnset = set()
    fs = [(f, weight_stores(f)) for f in P.fns.values() if scope(f)]
    for f, ws in fs:
        if any(w == "rnnWeight" for _, _, w in ws):
            rnnset.add(f.key)
    for f, ws in fs:
        for st, k, w in ws:
            if k is None:
                continue
            R.ob("weight-slot", st.loc, (k == 0) == (w == "perceptronWeight"), "%s|slot|%s" % (f.q, w),
                 "%s stores %s as weight number %s" % (f.where, w, k))
        one = {st.i for t, v, st in assigns(f) if (lf := leaf_field(t)) is not None and fq(lf) == "ScoringConfig::numScorers"
               and v is not None and peel(v).v == 1}
        second = {st.i for st, k, w in ws if w == "rnnWeight"} | {n.i for n in f.calls() if any(t.key in rnnset for t in P.targets(n))}
        stop = lambda n: n.i in one or n.i in second
        for st, k, w in ws:
            if w != "perceptronWeight":
                continue
            bad = st.i in after(f, None, None, lambda n: stop(n)) and "exit" in after(f, st, None, stop)
            R.ob("weight-slot", st.loc, not bad, "%s|both" % f.q,
                 "%s sets the weight of the linear model, but not that of the RNN, although there may be one" % f.where)


def guards(P, R):
    R.rule("given-guard", "a setting which is only used when it was given is used then, and not when it was not")
    for f in P.fns.values():
        if not scope(f) or "util::Cfg" in f.q:
            continue
        tests = [n for n in f.calls() if re.search(r"Cfg<.*>::(isDefault|defined)$", n.q) and n.obj is not None]
        if not tests:
            continue
        names = {s for n in tests if (s := struct(alias(n.obj))) is not None}
        for n in f.calls():
            if not (re.search(r"Cfg<.*>::value$", n.q) or re.search(r"Cfg<.*>::operator const", n.q)) or n.obj is None:
                continue
            s = struct(alias(n.obj))
            if s not in names:
                continue
            if enclosing(n, {"CXXOperatorCallExpr"}) is not None and any(
                    a.k == "CXXOperatorCallExpr" and a.op == "<<" for a in n.ancestors()):
                continue
            pol = None
            for c, p in edges_to(f, n):
                for a, q in norm_cond(c, p):
                    a = strip(a)
                    if a.is_call() and a.obj is not None and re.search(r"Cfg<.*>::(isDefault|defined)$", a.q) and struct(alias(a.obj)) == s:
                        pol = q == a.q.endswith("defined")
            if pol is None:
                continue
            R.ob("given-guard", n.loc, pol, "%s|%s" % (f.q, s[1].split("::")[-1] if isinstance(s, tuple) and len(s) > 1 and isinstance(s[1], str) else ""),
                 "%s uses the setting only when it was not given" % f.where)


MODES = {"printFullVersion": "Version", "printModelInfo": "ModelInfo"}


def modes(P, R):
    R.rule("mode-selects", "the program prints its version or the model's description only when asked to, and analyses otherwise")
    for f in P.fns.values():
        if not scope(f) or not f.file.startswith("src/jumandic/main"):
            continue
        for n in f.calls():
            lf = n.q.split("::")[-1]
            want = MODES.get(lf)
            if want is None and not re.search(r"Reader::(readExample|analyzeWith)$|::nextInput$|InputOutput::initialize$", n.q):
                continue
            facts = []
            for c, p in edges_to(f, n):
                for a, q in norm_cond(c, p):
                    a = strip(a)
                    xs = a.args if a.is_call() and a.op in ("==", "!=") else a.c if a.k == "BinaryOperator" and a.op in ("==", "!=") else []
                    if a.is_call() and a.obj is not None and not xs and a.q.split("::")[-1] in ("operator==", "operator!="):
                        xs = [a.obj] + list(a.args)
                    es = [e for x in xs if (e := enum_of(x, "OutputType"))]
                    if es:
                        facts.append((es[0], q == (a.op == "==" if a.op else a.q.endswith("=="))))
            bad = None
            for e, q in facts:
                if want and (e == want) != q and (q or e == want):
                    bad = e
                if not want and q and e in MODES.values():
                    bad = e
            if facts:
                R.ob("mode-selects", n.loc, bad is None, "%s|%s" % (f.q, lf),
                     "%s: %s is run although the output type is%s %s" % (f.where, lf, "" if not want or bad != want else " not", bad))


def pieces(P, R):
    R.rule("config-pieces", "the text of a configuration file is cut at its separators, each piece starting after the separator before it")
    for f in P.fns.values():
        if not scope(f) or not f.file.startswith("src/jumandic/shared"):
            continue
        cuts = []
        for n in f.calls():
            if len(n.args) < 2:
                continue
            a, b = strip(n.args[0]), n.args[1]
            while a is not None and a.k == "UnaryOperator" and a.op == "*" and a.c:
                a = strip(a.c[0])
            if a is None or a.k != "DeclRefExpr" or a.get("vid") is None:
                continue
            fm = [x for x in b.walk() if x.k == "MemberExpr" and x.m == "first" and any("sub_match" in (y.t or "") for y in x.walk())]
            if fm:
                cuts.append((n, a.get("vid")))
        for n, vid in cuts:
            moved = {st.i for t, v, st in assigns(f) if strip(t).k == "DeclRefExpr" and strip(t).get("vid") == vid
                     and v is not None and any(x.k == "MemberExpr" and x.m == "second" for x in v.walk())}
            again = after(f, n, None, lambda m: m.i in moved)
            R.ob("config-pieces", n.loc, n.i not in again, "%s|advance" % f.q,
                 "%s takes the next piece without moving its start behind the separator" % f.where)
            last = {m.i for m in f.calls() if m is not n and len(m.args) >= 2 and strip(m.args[0]) is not None
                    and strip(m.args[0]).k == "DeclRefExpr" and strip(m.args[0]).get("vid") == vid
                    and any(x.is_call() and x.q.endswith("::end") for x in m.args[1].walk())}
            use = {m.i for m in f.calls() if m.q.endswith("::ParseArgs")}
            atend = lambda a, p: a.k == "BinaryOperator" and a.op in ("==", "!=") and p == (a.op == "==") and any(
                strip(y).k == "DeclRefExpr" and strip(y).get("vid") == vid for y in a.c)
            left = after(f, n, lambda a, p: atend(strip(a), p), lambda m: m.i in last)
            R.ob("config-pieces", n.loc, not (left & use), "%s|last" % f.q,
                 "%s drops the piece after the last separator" % f.where)


def run(P, R):
    weights(P, R)
    guards(P, R)
    modes(P, R)
    pieces(P, R)

"""Renamed entities.  The rules know the fields, functions and enumerators of the code they judge by name.  A field,
function or enumerator which was only renamed (one of the recorded names of its class or namespace is gone, and one
of the same type, at the same place, is new) is given its recorded name back before anything is analysed.
names.json records the names; meta/mknames.py writes it."""
import json, os, re
from collections import defaultdict

NAMES = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")


def bare(q):
    """a qualified name without template arguments"""
    if "<" not in q:
        return q
    out, depth = [], 0
    i = 0
    while i < len(q):
        c = q[i]
        if q.startswith("operator", i) and depth == 0:
            return "".join(out) + q[i:]
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


def sig(key, name):
    i = key.rfind("@" + name + "#")
    return key[i + len(name) + 1:] if i >= 0 else None


def fields_of(objs):
    out = {}
    for o in objs:
        if o["kind"] == "class" and o["q"].startswith("jumanpp::") and "(" not in o["q"] and not o["file"].startswith("gen/"):
            fl = [[x["n"], re.sub(r"\d+", "0", x["t"])] for x in o["fields"] if x.get("n")]
            if fl and (bare(o["q"]) not in out or len(fl) > len(out[bare(o["q"])])):
                out[bare(o["q"])] = fl
    return out


def enums_of(objs):
    return {bare(o["q"]): [[x["n"], str(x.get("v"))] for x in o.get("vals", ())]
            for o in objs if o["kind"] == "enum" and o["q"].startswith("jumanpp::")}


def fns_of(objs):
    """scope -> [[name, signature]], in the order of the source"""
    out = defaultdict(dict)
    for o in objs:
        if o["file"].startswith("gen/"):
            continue
        if o["kind"] == "class" and o["q"].startswith("jumanpp::") and "(" not in o["q"]:
            for i, m in enumerate(o["methods"]):
                s = sig(m["key"], m["n"])
                if s is not None and not m["n"].startswith(("operator", "~")) and m["n"] != o["q"].split("::")[-1]:
                    s = "%s %s" % (m.get("ret"), s)
                    out[bare(o["q"])].setdefault((m["n"], s), ("", i))
        elif o["kind"] == "fn" and not o.get("cls") and o["q"].startswith("jumanpp::") and "(" not in o["q"] and "@F@" in o["key"]:
            sc, _, n = bare(o["q"]).rpartition("::")
            s = sig(o["key"], n)
            if s is not None and not n.startswith("operator"):
                out[sc].setdefault((n, "%s %s" % (o["ret"], s)), (o["file"], o["line"]))
    return {sc: [list(k) for k, _ in sorted(d.items(), key=lambda kv: kv[1])] for sc, d in out.items()}


def pair(old, new):
    """[(name, kind)] lists -> {new name: old name} for those which were only renamed"""
    on, nn = {n for n, _ in old}, {n for n, _ in new}
    gone, born = defaultdict(list), defaultdict(list)
    for n, k in old:
        if n not in nn and n not in gone[k]:
            gone[k].append(n)
    for n, k in new:
        if n not in on and n not in born[k]:
            born[k].append(n)
    out = {}
    for k in gone:
        if len(gone[k]) == len(born.get(k, ())):
            out.update(zip(born[k], gone[k]))
            continue
        # what is left is paired by likeness of the name
        for b in born.get(k, ()):
            c = [g for g in gone[k] if g.strip("_").lower() in b.strip("_").lower() or b.strip("_").lower() in g.strip("_").lower()]
            if len(c) == 1 and c[0] not in out.values():
                out[b] = c[0]
    return out


def changes(objs, base):
    out = {}
    for part, now in (("fields", fields_of(objs)), ("enums", enums_of(objs)), ("fns", fns_of(objs))):
        for sc, old in base.get(part, {}).items():
            if sc not in now:
                continue
            cur = now[sc]
            for b, g in pair([tuple(x) for x in old], [tuple(x) for x in cur]).items():
                out[(sc, b)] = g
                if part == "enums":     # an unscoped enumerator is named in the scope around its type
                    out.setdefault((sc.rpartition("::")[0], b), g)
    return out


def apply(objs):
    if not os.path.exists(NAMES):
        return {}
    ch = changes(objs, json.load(open(NAMES)))
    if not ch:
        return {}
    last = {b for _, b in ch}

    def q(x):
        tail = x.rpartition("::")[2]
        if tail.split("<")[0] not in last:
            return None
        sc, _, n = bare(x).rpartition("::")
        g = ch.get((sc, n))
        if g is None:
            return None
        return x[:len(x) - len(tail)] + g + tail[len(n):], n, g

    st = []

    def fix(d):
        for k in ("q",):
            v = d.get(k)
            if v:
                r = q(v)
                if r is not None:
                    d[k] = r[0]
                    for k2 in ("m", "n"):
                        if d.get(k2) == r[1]:
                            d[k2] = r[2]
    for o in objs:
        sc = bare(o.get("q") or "")
        if o["kind"] == "class":
            for part in ("fields", "methods"):
                for x in o[part]:
                    g = ch.get((sc, x.get("n")))
                    if g is not None:
                        x["n"] = g
        elif o["kind"] == "enum":
            for x in o.get("vals", ()):
                g = ch.get((sc, x.get("n")))
                if g is not None:
                    x["n"] = g
        st.append(o)
        while st:
            d = st.pop()
            fix(d)
            for k, v in d.items():
                if isinstance(v, dict):
                    st.append(v)
                elif isinstance(v, list):
                    st.extend(x for x in v if isinstance(x, dict))
    return ch

"""Shared runner: obligations, violations, known findings, evidence."""
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "rules"))
import facts  # noqa: E402
from facts import Broken  # noqa: E402


class Report:
    def __init__(self, pid, prog):
        self.pid = pid
        self.P = prog
        self.rules = {}
        self.viol = []
        self.assume = []

    def rule(self, name, text):
        return self.rules.setdefault(name, {"rule": text, "obligations": 0, "discharged": 0, "sites": []})

    def ob(self, rule, site, ok, key=None, msg=None):
        """One obligation of a rule at a site; if not ok a violation identified by key."""
        r = self.rules[rule]
        r["obligations"] += 1
        if len(r["sites"]) < 400:
            r["sites"].append(str(site))
        if ok:
            r["discharged"] += 1
        else:
            self.bad(rule, key or str(site), str(site), msg or r["rule"])
        return ok

    def bad(self, rule, key, site, msg):
        k = rule + "|" + key
        for v in self.viol:
            if v["key"] == k:
                return
        self.viol.append({"key": k, "rule": rule, "site": site, "message": msg})

    def need(self, rule, n):
        """fewer than n instances means the analysis lost its anchors, not that the property fails"""
        have = self.rules[rule]["obligations"]
        n = max(1, n // 2)      # refactorings may merge sites; losing most of them means the anchors are gone
        if have < n:
            raise Broken("rule %s of %s matched %d instances, expected at least %d" % (rule, self.pid, have, n))


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return {"findings": [], "fixed": []}
    return json.load(open(p))


def main(pid, tier):
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    try:
        P = facts.prepare()
        mod = importlib.import_module("rules_" + pid.lower())
        R = Report(pid, P)
        mod.run(P, R)
        if not R.rules or all(r["obligations"] == 0 for r in R.rules.values()):
            raise Broken("no obligations generated")
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    known = {k["key"]: k for k in load_known()["findings"] if k["property"] == pid}
    new = [v for v in R.viol if v["key"] not in known]
    old = [v for v in R.viol if v["key"] in known]
    files = sorted({f.file for f in P.fns.values()})
    exp = "static analysis of the resolved program: %d translation units, %d functions, %d classes, %d files. " % (
        len(P.tus), len(P.fns), len(P.classes), len(files))
    exp += "; ".join("%s: %d obligations, %d discharged" % (n, r["obligations"], r["discharged"])
                     for n, r in R.rules.items())
    doc = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {"explanation": exp,
                     "units": len(P.tus), "functions": len(P.fns), "facts_hash": P.data.get("hash"),
                     "rules": {n: dict(r, sites=r["sites"] if tier == "thorough" else r["sites"][:60])
                               for n, r in R.rules.items()}},
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "assumptions": R.assume or ["clang's resolved AST/CFG of the build's own compile flags (NDEBUG, C++14) is the program"],
    }
    doc["coverage"]["known_findings_seen"] = [v["key"] for v in old]
    rep = os.path.join(ev, pid + ".report.txt")
    with open(rep, "w") as f:
        for v in new:
            f.write("%s\n  site: %s\n  rule: %s\n  key: %s\n" % (v["message"], v["site"], v["rule"], v["key"]))
    tmp = os.path.join(ev, ".%s.json.tmp" % pid)
    json.dump(doc, open(tmp, "w"), indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(ev, pid + ".json"))
    for n, r in R.rules.items():
        print("%s %-28s obligations=%d discharged=%d" % (pid, n, r["obligations"], r["discharged"]))
    for v in old:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[v["key"]]["what"], v["site"]))
    for v in new:
        print("  %s\n    at %s\n    key %s" % (v["message"], v["site"], v["key"]))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("OK property=%s units=%d functions=%d wall=%.1fs" % (pid, len(P.tus), len(P.fns), time.time() - t0))
    return 0

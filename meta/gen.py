#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py (one source, so they stay in step)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "meta"))
from props import PROPS  # noqa: E402

LEVEL_NOTE = ("Sound for the stated structural rule over every function of every translation unit the build "
              "compiles (clang's resolved AST and CFG, NDEBUG flags); the behaviour beyond the rule is not decided. ")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["quant"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"],
                             "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
            if p.get("state"):
                d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
    for p in PROPS:
        if p.get("na"):
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
            continue
        assert os.path.exists(os.path.join(V, "rules", "rules_%s.py" % p["id"].lower())), p["id"]
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": "./check %s quick" % p["id"],
            "thorough_cmd": "./check %s thorough" % p["id"],
            "technique": p["tech"],
            "level": "other",
            "level_note": LEVEL_NOTE + p.get("note", ""),
        })
    m["notes"] = ("All checks share one fact extraction of /repo's working tree (cached in /verif/.cache by the hash "
                  "of every input file). No hooks in /repo are needed.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


main()

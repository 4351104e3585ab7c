"""rewrites the table of planted bugs in DESIGN.md"""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| `%s`: %s | %s |" % (os.path.basename(d), m["needs"], m["property"]))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
cs = none = 0
for f in glob.glob(V + "/selftest/cases*.py"):
    ns = {}
    exec(open(f).read(), ns)
    cs += len(ns["CASES"]); none += sum(c[1] == "none" for c in ns["CASES"])
s = re.sub(r"\d+ hand-written edits \(\d+ of them", "%d hand-written edits (%d of them" % (cs, none), s)
open(V + "/DESIGN.md", "w").write(s)
print(cs, none, len(rows))

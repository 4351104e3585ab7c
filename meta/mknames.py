#!/usr/bin/env python3
"""Records the names of the fields, functions and enumerators of the current tree in lib/names.json (see lib/canon.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
sys.setrecursionlimit(20000)
if os.path.exists(V + "/lib/names.json"):
    os.unlink(V + "/lib/names.json")
import facts, canon
P = facts.prepare()
objs = P.data["objs"]
json.dump({"fields": canon.fields_of(objs), "enums": canon.enums_of(objs), "fns": canon.fns_of(objs)},
          open(V + "/lib/names.json", "w"), indent=0, sort_keys=True)

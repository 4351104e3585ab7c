#!/usr/bin/env python3
"""setup_cmd: compiles the fact extractor and extracts the facts of /repo's current tree once."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.setrecursionlimit(20000)
import facts
P = facts.prepare()
print("facts: %d units, %d functions, %d classes" % (len(P.tus), len(P.fns), len(P.classes)))

#!/usr/bin/env python3
"""Mutation self-test of the checkers (not part of any check; nothing here is read by one).

run.py [-j N] [-p A01,S01] REGEX|FILE.diff ...   applies each matching case of cases*.py (or diff) to a scratch copy
of /repo, runs every rule module and prints which properties report it.  A case's expectation: 'A01 S01' (one of them
must fire), 'none' (no check may fire or break)."""
import shutil
import glob, importlib, json, os, re, subprocess, sys, time, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/selftest")


def load_cases():
    out = []
    for f in sorted(glob.glob(V + "/selftest/cases*.py")):
        m = importlib.import_module(os.path.basename(f)[:-3])
        out += m.CASES
    return out


def sync(repo):
    subprocess.check_call(["rsync", "-rlpgoD", "--delete", "--checksum", "--exclude", "_build", "--exclude", ".git",
                           "--exclude", "libs/eigen3", "/repo/", repo + "/"])


def worker(slot, q, plist):
    base = "/tmp/jppmut/%s" % slot
    repo = base + "/repo"
    os.makedirs(base, exist_ok=True)
    os.environ.update(JPP_REPO=repo, JPP_CACHE=base + "/cache", JPP_INCR=base + "/incr")
    sys.path.insert(0, V + "/lib"); sys.path.insert(0, V + "/rules")
    sys.setrecursionlimit(20000)
    import facts, harness
    known = {(k["property"], k["key"]) for k in harness.load_known()["findings"]}
    props = plist or sorted(os.path.basename(f)[6:-3].upper() for f in glob.glob(V + "/rules/rules_*.py"))
    while True:
        case = q.get()
        if case is None:
            return
        name, exp, edits = case
        sync(repo)
        t = time.time()
        fired, broken, msgs = [], [], []
        try:
            if isinstance(edits, str):
                r = subprocess.run(["patch", "-p1", "-s", "-d", repo], input=edits, text=True, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT)
                if r.returncode:
                    raise Exception("patch failed " + r.stdout[:200])
            else:
                for fl, old, new in edits:
                    p = repo + "/" + fl
                    s = open(p).read()
                    if s.count(old) < 1:
                        raise Exception("text not found in %s: %r" % (fl, old[:80]))
                    s = s.replace(old, new, 1)
                    open(p, "w").write(s)
            P = facts.prepare()
            for p in props:
                try:
                    mod = importlib.import_module("rules_" + p.lower())
                    R = harness.Report(p, P)
                    mod.run(P, R)
                    vs = [v for v in R.viol if (p, v["key"]) not in known]
                    if vs:
                        fired.append(p)
                        msgs += ["      %s %s" % (p, v["message"][:260]) for v in vs[:3]]
                except Exception as e:
                    broken.append("%s(%s)" % (p, str(e)[:150]))
                    if not isinstance(e, facts.Broken):
                        traceback.print_exc()
        except Exception as e:
            broken.append("extract(%s)" % str(e)[-600:])
            shutil.rmtree(base + "/incr", ignore_errors=True)
        verdict = "?"
        if exp is not None:
            exp = exp.split()
            ok = (not fired and not broken) if exp == ["none"] else bool(set(exp) & set(fired))
            verdict = "ok" if ok else "*** UNEXPECTED (want %s)" % " ".join(exp)
        print("\n".join(["%-44s fired=%s broken=%s %s %.0fs" % (name, ",".join(fired) or "-", ",".join(broken) or "-",
                                                                verdict, time.time() - t)] + msgs), flush=True)


if __name__ == "__main__":
    import multiprocessing as mp
    args = sys.argv[1:]
    nj, plist = 3, None
    while args and args[0] in ("-j", "-p"):
        if args[0] == "-j":
            nj = int(args[1])
        else:
            plist = args[1].split(",")
        args = args[2:]
    todo = []
    cases = load_cases()
    for a in args:
        if a.endswith(".diff"):
            nm = os.path.basename(os.path.dirname(a)) if os.path.basename(a) == "patch.diff" else os.path.basename(a)
            mj = os.path.join(os.path.dirname(a), "meta.json")
            exp = json.load(open(mj))["property"] if os.path.exists(mj) else None
            todo.append((nm, exp, open(a).read()))
        else:
            todo += [c for c in cases if re.search(a, c[0])]
    q = mp.Queue()
    for c in todo:
        q.put(c)
    nj = min(nj, max(1, len(todo)))
    for _ in range(nj):
        q.put(None)
    ps = [mp.Process(target=worker, args=(str(i), q, plist)) for i in range(nj)]
    [p.start() for p in ps]
    [p.join() for p in ps]

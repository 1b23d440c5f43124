#!/usr/bin/env python3
"""Development aid: run checks against hand-made source edits in scratch copies.
usage: mutate.py FILE...   each FILE defines CASES = [(name, check ids, expect 'bad'|'ok', [(path, old, new)...])]"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(case):
    name, pids, expect, edits = case
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        subprocess.run(["cp", "-a", os.environ.get("FQL_BASE", "/repo"), d + "/repo"], check=True)
        for path, old, new in edits:
            f = d + "/repo/" + path
            s = open(f).read()
            n = s.count(old)
            if n < 1:
                return name, "EDIT-FAILED %s" % path, ""
            s = s.replace(old, new, 1)
            open(f, "w").write(s)
        env = dict(os.environ, FQL_REPO=d + "/repo", FQL_SA_CACHE=d + "/cache", FQL_EVIDENCE=d + "/ev")
        os.makedirs(d + "/cache")
        for x in os.listdir(V + "/build"):
            if x.startswith("factgen"):
                shutil.copy(V + "/build/" + x, d + "/cache/" + x)
        res = []
        out = ""
        for pid in pids.split():
            p = subprocess.run([sys.executable, V + "/check.py", pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res.append("%s=%d" % (pid, p.returncode))
            out += p.stdout
        rcs = [int(r.split("=")[1]) for r in res]
        good = (any(r == 1 for r in rcs) and all(r in (0, 1) for r in rcs)) if expect == "bad" else all(r == 0 for r in rcs)
        return name, ("as expected " if good else "UNEXPECTED ") + expect + " " + " ".join(res), out
    finally:
        shutil.rmtree(d)


def main():
    sel = [a[2:] for a in sys.argv[1:] if a.startswith("-k")]
    cases = []
    for f in sys.argv[1:]:
        if f.startswith("-"):
            continue
        g = {}
        exec(open(f).read(), g)
        cases += g["CASES"]
    if sel:
        cases = [c for c in cases if any(s in c[0] for s in sel)]
    with ThreadPoolExecutor(7) as ex:
        for name, r, out in ex.map(one, cases):
            print("%-40s %s" % (name, r))
            if r.startswith("UNEXP") or "-v" in sys.argv:
                print("   " + "\n   ".join(out.splitlines()[:4]))
    return 0


main()

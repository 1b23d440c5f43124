#!/usr/bin/env python3
"""Development aid: write /verif/seeded/<id>/ from a spec file and confirm each planted bug.
SEEDS = [dict(id, property, needs, breaks, edits=[(path, old, new)], demo=C source, flags="", files={name: text}, sh=optional demo.sh)]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run in the source tree after the build: exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
gcc -w -g %s -Iutil -I. "$d/demo.c" util/*.c -o "$t/demo" -lpthread -lm || exit 4
cd "$t" && timeout 60 ./demo
'''


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def main():
    sel = sys.argv[2:]
    g = {}
    exec(open(sys.argv[1]).read(), g)
    for s in g["SEEDS"]:
        if sel and s["id"] not in sel:
            continue
        d = V + "/seeded/" + s["id"]
        os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(prefix="seed_")
        try:
            sh("cp -a /repo %s/repo" % t)
            r = t + "/repo"
            if s.get("demo"):
                open(d + "/demo.c", "w").write(s["demo"])
            for n, x in s.get("files", {}).items():
                open(d + "/" + n, "w").write(x)
            open(d + "/demo.sh", "w").write(s.get("sh") or SH % s.get("flags", ""))
            os.chmod(d + "/demo.sh", 0o755)
            rc0, o0 = sh("bash %s/demo.sh" % d, r)
            for path, old, new in s["edits"]:
                f = r + "/" + path
                x = open(f).read()
                if x.count(old) < 1:
                    print(s["id"], "EDIT FAILED", path, repr(old)[:60])
                    break
                open(f, "w").write(x.replace(old, new, 1))
            else:
                _, diff = sh("git diff", r)
                open(d + "/patch.diff", "w").write(diff)
                json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
                rc1, o1 = sh("bash %s/demo.sh" % d, r)
                print(s["id"], "demo clean=%d patched=%d" % (rc0, rc1), "OK" if rc0 == 0 and rc1 else "BAD")
                if rc0 or not rc1:
                    print(o0[-600:], o1[-600:])
                    continue
                # stable tests with the patch
                rc, o = sh("git apply %s/patch.diff" % d, "/repo")
                try:
                    rcb, ob = sh("bash /opt/vp/build.sh")
                    sh("bash /opt/vp/test.sh %s/out.json" % t)
                    res = open(t + "/out.json").read() if os.path.exists(t + "/out.json") else ""
                    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                    j = json.loads(res)
                    passed = j.get("passed") or [k for k, v in j.items() if v in ("pass", "PASS", True)]
                    miss = [b for b in base if b not in passed]
                    print("   apply=%d build=%d missing tests: %s" % (rc, rcb, miss or "none"))
                finally:
                    sh("git checkout -- .", "/repo")
                # checks
                for pid in s.get("checks", s["property"]).split():
                    env = "FQL_REPO=%s FQL_SA_CACHE=%s/cache FQL_EVIDENCE=%s/ev" % (r, t, t)
                    os.makedirs(t + "/cache", exist_ok=True)
                    sh("cp %s/build/factgen* %s/cache/" % (V, t))
                    rc, o = sh("%s python3 %s/check.py %s" % (env, V, pid) if 0 else "%s python3 %s/check.py %s" % (env, V, pid))
                    print("   %s=%d %s" % (pid, rc, "caught" if rc == 1 else "MISSED"))
        finally:
            shutil.rmtree(t)
    sh("bash /opt/vp/build.sh")


main()

#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]: decide one property from /repo's source."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
if os.environ.get("PYTHONHASHSEED") != "0":    # the order of sets, and with it every run, is the same
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
from sa.ctx import Ctx
from sa.facts import AnalysisError


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        from sa import facts
        facts.factgen()
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    mod = importlib.import_module("sa.rules." + pid.lower())
    ctx = Ctx(pid, tier)
    try:
        mod.run(ctx)
        return ctx.finish(mod.EXPLANATION, mod.ASSUMPTIONS)
    except Exception as e:
        if not isinstance(e, AnalysisError):
            traceback.print_exc()
        # a definite violation already found stands even if another rule has no answer
        if ctx.viol:
            rc = ctx.finish(mod.EXPLANATION, mod.ASSUMPTIONS)
            if rc == 1:
                return 1
        print("%s: ANALYSIS ERROR: %s" % (pid, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())

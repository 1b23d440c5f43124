"""Per-check context: facts, obligations, reports, evidence."""
import json, os, sys, time
from . import facts, ir
from .facts import AnalysisError, VERIF

KNOWN = os.path.join(VERIF, "known_findings.json")


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.progs = {}
        self.files = {}
        self.viol = []
        self.rules = {}       # rule -> dict(text, obligations, functions)
        self.cur = None
        self.steps = 0
        self.functions = set()

    # --- programs
    def prog(self, unit="engine", keep="anchors", inline=True, pre=None, post=None):
        key = (unit, keep if isinstance(keep, str) else tuple(sorted(keep)), inline, pre, post)
        p = self.progs.get(key)
        if p is None:
            d, files = facts.load(unit, keep, inline, pre, post)
            p = self.progs[key] = ir.Prog(d, facts.REPO)
            self.files[unit] = [os.path.relpath(f, facts.REPO) for f in files]
        return p

    # --- rules and obligations
    def rule(self, rid, text):
        self.cur = self.rules.setdefault(rid, dict(rule=text, obligations=0, discharged=0, instances=[]))
        self.currid = rid
        return rid

    def ob(self, instance, ok, where="", msg="", trail=None, rule=None, n=1):
        """one obligation of the current rule (n: the cases it was decided for)"""
        r = self.rules[rule or self.currid]
        r["obligations"] += max(n, 1)
        if ok:
            r["discharged"] += max(n, 1)
        else:
            self.viol.append(dict(rule=rule or self.currid, instance=instance, where=where, msg=msg, trail=trail or []))
        if len(r["instances"]) < 400:
            r["instances"].append(instance)

    def need(self, n, least, what):
        """a rule that matches fewer instances than confirmed by hand proves nothing"""
        if n < least:
            raise AnalysisError("%s: rule %s: only %d %s found, expected at least %d (anchor vanished?)" %
                                (self.pid, self.currid, n, what, least))

    def reports(self, an, rule=None):
        """take the engine's reports as failed obligations"""
        rid = rule or self.currid
        seen = set()
        for r in an.reports.values():
            k = (r.msg, r.where())
            if k in seen:
                continue
            seen.add(k)
            inst = "%s: %s" % (r.fn.src, r.instance or r.msg)
            self.ob(inst, False, r.where(), r.msg, r.trail, rule=rid)

    def analyse(self, prog, fn, rule, assume=None, start=None, cut=None):
        a = ir.Analysis(prog, fn, rule, assume).run(start, cut)
        self.steps += a.steps
        self.functions.add(a.fn.name)
        return a

    # --- finish
    def finish(self, level_expl, assumptions):
        known = []
        if os.path.exists(KNOWN):
            known = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == self.pid and k.get("status") != "fixed"]
        fresh, old = [], []
        for v in self.viol:
            k = next((k for k in known if k["rule"] == v["rule"] and k["instance"] == v["instance"]), None)
            (old if k else fresh).append((v, k))
        for k in known:
            if any(k2 is k for _, k2 in old):
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
                  coverage=dict(explanation=level_expl,
                                files=self.files,
                                functions_analysed=len(self.functions),
                                functions=sorted(self.functions)[:400],
                                states_explored=self.steps,
                                rules={k: dict(rule=v["rule"], obligations=v["obligations"], discharged=v["discharged"],
                                               instances=v["instances"]) for k, v in self.rules.items()},
                                obligations=sum(v["obligations"] for v in self.rules.values()),
                                known_findings=[v["instance"] for v, _ in old]),
                  wall_s=round(time.time() - self.t0, 2),
                  assumptions=assumptions,
                  violations=[dict(rule=v["rule"], instance=v["instance"], where=v["where"], message=v["msg"]) for v, _ in fresh])
        evd = os.environ.get("FQL_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rp = os.path.join(evd, self.pid + ".report.txt")
        if fresh:
            with open(rp, "w") as f:
                for v, _ in fresh:
                    f.write("%s\n  rule: %s: %s\n  instance: %s\n  %s\n" % (v["where"], v["rule"], self.rules[v["rule"]]["rule"], v["instance"], v["msg"]))
                    if v["trail"]:
                        f.write("  path (lines): %s\n" % " -> ".join(v["trail"]))
                    f.write("\n")
            for v, _ in fresh[:40]:
                print("%s: [%s] %s: %s" % (v["where"], v["rule"], v["instance"], v["msg"]))
                if v["trail"]:
                    print("    path: " + " -> ".join(v["trail"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        elif os.path.exists(rp):
            os.unlink(rp)
        print("%s: held: %d obligations of %d rules discharged over %d functions (%.1fs)" % (
            self.pid, ev["coverage"]["obligations"] - len(old), len(self.rules), len(self.functions), time.time() - self.t0))
        return 0

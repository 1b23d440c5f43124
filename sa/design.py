"""python3 -m sa.design: DESIGN.md from its hand-written part (DESIGN.head.md), the rules, the findings and the planted bugs."""
import glob, importlib, json, os
from . import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    out = [open(os.path.join(V, "DESIGN.head.md")).read().rstrip(), ""]
    kf = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
    seeds = {}
    for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
        j = json.load(open(m))
        seeds.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(m)), j))
    out.append("## Properties decided\n")
    na = []
    for p in props.P:
        pid = p["id"]
        if not os.path.exists("%s/sa/rules/%s.py" % (V, pid.lower())):
            na.append(p)
            continue
        m = importlib.import_module("sa.rules." + pid.lower())
        out.append("### %s %s\n" % (pid, p["title"]))
        out.append("**Statement.** %s\n" % p["statement"])
        out.append("**How.** %s.\n" % m.TECHNIQUE.rstrip("."))
        out.append("%s\n" % m.EXPLANATION)
        out.append("**Bounds.** %s. **Assumptions.** %s.\n" % (m.LEVEL_NOTE.rstrip("."), "; ".join(m.ASSUMPTIONS) or "none"))
        out.append("**Beyond tests.** %s\n" % p["why_tests_cant"]) if p.get("why_tests_cant") else None
        if hasattr(m, "SCOPE_NOTE"):
            out.append("**Left out.** %s\n" % m.SCOPE_NOTE)
        f = [k for k in kf if k["property"] == pid]
        if f:
            out.append("**Findings.**")
            out += ["- %s" % k["what"] if k["status"] == "fixed" else "- known finding (%s, %s): %s" % (k["rule"], k["instance"], k["what"]) for k in f]
            out.append("")
        if pid in seeds:
            out.append("**Planted bugs.**")
            out += ["- `%s`: %s (needs: %s) - caught by this check" % (n, j["what_it_breaks"], j["needs"]) for n, j in seeds[pid]]
            out.append("")
    out.append("## Properties not decided\n")
    for p in na:
        out.append("- **%s %s.** %s" % (p["id"], p["title"], props.NA.get(p["id"], "")))
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()

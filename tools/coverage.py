# coverage.py [evidence dir]: writes COVERAGE.md from the evidence of a complete run
import json, glob, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = sys.argv[1] if len(sys.argv) > 1 else V + "/evidence"
out = ["# Coverage of the last recorded run\n",
       "Generated by tools/coverage.py from the evidence files (they are rewritten by every run and not committed).\n"]
tot = [0, 0, 0, 0]
for f in sorted(glob.glob(d + "/C*.json")):
    e = json.load(open(f)); c = e["coverage"]
    out.append("## %s (%s, %.0f s, %s)\n" % (e["property"], e["tier"], e["wall_s"], "complete" if c["exhaustive"] else "NOT COMPLETE"))
    out.append("%s\n" % c["rule"])
    out.append("executions %d, operations of the real code %d, decision points %d, distinct states %d\n" % (c["traces_validated_against_impl"], c["transitions"], c["decision_points"], c["states"]))
    for i, k in enumerate(("traces_validated_against_impl", "transitions", "decision_points", "states")): tot[i] += c[k]
    out.append("| scenario | bounds | executions | states | complete |\n|---|---|---|---|---|")
    for s in c["scenarios"]:
        out.append("| %s | %s | %d | %d | %s |" % (s["name"], s["bounds"].replace("|", "\\|").replace("\n", " "), s["executions"], s.get("states", 0), "yes" if s["complete"] else "no"))
    out.append("\nAssumptions: " + "; ".join(e["assumptions"]) + ".\n")
out.insert(2, "Total: %d executions, %d operations of the real code, %d decision points, %d distinct states.\n" % tuple(tot))
open(V + "/COVERAGE.md", "w").write("\n".join(out) + "\n")

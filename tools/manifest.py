# Writes MANIFEST.json: python3 tools/manifest.py
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
 "C24": "unforgeability and secrecy are statements about every efficient adversary, not about an enumerable set of executions; C02 and C08 decide the accept/reject behaviour they rest on",
 "C25": "running time and memory access patterns are not observable states of the explored executions; exploration has no model of the hardware that would carry the leak",
}
def have(i): return os.path.exists(V + "/harness/main/%s.go" % i.lower()) or (i == "C22" and os.path.exists(V + "/harness/curve/main.go"))
TECH = {
 "C14": "exhaustive fault-point enumeration on the real binary (ptrace) and library (file size limit) against a complete-or-failure oracle",
 "C15": "exhaustive crash-point enumeration on the real binary (killed at every system call and write offset) with recovery invariants",
 "C20": "exhaustive interleaving exploration of operation pairs under a cooperative scheduler, compared with solo runs; race detector on every interleaving",
 "C17": "exhaustive exploration of operation histories of the implementation against a map-of-files model",
 "C18": "exhaustive enumeration of command configurations of the real binary against a model of the command line",
 "C19": "exhaustive enumeration of command configurations of the real binary against a model of the command line",
}
LEVEL = {"C14": "fault_enumeration", "C15": "fault_enumeration"}
NOTE = json.load(open(V + "/tools/notes.json")) if os.path.exists(V + "/tools/notes.json") else {}
checks = []
na = []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif not have(i):
        na.append({"property": i, "reason": "check not built yet"})
    else:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
          "technique": TECH.get(i, "stateless bounded exhaustive exploration of the implementation against a reference model"),
          "level": LEVEL.get(i, "model_checking"),
          "level_note": NOTE.get(i, "Every execution within the bounds listed in the evidence was run on the real code and compared with an independent reference; nothing is claimed beyond those bounds.")})
m = {"version": 1, "setup_cmd": "./setup.sh", 
     "hooks": {"guard": "none in /repo: harness files enter by go build -overlay", "enable": "check.sh builds with -overlay and -modfile; /repo's tracked files are untouched", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks: ./check.sh ID [quick|thorough]; ./check.sh replay FILE re-runs a violation. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")

# seeded.py LOG...: writes SEEDED.md from seeded/*/meta.json and logs of tools/catch.sh
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    for l in open(f, errors="replace"):
        m = re.match(r"(\S+)\s+(C\d\d) (CAUGHT|missed|rc=\d+)(?: \((\d+)s\) (.*))?", l)
        if m:
            got[m.group(1)] = (m.group(3), m.group(4), (m.group(5) or "").strip())
out = ["# Planted changes\n", "Written by tools/seeded.py: every change in seeded/, and what the quick check of its property said.\n",
       "| change | property | needs | breaks | result |", "|---|---|---|---|---|"]
esc = lambda s: s.replace("|", "\\|").replace("\n", " ")
n = c = 0
for i in sorted(os.listdir(V + "/seeded"), key=lambda i: (json.load(open(V + "/seeded/%s/meta.json" % i))["property"], i)):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    r = got.get(i, ("not run", "", ""))
    n += 1; c += r[0] == "CAUGHT"
    msg = "".join(ch if 32 <= ord(ch) < 127 and ch not in "`<>*_" else "." for ch in r[2])[:90]
    out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], esc(m["needs"]), esc(m["what_it_breaks"]), "caught: " + esc(msg) if r[0] == "CAUGHT" else r[0]))
out.insert(2, "%d of %d caught.\n" % (c, n))
open(V + "/SEEDED.md", "w").write("\n".join(out) + "\n")
print(c, "of", n)

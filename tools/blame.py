# blame.py: for every planted change, how many of the lines it removes are the original repository's
# and how many were added by this work's own commits.
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
own = set(subprocess.check_output("git -C /repo rev-list fd51c41..HEAD", shell=True, text=True).split())
cache = {}
def blame(f):
    if f not in cache:
        cache[f] = [l.split()[0].lstrip("^") for l in subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-l", f], text=True).splitlines()]
    return cache[f]
for i in sorted(os.listdir(V + "/seeded")):
    f, orig, mine = None, 0, 0
    for l in open(V + "/seeded/%s/patch.diff" % i):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("--- "): f = None
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1)) - 1
        elif f and l[0] == "-":
            if blame(f)[n] in own: mine += 1
            else: orig += 1
            n += 1
        elif f and l[0] == " ": n += 1
    print("%-26s original %d own %d %s" % (i, orig, mine, "" if orig else "<<<"))

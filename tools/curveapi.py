# curveapi.py REPO OUT.go: gives the curve harness the package's functions by their names and types. A
# function that the package no longer has (it is internal, and not all of them are used) is left out
# of the comparison; the executions that would call it end there and are counted as "absent".
import os, re, sys
repo, out = sys.argv[1:]
d = os.path.join(repo, "signify/internal/edwards25519")
src = "\n".join(open(os.path.join(d, f)).read() for f in sorted(os.listdir(d)) if f.endswith(".go") and not f.endswith("_test.go"))

def types(s):
    r, n = [], 0
    ps = [p.strip() for p in s.split(",") if p.strip()]
    if not any(" " in p for p in ps):
        return ps
    for p in ps:
        n += 1
        if " " in p:
            r += [p.split(None, 1)[1]] * n
            n = 0
    return r

F, B32, B64 = "*FieldElement", "*[32]byte", "*[64]byte"
P, E, C = "*ProjectiveGroupElement", "*ExtendedGroupElement", "*CompletedGroupElement"
want = [  # receiver, name, parameters, result
    ("", "FeZero", [F], ""), ("", "FeOne", [F], ""), ("", "FeAdd", [F] * 3, ""), ("", "FeSub", [F] * 3, ""),
    ("", "FeCopy", [F] * 2, ""), ("", "FeCMove", [F, F, "int32"], ""), ("", "FeFromBytes", [F, B32], ""),
    ("", "FeToBytes", [B32, F], ""), ("", "FeIsNegative", [F], "byte"), ("", "FeIsNonZero", [F], "int32"),
    ("", "FeNeg", [F] * 2, ""), ("", "FeMul", [F] * 3, ""), ("", "FeSquare", [F] * 2, ""),
    ("", "FeSquare2", [F] * 2, ""), ("", "FeInvert", [F] * 2, ""),
    ("", "GeScalarMultBase", [E, B32], ""), ("", "GeDoubleScalarMultVartime", [P, B32, E, B32], ""),
    ("", "ScMulAdd", [B32] * 4, ""), ("", "ScReduce", [B32, B64], ""), ("", "ScMinimal", [B32], "bool"),
    (P, "Zero", [], ""), (P, "Double", [C], ""), (P, "ToBytes", [B32], ""),
    (E, "Zero", [], ""), (E, "Double", [C], ""), (E, "ToProjective", [P], ""), (E, "ToBytes", [B32], ""),
    (E, "FromBytes", [B32], "bool"), (C, "ToProjective", [P], ""), (C, "ToExtended", [E], ""),
]
have = {}
for m in re.finditer(r"^func (?:\((?:\w+ )?(\*?\w+)\) )?(\w+)\(([^()]*)\) ?(\w*) ?\{", src, re.M):
    have[(m.group(1) or "", m.group(2))] = (types(" ".join(m.group(3).split())), m.group(4))
def q(t):
    return re.sub(r"\b([A-Z]\w*)", r"edwards25519.\1", t)
o = ["package main", "", 'import "github.com/kisom/psignify/signify/internal/edwards25519"', "", "var curve = struct{}{}", ""]
o = ["package main", "", 'import (', '\t"github.com/kisom/psignify/signify/internal/edwards25519"', '\t"github.com/kisom/psignify/signify/zverif/mc"', ")", "",
     "type curve struct{}", "var (", "\ted curve", "\t_ mc.Skip", "\t_ edwards25519.FieldElement", ")", ""]
absent = []
for recv, name, ps, res in want:
    g = have.get((recv, name))
    ok = g == (ps, res)
    pre = {P: "Proj", E: "Ext", C: "Comp", "": ""}[recv]
    args = ([recv] if recv else []) + ps
    sig = ", ".join("a%d %s" % (i, q(t)) for i, t in enumerate(args))
    o.append("func (curve) %s%s(%s) %s {" % (pre, name, sig, res))
    if ok:
        call = "a0.%s(%s)" % (name, ", ".join("a%d" % i for i in range(1, len(args)))) if recv else "edwards25519.%s(%s)" % (name, ", ".join("a%d" % i for i in range(len(args))))
        o.append("\t%s%s" % ("return " if res else "", call))
    else:
        absent.append(pre + name)
        o.append('\tpanic(mc.Skip{What: "%s"})' % (pre + name))
    o += ["}", ""]
o.append("var absent = []string{%s}" % ", ".join('"%s"' % a for a in absent))
open(out, "w").write("\n".join(o) + "\n")

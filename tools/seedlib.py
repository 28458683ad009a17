# Makes /verif/seeded/<id>/ from definitions and confirms each: python3 tools/seeds.py [id...]
import os, sys, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# Run in /repo after the build. Exit 0: the property holds here; nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d) || exit 2
trap 'rm -rf "$S"' EXIT
chmod 755 "$S"
export TMPDIR="$S" GOFLAGS= GOTOOLCHAIN=local GOPROXY=off HOME=${HOME:-/root}
umask 022
'''
GO = HEAD + '''cat > "$S/overlay.json" <<EOF
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$here/zz_demo_test.go"}}
EOF
go test -vet=off -count=1 -timeout 250s %(flags)s-overlay "$S/overlay.json" -run '^TestDemo$' "./%(pkg)s"
'''
SH = HEAD + '''go build -o "$S/psignify" ./cmd/psignify || exit 2
P="$S/psignify"
cd "$S" || exit 2
%s
'''
class Seed:
    def __init__(s, id, prop, edits, needs, breaks, go=None, sh=None, pkg="signify", flags="", files=None):
        s.__dict__.update(locals())
def run(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")
def stable(wt):
    rc, out = run("go build ./... && go test -vet=off -count=1 ./...", wt)
    return rc == 0, out
def make(seed, keep=True):
    wt = tempfile.mkdtemp(prefix="seedwt.", dir="/tmp")
    try:
        run("cp -a /repo/. %s" % wt, "/")
        run("git checkout -q -- . && git clean -fdq", wt)
        d = "%s/seeded/%s" % (V, seed.id)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(d + "/demo.sh", "w") as f:
            f.write(GO % dict(pkg=seed.pkg, flags=seed.flags + " " if seed.flags else "") if seed.go else SH % seed.sh)
        os.chmod(d + "/demo.sh", 0o755)
        if seed.go:
            open(d + "/zz_demo_test.go", "w").write(seed.go)
            run("gofmt -w " + d + "/zz_demo_test.go", "/")
        for n, c in (seed.files or {}).items():
            open(d + "/" + n, "w").write(c)
        rc0, out0 = run(["bash", d + "/demo.sh"], wt)
        for path, old, new in seed.edits:
            p = wt + "/" + path
            t = open(p).read()
            if t.count(old) != 1:
                return "edit: %d matches in %s of %r" % (t.count(old), path, old)
            open(p, "w").write(t.replace(old, new))
        run("gofmt -w " + " ".join(set(e[0] for e in seed.edits)), wt)
        rc, diff = run("git diff", wt)
        open(d + "/patch.diff", "w").write(diff)
        ok, out = stable(wt)
        if not ok:
            return "existing tests fail:\n" + out[-1500:]
        run("git checkout -q -- crypto/testdata signify/testdata; git clean -fdq", wt)
        rc1, out1 = run(["bash", d + "/demo.sh"], wt)
        json.dump({"property": seed.prop, "needs": seed.needs, "what_it_breaks": seed.breaks}, open(d + "/meta.json", "w"), indent=1)
        if rc0 != 0: return "demo fails on the unchanged tree:\n" + out0[-2500:]
        if rc1 == 0: return "demo passes with the patch:\n" + out1[-1500:]
        if not any(l.startswith("-") and not l.startswith("---") for l in diff.splitlines()): return "OK but no original line removed"
        return "OK (%s)" % out1.strip().splitlines()[-2][:100] if len(out1.strip().splitlines())>1 else "OK"
    finally:
        shutil.rmtree(wt, ignore_errors=True)
def main(seeds):
    from concurrent.futures import ThreadPoolExecutor
    want = sys.argv[1:]
    todo = [s for s in seeds if not want or s.id in want]
    with ThreadPoolExecutor(6) as ex:
        for s, r in zip(todo, ex.map(make, todo)):
            print("%-28s %s %s" % (s.id, s.prop, r), flush=True)

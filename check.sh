#!/bin/bash
# check.sh ID [quick|thorough]   decide one property on /repo's current tree
# check.sh replay FILE           re-run a recorded violation
# check.sh build                 only build (used by setup.sh)
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH="/usr/local/bin:/usr/local/go/bin:$PATH" LC_ALL=C
umask 022

base=${TMPDIR:-/tmp}
if [ -d /dev/shm ] && [ -w /dev/shm ] && [ "$(df --output=avail -k /dev/shm 2>/dev/null | tail -1)" -gt 1500000 ] 2>/dev/null; then base=/dev/shm; fi
S=$(mktemp -d "$base/psverif.XXXXXX") || exit 2
chmod 755 "$S"
cleanup() { [ -n "${KEEP:-}" ] || rm -rf "$S"; }
trap cleanup EXIT
trap 'exit 2' INT TERM
export VERIF_SCRATCH=$S/run GORACE="exitcode=0 atexit_sleep_ms=0"
mkdir -p "$S/run" "$S/bin"; chmod 755 "$S/run" "$S/bin"

Z=signify/zverif
overlay() {
  python3 - "$V" "$REPO" "$S" <<'PY'
import sys, os, json
v, repo, s = sys.argv[1:]
r = {}
for d in ("mc", "ref", "main", "curve"):
    src = os.path.join(v, "harness", d)
    for f in sorted(os.listdir(src)):
        if f.endswith(".go"):
            r[os.path.join(repo, "signify/zverif", d, f)] = os.path.join(src, f)
r[os.path.join(repo, "crypto/zz_verif_export.go")] = os.path.join(s, "export.go")
r[os.path.join(repo, "signify/zverif/curve/api.go")] = os.path.join(s, "api.go")
json.dump({"Replace": r}, open(os.path.join(s, "overlay.json"), "w"))
PY
  python3 "$V/tools/curveapi.py" "$REPO" "$S/api.go" || return 1
  python3 "$V/tools/export.py" "$REPO" "$S/export.go" || return 1
  cp "$REPO/go.mod" "$S/go.mod" && cp "$REPO/go.sum" "$S/go.sum" || return 1
  # A fast stand-in for the key derivation, used by the scenarios that say so.
  rm -rf "$S/kdf"
  if python3 "$V/tools/kdf.py" "$REPO" "$S/kdf" "$S/go.mod"; then TAGS=verifkdf; else TAGS=verifnokdf; fi
}
gobuild() { # out pkg [extra flags]
  local out=$1 pkg=$2; shift 2
  (cd "$REPO" && go build -buildvcs=false -modfile="$S/go.mod" -overlay "$S/overlay.json" "$@" -o "$S/bin/$out" "./$pkg") >"$S/build.log" 2>&1 || {
    echo "build of $pkg failed:" >&2; cat "$S/build.log" >&2; return 1; }
}
# oshooks adds to the overlay a copy of package os that calls os.VerifYield before file operations.
oshooks() {
  python3 "$V/tools/oshooks.py" "$(go env GOROOT)/src/os" "$S/oshooks" "$S/overlay.json"
}
# envhooks adds to the overlay a copy of os.Getenv that tells what is asked for.
envhooks() {
  python3 "$V/tools/envhooks.py" "$(go env GOROOT)/src/os" "$S/envhooks" "$S/overlay.json" && TAGS=$TAGS,verifenv
}
build_for() { # property
  overlay || return 1
  export CGO_ENABLED=0
  case $1 in
    C22) gobuild h $Z/curve;;
    C20) oshooks && CGO_ENABLED=1 gobuild h $Z/main -race -tags "verifyield,$TAGS";;
    C17|C19|C21|C26) envhooks && gobuild h $Z/main -tags "$TAGS";;
    *) gobuild h $Z/main -tags "$TAGS";;
  esac || return 1
  gobuild psignify cmd/psignify || return 1
  export PSIGNIFY_BIN=$S/bin/psignify VERIF_REPO=$REPO
}

case ${1:-} in
  replay)
    id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
    build_for "$id" || exit 2
    "$S/bin/h" replay "$2"; exit $?;;
  build)
    build_for C01 && build_for C22 && build_for C20; exit $?;;
  C[0-9][0-9])
    build_for "$1" || exit 2
    "$S/bin/h" check "$1" "${2:-${VERIF_TIER:-quick}}" "$V"; exit $?;;
  *) echo "usage: check.sh ID [quick|thorough] | replay FILE | build" >&2; exit 2;;
esac

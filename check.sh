#!/bin/bash
# bash check.sh build                 builds the checker from /repo's working tree
# bash check.sh PROP [quick|thorough] decides one property (exit 0 held / 1 violated)
# bash check.sh replay FILE           re-runs a violation with its trace
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
export HOME=${HOME:-/root}
GO=/opt/veriftools/go1.27.3
[ -x $GO/bin/go ] || GO=$(go env GOROOT)
export PATH=$GO/bin:$PATH GOROOT=$GO GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
export GOPATH=${GOPATH:-/root/go}
export GOCACHE=$VERIF/build/gocache
B=$VERIF/build
REPO=${VERIF_REPO:-/repo} # another tree only while developing
build() {
  mkdir -p "$B" || return 1
  (
    flock 9
    python3 tools/gen_overlay.py "$GO" "$B/overlay" "$GOPATH/pkg/mod" || exit 1
    rm -rf "$B/e2e"
    echo "$REPO" > "$B/repo"
    sed "s#=> /repo#=> $REPO#" mc/go.mod | cat - "$B/overlay/replaces.txt" > "$B/go.mod" || exit 1
    cat "$REPO"/go.sum mc/go.sum.extra 2>/dev/null | sort -u > "$B/go.sum"
    (cd mc && go build -modfile="$B/go.mod" -o "$B/instr" ./instr) || exit 1
    cp "$B/overlay/overlay.json" "$B/overlay/plain.json"
    "$B/instr" "$REPO" "$B/overlay/repo" "$B/overlay/overlay.json" pkg/grpc/rangedbpb examples cmd gen 2>> "$B/instr.log" || exit 1
    cd mc || exit 1
    go build -modfile="$B/go.mod" -overlay "$B/overlay/overlay.json" -o "$B/mc" . 2> "$B/build.log" ||
      go build -modfile="$B/go.mod" -overlay "$B/overlay/plain.json" -o "$B/mc" . || exit 1
  ) 9> "$B/lock"
}
case "${1:-}" in
  build) build; exit $? ;;
  replay) build || exit 2; exec "$B/mc" replay "$2" ;;
  list) exec "$B/mc" list ;;
  '') echo "usage: check.sh build | PROP [quick|thorough] | replay FILE" >&2; exit 2 ;;
esac
PROP=$1; shift
TIER=${1:-quick}; [ $# -gt 0 ] && shift
export VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1}
if ! build; then
  echo "check.sh: $REPO does not build with the checker" >&2
  cat "$B/build.log" >&2
  exit 2
fi
exec "$B/mc" check "$PROP" -dir "$VERIF" "$@"

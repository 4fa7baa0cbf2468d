#!/bin/bash
# Builds the server and subscriber programs and the driver, without instrumentation, once per check.
set -e
B=$1 REPO=$(cat "$1/repo")
exec 8> "$B/e2e.lock"
flock 8
[ -e "$B/e2e/ok" ] && exit 0
mkdir -p "$B/e2e"
cp "$REPO/go.mod" "$B/e2e/repo.mod"
cp "$REPO/go.sum" "$B/e2e/repo.sum"
(cd "$REPO" && go build -buildvcs=false -modfile="$B/e2e/repo.mod" -o "$B/e2e/" ./cmd/rangedb ./cmd/grpc-event-subscriber)
cd "$(dirname "$0")/../mc"
go build -buildvcs=false -modfile="$B/go.mod" -o "$B/e2e/driver" ./e2e
touch "$B/e2e/ok"

#!/bin/bash
# Runs the repository's own test of stores (rangedbtest.NewStoreVerifier) against
# the PostgreSQL store over the stand-in for the database.
set -e
cd "$(dirname "$0")/.."
V=$PWD
bash check.sh build
python3 - "$V" <<'P'
import json,sys
v=sys.argv[1]
o=json.load(open(v+'/build/overlay/plain.json'))
o['Replace'][v+'/mc/h/pgserver_verif_test.go']=v+'/conformance/pgserver_test.go'
json.dump(o,open(v+'/build/conform.json','w'))
P
cd mc
GOCACHE=$V/build/gocache GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go test -count=1 -modfile="$V/build/go.mod" -overlay "$V/build/conform.json" -run TestPgServerConforms ./h

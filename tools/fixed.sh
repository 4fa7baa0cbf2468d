#!/bin/bash
# usage: tools/fixed.sh PROP "commit message (without fix:)" "what failed"
set -e
cd ${VERIF_REPO:-/repo} && go build ./... && go test -vet=off -count=1 $(go list ./... | grep -Ev "/(pkg/broadcast|pkg/rangedbui|pkg/rangedbws|provider/remotestore)$") > /tmp/fixed.log 2>&1 && git commit -qam "fix: $2"
H=$(git rev-parse HEAD)
python3 - "$1" "$H" "$3" <<'P'
import json,sys
p,h,w=sys.argv[1:]
open(__import__('os').environ.get('DV','/verif')+'/known-findings.jsonl','a').write(json.dumps({"property":p,"status":"fixed","what":f"fixed: property={p} {h[:12]} {w}","commit":h})+"\n")
P

#!/bin/bash
# usage: tools/mkseed.sh ID PROPERTY PKG "needs" "what it breaks" < demo_test.go
# Takes the uncommitted change of the scratch worktree /tmp/wt as the planted bug, and checks it.
set -e
ID=$1 PROP=$2 PKG=$3
cd "$(dirname "$0")/.."; V=$PWD
D=$V/seeded/$ID; mkdir -p $D
cat > $D/demo_test.go
cat > $D/demo.sh <<S
#!/bin/bash
# Runs demo_test.go inside $PKG of the repository in the current directory.
D=\$(cd "\$(dirname "\$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:\$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
T=\$(mktemp -d); trap 'rm -rf "\$T"' EXIT
printf '{"Replace":{"%s/$PKG/verif_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$D" > "\$T/o.json"
TMPDIR="\$T" go test -vet=off -count=1 -timeout 200s -overlay "\$T/o.json" -run '^TestVerifDemo\$' ./$PKG
S
python3 - "$PROP" "$4" "$5" > $D/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
cd /tmp/wt
git diff > $D/patch.diff; test -s $D/patch.diff
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
go build ./...
go test -vet=off -count=1 -timeout 2m $(go list -e ./... | grep -Ev '^github.com/inklabs/rangedb/(pkg/broadcast|pkg/rangedbui|pkg/rangedbws|provider/remotestore)$') 2>&1 | grep -- '--- FAIL\|^FAIL\|panic:' | head -5 || true
if bash $D/demo.sh > /tmp/demo.out 2>&1; then echo "DEMO PASSES WITH PATCH (bad)"; else echo "demo fails with patch (good)"; tail -12 /tmp/demo.out; fi
git stash -q
if bash $D/demo.sh > /tmp/demo.out 2>&1; then echo "demo passes without (good)"; else echo "DEMO FAILS WITHOUT PATCH (bad)"; tail -30 /tmp/demo.out; fi
git stash pop -q
cd $V
VERIF_REPO=/tmp/wt bash check.sh $PROP quick 2>&1 | cut -c1-400 | tail -6
git -C /tmp/wt checkout -- .

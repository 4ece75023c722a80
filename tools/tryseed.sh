#!/bin/bash
# tryseed.sh ID [nocheck]: validates seeded/ID in a scratch copy (applies, builds, tests pass, demo passes
# without and fails with the change), then runs the property's check on the scratch copy with the change applied.
id=$1; d=/verif/seeded/$id
W=/tmp/sw; [ -d $W ] || cp -a /repo $W
git -C $W checkout -q -- . ; git -C $W reset -q --hard $(git -C /repo rev-parse HEAD) 2>/dev/null || { git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD; }
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin GOROOT= GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOPATH=/root/go GOCACHE=/root/.cache/go-build GOFLAGS="-mod=mod -buildvcs=false"
(cd $W && bash $d/demo.sh >/tmp/demo.clean 2>&1) && echo "demo clean: pass" || { echo "DEMO FAILS ON CLEAN"; tail -20 /tmp/demo.clean; exit 1; }
git -C $W apply $d/patch.diff || exit 1
m=shlib; grep -q '+++ b/shuttermint' $d/patch.diff && m=shuttermint
(cd $W/$m && go build ./... && go vet=off 2>/dev/null; go test -vet=off -count=1 ./... > /tmp/demo.tests 2>&1) && echo "tests: pass" || { echo "TESTS FAIL"; grep -v "^ok\|no test files" /tmp/demo.tests | head -20; }
(cd $W && timeout 300 bash $d/demo.sh >/tmp/demo.bug 2>&1) && echo "DEMO PASSES WITH BUG" || { echo "demo with bug: fails"; grep -m3 "FAIL\|_test.go" /tmp/demo.bug; }
git -C $W checkout -q -- .
[ "$2" = nocheck ] && exit
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C $W apply $d/patch.diff || exit 1
mkdir -p /tmp/vv/evidence; for x in specs replay bin known_findings.txt properties.jsonl; do rm -rf /tmp/vv/$x; cp -a /verif/$x /tmp/vv/; done
(s=$(date +%s); VERIF_TIER=quick VERIF_SEED=1 /tmp/vv/bin/govc check -prop $p -repo $W -verif /tmp/vv > /tmp/seed.$id 2>&1; echo "check $p rc=$? $(( $(date +%s)-s ))s"; grep "VIOLATION\|^failed" /tmp/seed.$id | cut -c1-250 | head -6)
git -C $W checkout -q -- .

#!/bin/bash
# seed.sh ID PROPERTY   (cwd: scratch copy with the change applied) helper: confirm a planted bug and show which checks see it
# usage: seed.sh confirm DIR     confirm patch.diff/demo.sh of a seeded directory in a scratch copy of /repo
set -u
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
d=$(readlink -f "$1")
w=$(mktemp -d /tmp/seedXXXX)
cp -a /repo/. $w/repo && cd $w/repo && git checkout -q -- . && git clean -fdq
# the demo must pass here
cp -r "$d" $w/d; rm -f $w/d/patch.diff $w/d/meta.json
run() { ( cd /repo && : ); ( cd $w/repo && timeout 300 bash $w/d/demo.sh >$w/out 2>&1 ); }
run; r0=$?; [ $r0 = 0 ] || { echo "demo fails on the unchanged tree ($r0)"; tail -5 $w/out; }
git apply "$d/patch.diff" || echo "patch does not apply"
go build ./bandersnatch/errorsWithData ./bandersnatch/fieldElements ./bandersnatch/curvePoints ./bandersnatch/pointserializer ./bandersnatch/common ./bandersnatch/exponents ./internal/... || echo "does not build"
run; r1=$?; [ $r1 != 0 ] || echo "demo passes with the change"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
M=github.com/GottfriedHerold/Bandersnatch
PKGS=$(go list -e ./... | grep -Ev "^$M/(bandersnatch|bandersnatch/(bandersnatchErrors|curvePoints|fieldElements|pointserializer)|internal/errorTransform)\$")
go test -json -vet=off -count=1 -timeout 10m $PKGS > $w/test.json 2>/dev/null
python3 - $w/test.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
res={}
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Test') and e.get('Action') in('pass','fail'): res[e['Package']+'/'+e['Test']]=e['Action']
print("tests: pass",sum(v=='pass' for v in res.values()),"fail",[k for k,v in res.items() if v=='fail'])
P
echo "confirm $(basename $d): unchanged=$r0 changed=$r1"; tail -2 $w/out
cd /; rm -rf "${w:?}"

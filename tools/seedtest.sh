#!/bin/bash
# seedtest.sh NAME [PROP...]: confirm a planted bug and run the checks against it, in a scratch copy
n=$1; shift
d=/verif/seeded/$n
s=/tmp/seedtest-$n
rm -rf "$s"; mkdir -p "$s"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
git clone -q /repo "$s/repo"
cd "$s/repo" || exit 9
res="$n:"
bash "$d/demo.sh" >"$s/demo0.log" 2>&1 && res="$res demo-clean-ok" || res="$res DEMO-FAILS-ON-CLEAN"
git apply "$d/patch.diff" || { echo "$n: PATCH DOES NOT APPLY"; exit 9; }
go build ./... >"$s/build.log" 2>&1 || res="$res DOES-NOT-BUILD"
go test -vet=off -count=1 ./... >"$s/test.log" 2>&1 && res="$res tests-pass" || res="$res TESTS-FAIL"
bash "$d/demo.sh" >"$s/demo1.log" 2>&1 && res="$res DEMO-PASSES-WITH-BUG" || res="$res demo-fails"
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
for p in $props; do
  VERIF_REPO=$s/repo VERIF_OUT=$s/out VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 900 python3 /verif/check.py $p >"$s/$p.log" 2>&1
  rc=$?
  case $rc in 0) res="$res $p:MISSED";; 1) res="$res $p:caught";; *) res="$res $p:BROKEN($rc)";; esac
done
echo "$res"
[ -n "$KEEP" ] || rm -rf "$s"

#!/bin/bash
# trybug.sh ID [-n]: validate the planted bug seeded/ID in a scratch copy of /repo
# (builds, tests pass, demo passes without and fails with it) and, unless -n, run
# its property's check against that copy.
cd "$(dirname "$0")/.." || exit 2
id=$1; d=$PWD/seeded/$id
tmp=$(mktemp -d /tmp/trybug.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp -a /repo "$tmp/repo"; cp -a "$d" "$tmp/demo"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
cd "$tmp/repo"
bash "$tmp/demo/demo.sh" >"$tmp/log" 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -20 "$tmp/log"; exit 1; }
git apply "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
go test -vet=off -count=1 $(go list ./... | grep -v /example/) >"$tmp/log" 2>&1 || { echo "$id: tests fail"; tail -20 "$tmp/log"; exit 1; }
# the lines it removes must be original ones
git diff -U0 HEAD | python3 -c '
import sys,re,subprocess
f=None;mine=0;orig=0
for l in sys.stdin:
    if l.startswith("--- a/"): f=l[6:].strip()
    m=re.match(r"@@ -(\d+)(?:,(\d+))? ",l)
    if m:
        a=int(m[1]);n=int(m[2] or 1)
        for k in range(a,a+n):
            b=subprocess.run(["git","blame","-s","-L%d,%d"%(k,k),"HEAD","--",f],capture_output=True,text=True).stdout
            if b.startswith("^") or b.startswith("9c4e297"): orig+=1
            else: mine+=1
print("   lines: %d original, %d changed by fixes"%(orig,mine))'
bash "$tmp/demo/demo.sh" >"$tmp/log" 2>&1 && { echo "$id: demo passes with the bug"; exit 1; }
grep -m3 -E 'demo_test.go|panic|timed out' "$tmp/log" | sed 's/^/   demo: /'
[ "$2" = -n ] && { echo "$id: valid"; exit 0; }
s=$(date +%s)
for p in ${PROPS:-$prop}; do
REPO="$tmp/repo" VERIF_SEED=1 VERIF_TIER=quick timeout 900 /verif/check.sh "$p" >"$tmp/log" 2>&1; rc=$?
echo "$id: $p exit $rc in $(( $(date +%s)-s )) s: $(grep -m1 -a VIOLATION "$tmp/log" || echo MISSED; )"
done

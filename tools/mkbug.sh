#!/bin/bash
# mkbug.sh ID: confirm /verif/seeded/ID in a scratch copy of /repo: applies,
# builds, stable tests pass, demo passes before and fails after.
set -u
id=$1; d=/verif/seeded/$id
w=$(mktemp -d /tmp/mkbug.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; cp -a "$d" "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
cd "$w/repo" && git checkout -q -- .
timeout 300 bash "$w/demo/demo.sh" >"$w/before" 2>&1; b=$?
git apply "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
. /opt/vp/env.sh; cd "$w/repo"
go build ./... || { echo "$id: does not build"; exit 1; }
timeout 300 bash "$w/demo/demo.sh" >"$w/after" 2>&1; a=$?
go test -json -vet=off -count=1 -timeout 10m $(go list ./... | grep -v '/storetheindex/internal/ingest$') >"$w/log" 2>/dev/null
python3 - "$w/log" <<'P'
import json,sys
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test']); ok.add(e['Test'])
b=json.load(open('/opt/vp/BASELINE.json'))
names=b["stable"]
miss=[n for n in names if not any(n==o or n.endswith(o) for o in ok)]
print('missing stable tests:',len(miss),miss[:5])
P
echo "$id: demo before=$b after=$a"
[ $b = 0 ] || tail -15 "$w/before"
[ $a != 0 ] && grep -m3 -E 'Error|FAIL|panic|demo' "$w/after"

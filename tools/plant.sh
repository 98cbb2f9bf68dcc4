#!/bin/bash
# plant.sh <id>...: confirms a planted bug in seeded/<id> (applies, builds, stable tests pass, demo
# passes without and fails with it), then runs its property's quick check.  Leaves /repo as it was.
cd "$(dirname "$0")/.."; V=$PWD
for id in "$@"; do
    d=$V/seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
    bash /opt/vp/build.sh >/dev/null 2>&1
    s=$(mktemp -d); cp -r "$d"/. "$s"/; rm -f "$s"/*.diff "$s"/meta.json
    (cd /repo && timeout 300 bash "$s/demo.sh" >"$s/out0" 2>&1); a=$?
    git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
    bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
    t=$(python3 -c "
import json
o=json.load(open('/tmp/plant.json'));b=json.load(open('/opt/vp/BASELINE.json'))
st=b.get('stable') or b.get('passed') or b.get('tests')
print('ok' if set(st)<=set(o['passed']) else 'TESTS-FAIL %s'%sorted(set(st)-set(o['passed']))[:4])")
    (cd /repo && timeout 300 bash "$s/demo.sh" >"$s/out1" 2>&1); b=$?
    c=skipped
    if [ -z "$NOCHECK" ]; then VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $prop quick >"$s/chk" 2>&1; c=$?; fi
    git -C /repo checkout -- .
    echo "$id ($prop): demo clean=$a planted=$b tests=$t check=$c $(grep -h VIOLATION "$s/chk" 2>/dev/null | head -1)"
    [ $a = 0 ] || tail -5 "$s/out0"; [ $b != 0 ] || tail -5 "$s/out1"
    rm -rf "$s"
done
bash /opt/vp/build.sh >/dev/null 2>&1

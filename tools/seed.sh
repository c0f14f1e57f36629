#!/bin/bash
# seed.sh ID : validates /verif/seeded/ID in a scratch copy of /repo (applies, builds, stable tests pass,
# demo passes without and fails with the patch), and runs the property's quick check against it.
id=$1; d=/verif/seeded/$id
s=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf $s' EXIT
cp -a /repo $s/repo
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cp -r $d $s/demo; rm -f $s/demo/patch.diff $s/demo/meta.json
cd $s/repo
bash $s/demo/demo.sh >$s/d0 2>&1 || { echo "$id: demo fails on unchanged tree"; tail -5 $s/d0; exit 1; }
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
bash $s/demo/demo.sh >$s/d1 2>&1 && { echo "$id: demo passes with the patch"; exit 1; }
if [ "${2:-}" != notest ]; then
sed "s#/repo#$s/repo#g" /opt/vp/overlay/overlay.json > $s/ov.json; sed "s#/repo#$s/repo#g; s#/opt/vp/overlay/overlay.json#$s/ov.json#" /opt/vp/test.sh > $s/test.sh
bash $s/test.sh $s/t.json >/dev/null 2>&1
python3 - $s/t.json <<'P' || exit 1
import json,sys
st=json.load(open('/opt/vp/BASELINE.json'))['stable']
r=json.load(open(sys.argv[1]))
ok=set(r.get('passed',[]))
bad=[t for t in st if t not in ok]
if bad: print('stable tests fail:',bad[:5], list(r)[:4]); sys.exit(1)
P
fi
(cd /verif/govc && GOFLAGS=-mod=mod GOPROXY=off go build -o $s/govc .) && $s/govc -root /verif -repo $s/repo -prop $prop -tier quick -noevidence > $s/out 2>&1
rc=$?
grep -E "VIOLATION|failed obl" $s/out | head -4 | cut -c1-200
echo "$id property=$prop check exit=$rc"

#!/bin/bash
# tools/seedrun.sh ID [CHECK...]: runs a planted bug in a private copy of /repo, mounted over /repo in a namespace of its own:
# build, demo and tests (NOTESTS=1, NOCHECK=1 leave those out) without and with the patch, then the quick checks. Prints one line per step.
id=$1; shift
S=/verif/seeded/$id
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
checks=${*:-$P}; [ -n "$NOCHECK" ] && checks=
W=$(mktemp -d /tmp/seedrun.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp -a /opt/vp "$W/vp"; cp -a "$S" "$W/seed"; mkdir "$W/evidence"
rm -f "$W/seed/patch.diff" "$W/seed/meta.json"
export W S id checks P
unshare -rm bash -c '
mount --bind $W/repo /repo; mount --bind $W/vp /opt/vp; mount --bind $W/evidence /verif/evidence
cd /repo; git checkout -q -- .
bash /opt/vp/build.sh >$W/b0 2>&1 || echo "$id BUILD0 fails"
timeout 300 bash $W/seed/demo.sh >$W/d0 2>&1; d0=$?
git apply $S/patch.diff || { echo "$id PATCH does not apply"; exit; }
git diff --stat | tail -1
bash /opt/vp/build.sh >$W/b1 2>&1 || { echo "$id BUILD fails"; tail -5 $W/b1; }
timeout 300 bash $W/seed/demo.sh >$W/d1 2>&1; d1=$?
if [ -z "$NOTESTS" ]; then
bash /opt/vp/test.sh $W/t.json >/dev/null 2>&1
t=$(python3 -c "
import json
d=json.load(open(\"$W/t.json\")); b=json.load(open(\"/opt/vp/BASELINE.json\"))
s=json.dumps(b); bad=[x for x in d[\"failed\"]]; print(len(d[\"passed\"]),len(bad),bad[:3])")
fi
echo "$id demo unpatched=$d0 patched=$d1 tests: $t"
[ $d0 != 0 ] && tail -5 $W/d0
[ $d1 = 0 ] && tail -5 $W/d1
cd /verif
for c in $checks; do
  VERIF_SEED=${SEED:-1} timeout 900 ./check $c quick >$W/c 2>&1; r=$?
  v=$(grep -c "^VIOLATION property=$c" $W/c)
  echo "$id check $c exit=$r $([ $r = 1 ] && [ $v != 0 ] && echo CAUGHT || echo MISSED) $(grep -A2 "^VIOLATION" $W/c | sed -n 2,3p | tr "\n" " " | cut -c1-220) $([ $r = 2 ] && tail -3 $W/c | cut -c1-400)"
done'

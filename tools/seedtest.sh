#!/bin/bash
# tools/seedtest.sh ID [notest]: confirms a planted bug in a scratch copy and runs its property's check against it.
# A development tool; no registered command uses it.
set -u
ID=$1; S=/verif/seeded/$ID; D=/tmp/seed-$ID
mkdir -p $D; cp -a /repo $D/repo; cp -r /opt/vp $D/vp
sed -i "s#/repo#$D/repo#g; s#/opt/vp#$D/vp#g" $D/vp/*.sh $D/vp/*.py
# the copied cmake cache names /repo
find $D/repo/_build -delete 2>/dev/null
cd $D/repo
echo "== clean build"; bash $D/vp/build.sh > $D/b0.log 2>&1 || { echo BUILD0 FAILED; tail -5 $D/b0.log; }
cp -r $S $D/demo; find $D/demo -name '*.diff' -delete; find $D/demo -name meta.json -delete
timeout 300 bash $D/demo/demo.sh > $D/d0.log 2>&1; echo "demo clean: $?"; tail -2 $D/d0.log
git apply $S/patch.diff || { echo "PATCH FAILS"; exit 1; }
bash $D/vp/build.sh > $D/b1.log 2>&1 || { echo BUILD1 FAILED; tail -5 $D/b1.log; }
timeout 300 bash $D/demo/demo.sh > $D/d1.log 2>&1; echo "demo patched: $?"; tail -2 $D/d1.log
if [ "${2:-}" != notest ]; then
  bash $D/vp/test.sh $D/out.json > $D/t.log 2>&1
  python3 - $D <<'P'
import json, sys
o = json.load(open(sys.argv[1] + '/out.json')); b = json.load(open('/opt/vp/BASELINE.json'))
print("stable tests failing:", sorted(set(b['stable']) - set(o['passed'])))
P
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
c=$(echo $P | tr A-Z a-z)
VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=$D/repo VERIF_BUILD=$D/build python3-vt /verif/checks/$c.py > $D/c.log 2>&1; echo "check $P: $?"; grep -A1 VIOLATION $D/c.log | cut -c1-200 | head -4; tail -1 $D/c.log | cut -c1-200
find $D -delete

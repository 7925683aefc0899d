#!/bin/bash
# seedrun.sh <seed folder> [check ...]: validate a planted bug in a private mount namespace and run checks on it.
# Uses copies of /repo, /opt/vp, /opt/venv and /verif; the real ones are never touched. Prints one summary line.
# NOTEST=1 skips the stable tests, NOCHECK=1 the checks.
S=$(realpath "$1"); shift
ID=$(basename "$S")
W=$(mktemp -d /tmp/seed-$ID-XXXX)
cp -a /repo "$W/repo"; cp -a /opt/vp "$W/vp"; cp -a /opt/venv "$W/venv"; cp -a "$S" "$W/seed"
mkdir "$W/verif"; (cd /verif && tar c --exclude=./build --exclude=./replays --exclude=./seeded --exclude=./.git .) | tar x -C "$W/verif"
mkdir -p "$W/verif/build"; cp -a /verif/build/plain-* "$W/verif/build/" 2>/dev/null
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CHECKS=${*:-$PROP}
export W ID PROP CHECKS NOTEST NOCHECK
unshare -m bash -s <<'X'
mount --make-rprivate /
for p in "repo /repo" "vp /opt/vp" "venv /opt/venv" "verif /verif"; do set -- $p; mount --bind "$W/$1" "$2" || exit 9; done
cd /repo
git checkout -q -- . ; 
bash /opt/vp/build.sh >$W/build0.log 2>&1 || { echo "$ID: base build failed"; exit 1; }
timeout 300 bash $W/seed/demo.sh >$W/demo0.log 2>&1; d0=$?
git apply $W/seed/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >$W/build1.log 2>&1 || { echo "$ID: BUILD FAILED"; tail -5 $W/build1.log; exit 1; }
timeout 300 bash $W/seed/demo.sh >$W/demo1.log 2>&1; d1=$?
t=skipped
if [ -z "$NOTEST" ]; then
  bash /opt/vp/test.sh $W/t.json >$W/test.log 2>&1
  t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('$W/t.json'))
m=sorted(set(b['stable'])-set(t['passed']))
print('ok' if not m else 'FAIL:%d %s'%(len(m),m[:3]))")
fi
c=""
cd /verif
if [ -z "$NOCHECK" ]; then for p in $CHECKS; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p --tier quick >$W/check-$p.log 2>&1; rc=$?
  k=$(grep -m1 -o 'key=[^ ]*' $W/check-$p.log)
  c="$c $p:rc=$rc[$k]"
done; fi
echo "SEED $ID prop=$PROP demo0=$d0 demo1=$d1 tests=$t checks:$c"
X
[ -n "$KEEP" ] && echo "kept $W" || rm -rf "$W"

#!/bin/bash
# plant.sh ID [PROPS...]: confirm the planted bug seeded/ID (applies, builds, passes the stable tests, its
# demo passes without and fails with it), then tell whether the check of its property (or PROPS) catches it.
# Works on a scratch copy of /repo that is mounted over it in a mount namespace of its own, so that
# several can run at once. NODEMO=1: only the check.
id=$1; shift; d=/verif/seeded/$id
if [ -z "$PLANT_IN" ]; then
    t=$(mktemp -d /tmp/plant.XXXXXX)
    cp -a /repo "$t/repo"
    git -C "$t/repo" checkout -q -- .
    PLANT_IN=$t unshare -m bash -c 'mount --bind "$PLANT_IN/repo" /repo && exec "$@"' _ bash "$0" "$id" "$@"
    rm -rf "$t"
    exit
fi
t=$PLANT_IN; R=/repo
[ -z "$(git -C $R status --porcelain)" ] || { echo "repo not clean"; exit 2; }
if [ -z "$NODEMO" ]; then (cd $R && bash $d/demo.sh >$t/demo0 2>&1) || { echo "$id: DEMO FAILS ON CLEAN"; tail -5 $t/demo0; exit 1; }; fi
git -C $R apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >$t/build 2>&1 || { echo "$id: does not build"; tail -5 $t/build; exit 1; }
bash /opt/vp/test.sh $t/o.json >$t/test 2>&1
python3 - $t/o.json <<'P' || { echo "$id: TESTS CATCH IT"; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
miss=set(b['stable'])-set(o['passed'])
if miss: print(sorted(miss)[:5])
sys.exit(bool(miss))
P
(cd $R && bash $d/demo.sh >$t/demo 2>&1) && { echo "$id: DEMO PASSES WITH BUG"; exit 1; }
fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for p in ${@:-$prop}; do
out=$(cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $p --tier quick 2>&1); rc=$?
echo "$id: $p rc=$rc $(echo "$out" | grep -c "VIOLATION property=$p") $(echo "$out" | grep -m1 -o 'key=[^ ]*\|VIOLATION.*' | cut -c1-150)"
done

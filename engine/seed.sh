#!/bin/bash
# engine/seed.sh ID [check]: verify a planted bug: demo passes on /repo, patch applies and builds, stable tests pass,
# demo fails; with "check" also run the property's quick check. Leaves /repo as it was.
set -u
D=/verif/seeded/$1; R=/repo
[ -z "$(git -C $R status --porcelain)" ] || { echo "repo is not clean"; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
T=$(mktemp -d); cp -r $D/. $T/; rm -f $T/*.diff $T/meta.json
if [ "${3:-}" != fast ]; then
(cd $R && timeout 300 bash $T/demo.sh > $T/out1 2>&1); a=$?
fi
git -C $R apply $D/patch.diff || { echo "$1: patch does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "${3:-}" != fast ]; then
bash /opt/vp/build.sh > $T/build 2>&1; b=$?
bash /opt/vp/test.sh $T/t.json > $T/test 2>&1; grep -h "passed" $T/test | head -1
(cd $R && timeout 300 bash $T/demo.sh > $T/out2 2>&1); c=$?
echo "$1 ($P): demo unchanged $a (want 0), build $b, demo patched $c (want nonzero)"
[ $a = 0 ] || tail -20 $T/out1
[ $b = 0 ] || tail -20 $T/build
tail -3 $T/out2
fi
[ "${2:-}" = check ] && { cd /verif; python3 run.py check $P quick 2>&1 | tail -25 | cut -c1-300; }
rm -rf "$T"

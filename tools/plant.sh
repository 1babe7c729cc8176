#!/bin/bash
# plant.sh ID [CHECK...]: confirms a planted bug (demo passes without, fails with it; the stable tests pass with it)
# and runs the given checks against it. Works on /repo and undoes the change.
id=$1; shift
dir=/verif/seeded/$id
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NOTEST" ]; then
  bash /opt/vp/build.sh >/tmp/plant.log 2>&1
  (cd /repo && timeout 300 bash $dir/demo.sh) >/tmp/plant.demo0 2>&1 || { echo "$id: demo fails on the clean tree"; tail -20 /tmp/plant.demo0; exit 1; }
fi
git -C /repo apply $dir/patch.diff || exit 1
if [ -z "$NOTEST" ]; then
  bash /verif/tools/stable.sh | tail -5
  (cd /repo && timeout 300 bash $dir/demo.sh) >/tmp/plant.demo1 2>&1 && echo "$id: DEMO PASSES WITH THE BUG" || { echo "$id: demo fails as it should: "; tail -3 /tmp/plant.demo1 | cut -c1-300; }
fi
for c in "$@"; do
  (cd /verif && VERIF_SEED=${SEED:-1} ./check $c quick) > /tmp/plant.$c 2>&1; rc=$?
  echo "$id: check $c exit $rc $(grep -c ^VIOLATION /tmp/plant.$c) violations; $(grep -B1 -m1 ^VIOLATION /tmp/plant.$c | head -1 | cut -c1-300)"
  [ $rc = 2 ] && tail -5 /tmp/plant.$c | cut -c1-400
done

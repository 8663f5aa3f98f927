#!/bin/bash
# development helper: tools/plant.sh ID [stable] [check ...]
# Confirms a planted change in a scratch copy bind-mounted over /repo in a private mount namespace:
# builds, optionally runs the stable tests, runs the demonstration with and without the change, then the given checks.
ID=$1; shift
S=/verif/seeded/$ID; W=/tmp/plant_$ID
if [ "$PLANT_NS" != 1 ]; then
  mkdir -p $W/repo $W/vbuild $W/vev $W/vrep
  cp -a /repo/. $W/repo/
  PLANT_NS=1 unshare -m --propagation private bash "$0" "$ID" "$@"; r=$?
  rm -rf "/tmp/plant_$ID"
  exit $r
fi
mount --bind $W/repo /repo || exit 9
mount --bind $W/vbuild /verif/build; mount --bind $W/vev /verif/evidence; mount --bind $W/vrep /verif/replay
cd /repo
git diff --quiet || { echo "repo not clean"; git checkout -q -- .; }
D=$W/demo; cp -r $S $D; rm -f $D/*.diff $D/meta.json
( bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash $D/demo.sh >$W/clean.log 2>&1 ); c=$?
git apply --check $S/patch.diff || exit 8
git apply $S/patch.diff
bash /opt/vp/build.sh >$W/b.log 2>&1 || { echo "$ID BUILD FAILED"; grep -m5 error $W/b.log; exit 7; }
timeout 300 bash $D/demo.sh >$W/bug.log 2>&1; b=$?
echo "$ID demo: clean=$c patched=$b"
[ $c != 0 ] && tail -5 $W/clean.log
[ $b = 0 ] && tail -3 $W/bug.log
if [ "$1" = stable ]; then shift; bash /verif/tools/stable.sh || exit 6; fi
cd /verif
for k in "$@"; do
  timeout 900 python3 check.py $k >$W/$k.log 2>&1; r=$?
  echo "$ID $k rc=$r $(grep -m1 -c VIOLATION $W/$k.log) $(grep -m1 ^FAIL $W/$k.log | cut -c1-220)"
done

#!/bin/bash
# Verify planted bugs in a scratch copy of /repo, mounted over /repo in a private namespace.
#   seed.sh [-n COPY] [-f] [-c] ID...
# -f: fast, skip the build and the tests; -c: skip the checks
n=1; fast=; nocheck=
while getopts n:fc o; do case $o in n) n=$OPTARG;; f) fast=1;; c) nocheck=1;; esac; done
shift $((OPTIND-1))
C=/tmp/ns$n
mkdir -p $C
if [ ! -d $C/repo ]; then cp -a /repo $C/repo; fi
export C fast nocheck
for id in "$@"; do
export id
unshare -Urm bash -c '
S=/verif/seeded/$id
mount --bind $C/repo /repo0 2>/dev/null
H=$(git -C /repo rev-parse HEAD)
git -C $C/repo fetch -q /repo HEAD && git -C $C/repo checkout -q -f FETCH_HEAD
mount --bind $C/repo /repo
cd /repo
rm -rf $C/demo; cp -a $S $C/demo; rm -f $C/demo/*.diff $C/demo/meta.json
P=$(python3 -c "import json; print(json.load(open(\"$S/meta.json\"))[\"property\"])")
if [ ! $fast ]; then bash /opt/vp/build.sh >$C/build.log 2>&1 || { echo "$id: clean build failed"; exit 1; }; fi
timeout 300 bash $C/demo/demo.sh >$C/demo0.log 2>&1; r=$?
[ $r = 0 ] || { echo "$id: BAD demo fails on clean tree: $r"; tail -5 $C/demo0.log; exit 1; }
git apply $S/patch.diff || { echo "$id: BAD patch does not apply"; exit 1; }
t=skipped
if [ ! $fast ]; then
  bash /opt/vp/build.sh >$C/build.log 2>&1 || { echo "$id: BAD build failed"; tail -20 $C/build.log; git checkout -q -- .; exit 1; }
  bash /opt/vp/test.sh $C/o.json >$C/test.log 2>&1
  t=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]; o=json.load(open(\"$C/o.json\"))
m=[x for x in b if x not in o[\"passed\"]]
print(\"ok\" if not m else \"BAD %s\" % m[:5])")
fi
timeout 300 bash $C/demo/demo.sh >$C/demo1.log 2>&1; r=$?
d=ok; [ $r != 0 ] || d="BAD(demo passes)"
c=skipped
if [ ! $nocheck ]; then
  cd /verif
  T0=$(date +%s)
  VERIF_SEED=1 VH_BUILD=$C/vbuild VH_EVIDENCE=$C/vevidence timeout 900 python3 run.py $P >$C/check-$id.log 2>&1; r=$?
  c="check=$r $(grep -c ^VIOLATION $C/check-$id.log) violations in $(( $(date +%s) - T0 )) s"
  [ $r = 1 ] || c="MISSED $c"
fi
git -C /repo checkout -q -- .
echo "$id ($P): tests $t, demo $d, $c"
'
done

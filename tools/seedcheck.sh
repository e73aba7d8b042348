#!/bin/bash
# seedcheck.sh <seed id>...: confirms planted changes in private copies of /repo and /verif (bind-mounted
# in a mount namespace of this process only) and says whether the property's check notices them.
cd /
for id in "$@"; do
  T=/tmp/seed_$id; rm -rf "/tmp/seed_$id"; mkdir -p $T
  cp -a /repo $T/repo; mkdir $T/verif; (cd /verif; tar cf - --exclude=./build/work --exclude=./build/run --exclude=./evidence --exclude=./.git .) | tar xf - -C $T/verif
  git -C $T/repo checkout -q -- . ; mkdir -p $T/demo; cp /verif/seeded/$id/* $T/demo/
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  unshare -Urm bash -c '
    T='$T'; P='$P'; id='$id'
    mount --bind $T/repo /repo; mount --bind $T/verif /verif; cd /repo
    bash /opt/vp/build.sh > $T/b0.log 2>&1 || echo "$id: base build FAILED"
    timeout 300 bash $T/demo/demo.sh > $T/d0.log 2>&1; r0=$?
    git apply $T/demo/patch.diff || { echo "$id: patch does not apply"; exit; }
    bash /opt/vp/build.sh > $T/b1.log 2>&1; b=$?
    timeout 300 bash $T/demo/demo.sh > $T/d1.log 2>&1; r1=$?
    bash /opt/vp/test.sh $T/out.json > $T/t.log 2>&1
    t=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); o=json.load(open(\"$T/out.json\"))
b=b[\"stable\"]
print([x for x in b if x not in set(o[\"passed\"])][:5])")
    cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $P > $T/c.log 2>&1; c=$?
    echo "$id $P demo-clean=$r0 build=$b demo-patched=$r1 tests-lost=$t check=$c $(grep -m1 VIOLATION $T/c.log)"
  '
  cp $T/c.log /tmp/seedlog_$id.log; cp $T/d1.log /tmp/seedlog_$id.demo 2>/dev/null
  rm -rf "/tmp/seed_$id"
done

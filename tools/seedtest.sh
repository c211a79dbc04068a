#!/bin/bash
# seedtest.sh ID...: confirm seeded bugs (patch applies, demo passes without and fails with it,
# the repository's stable tests pass with it, and our check catches it), each in a scratch copy
# of /repo bound over /repo in a private mount namespace.   NOTEST=1 skips the repository tests.
for id in "$@"; do
  d=/verif/seeded/$id
  w=$(mktemp -d /tmp/sw.XXXXXX)
  cp -a /repo/. $w/
  mkdir $w.demo; cp -a $d/. $w.demo/; rm -f $w.demo/patch.diff $w.demo/meta.json
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  export w d prop NOTEST id
  unshare -m bash -c '
    mount --bind $w /repo; cd /repo
    timeout 300 bash $w.demo/demo.sh >$w.o1 2>&1; a=$?
    git apply $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
    timeout 300 bash $w.demo/demo.sh >$w.o2 2>&1; b=$?
    cp -a /verif $w.verif; rm -rf $w.verif/seeded; mount --bind $w.verif /verif; cd /verif
    VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python -B harness/check.py $prop >$w.o3 2>&1; c=$?
    cd /repo
    t=skipped
    if [ -z "$NOTEST" ]; then
      bash /opt/vp/test.sh $w.json >$w.o4 2>&1
      t=$(python3 -c "
import json
s=json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]
r=json.load(open(\"$w.json\"))
p=set(r.get(\"passed\",[]))
m=[x for x in s if x not in p]
print(\"tests-ok\" if not m else \"TESTS-FAIL %d %s\" % (len(m), m[:3]))")
    fi
    echo "$id ($prop): demo clean=$a patched=$b  check=$c  $t"
    [ $a = 0 ] || tail -5 $w.o1
    [ $b = 0 ] && echo "   DEMO DOES NOT FAIL"
    [ $c = 1 ] || { echo "   NOT CAUGHT"; tail -3 $w.o3; }
    [ $c = 1 ] && grep "clause" $w.o3 | cut -c1-150 | head -3
  '
  rm -rf $w $w.demo $w.verif $w.o? $w.json
done

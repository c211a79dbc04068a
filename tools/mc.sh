#!/bin/sh
# mc.sh MC_X [cfg]: run one exhaustive model by hand
cd /verif/spec; d=$(mktemp -d /tmp/mc.XXXXXX)
java -XX:+UseParallelGC -Xss16m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -metadir $d -workers ${W:-1} -config ${2:-$1}.cfg $1 > $d/out 2>&1
grep -v '@@GEN' $d/out | grep -v "^Parsing\|^Semantic\|^Linting\|^Warning\|^(Use\|^Running\|^TLC2" | tail -${N:-30}; echo "behaviours: $(grep -c @@GEN $d/out)"
rm -rf $d

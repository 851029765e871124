#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks": takes the working-tree change of /tmp/seedrepo and /tmp/seed/demo.rs,
# confirms it (builds, stable tests pass, demo passes without and fails with it) and stores it in seeded/ID
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1 prop=$2; S=/tmp/seedrepo
D=$V/seeded/$id; mkdir -p $D
git -C $S diff > $D/patch.diff; [ -s $D/patch.diff ] || { echo "no change"; exit 1; }
cp /tmp/seed/demo.rs $D/; sed "s#DEMO#demo#" $V/tools/demo.sh > $D/demo.sh; cp $V/harness/*.rs $D/; rm $D/lib.rs
cp $V/tools/demo_api.rs $D/api.rs
python3 - "$D/meta.json" "$prop" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
P
. /opt/vp/env.sh
cd $S
ok=1
cargo build --offline -q 2>$D/.err || { cat $D/.err|tail -20; ok=0; }
cargo test --workspace --no-fail-fast --offline > /tmp/seed/test.log 2>&1
n=$(grep -c '^test .* ok$' /tmp/seed/test.log); f=$(grep -c '^test .* FAILED$' /tmp/seed/test.log)
bash $D/demo.sh > /tmp/seed/with.log 2>&1; w=$?
git stash -q; touch src/lib.rs; cargo build --offline -q 2>/dev/null
bash $D/demo.sh > /tmp/seed/without.log 2>&1; wo=$?
git stash drop -q; rm -f $D/.err
echo "tests ok=$n failed=$f demo with=$w without=$wo"
if [ $ok = 1 ] && [ $f = 0 ] && [ $w != 0 ] && [ $w != 99 ] && [ $wo = 0 ]; then echo "KEPT $id"; else echo "REJECTED $id"; tail -5 /tmp/seed/with.log; echo ---; tail -5 /tmp/seed/without.log; mkdir -p /tmp/seed/rej; rm -rf /tmp/seed/rej/$id; mv $D /tmp/seed/rej/; fi

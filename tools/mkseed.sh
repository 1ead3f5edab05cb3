#!/bin/bash
# mkseed.sh ID PROPERTY: takes the change in /tmp/seedwork (a clone of /repo) and demo.rs, confirms and stores it
# env: NEEDS, BREAKS; files /tmp/seed/ID.py (edit script run in the clone), /tmp/seed/ID.rs (demo)
id=$1; prop=$2
D=/verif/seeded/$id
W=/tmp/seedwork
cd $W && git checkout -q -- . && git pull -q 2>/dev/null
python3 /tmp/seed/$id.py || { echo "edit failed"; exit 1; }
git diff > /tmp/seed/$id.diff
[ -s /tmp/seed/$id.diff ] || { echo "empty diff"; exit 1; }
cargo test --offline --workspace --no-fail-fast 2>&1 | grep -E "^test .*FAILED|^error" && { echo "TESTS FAIL"; [ -z "$FORCE" ] && exit 1; }
mkdir -p $D
cp /tmp/seed/$id.diff $D/patch.diff; cp /tmp/seed/$id.rs $D/demo.rs; cp /verif/tools/demo/demo.sh $D/demo.sh
bash $D/demo.sh > /tmp/seed/$id.bad 2>&1; b=$?
git checkout -q -- .
bash $D/demo.sh > /tmp/seed/$id.good 2>&1; g=$?
echo "$id: patched rc=$b clean rc=$g"
if [ $g -ne 0 ] || [ $b -eq 0 ] || [ $b -eq 9 ]; then tail -5 /tmp/seed/$id.bad /tmp/seed/$id.good; rm -rf $D; exit 1; fi
python3 - "$D" "$prop" "$NEEDS" "$BREAKS" <<'P'
import json,sys
json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P

#!/bin/bash
# seed.sh ID PROPERTY: makes /verif/seeded/ID from the changes in the scratch copy /tmp/sr
# (demo.rs in /tmp/demo.rs, texts in $NEEDS and $BREAKS), verifying everything there.
set -e
id=$1; prop=$2; dir=/verif/seeded/$id
[ -d /tmp/sr ] || cp -a /repo /tmp/sr
mkdir -p $dir
kit=/verif/tools/seedkit
cp $kit/util.rs $kit/demo.sh $dir/; cp /verif/harness/Cargo.lock $dir/; cp ${DEMO:-/tmp/demo.rs} $dir/demo.rs
git -C /tmp/sr diff > $dir/patch.diff
[ -s $dir/patch.diff ] || { echo "no change"; exit 1; }
python3 - "$dir" "$prop" <<'P'
import json,os,sys
json.dump({"property":sys.argv[2],"needs":os.environ.get("NEEDS",""),"what_it_breaks":os.environ.get("BREAKS","")},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cd /tmp/sr
if $dir/demo.sh >/tmp/seed.log 2>&1; then echo "BAD: demo passes with the change"; exit 1; fi
grep -q 'panicked\|error: process' /tmp/seed.log || { tail -20 /tmp/seed.log; echo "BAD: demo does not fail by assertion"; exit 1; }
grep -m2 -A2 panicked /tmp/seed.log || true
if [ -z "$SKIPTEST" ]; then
CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only timeout 800 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > /tmp/sr.test 2>&1 || { grep -E 'FAILED|failed|error' /tmp/sr.test | head; echo "BAD: tests fail"; exit 1; }
fi
git checkout -q -- .
$dir/demo.sh >/tmp/seed.log 2>&1 || { tail -20 /tmp/seed.log; echo "BAD: demo fails on the clean tree"; exit 1; }
echo "seed $id valid"
# now the check
cd /repo && git apply $dir/patch.diff
(cd /verif && ./check.sh $prop quick 2>&1 | cut -c1-400); rc=${PIPESTATUS[0]}
git -C /repo checkout -q -- .

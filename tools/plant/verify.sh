#!/bin/bash
# verify.sh ID: in a scratch copy, confirm that a planted bug counts (demo passes without it, builds, tests pass, demo fails with it).
ID=$1; S=/verif/seeded/$ID; C=/tmp/plantcopy
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
if [ ! -d $C ]; then mkdir $C && git -C /repo archive HEAD | tar x -C $C && (cd $C && git init -q && git add -A && git commit -qm x); cp -a /repo/target $C/ 2>/dev/null; fi
cd $C && git checkout -q -- . 
[ "$2" = nodemo ] || { bash $S/demo.sh >/tmp/plant.clean 2>&1; echo "demo clean: $?"; }
git apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash $S/demo.sh >/tmp/plant.bug 2>&1; echo "demo with bug: $? ($(tail -1 /tmp/plant.bug))"
cargo test --workspace --exclude dm-langserver --offline >/tmp/plant.test 2>&1; echo "tests: $?"; grep -E "FAILED|panicked|^error"  /tmp/plant.test | head -5
git checkout -q -- .
# the check
cd /repo && git apply $S/patch.diff && (cd /verif && P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"); ./check.sh $P 2>&1 | grep -E "VIOLATION|^ERROR|quick:" | head -4); git -C /repo checkout -q -- .

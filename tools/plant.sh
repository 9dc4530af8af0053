#!/bin/bash
# plant.sh ID: confirms a planted bug in a scratch copy of /repo: it applies, builds, passes the stable tests,
# and its demonstration passes without it and fails with it
set -u
ID=$1
D=/verif/seeded/$ID
W=/tmp/plant
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1
export PATH=/root/.cargo/bin:$PATH
mkdir -p $W
rsync -a --delete --exclude target --exclude .git /repo/ $W/repo/ 2>/dev/null || { rm -rf $W/repo; mkdir -p $W/repo; (cd /repo && tar c --exclude=./target --exclude=./.git .) | tar x -C $W/repo; }
cd $W/repo
rm -rf $W/demo; mkdir $W/demo
find $D -maxdepth 1 -type f ! -name '*.diff' ! -name '*.patch' ! -name meta.json -exec cp {} $W/demo/ \;
bash $W/demo/demo.sh > $W/demo0.log 2>&1; r=$?
[ $r = 0 ] || { echo "demo fails on the unchanged tree ($r)"; tail -5 $W/demo0.log; exit 1; }
git apply --unsafe-paths --directory=$W/repo $D/patch.diff 2>/dev/null || patch -p1 -s < $D/patch.diff || { echo "does not apply"; exit 1; }
find src -name '*.rs' -exec touch {} +
timeout 300 bash $W/demo/demo.sh > $W/demo1.log 2>&1; r=$?
[ $r != 0 ] || { echo "demo passes with the change"; exit 1; }
echo "demo with change: exit $r: $(tail -2 $W/demo1.log | tr '\n' ' ' | cut -c1-300)"
CARGO_TARGET_DIR=$W/target timeout 900 cargo nextest run --workspace --all-features --offline --no-fail-fast --test-threads 8 > $W/test.log 2>&1
grep -E "^\s+(FAIL|SIGABRT|TIMEOUT)" $W/test.log | sort -u
tail -3 $W/test.log | head -2
CARGO_TARGET_DIR=$W/target timeout 300 cargo test --doc --workspace --all-features --offline > $W/doc.log 2>&1 || echo "doc tests fail"

#!/bin/bash
# plant.sh ID [nocheck]: confirms seeded/ID in a scratch copy (builds, stable tests pass, demo separates),
# then applies it to /repo, runs its property's check, and undoes it
cd "$(dirname "$0")/.."; V=$PWD; id=$1; d=$V/seeded/$id; S=/tmp/repo_scratch
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
say() { echo "$id ($prop): $*"; }
if [ "$2" != checkonly ]; then
[ -d $S ] || cp -a /repo $S
( cd $S && git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git clean -fdqx -e target -e Cargo.lock ) || exit 2
mkdir -p /tmp/demo_$id && cp $d/* /tmp/demo_$id/ && rm -f /tmp/demo_$id/patch.diff /tmp/demo_$id/meta.json
( cd $S && bash /tmp/demo_$id/demo.sh > /tmp/demo_$id/out0 2>&1 ); r=$?
[ $r = 0 ] || { say "demo fails on the unchanged tree ($r)"; tail -5 /tmp/demo_$id/out0; exit 1; }
( cd $S && git apply $d/patch.diff ) || { say "patch does not apply"; exit 1; }
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true OPENBLAS_NUM_THREADS=1 CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
( cd $S && cargo test --workspace --features openblas-system,stats --no-fail-fast --offline -- --test-threads 8 > /tmp/demo_$id/test.log 2>&1 )
python3 /opt/vp/results.py /tmp/demo_$id/res.json cargo:/tmp/demo_$id/test.log > /dev/null
python3 tools/stable.py /tmp/demo_$id/res.json || { say "stable tests fail"; ( cd $S && git checkout -q . ); exit 1; }
( cd $S && bash /tmp/demo_$id/demo.sh > /tmp/demo_$id/out1 2>&1 ); r=$?
( cd $S && git checkout -q . )
[ $r != 0 ] || { say "demo passes with the patch"; exit 1; }
say "demo exit $r with the patch: $(tail -1 /tmp/demo_$id/out1 | cut -c1-150)"
rm -rf /tmp/demo_$id
fi
[ "$2" = nocheck ] && exit 0
git -C /repo diff --quiet || { say "/repo is dirty"; exit 2; }
git -C /repo apply $d/patch.diff || exit 2
VERIF_SEED=1 VERIF_TIER=quick ./check.sh $prop quick > work/plant-$id.log 2>&1; r=$?
git -C /repo checkout -q -- .
say "check exit $r"; grep -A1 VIOLATION work/plant-$id.log | grep session | head -3 | cut -c1-200; [ $r = 2 ] && tail -3 work/plant-$id.log
exit 0

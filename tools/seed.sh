#!/bin/bash
# tools/seed.sh ID [PROPERTY...]: validate one planted bug in a scratch copy of /repo and run checks against it
id=$1; shift; W=/tmp/seedwork; S=/verif/seeded/$id
if [ ! -d $W ] || [ "$(git -C $W rev-parse HEAD)" != "$(git -C /repo rev-parse HEAD)" ]; then
  rm -rf /tmp/seedwork; cp -a /repo $W; git -C $W checkout -q -- .; fi
cd $W && git checkout -q -- .
run() { mkdir -p /tmp/sd; rm -rf /tmp/sd/x; cp -a $S /tmp/sd/x; rm -f /tmp/sd/x/patch.diff /tmp/sd/x/meta.json; (cd $W; timeout 300 bash /tmp/sd/x/demo.sh >/tmp/sd/out 2>&1; echo $?); }
[ -n "$SKIPDEMO" ] || echo "demo unpatched: $(run) (want 0)"
git apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$SKIPDEMO" ]; then
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cargo test --workspace --offline > /tmp/sd/test 2>&1; echo "tests: $? $(grep -E '^test result' /tmp/sd/test | awk '{p+=$4;f+=$6} END {print p" passed "f" failed"}')"; grep -E "FAILED|^error" /tmp/sd/test | head
unset RUSTUP_TOOLCHAIN
echo "demo patched: $(run) (want non-0)"; tail -2 /tmp/sd/out
fi
for p in "$@"; do (cd /verif; AEGIR_REPO=$W python3 run.py $p quick | cut -c1-400 | head -4); done
git checkout -q -- .

#!/bin/bash
# dev: run1.sh <features> <only> 
F=$1; ONLY=$2
T=/tmp/w/t_$(echo $F|tr , _); mkdir -p $T
export ABSINT_FACTS=$T/facts ABSINT_OUT=$T/out.jsonl ABSINT_FEATURES=$F ABSINT_JOBS=${J:-1} ABSINT_ONLY=$ONLY
rm -f $T/out.jsonl*
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib RUSTC_WRAPPER=/verif/driver/target/release/colorz-absint
export RUSTFLAGS="--sysroot /root/.cache/miri -Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=on -Coverflow-checks=on"
cd /verif/harness; touch src/lib.rs
CARGO_TARGET_DIR=$T timeout ${TO:-100} cargo +nightly check --offline --no-default-features --features $F ${Q:+-q} 2>&1 | grep -A12 "^error\|panicked\|could not\|overflow" | tail -${L:-60}
python3 /verif/tools/show.py $T/out.jsonl

#!/bin/bash
# Build everything the checks need once; the checks rebuild whatever is stale or missing.
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS
(cd vx && cargo build --release --offline) || exit 1
(cd native && cargo build --offline --bins --target-dir target/dbg 2>&1 | tail -3) &
(cd native && cargo build --offline --bins --release --target-dir target/rel 2>&1 | tail -3) &
wait
python3 check.py --prepare || true
exit 0

#!/bin/bash
# check.sh <ID> [quick|thorough]: rebuilds the harness from /repo's working tree and runs one check.
# check.sh --build: builds only. check.sh --replay FILE: replays a counterexample.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD RUST_BACKTRACE=0
export CARGO_TARGET_DIR=$PWD/build/target RUSTFLAGS="--cfg monolith_verif -Awarnings" CARGO_NET_OFFLINE=true
mkdir -p build
(
    flock 9
    python3 tools/mirror.py >build/mirror.log 2>&1 || { cat build/mirror.log; exit 2; }
    cd engine/harness && cargo build --offline --locked --quiet -p harness -p monolith --lib --bins 2>../../build/build.log || { tail -40 ../../build/build.log; exit 2; }
) 9>build/lock || { echo "ENGINE ERROR: the harness does not build"; exit 2; }
# code under test that allocates without end is stopped before it takes the sandbox down
ulimit -v 24000000
case "$1" in
    --build) exit 0 ;;
    --replay) exec build/target/debug/harness replay "$2" ;;
    *) exec build/target/debug/harness check "$@" ;;
esac

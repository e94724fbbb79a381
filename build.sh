#!/bin/bash
# build.sh [ID|all]: builds the harness, and the worker configurations when C17 (or all) is asked for
set -eu
cd "$(dirname "$0")"
. ./env.sh
mkdir -p /verif/target
exec 9>/verif/target/.lock
flock 9
log=/verif/target/build.log
# cargo goes by mtime; forget what it knows of the crate under test so that any edit is seen
forget() {
    for d in "$1"/release/.fingerprint/sgp4-*; do
        [ -d "$d" ] && rm -rf "$d"
    done
    return 0
}
forget /verif/target/harness
cargo build --release --offline --manifest-path /verif/harness/Cargo.toml >"$log" 2>&1 || { cat "$log"; exit 1; }

worker() {
    forget "/verif/target/w-$1"
    cargo build --release --offline --manifest-path /verif/worker/Cargo.toml \
        --target-dir "/verif/target/w-$1" --features "$2" >"$log.$1" 2>&1 || { cat "$log.$1"; return 1; }
}
case "${1:-}" in
C17 | all)
    pids=()
    worker libm cfg-libm & pids+=($!)
    worker libm-alloc cfg-libm,cfg-alloc & pids+=($!)
    worker libm-serde cfg-libm,cfg-alloc,cfg-serde & pids+=($!)
    worker std cfg-std,cfg-alloc & pids+=($!)
    for p in "${pids[@]}"; do wait "$p" || exit 1; done
    ;;
esac

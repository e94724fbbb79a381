#!/bin/bash
# run.sh ID: rebuild the harness from /repo's working tree and run one check
set -u
cd "$(dirname "$0")"
. ./env.sh
./build.sh "${1:-}" || { echo "build failed"; exit 3; }
exec "$CARGO_TARGET_DIR/release/vh" check "$1"

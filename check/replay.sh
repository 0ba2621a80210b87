#!/bin/bash
# Runs a recorded input on /repo's code and on the reference copy; exit 1 if they differ.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
cd "$here/engine"
cargo build --offline --quiet --target-dir "$here/work/target-engine"
exec "$here/work/target-engine/debug/engine" --replay "$1"

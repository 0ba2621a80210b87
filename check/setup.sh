#!/bin/bash
# Builds the extractor and the search program so that the first check is not slowed down by it.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/work" "$here/evidence"
export CARGO_NET_OFFLINE=true
(cd "$here/tools/extract" && cargo build --offline --release --quiet --target-dir "$here/work/target-extract")
(cd "$here/engine" && cargo build --offline --quiet --target-dir "$here/work/target-engine")
(cd "$here/models" && cargo build --offline --quiet --target-dir "$here/work/target-models")
verus --version

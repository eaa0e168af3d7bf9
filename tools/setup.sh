#!/bin/bash
# builds the harness once; every check rebuilds what changed
cd "$(dirname "$0")/../harness" && mkdir -p ../target ../work && RUSTFLAGS="--cfg verif_hooks" CARGO_TARGET_DIR="$(cd .. && pwd)/target" cargo build --offline --release -q
verus --version >/dev/null
exit 0

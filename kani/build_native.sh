#!/bin/bash
# build_native.sh TARGET_DIR: the native replay binary
cd "$(dirname "$0")" && CARGO_NET_OFFLINE=true exec cargo +1.93.0 build --offline --release --target-dir "$1" --bin replay

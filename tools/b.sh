#!/bin/bash
# build one harness binary the way run.py does: tools/b.sh BIN FEATURE
cd "$(dirname "$0")/../harness"
export CARGO_TARGET_DIR=$PWD/../target CARGO_NET_OFFLINE=true LIBCLANG_PATH=/usr/lib/llvm-14/lib RUSTFLAGS="--force-warn unconditional_recursion --cap-lints warn"
cargo build --offline --bin $1 --features $2 --message-format short 2>&1 | grep -E "error(:|\[)|Finished" | head -${3:-40}

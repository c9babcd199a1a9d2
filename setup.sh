#!/bin/bash
# Builds the framework from the committed files (every check does it again by itself if needed).
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
mkdir -p "$here/build" "$here/evidence"
cargo build --locked --manifest-path "$here/harness/Cargo.toml" 2>&1 | tail -3

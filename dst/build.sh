#!/bin/bash
# Builds the simulator and the code under test from /repo's working tree.
cd "$(dirname "$0")" || exit 2
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh" RUSTFLAGS="-C relocation-model=static --cfg text_document_sim" CARGO_NET_OFFLINE=true
exec cargo build --offline --quiet --target x86_64-unknown-linux-gnu

#!/bin/bash
# Build the harness once, to see that everything needed is in place. Every check
# rebuilds from /repo's working tree by itself.
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
mkdir -p /verif/evidence
cd /verif/harness && exec cargo build --offline --locked

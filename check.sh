#!/bin/bash
# Run one property's check: build the harness against /repo's working tree, then
# let it observe the code. Usage: check.sh ID [options of the harness]
# Exit: 0 held, 1 violated (VIOLATION line), anything else: no answer.
cd /verif/harness || exit 3
mkdir -p /verif/evidence
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
dir=target/debug
opt=()
case "$1" in
C22)
    unset RUSTUP_TOOLCHAIN
    exec python3 /verif/tools/san.py "$@"
    ;;
C21)
    # Instrumented so that the code counts the edges it runs through
    export RUSTFLAGS="--cfg sancov -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
    dir=target/sancov/x86_64-unknown-linux-gnu/debug
    opt=(--target x86_64-unknown-linux-gnu --target-dir target/sancov)
    ;;
esac
# cargo compares only mtimes: have the crate under test rebuilt in any case
rm -rf /verif/harness/"$dir"/.fingerprint/firrtl-ast-*
if ! out=$(cargo build --offline --locked "${opt[@]}" 2>&1); then
    printf '%s\n' "$out" | tail -40 >&2
    echo "check.sh: build failed" >&2
    exit 3
fi
unset RUSTFLAGS
exec ./"$dir"/fv "$@"

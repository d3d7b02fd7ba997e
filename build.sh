#!/bin/bash
# Builds the simulator (AddressSanitizer and coverage instrumentation for every crate, the library
# under test included) into /verif/target. Offline; the crate under test is the path dependency
# ../../repo of sim/Cargo.toml.
cd "$(dirname "$0")" || exit 3
mkdir -p target evidence replays
here=$PWD
cd sim || exit 3
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR=$here/target
export RUSTFLAGS="-Zsanitizer=address -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores"
# several checks may start at once: one builds, the others wait
exec 9>"$here/target/.build-lock"
flock 9
exec cargo build --offline --target x86_64-unknown-linux-gnu 9>&-

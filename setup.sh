#!/bin/bash
# Builds every check against /repo's working tree and runs the self-test of the references.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
cd "$here/harness" || exit 1
RUSTFLAGS="--cfg husk_verif --cap-lints allow" CARGO_TARGET_DIR="$here/harness/target" cargo build --release --offline --quiet || exit 1
RUSTFLAGS="--cfg husk_verif --cap-lints allow" CARGO_TARGET_DIR="$here/harness/target" cargo build --profile dbg --offline --quiet --bin c20 || exit 1
exec "$here/harness/target/release/selftest"

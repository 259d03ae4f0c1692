#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it:
# exit 0 if it behaves as the property says.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh >/dev/null 2>&1
cd "$repo" || exit 2
t=$(mktemp -d /tmp/husk-demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f "$here/mini.rs" ] && cp "$here/mini.rs" "$t/src/mini.rs"
[ -f "$here/Cargo.lock" ] && cp "$here/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
husk = { path = "$repo" }
rand = { version = "0.8", features = ["getrandom"] }
num = "0.4"
[profile.dev]
opt-level = 2
T
[ -f "$here/no-assertions" ] && printf 'debug-assertions = false\noverflow-checks = false\n' >> "$t/Cargo.toml"
if [ -d "$here/getrandom-shim" ]; then
  cp -r "$here/getrandom-shim" "$t/"
  sed -i 's/^num = .*/&\ngetrandom = "0.2"/' "$t/Cargo.toml"
  printf '[patch.crates-io]\ngetrandom = { path = "getrandom-shim" }\n' >> "$t/Cargo.toml"
fi
cd "$t" || exit 2
RUSTFLAGS="--cap-lints allow" CARGO_TARGET_DIR="$t/target" cargo build --offline --quiet || exit 3
timeout 200 "$t/target/debug/demo"

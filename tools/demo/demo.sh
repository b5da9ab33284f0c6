#!/bin/bash
# Builds main.rs against /repo's current sources and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export PATH=$HOME/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2024-04-24 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUSTFLAGS=--cap-lints=warn
export CARGO_TARGET_DIR=$t/target
tar xJf "$here/deps.tar.xz" -C "$t" || exit 2
mkdir -p "$t/demo/src" "$t/demo/.cargo"
cp "$here"/*.rs "$t/demo/src/"
cat > "$t/demo/.cargo/config.toml" <<X
[source.crates-io]
replace-with = "vendored"
[source.vendored]
directory = "$t/vendor"
X
cp "$here/Cargo.toml.in" "$t/demo/Cargo.toml"
cd "$t/demo" && cargo run --offline --quiet

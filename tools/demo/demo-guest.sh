#!/bin/bash
# Builds guest.rs for the VM and main.rs for the host against /repo's current sources and runs the latter.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export PATH=$HOME/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2024-04-24 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUSTFLAGS=--cap-lints=warn
export CARGO_TARGET_DIR=$t/target
tar xJf "$here/deps.tar.xz" -C "$t" || exit 2
mkdir -p "$t/demo/src" "$t/.cargo"
mkdir -p "$t/guest/src"
cp "$here/main.rs" "$t/demo/src/"
cp "$here/guest.rs" "$t/guest/src/main.rs"
cp "$here/guest.toml.in" "$t/guest/Cargo.toml"
cat > "$t/.cargo/config.toml" <<X
[source.crates-io]
replace-with = "vendored"
[source.vendored]
directory = "$t/vendor"
X
cp "$here/Cargo.toml.in" "$t/demo/Cargo.toml"
(
    unset RUSTFLAGS
    cd "$t/guest" && RUST_TARGET_PATH=/repo/.cargo cargo build --offline --quiet --profile mozak-release --target riscv32im-mozak-mozakvm-elf \
        -Zbuild-std=alloc,core,compiler_builtins,std,panic_abort,proc_macro -Zbuild-std-features=compiler-builtins-mem \
        --config 'target.riscv32im-mozak-mozakvm-elf.rustflags=["-C","passes=loweratomic","-Zlocation-detail=none"]'
) || exit 3
export GUEST_ELF=$CARGO_TARGET_DIR/riscv32im-mozak-mozakvm-elf/mozak-release/guest
cd "$t/demo" && cargo run --offline --quiet

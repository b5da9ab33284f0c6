# Sourced: how the harness crates are built. Everything comes from /verif/vendor,
# /verif/shims and /repo's working tree; output goes to /verif/target.
export PATH=$HOME/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2024-04-24 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0 CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUSTFLAGS=--cap-lints=warn
export CARGO_TARGET_DIR=${VERIF_TARGET:-$here/target}

crate_of() {
    case $1 in
    C0[1-7]) echo runner ;;
    C08|C09|C10|C11) echo sdk ;;
    C1[2-5]) echo e2e ;;
    C16|C17|C21) echo circuits ;;
    C18|C19|C20) echo recproofs ;;
    *) return 1 ;;
    esac
}

# cargo decides by time stamps whether a file of /repo changed; a tree that was
# copied or checked out keeps old ones, so what matters is decided by content.
build() {
    local stamp=$CARGO_TARGET_DIR/repo.sum sum
    mkdir -p "$CARGO_TARGET_DIR"
    sum=$(cd /repo && find . -path ./.git -prune -o -name target -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.tt' \) -print0 |
        sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
        rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/mozak-*
        rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/h-*
        rm -rf "$CARGO_TARGET_DIR"/guest/riscv32im-mozak-mozakvm-elf/mozak-release/.fingerprint/{mozak-,guest-}*
        echo "$sum" > "$stamp"
    fi
    local log
    if [ "$1" = e2e ]; then
        log=$(build_guest 2>&1) || { echo "$log" | grep -A15 '^error' | head -60 >&2; return 1; }
        export GUEST_ELF=$CARGO_TARGET_DIR/guest/riscv32im-mozak-mozakvm-elf/mozak-release/guest
    fi
    log=$(cd "$here/h/$1" && cargo build --offline --quiet 2>&1) || { echo "$log" | grep -A15 '^error' | head -60 >&2; return 1; }
}

# The guest: /repo's SDK for the VM's target, with the standard library, the way
# /repo's examples are built.
build_guest() (
    unset RUSTFLAGS
    export RUST_TARGET_PATH=/repo/.cargo CARGO_TARGET_DIR=$CARGO_TARGET_DIR/guest
    cd "$here/guest" && cargo build --offline --quiet --profile mozak-release --target riscv32im-mozak-mozakvm-elf \
        -Zbuild-std=alloc,core,compiler_builtins,std,panic_abort,proc_macro -Zbuild-std-features=compiler-builtins-mem \
        --config 'target.riscv32im-mozak-mozakvm-elf.rustflags=["-C","passes=loweratomic","-Zlocation-detail=none"]'
)

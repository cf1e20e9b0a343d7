# Sourced with the working directory at /verif.
export VERIF_ROOT=$PWD
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup RUSTUP_TOOLCHAIN=stable
export PATH="/root/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export VP_TARGET=$PWD/build/target CARGO_TARGET_DIR=$PWD/build/target
mkdir -p build
build() { # CRATE
    (
        flock 9
        python3 tools/sync.py || exit 1
        log=build/$1.log
        if ! cargo build --offline --manifest-path "harness/$1/Cargo.toml" >"$log" 2>&1; then
            grep -E '^error' -A12 "$log" | head -60 >&2
            echo "ERROR: $1 does not build from /repo (see $log)" >&2
            exit 1
        fi
    ) 9>build/lock
}

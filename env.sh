# Sourced by check.sh and setup.sh.
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS
export RUSTFLAGS="--cfg rtps_verif --cap-lints allow"
export VERIF_DIR="$here"
export CARGO_TARGET_DIR="$here/harness/target"

build() {
    local what="--bin $1" log stamp now
    [ "$1" = --all ] && what="--bins"
    mkdir -p "$CARGO_TARGET_DIR"
    # Whether to rebuild must not depend on the times of copied files
    now="$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
    stamp="$CARGO_TARGET_DIR/source.sha256"
    log="$(mktemp)"
    (
        flock 9
        if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
            rm -f "$stamp"
            find "$CARGO_TARGET_DIR" -maxdepth 3 -path '*/.fingerprint/rtps-rs-*' -prune -exec rm -rf {} +
        fi
        cargo build --release --offline --manifest-path "$here/harness/Cargo.toml" $what >"$log" 2>&1 &&
            echo "$now" >"$stamp"
    ) 9>"$CARGO_TARGET_DIR/build.lock"
    local rc=$?
    if [ $rc -ne 0 ]; then
        cat "$log"
        echo "the check could not be built"
    fi
    rm -f "$log"
    return $rc
}

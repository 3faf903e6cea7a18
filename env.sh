# Sourced by setup.sh and check.sh.
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=nightly-2025-12-19
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
build() { # <crate>
  ( cd "$VERIF_DIR/$1" || exit 1
    export CARGO_TARGET_DIR="$VERIF_DIR/target/$1"
    log=$(mktemp)
    RUSTFLAGS="--cfg sr_verif --check-cfg cfg(sr_verif) -Awarnings" cargo build --offline >"$log" 2>&1
    rc=$?
    [ $rc -eq 0 ] || { echo "build of $1 failed"; tail -40 "$log"; }
    rm -f "$log"
    exit $rc )
}

#!/bin/bash
# check.sh <property id>        run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
# check.sh <property id> thorough
# check.sh --replay <file>      run one saved failing input again
# check.sh --build              only build
export PATH=/usr/local/bin:/usr/bin:/bin:${HOME:-/root}/.cargo/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
VERIF_ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT
build() { # crate directory
    (
        flock 9
        cd "$VERIF_ROOT/$1" || exit 2
        # cargo compares mtimes; a file restored with an old mtime would leave a stale build
        rm -rf "$VERIF_ROOT/$1"/target/release/.fingerprint/relaxng-* "$VERIF_ROOT/$1"/target/release/.fingerprint/rng-*
        cargo build --release --offline --locked -q 2>"$VERIF_ROOT/.run/build-$1.log"
    ) 9>"$VERIF_ROOT/.run/lock-$1"
    rc=$?
    if [ $rc -ne 0 ]; then
        echo "ERROR: the harness does not build against /repo"
        tail -40 "$VERIF_ROOT/.run/build-$1.log"
        exit 2
    fi
}
mkdir -p "$VERIF_ROOT/.run"
BIN="$VERIF_ROOT/harness/target/release/rngverif"
case "$1" in
--build)
    build harness
    [ -d "$VERIF_ROOT/harness-cli" ] && build harness-cli
    exit 0
    ;;
--replay)
    build harness
    [ -d "$VERIF_ROOT/harness-cli" ] && build harness-cli
    exec "$BIN" replay "$(realpath "$2")"
    ;;
esac
[ "$2" = thorough ] && export VERIF_TIER=thorough
[ "$2" = quick ] && export VERIF_TIER=quick
build harness
case "$1" in C18 | C20) build harness-cli ;; esac
exec "$BIN" check "$1"

#!/bin/bash
# check.sh ID quick|thorough        run one check
# check.sh ID replay FILE           run a recorded case again
# Builds what the check needs from /repo's working tree, offline.
set -u
ID=$1; shift
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export RUST_BACKTRACE=0
BIN=$(echo "$ID" | tr 'P' 'p')
FEATURES=
CRATE=mc
FLAGS="-Awarnings"
case $ID in
  P02) FEATURES="--features validate" ;;
  P18) FEATURES="--features serde" ;;
  P12) CRATE=conc ;;
esac
TARGET=$VERIF_DIR/target/$CRATE
[ -n "$FEATURES" ] && TARGET=$TARGET-${FEATURES#--features }
cd "$VERIF_DIR/$CRATE" || exit 3
# checks that (also) run without debug assertions: where refusals or later panics are expected, an
# internal assertion could stand in for what users of a release build get
PLAIN=
case $ID in
  P03|P04|P17) PLAIN=$TARGET ;;
# where something is dropped, this is also done in the other way that the library can be built
  P13|P14|P16) PLAIN=$TARGET-nightly ;;
esac
[ -n "$PLAIN" ] && export MC_ALT=$PLAIN/plain/$BIN
LOG=$(mktemp)
build() {
  if ! RUSTFLAGS=$FLAGS CARGO_TARGET_DIR=$1 cargo build --profile $2 --offline --locked $FEATURES --bin "$BIN" >"$LOG" 2>&1; then
    tail -60 "$LOG" >&2; rm -f "$LOG"
    echo "error: the check for $ID does not build against /repo" >&2
    exit 3
  fi
}
build "$TARGET" release
case $PLAIN in
  "") ;;
  *-nightly) (export RUSTC_BOOTSTRAP=1; FEATURES="--features nightly"; build "$PLAIN" plain) || exit 3 ;;
  *) build "$PLAIN" plain ;;
esac
# P23 gives programs to the compiler, which need the library built by both toolchains
if [ "$ID" = P23 ]; then
  export LIFE_LIBS=$VERIF_DIR/target/life
  for T in stable nightly; do
    mkdir -p "$LIFE_LIBS/$T"
    CFG=(); [ $T = nightly ] && CFG=(--cfg 'feature="nightly"')
    if ! RUSTUP_TOOLCHAIN=$T-x86_64-unknown-linux-gnu rustc --edition 2021 --crate-type rlib --crate-name sherman -Awarnings \
        -Copt-level=1 -Cdebug-assertions=on "${CFG[@]}" -o "$LIFE_LIBS/$T/libsherman.rlib" /repo/src/lib.rs >"$LOG" 2>&1; then
      tail -60 "$LOG" >&2; rm -f "$LOG"
      echo "error: the check for $ID does not build against /repo ($T)" >&2
      exit 3
    fi
  done
fi
# P24 has a program interpreted, with both of the crate's ways to be dropped
if [ "$ID" = P24 ]; then
  for F in "" nightly; do
    if ! env -u RUSTUP_TOOLCHAIN RUSTFLAGS=-Awarnings MIRIFLAGS=-Zmiri-ignore-leaks cargo +nightly miri run -q --offline --locked \
        --manifest-path "$VERIF_DIR/miri/Cargo.toml" --target-dir "$VERIF_DIR/target/miri$F" --features "$F" -- plain 1 w "" >"$LOG" 2>&1; then
      if ! grep -q 'Undefined Behavior' "$LOG"; then
        tail -60 "$LOG" >&2; rm -f "$LOG"
        echo "error: the check for $ID does not build against /repo" >&2
        exit 3
      fi
    fi
  done
fi
rm -f "$LOG"
[ "${1:-}" = build ] && exit 0
exec "$TARGET/release/$BIN" "$@"

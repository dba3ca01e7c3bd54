#!/bin/bash
# usage: run.sh ID | run.sh replay FILE | run.sh build
# Builds the harness against the working tree of /repo and runs the check of one property.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$here/target VERIF_ROOT=$here
unset RUSTFLAGS
export RUST_BACKTRACE=0
log=$(mktemp)
quiet_build() {
  cargo build --offline "$@" >"$log" 2>&1
}
complain() {
  grep -E '^error|^ *-->' -A5 "$log" | head -40 >&2
  tail -5 "$log" >&2
  rm -f "$log"
  echo "error: the harness does not build" >&2
  exit 2
}
what=$1
[ "$1" = replay ] && what=$(sed -n 's/^property=//p' "$2" | head -1)
bin=harness
if [ "$what" = C21 ] || [ "$what" = build ]; then
  # The program rtf, with its real dependencies and inside the harness with stand-ins for the terminal.
  quiet_build --manifest-path "$here/harness/stub/rtfreal/Cargo.toml" || complain
  # If it does not fit the stand-ins any more, it is checked from outside only.
  quiet_build --manifest-path "$here/harness/Cargo.toml" --features rtf --bin harness-rtf && bin=harness-rtf
fi
if [ "$bin" = harness ] || [ "$what" = build ]; then
  quiet_build --manifest-path "$here/harness/Cargo.toml" --bin harness || complain
fi
rm -f "$log"
case "$1" in
  build) exit 0 ;;
  replay) exec "$here/target/debug/$bin" replay "$2" ;;
  *) exec "$here/target/debug/$bin" check "$1" ;;
esac

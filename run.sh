#!/bin/bash
# run.sh <crate> <bin> [args...]: builds one check against /repo's current working tree and runs it.
# Exit code: 0 property held, 1 violation (VIOLATION line), 2 the check could not be built.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
crate="$1"; bin="$2"; shift 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-1.72.1}" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
export CARGO_TARGET_DIR="${VERIF_TARGET:-$here/target}/$crate"
export VERIF_ROOT="${VERIF_ROOT:-$here}"
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence"
[ -x "$here/$crate/prepare.sh" ] && { "$here/$crate/prepare.sh" || exit 2; }
log="$CARGO_TARGET_DIR/build-$bin.log"
if ! (cd "$here/$crate" && cargo build --offline --locked --bin "$bin") >"$log" 2>&1; then
  tail -40 "$log" >&2
  echo "BUILD-FAILED property check $bin did not build" >&2
  exit 2
fi
exec "$CARGO_TARGET_DIR/debug/$bin" "$@"

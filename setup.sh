#!/bin/bash
# Pre-builds every check; the checks build again on their own (incrementally) when they run.
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-1.72.1}" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
mkdir -p evidence replays
for c in harness warden client compiler macros; do
  [ -d "$c" ] || continue
  [ -x "$c/prepare.sh" ] && { "$c/prepare.sh" || exit 1; }
  CARGO_TARGET_DIR="${VERIF_TARGET:-$PWD/target}/$c" bash -c "cd $c && cargo build --offline --locked --bins" || exit 1
done

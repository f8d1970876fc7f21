#!/bin/bash
# Exit 0: the property holds; nonzero: it does not. Builds main.rs against /repo in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-1.72.1}" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
d="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$d"' EXIT
tar xzf "$here/kit.tgz" -C "$d" || exit 9
cp "$here/main.rs" "$d/harness/src/main.rs"
export CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}"
cd "$d/harness" || exit 9
if [ -f prepare.sh ]; then bash ./prepare.sh || exit 9; fi
if ! cargo build --offline --locked --bin demo >"$d/log" 2>&1; then tail -40 "$d/log"; echo "the demonstration does not build"; exit 8; fi
"$CARGO_TARGET_DIR/debug/demo"

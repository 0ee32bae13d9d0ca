#!/bin/bash
# check.sh <property> [quick|thorough] [case]  -- rebuilds from /repo's working tree, then explores.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export HOME=/root RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_HUSKY_DONT_INSTALL_HOOKS=1 RUSTFLAGS="-Awarnings"
here=$(cd "$(dirname "$0")" && pwd)
export VP_ROOT="$here" CARGO_TARGET_DIR="$here/target"
[ -n "$2" ] && export VERIF_TIER="$2"
[ -z "$VERIF_TIER" ] && export VERIF_TIER=quick
cd "$here/harness" || exit 2
mkdir -p "$here/work"
if ! cargo build --offline --locked -q > "$here/work/build.log" 2>&1; then
  grep -E '^error' -A 8 "$here/work/build.log" | head -60
  echo "check: build failed"
  exit 2
fi
[ "$1" = "--build-only" ] && exit 0
exec "$CARGO_TARGET_DIR/debug/vp" check "$1" ${3:+"$3"}

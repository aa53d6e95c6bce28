#!/bin/bash
# build everything (shim, simulator, the tool from /repo's working tree) and run one check
#   check.sh <property> [options]    check.sh replay <file>   check.sh build
set -e
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${HSIM_REPO:-/repo}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
B="${HSIM_BUILD:-$V/.build}"
mkdir -p "$B"
exec 9>"$B/lock"; flock 9
if [ ! -f "$B/hsim.so" ] || [ "$V/shim/hsim.c" -nt "$B/hsim.so" ]; then
  gcc -O2 -w -fPIC -shared -o "$B/hsim.so.tmp" "$V/shim/hsim.c" -ldl && mv "$B/hsim.so.tmp" "$B/hsim.so"
fi
mkdir -p "$B/dots"; if [ ! -f "$B/dots/dot" ] || [ "$V/shim/dot.c" -nt "$B/dots/dot" ]; then gcc -O2 -static -o "$B/dots/dot" "$V/shim/dot.c"; fi
( cd "$V/sim" && cargo build --release --offline -q --target-dir "$B/sim" ) || { echo "hsim: cannot build the simulator" >&2; exit 3; }
# the tool, with debug assertions and overflow checks (dev profile), optimised enough to be fast
LOCK=0
if [ ! -f "$REPO/Cargo.lock" ] && [ -f /opt/vp/Cargo.lock ]; then cp /opt/vp/Cargo.lock "$REPO/Cargo.lock"; LOCK=1; fi
( cd "$REPO" && CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_INCREMENTAL=0 \
  cargo build --offline -q --target-dir "$B/tool" >"$B/tool.log" 2>&1 ) || { tail -30 "$B/tool.log" >&2; echo "hsim: cannot build the tool" >&2; exit 3; }
[ "$LOCK" = 1 ] && rm -f "$REPO/Cargo.lock"
cp -f "$B/tool/debug/hibou_label" "$B/hibou_label.$$"
flock -u 9
export HSIM_VERIF="$V" HSIM_BIN="$B/hibou_label.$$" HSIM_SHIM="$B/hsim.so" HSIM_DOTS="$B/dots"
trap 'rm -f "$B/hibou_label.$$"' EXIT
set +e
case "$1" in
  build) exit 0;;
  replay) "$B/sim/release/hsim" replay "$2";;
  selftest) "$B/sim/release/hsim" "$@";;
  *) "$B/sim/release/hsim" check "$@";;
esac
exit $?

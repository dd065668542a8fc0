#!/bin/bash
# dump.sh --driver                    : build the MIR driver
# dump.sh CONFIG OUT.json [HARNESS.rs] : dump the MIR of /repo's current tree (CONFIG: u64|u32, optionally -release or -min)
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
CFG=$1; OUT=$2; HARN=${3:-$HERE/harness/src/lib.rs}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
command -v cargo >/dev/null || export PATH="/root/.cargo/bin:$PATH"
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR RUSTUP_TOOLCHAIN
SYS=$(rustc +nightly --print sysroot)
DT=${MIRDUMP_TARGET:-$HERE/.build/driver}
mkdir -p "$DT"
if [ "$CFG" = --driver ] || [ ! -x "$DT/debug/mirdump" ]; then
  ( flock 9; CARGO_TARGET_DIR=$DT cargo +nightly build --offline -q --manifest-path "$HERE/driver/Cargo.toml" ) 9>"$DT.lock"
fi
[ "$CFG" = --driver ] && exit 0
W=$(mktemp -d "${TMPDIR:-/tmp}/mirdump.XXXXXX")
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/h/src"; cp "$HARN" "$W/h/src/lib.rs"
sed 's#\.\./src/lib.rs#src/lib.rs#' "$HERE/harness/${CFG%%-*}/Cargo.toml" > "$W/h/Cargo.toml"
[ -n "$REPO" ] && sed -i "s#\"/repo\"#\"$REPO\"#" "$W/h/Cargo.toml"
DBG=on
case $CFG in
  *-release) DBG=off ;;
  *-min) sed -i -e 's#^default = \["rand", "zeroize"\]#default = []#' -e 's#, "rand", "zeroize"\] }#] }#' -e 's#, features = \["rand", "zeroize"\] }# }#' "$W/h/Cargo.toml" ;;
esac
cp "$HERE/harness/Cargo.lock" "$W/h/Cargo.lock"
cd "$W/h"
LD_LIBRARY_PATH=$SYS/lib RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings -Cdebug-assertions=$DBG -Coverflow-checks=$DBG" \
  RUSTC_WORKSPACE_WRAPPER=$DT/debug/mirdump MIRDUMP_OUT="$OUT" CARGO_TARGET_DIR=$W/t \
  cargo +nightly check --offline -q
[ -s "$OUT" ]

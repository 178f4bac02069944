#!/bin/bash
# build_mir.sh OUTDIR : dumps the monomorphic MIR of /repo's current working tree to OUTDIR/mir.json
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$1"; out=$(cd "$1" && pwd)
sys=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$sys/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}
(cd "$here/driver" && LD_LIBRARY_PATH= cargo +nightly build --offline -q 1>&2)
export MIRX_OUT=$out/mir.json MIRX_INLINE=$here/inline.txt MIRX_RUSTC=$sys/bin/rustc
rm -f "$out/mir.json"
td=$(mktemp -d "$out/target.XXXXXX")
trap 'rm -rf "$td"' EXIT
cp -r "$here/roots" "$td/roots"
cd "$td/roots"
[ -n "$MIRX_REPO" ] && sed -i "s#path=\"/repo\"#path=\"$MIRX_REPO\"#" Cargo.toml
RUSTC_WRAPPER=$here/driver/target/debug/mirx CARGO_TARGET_DIR=$td/t \
 RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off --cap-lints allow" \
 CARGO_INCREMENTAL=0 cargo +nightly check --offline -q 1>&2
test -s "$out/mir.json"

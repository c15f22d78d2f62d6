#!/bin/bash
# Build the MIR dumper (from /verif/driver) into /verif/.build and, with a directory argument, dump the
# MIR of /repo's current working tree into it.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=
unset RUSTUP_TOOLCHAIN
B=${VBUILD:-$V/.build}
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
if ! [ -x "$B/drv/debug/mirdump" ] || [ "$V/driver/src/main.rs" -nt "$B/drv/debug/mirdump" ]; then
    (cd "$V/driver" && CARGO_TARGET_DIR=$B/drv cargo +nightly build --offline) > "$B/driver.log" 2>&1 || { tail -20 "$B/driver.log"; exit 2; }
fi
[ $# -ge 1 ] || exit 0
OUT=$1
mkdir -p "$OUT"
rm -f "$OUT"/*.json
export MIRDUMP_OUT=$OUT MIRDUMP_CRATES=${DUMP_CRATES:-presale}
export MIRDUMP_STOP=$'core::fmt\nstd::fmt\nalloc::fmt\ncore::panicking\nstd::io\n*as std::fmt::\n*as core::fmt::\nstd::panicking\npresale::__client_accounts\npresale::__cpi_client'
ROOTS=presale::__private::__global$'\n'presale::math::$'\n'presale::presale_mode_handler::fixed_price_presale::
for t in u8 u16 u32 u64 u128 usize i32 i64 i128; do ROOTS=$ROOTS$'\n'"$t as presale::math::"; done
export MIRDUMP_ROOTS=${DUMP_ROOTS:-$ROOTS}
# the wrapped crates are always compiled afresh: forget their fingerprints
rm -rf "$B"/tgt/debug/build/presale "$B"/tgt/debug/build/merkle-tree "$B"/tgt/debug/build/merkle_tree "$B"/tgt/debug/.fingerprint/presale-* "$B"/tgt/debug/.fingerprint/merkle-tree-*
cd ${DUMP_REPO:-/repo} || exit 2
CARGO_TARGET_DIR=$B/tgt CARGO_INCREMENTAL=0 RUSTC_WORKSPACE_WRAPPER=$B/drv/debug/mirdump \
    RUSTFLAGS="-Zmir-opt-level=0 -Zalways-encode-mir -Cdebug-assertions=off -Coverflow-checks=on" \
    LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib \
    cargo +nightly check -p ${DUMP_PKG:-presale} --lib --locked --offline > "$B/dump.log" 2>&1 || { grep -A8 '^error' "$B/dump.log" | head -40; exit 2; }
[ -s "$OUT/${DUMP_FILE:-presale.json}" ] || { tail -5 "$B/dump.log"; exit 2; }

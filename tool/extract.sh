#!/bin/bash
# usage: extract.sh FACTS_DIR TARGET_DIR DRIVER_TARGET [repo]
# Builds the driver (if it is not built) and writes <crate>.json facts for the crates of the repo.
set -eu
FACTS=$1; TGT=$2; DRV=$3; REPO=${4:-/repo}
HERE=$(cd "$(dirname "$0")/.." && pwd)
SYSROOT=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYSROOT/lib
mkdir -p "$FACTS" "$TGT" "$DRV"
if [ ! -x "$DRV/debug/twfacts" ] || [ "$HERE/driver/src/main.rs" -nt "$DRV/debug/twfacts" ]; then
  ( cd "$HERE/driver" && CARGO_TARGET_DIR=$DRV cargo +nightly build --offline -q )
fi
cd "$REPO"
export RUSTC_WORKSPACE_WRAPPER=$DRV/debug/twfacts TWFACTS_DIR=$FACTS TWFACTS_CRATES=tinywasm_types,tinywasm_parser,tinywasm,tinywasm_cli
export CARGO_TARGET_DIR=$TGT RUSTFLAGS="-Zmir-opt-level=0 -Zalways-encode-mir -Zinline-mir=no -Cdebug-assertions=off -Coverflow-checks=on -Zub-checks=no" CARGO_INCREMENTAL=0
if [ "${5:-}" = stub ]; then
  # the stub crate instantiates the generic interface; all crates of the repo are seen through it
  mkdir -p "$TGT/stub"
  cp -r "$HERE/tool/stub/src" "$TGT/stub/"
  sed "s#/repo/#$REPO/#" "$HERE/tool/stub/Cargo.toml" > "$TGT/stub/Cargo.toml"
  cd "$TGT/stub"
  unset RUSTC_WORKSPACE_WRAPPER
  export RUSTC_WRAPPER=$DRV/debug/twfacts TWFACTS_CRATES=tinywasm_types,tinywasm_parser,tinywasm,twstub
  exec cargo +nightly check --offline -q
fi
exec cargo +nightly check --offline -q "${@:5}"

#!/bin/bash
# Builds the MIR dump of the current /repo tree into $1 (a fresh directory).
# Usage: mkdump.sh <outdir> [repo]
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"
out="$1"; repo="${2:-/repo}"
mkdir -p "$out"
out="$(cd "$out" && pwd)"
rm -rf "$out/target" "$out/dump"
mkdir -p "$out/dump"
export LD_LIBRARY_PATH="$(rustc +nightly --print sysroot)/lib"
MIRDUMP_OUT="$out/dump" \
RUSTC_WORKSPACE_WRAPPER="$here/.build/driver/release/mirdump" \
CARGO_TARGET_DIR="$out/target" \
RUSTFLAGS="-C debug-assertions=off -C overflow-checks=off" \
CARGO_NET_OFFLINE=true \
cargo +nightly check --offline --locked --manifest-path "$repo/Cargo.toml" --workspace >"$out/log" 2>&1 || { cat "$out/log" >&2; exit 3; }

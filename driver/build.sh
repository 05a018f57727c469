#!/bin/bash
# usage: build.sh OUTDIR  -- builds the analyser with the nightly compiler's own libraries
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$1"; mkdir -p "$out"
rustc +nightly --edition 2021 -C opt-level=2 -C debuginfo=0 -A warnings "$here/src/main.rs" -C codegen-units=64 -o "$out/t2danalyse"

#!/bin/bash
# Warm-up: build every harness crate once (each check rebuilds what it needs anyway).
cd "$(dirname "$0")" || exit 1
export VERIF_DIR="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
for f in engine/Cargo.toml harness/*/Cargo.toml; do
  [ -e "$f" ] || { echo "missing $f"; exit 1; }
done
( cd harness/net && cargo build --quiet --features all ) || exit 1
( cd harness/id && cargo build --quiet ) || exit 1
( cd harness/num && cargo build --quiet --features boolean ) || exit 1
( cd harness/base && cargo build --quiet ) || exit 1
( cd harness/text && cargo build --quiet --features utf8,length ) || exit 1

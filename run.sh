#!/bin/bash
# run.sh <PROPERTY> [--thorough]: build the harness crate of a property from /repo's working tree and run its check.
# exit 0: held on everything explored; 1: VIOLATION line; anything else: no verdict.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER
id="$1" feat=
case "$id" in
  C01) crate=net feat=domain ;;
  C02) crate=net feat=host ;;
  C03) crate=net feat=ip ;;
  C04) crate=net feat=domain,host,ip ;;
  C05|C06) crate=net feat=email ;;
  C07) crate=net feat=url ;;
  C24|C29) crate=net feat=all ;;
  C08|C09) crate=base feat= ;;
  C10|C11) crate=text feat=utf8 ;;
  C12) crate=text feat=length ;;
  C13|C14) crate=id feat= ;;
  C15) crate=num feat=number ;;
  C16) crate=num feat=int ;;
  C17) crate=num feat=boolean ;;
  C18) crate=num feat=size ;;
  C26) crate=ext feat=deleg ;;
  C19) crate=agree feat= ;;
  C20) crate=agree feat=serde ;;
  C21) crate=agree feat=wrap ;;
  C22) crate=agree feat=rocket ;;
  C23) crate=agree feat=axum ;;
  C27) crate=ext feat=phone ;;
  C25|C28|C30) crate=programs feat= ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
# C18 twice: the byte-unit-u128 feature changes what a size is
if [ "$id" = C18 ] && [ -z "$MC_PART" ] && [ -z "$MC_WITH" ]; then
  part=$(mktemp) || exit 2
  MC_PART="$part" MC_PART_NAME="with byte-unit-u128" ./run.sh "$@"; rc=$?
  if [ $rc = 0 ]; then MC_WITH="$part" ./run.sh "$@"; rc=$?; fi
  rm -f "$part"
  exit $rc
fi
[ "$id" = C18 ] && [ -n "$MC_PART" ] && feat=wide
log=$(mktemp) || exit 2
if ! ( cd "harness/$crate" && cargo build --quiet ${feat:+--features "$feat"} ) 2>"$log"; then
  cat "$log" >&2
  # The crates under test build and a program written against their documented use does not: one of the
  # validators the property ranges over is refused by the derive. Anything else is no verdict.
  if grep -q "^error: could not compile \`$crate\` (bin" "$log" && grep -qE '^error(\[E[0-9]+\])?: ' "$log" &&
     ! grep -qiE 'signal: |no space left|linking with|cannot allocate|out of memory' "$log"; then
    mkdir -p replays && cp "$log" "replays/$id-build.txt"
    grep -E -A4 '^error' "$log" | head -40
    echo "VIOLATION property=$id replay=$PWD/replays/$id-build.txt"
    rm -f "$log"
    exit 1
  fi
  rm -f "$log"
  echo "BUILD FAILED: harness/$crate" >&2
  exit 2
fi
rm -f "$log"
exec "target/debug/$crate" "$@"

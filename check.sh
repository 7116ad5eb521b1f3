#!/bin/bash
# check.sh ID: builds from /repo's working tree and decides property ID (VERIF_SEED, VERIF_TIER)
cd "$(dirname "$0")" || exit 2
case "$1" in
C26|C27|C28) bin=vlib; what="--bin vlib" ;;
C32) bin=vread; what="--bin vread" ;;
*) bin=vh; what="--bin vh --bin dinero" ;;
esac
log=$(mktemp) || exit 2
./build.sh $what >"$log" 2>&1 || { cat "$log"; rm -f "$log"; echo "the build failed"; exit 2; }
rm -f "$log"
exec ./target/release/$bin check "$1"

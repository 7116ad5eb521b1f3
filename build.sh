#!/bin/bash
# Builds the checks and the program from /repo's working tree
. /opt/vp/env.sh
cd /verif/harness || exit 2
export CARGO_TARGET_DIR=/verif/target
export RUSTFLAGS=-Awarnings
mkdir -p "$CARGO_TARGET_DIR/release" || exit 2
lib=$CARGO_TARGET_DIR/release/libfault.so
if [ ! "$lib" -nt fault.c ]; then
    cc -shared -fPIC -O1 -o "$lib.$$" fault.c && mv "$lib.$$" "$lib" || exit 2
fi
exec cargo build --release --offline --quiet "$@"

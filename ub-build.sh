#!/bin/bash
# Builds the generator for Miri and with AddressSanitizer, from /repo's working tree.
set -eu
cd /verif/miri
. /verif/env.sh
. /verif/miri-env.sh
if [ ! -e "$MIRI_SYSROOT/lib" ]; then
  (unset MIRI_SYSROOT; rm -rf /verif/target/xdg; XDG_CACHE_HOME=/verif/target/xdg CARGO_TARGET_DIR=/verif/target/miri-build cargo miri setup)
  mkdir -p "$MIRI_SYSROOT"
  cp -a /verif/target/xdg/miri/. "$MIRI_SYSROOT/"
  rm -rf /verif/target/xdg
fi
CARGO_TARGET_DIR=/verif/target/miri-build cargo miri run -q --offline --locked </dev/null
RUSTFLAGS="-Awarnings -Zsanitizer=address" CARGO_TARGET_DIR=/verif/target/asan-build \
  cargo build --offline --locked --profile asan --target x86_64-unknown-linux-gnu

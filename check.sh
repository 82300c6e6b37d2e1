#!/bin/bash
# check.sh <property>: builds the monitors from /repo's working tree and runs one check.
set -u
cd /verif || exit 70
. /verif/env.sh
prop="$1"
log="/verif/work/build-$prop.log"
mkdir -p /verif/work
case "$prop" in
  C01|C04) bin=mon_lexer ;;
  *) bin=mon ;;
esac
cli=
case "$prop" in
  C19|C21|C22|C28) cli=1 ;;
esac
if ! cargo build --offline --locked --manifest-path /verif/harness/Cargo.toml --bin "$bin" >"$log" 2>&1; then
  tail -n 40 "$log"
  echo "the monitors do not build against /repo"
  exit 70
fi
if [ -n "$cli" ]; then
  if ! cargo build --offline --locked --manifest-path /repo/Cargo.toml -p lapex-cli >>"$log" 2>&1; then
    tail -n 40 "$log"
    echo "the command line program does not build"
    exit 70
  fi
fi
if [ "$prop" = C21 ]; then
  # the generators with writers of our own: part of the check where their interfaces fit
  unset LAPEXMON_WRITERS
  if cargo build --offline --locked --manifest-path /verif/harness/Cargo.toml --bin mon_write >>"$log" 2>&1; then
    export LAPEXMON_WRITERS=1
  fi
fi
if [ "$prop" = C27 ]; then
  if ! bash /verif/ub-build.sh >>"$log" 2>&1; then
    tail -n 40 "$log"
    echo "the generator does not build for Miri or AddressSanitizer"
    exit 70
  fi
  export MIRI_SYSROOT=/verif/target/miri-sysroot
fi
exec /verif/target/debug/"$bin" "$prop"

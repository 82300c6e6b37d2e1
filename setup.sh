#!/bin/bash
# Builds the monitors and the command line program once; the checks rebuild what changed.
set -eu
cd /verif
. /verif/env.sh
mkdir -p /verif/work /verif/evidence
cargo build --offline --locked --manifest-path /verif/harness/Cargo.toml --bins
cargo build --offline --locked --manifest-path /repo/Cargo.toml -p lapex-cli
bash /verif/ub-build.sh

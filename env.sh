# Environment of every build and run of the checks; sourced.
export PATH="/usr/local/bin:/root/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=/verif/target
export CARGO_INCREMENTAL=1
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
export RUSTFLAGS="-Awarnings"
export VERIF_SEED="${VERIF_SEED:-1}"
export VERIF_TIER="${VERIF_TIER:-quick}"
unset LAPEXMON_WORKER LAPEXMON_ONLY LAPEXMON_WORK

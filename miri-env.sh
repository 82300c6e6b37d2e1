# Environment of builds with Miri and AddressSanitizer; sourced after env.sh.
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export MIRI_SYSROOT=/verif/target/miri-sysroot
unset RUSTC_WRAPPER
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks"

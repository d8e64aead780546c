# Sourced by the runner: the toolchain the repository itself is built with, offline, own target dir.
export HOME="${HOME:-/root}"
# the same however often this is sourced: build scripts rerun when it changes
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$HOME/.cargo/bin
export RUSTUP_TOOLCHAIN=1.84-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/target
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG VIRTUAL_ENV PYO3_PYTHON PYTHONPATH RUSTFLAGS

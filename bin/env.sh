# Sourced by every check: pins the offline toolchain.
export HOME=/root
export PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$HOME/.cargo/bin"
export RUSTUP_TOOLCHAIN=nightly-2025-12-04
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS LD_LIBRARY_PATH
VERIF_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export CARGO_TARGET_DIR="$VERIF_ROOT/build/target"

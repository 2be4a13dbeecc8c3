# Sourced by the scripts of /verif: an offline cargo with the toolchain the repository is built with.
for d in /usr/local/cargo/bin "${HOME:-/root}/.cargo/bin"; do
    [ -d "$d" ] && PATH="$d:$PATH"
done
export PATH
export RUSTUP_TOOLCHAIN=1.90.0
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/target
unset RUSTFLAGS CARGO_INCREMENTAL CARGO_ENCODED_RUSTFLAGS

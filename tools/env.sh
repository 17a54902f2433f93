# toolchain of the repository (see /opt/vp/env.sh): rustc 1.69.0 driven by cargo 1.70.0
T=/root/.rustup/toolchains
export HOME=/root PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.70.0
export CARGO=$T/1.70.0-x86_64-unknown-linux-gnu/bin/cargo
export RUSTC=$T/1.69.0-x86_64-unknown-linux-gnu/bin/rustc
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS
# the current compiler instead
use_current() { export RUSTUP_TOOLCHAIN=stable CARGO=$T/stable-x86_64-unknown-linux-gnu/bin/cargo RUSTC=$T/stable-x86_64-unknown-linux-gnu/bin/rustc; }

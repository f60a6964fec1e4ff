export RUSTUP_TOOLCHAIN=1.70.0 RUSTC=/root/.rustup/toolchains/1.69.0-x86_64-unknown-linux-gnu/bin/rustc RUSTC_WRAPPER= CARGO_NET_OFFLINE=true

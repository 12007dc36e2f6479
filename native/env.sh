export HOME=/root RUSTFLAGS="--cfg vortex_verif" PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2024-09-04 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR=/verif/build/native

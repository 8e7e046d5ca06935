cd /verif/harness && RUSTFLAGS="--cap-lints allow" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target cargo build 2>&1 | grep -E "^error" -A9 | head -${1:-60}

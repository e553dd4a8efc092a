#!/bin/bash
# Demonstration: builds main.rs (beside this file) against the library in the current directory and runs it.
# Exit 0: the behaviour holds. Anything else: it does not.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
id=@ID@
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.99.1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
work=$repo/target/demo/$id
mkdir -p "$work/src" || exit 2
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo-$id"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
cosmian_abe_gpsw = { path = "$repo", features = [@FEATURES@] }
@DEPS@
T
cd "$work" || exit 2
CARGO_TARGET_DIR=$repo/target/demo/build cargo build -q --offline 2> build.log || { tail -n 30 build.log; exit 3; }
timeout 200 "$repo/target/demo/build/debug/demo-$id"
rc=$?
echo "demo $id: exit $rc"
exit $rc

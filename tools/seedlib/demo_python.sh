#!/bin/bash
# Demonstration: builds the Python module from the current directory and runs demo.py (beside this file) with it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
id=@ID@
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.99.1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
work=$repo/target/demo/$id
mkdir -p "$work" || exit 2
[ -f Cargo.lock ] || cp /opt/vp/Cargo.lock Cargo.lock
cargo build -q --lib --features python --offline --target-dir "$repo/target/demo/py" 2> "$work/build.log" || { tail -n 30 "$work/build.log"; exit 3; }
cp "$repo/target/demo/py/debug/libcosmian_abe_gpsw.so" "$work/cosmian_abe_gpsw.so"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$work" timeout 200 python3 "$here/demo.py"
rc=$?
echo "demo $id: exit $rc"
exit $rc

#!/bin/bash
# tools/seedtry.sh ID [--notest]: confirm a planted bug in a scratch copy: demo passes unchanged, builds, tests pass, demo fails with it, checks
S=/tmp/seedrepo/repo
id=$1
[ -d $S ] || { mkdir -p /tmp/seedrepo; cp -a /repo $S; }
cd $S && git fetch -q /repo HEAD 2>/dev/null && git checkout -q -f FETCH_HEAD 2>/dev/null
D=/verif/seeded/$id
bash $D/demo.sh > /tmp/seedrepo/$id.clean.log 2>&1; echo "$id clean demo: $?"
git apply $D/patch.diff || { echo "PATCH FAILS"; exit 1; }
bash $D/demo.sh > /tmp/seedrepo/$id.bug.log 2>&1; echo "$id demo with bug: $?"; tail -n 2 /tmp/seedrepo/$id.bug.log | cut -c1-300
if [ "$2" != --notest ]; then
  # the test scripts are tied to /repo: use their commands with another target directory
  export PATH=/opt/vp/tools/bin:/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.99.1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR=$S/target CARGO_TARGET_WASM32_UNKNOWN_UNKNOWN_RUNNER=/opt/vp/tools/bin/wasm-bindgen-test-runner WASM_BINDGEN_TEST_TIMEOUT=300
  mkdir -p target/vp/py
  timeout 400 cargo test --workspace --all-features --offline --no-fail-fast -- --test-threads 8 > target/vp/native.log 2>&1
  timeout 400 cargo test --lib --features wasm_bindgen --target wasm32-unknown-unknown --offline --no-fail-fast > target/vp/wasm.log 2>&1
  sed -i -E 's/^(test .* \.\.\. )FAIL\s*$/\1FAILED/' target/vp/wasm.log
  if cargo build --lib --features python --offline --target-dir $S/target/py > target/vp/python-build.log 2>&1 && cp target/py/debug/libcosmian_abe_gpsw.so target/vp/py/cosmian_abe_gpsw.so; then
    if PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=target/vp/py timeout 120 python3 src/interfaces/pyo3/tests/demo.py > target/vp/python.log 2>&1; then echo "PASS python:src/interfaces/pyo3/tests/demo.py"; else echo "FAIL python:src/interfaces/pyo3/tests/demo.py"; fi > target/vp/python.lines
  fi
  python3 /opt/vp/results.py /tmp/seedrepo/$id.json cargo:target/vp/native.log cargo:target/vp/wasm.log lines:target/vp/python.lines > /dev/null
  python3 -c "
import json;d=json.load(open('/tmp/seedrepo/$id.json'));print('$id tests', {k:(len(v) if k=='passed' else v) for k,v in d.items()})" | cut -c1-300
fi
git checkout -q -f . 

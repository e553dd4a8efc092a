"""Compile-fail witnesses: small programs outside the crate, type-checked by rustc against the crate built from /repo."""
import json
import os
import subprocess

from . import check as CK


MEMO = []


def rlib():
    """metadata of the crate, type-checked from the current tree: (rmeta, dependency directories, other crates)"""
    if MEMO:
        return MEMO[0]
    target = os.path.join(CK.BUILD, "target")
    lk = CK.lock_file()
    try:
        env = dict(CK.base_env(), CARGO_TARGET_DIR=target)
        CK.forget(target)
        r = subprocess.run(["cargo", "check", "--manifest-path", os.path.join(CK.REPO, "Cargo.toml"), "--all-features", "--lib", "--offline",
                            "--message-format=json"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    finally:
        if lk:
            os.remove(lk)
    out, dirs, ext = None, set(), {}
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-artifact":
            continue
        dirs |= {os.path.dirname(f) for f in m["filenames"]}
        if m["target"]["name"] == "cosmian_crypto_base":
            ext["cosmian_crypto_base"] = next((f for f in m["filenames"] if f.endswith(".rmeta")), None)
        if m["target"]["name"] == "cosmian_abe_gpsw":
            out = next((f for f in m["filenames"] if f.endswith(".rmeta")), out)
    if r.returncode or not out:
        raise RuntimeError("the crate does not build: " + r.stderr[-800:])
    MEMO.append((out, sorted(dirs), ext))
    return MEMO[0]


def errors(name, source):
    """errors rustc reports for a program: [(line, code, message)]"""
    rmeta, deps, ext = rlib()
    d = os.path.join(CK.BUILD, "witness")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, name + ".rs")
    with open(src, "w") as f:
        f.write(source)
    cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--error-format=json", "-Awarnings", "-o", os.path.join(d, name + ".rmeta"),
           "--extern", "cosmian_abe_gpsw=" + rmeta]
    for k, v in ext.items():
        if v:
            cmd += ["--extern", f"{k}={v}"]
    for x in deps:
        cmd += ["-L", "dependency=" + x]
    r = subprocess.run(cmd + [src], env=CK.base_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    out = []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") == "error" and m.get("spans"):
            line = next((s["line_start"] for s in m["spans"] if s["is_primary"]), 0)
            out.append((line, (m.get("code") or {}).get("code"), m["message"]))
    return out, r.returncode


class Crate:
    """one witness per line"""

    def __init__(self, name, prelude):
        self.name = name
        self.lines = prelude.rstrip("\n").split("\n")
        self.where = {}

    def add(self, key, text):
        self.lines.append(text.replace("\n", " "))
        self.where[key] = len(self.lines)

    def judge(self):
        """{key: [(code, message)]}, errors elsewhere"""
        errs, rc = errors(self.name, "\n".join(self.lines) + "\n")
        by = {}
        for l, c, m in errs:
            by.setdefault(l, []).append((c, m))
        res = {k: by.pop(l, []) for k, l in self.where.items()}
        return res, by, rc

"""python3 -m vf.check <property>   analyse /repo's current source and decide one property."""
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import time
import traceback

from . import surface, variants

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
DRIVER = os.path.join(ROOT, "driver", "target", "debug", "mirdump")


def sh(cmd, env=None, cwd=None, timeout=800):
    return subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def base_env():
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    return env


def build_driver():
    if os.path.exists(DRIVER):
        src = max(os.path.getmtime(os.path.join(ROOT, "driver", "src", f)) for f in os.listdir(os.path.join(ROOT, "driver", "src")))
        if os.path.getmtime(DRIVER) >= src:
            return
    r = sh(["cargo", "build", "--offline", "-q"], env=base_env(), cwd=os.path.join(ROOT, "driver"))
    if r.returncode or not os.path.exists(DRIVER):
        print(r.stdout[-3000:])
        print("CHECK-ERROR: the MIR exporter does not build")
        sys.exit(2)


def lock_file():
    """Cargo.lock is not tracked in /repo; use the one of the pinned build when it is absent"""
    p = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(p):
        return None
    for c in ("/opt/vp/Cargo.lock", os.path.join(ROOT, "driver", "repo.Cargo.lock")):
        if os.path.exists(c):
            shutil.copy(c, p)
            return p
    return None


def source_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in (".git", "target", "node_modules"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    with open(DRIVER, "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()


def forget(target):
    """cargo must look at the crate again, whatever the time stamps"""
    for sub in ("debug/.fingerprint", "debug/build"):
        d = os.path.join(target, sub)
        if os.path.isdir(d):
            for f in os.listdir(d):
                if f.startswith("cosmian_abe_gpsw"):
                    shutil.rmtree(os.path.join(d, f), ignore_errors=True)


def cargo_dump(out, target, feats, extra_env=None):
    env = base_env()
    sysroot = sh(["rustc", "--print", "sysroot"], env=env).stdout.strip()
    env["LD_LIBRARY_PATH"] = sysroot + "/lib"
    env["CARGO_TARGET_DIR"] = target
    env["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
    env["MIRDUMP_CRATE"] = "cosmian_abe_gpsw"
    env["MIRDUMP_OUT"] = out
    env.update(extra_env or {})
    forget(target)
    if os.path.exists(out):
        os.remove(out)
    r = sh(["cargo", "check", "--manifest-path", os.path.join(REPO, "Cargo.toml"), *feats, "--lib", "--offline"], env=env)
    return r


def dump():
    os.makedirs(BUILD, exist_ok=True)
    build_driver()
    lk = lock_file()
    try:
        h = source_hash()
        out = os.path.join(BUILD, "dump.json")
        stamp = out + ".hash"
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
            return out
        r = cargo_dump(out, os.path.join(BUILD, "target"), ["--all-features"])
        if r.returncode or not os.path.exists(out):
            print(r.stdout[-3000:])
            print("CHECK-ERROR: /repo does not build")
            sys.exit(2)
        with open(stamp, "w") as f:
            f.write(h)
        return out
    finally:
        if lk:
            os.remove(lk)





SURFACES = {}


def config_dumps(P):
    """the other build configurations whose bodies differ: [(name, dump or None, partial, detail)]; dump None: does not build"""
    from . import variants as V
    from .prog import Prog
    h = source_hash()
    stamp = os.path.join(BUILD, "configs.json")
    if os.path.exists(stamp):
        d = json.load(open(stamp))
        if d["hash"] == h:
            SURFACES.update(d["surfaces"])
            return [tuple(x) for x in d["configs"]]
    out, surf = [], {}
    lk = lock_file()
    try:
        for n, (name, feats, env, partial) in enumerate(V.CONFIGS):
            o = os.path.join(BUILD, f"config{n}.json")
            r = cargo_dump(o, os.path.join(BUILD, "target"), feats, env)
            if r.returncode or not os.path.exists(o):
                out.append((name, None, partial, "\n".join(l for l in r.stdout.splitlines() if l.startswith("error"))[:1500] or r.stdout[-1500:]))
                continue
            Q = Prog(o)
            surf[name] = surface.surface(Q)
            fs, ts = V.differences(P, Q)
            if fs or ts:
                out.append((name, o, partial, ", ".join(fs + ts)[:1500]))
            else:
                os.remove(o)
    finally:
        if lk:
            os.remove(lk)
    with open(stamp, "w") as f:
        json.dump({"hash": h, "configs": out, "surfaces": surf}, f)
    SURFACES.update(surf)
    return out


def on_configs(pid, ctx):
    """the property on the build configurations whose code differs"""
    from .prog import Prog
    if os.environ.get("VERIF_NO_CONFIGS"):
        return
    have = {(o["key"], o["where"]) for o in ctx.obs}
    for name, d, partial, detail in config_dumps(ctx.P):
        if d is None:
            ctx.notes.append(f"{name}: does not build")
            continue
        ctx.notes.append(f"{name}: also analysed, differs in {detail[:300]}")
        try:
            r = subprocess.run([sys.executable, "-m", "vf.check", "--config", d, "1" if partial else "0", pid], cwd=ROOT,
                               timeout=300, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            obs = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception as e:
            ctx.ob(f"the property in the configuration: {name}", "UNK", "configuration", f"{type(e).__name__} {e}"[:300])
            continue
        for o in obs:
            if partial and ((o["key"], o["where"]) not in have or o["key"].endswith("found")):
                continue
            ctx.obs.append(dict(o, where=f"{o['where']} [{name}]"))


def known():
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                # finding: property=<id> key=<key> :: text
                head, _, text = l[9:].partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(" ", 1)) if False else {}
                pid = head.split("property=", 1)[1].split(" ", 1)[0]
                key = head.split("key=", 1)[1]
                out.append((pid, key, text))
    return out


def run_property(pid, P=None, partial=False):
    from .prog import Prog
    from .ctx import Ctx, Missing
    if P is None:
        P = Prog(dump())
    mod = importlib.import_module("vf.props." + pid.lower())
    ctx = Ctx(P, pid)
    ctx.undecided = None

    def alarm(*a):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(600)
    ctx.partial = partial
    try:
        mod.check(ctx)
    except Missing as e:
        if not partial:
            ctx.ob("anchor", "UNK", str(e), f"operation or type not found: {e}")
    except (TimeoutError, RecursionError, MemoryError) as e:
        ctx.undecided = f"{type(e).__name__}"
    except Exception as e:
        ctx.undecided = f"{type(e).__name__}: {e}"
        traceback.print_exc()
    finally:
        signal.alarm(0)
    return ctx, mod


def main():
    if sys.argv[1] == "--setup":
        dump()
        from .prog import Prog
        config_dumps(Prog(os.path.join(BUILD, "dump.json")))
        return
    if sys.argv[1] == "--config":
        from .prog import Prog
        import contextlib
        with contextlib.redirect_stdout(sys.stderr):
            ctx, _ = run_property(sys.argv[4].upper(), Prog(sys.argv[2]), sys.argv[3] == "1")
        print(json.dumps(ctx.obs))
        return
    pid = sys.argv[1].upper()
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    ctx, mod = run_property(pid)
    on_configs(pid, ctx)
    kn = {k: t for p, k, t in known() if p == pid}
    bad, found = [], []
    seen = set()
    for o in ctx.obs:
        if o["verdict"] != "NE":
            continue
        key = o["key"] + " @ " + o["where"]
        if key in seen:
            continue
        seen.add(key)
        (found if key in kn else bad).append((key, o))
    n = {v: sum(o["verdict"] == v for o in ctx.obs) for v in ("EQ", "NE", "UNK")}
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": mod.RULE,
            "obligations": len(ctx.obs), "discharged": n["EQ"],
            "violated": n["NE"], "undecided": n["UNK"],
            "functions_analysed": len(ctx.functions), "mir_blocks_evaluated": ctx.blocks, "call_sites_evaluated": ctx.calls,
            "obligation_list": sorted({f"{o['verdict']} {o['key']} @ {o['where']}" for o in ctx.obs})[:400],
            "functions": sorted(ctx.functions)[:400],
            "samples": ctx.samples or [o["key"] for o in ctx.obs[:5]],
            "trusted_base": ["rustc (MIR construction, monomorphisation)", "vf/models.py (meaning of std, bls12_381, sha3, cosmian_crypto_base operations)"] + getattr(mod, "TRUST", []),
            "unmodelled": ctx.unmodelled,
            "notes": ctx.notes[:60],
            "configurations": ["all features, release"] + [c[0] + " (same bodies)" for c in variants.CONFIGS if not any(c[0] in n for n in ctx.notes)],
            "analysis_incomplete": ctx.undecided,
        },
        "assumptions": ctx.assumptions + getattr(mod, "ASSUME", []),
        "violations": len(bad),
        "wall_s": round(time.time() - t0, 3),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {len(ctx.obs)} obligations, {n['EQ']} discharged, {n['UNK']} undecided, {n['NE']} violated; "
          f"{len(ctx.functions)} functions analysed, {time.time() - t0:.1f}s")
    for o in ctx.obs:
        if o["verdict"] == "UNK":
            print(f"UNDECIDED {o['key']} @ {o['where']}: {o['detail'][:300]}")
    if ctx.undecided:
        print(f"UNDECIDED analysis stopped: {ctx.undecided}")
    for key, o in found:
        print(f"KNOWN-FINDING: property={pid} {key}")
    if bad:
        rp = os.path.join(ROOT, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for key, o in bad:
                f.write(f"{key}\n    {o['detail']}\n")
        for key, o in bad:
            print(f"VIOLATED {key}: {o['detail'][:600]}")
            print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""tools/quiet.py [ID...]: every check on every behaviour-preserving edit of tools/refactors.py, in scratch copies"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import refactors
import queue
J = int(os.environ.get("J", "3"))
free = queue.Queue()
for n in range(J):
    free.put(n)


def one(x):
    i, edits = x
    n = free.get()
    W = f"/tmp/quiet/{n}"
    try:
        if not os.path.isdir(W + "/repo"):
            os.makedirs(W, exist_ok=True)
            subprocess.run(["git", "clone", "-q", "/repo", W + "/repo"], check=True)
            for f in ("Cargo.lock",):
                if os.path.exists("/repo/" + f) and not os.path.exists(f"{W}/repo/{f}"):
                    shutil.copy("/repo/" + f, f"{W}/repo/{f}")
        subprocess.run(["git", "-C", W + "/repo", "fetch", "-q", "origin"], check=True)
        subprocess.run(["git", "-C", W + "/repo", "checkout", "-q", "-f", "FETCH_HEAD"], check=True)
        for f, old, new in edits:
            p = os.path.join(W, "repo", f)
            t = open(p).read()
            k = 1
            if isinstance(old, tuple):
                old, k = old
            if t.count(old) != k:
                return i, f"EDIT {f} {t.count(old)} {old[:50]!r}"
            open(p, "w").write(t.replace(old, new))
        r = subprocess.run([sys.executable, os.path.join(ROOT, "tools", "scan.py"), W + "/repo", W + "/build"] + os.environ.get("PROPS", "").split(),
                           text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            d = json.loads(r.stdout)
        except ValueError:
            return i, "FAILED " + r.stderr[-300:]
        if d.get("build") is False:
            return i, "DOES NOT BUILD " + r.stderr[-300:]
        out = []
        for p, v in d.items():
            bad = [b for b in v["bad"] if b[0] == "NE"]
            unk = sum(b[0] == "UNK" for b in v["bad"])
            if bad:
                out.append(f"\n   ALARM {p}: " + " | ".join(" :: ".join(map(str, b[1:]))[:400] for b in bad[:3]))
            if v["stopped"]:
                out.append(f"\n   stopped {p}: {str(v['stopped'])[-150:]}")
            if unk > {"C10": 22}.get(p, 0):
                out.append(f" {p}:{unk} undecided")
        return i, "quiet" + "".join(out)
    finally:
        free.put(n)


todo = [x for x in refactors.R if not sys.argv[1:] or x[0] in sys.argv[1:]]
with ThreadPoolExecutor(J) as ex:
    for i, s in ex.map(one, todo):
        print(f"{i}: {s}", flush=True)

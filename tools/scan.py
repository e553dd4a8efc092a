"""tools/scan.py REPO BUILD [PROPERTY...]: run the analyses on another copy of the repository (development aid).
Prints one JSON object: property -> [counts, non-EQ obligations]."""
import sys, os, json, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import check
check.REPO, check.BUILD = sys.argv[1], sys.argv[2]
from vf.prog import Prog
props = sys.argv[3:] or sorted(f[:-3].upper() for f in os.listdir(os.path.join(check.ROOT, "vf", "props")) if f[0] == "c" and f[1:-3].isdigit())
out = {}
try:
    P = Prog(check.dump())
except SystemExit:
    print(json.dumps({"build": False}))
    sys.exit(3)
for pid in props:
    t = time.time()
    so, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        ctx, mod = check.run_property(pid, P)
    finally:
        sys.stdout = so
    n = {v: sum(o["verdict"] == v for o in ctx.obs) for v in ("EQ", "NE", "UNK")}
    out[pid] = {"n": n, "stopped": ctx.undecided, "t": round(time.time() - t, 1),
                "bad": [[o["verdict"], o["key"], o["where"][-60:], o["detail"][:500]] for o in ctx.obs if o["verdict"] != "EQ"]}
print(json.dumps(out))

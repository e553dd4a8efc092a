#!/usr/bin/env python3
"""tools/mkseeds.py [ID...]: writes /verif/seeded/<id>/ from tools/seeds.py (edits of /repo's HEAD, demonstrations)"""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
import seeds
W = "/tmp/seedwt"
sh = lambda *a, **k: subprocess.run(a, check=True, text=True, stdout=subprocess.PIPE, **k).stdout
if not os.path.isdir(W):
    sh("git", "-C", "/repo", "worktree", "prune")
    sh("git", "clone", "-q", "/repo", W)
sh("git", "-C", W, "fetch", "-q", "origin")
sh("git", "-C", W, "checkout", "-q", "-f", sh("git", "-C", "/repo", "rev-parse", "HEAD").strip())
for s in seeds.SEEDS:
    i = s["id"]
    if sys.argv[1:] and i not in sys.argv[1:]:
        continue
    sh("git", "-C", W, "checkout", "-q", "-f", ".")
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        n = 1
        if isinstance(old, tuple):
            old, n = old
        assert t.count(old) == n, (i, f, t.count(old), old[:60])
        open(p, "w").write(t.replace(old, new))
    d = os.path.join(R, "seeded", i)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(sh("git", "-C", W, "diff"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    kind = s.get("kind", "rust")
    t = open(os.path.join(R, "tools", "seedlib", f"demo_{kind}.sh")).read()
    t = t.replace("@ID@", i).replace("@FEATURES@", s.get("features", '"ffi"')).replace("@DEPS@", s.get("deps", ""))
    open(os.path.join(d, "demo.sh"), "w").write(t)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, {"rust": "main.rs", "python": "demo.py", "cfail": "main.rs"}.get(kind, "main.rs")), "w").write(s["demo"].lstrip("\n"))
sh("git", "-C", W, "checkout", "-q", "-f", ".")

"""regenerates /verif/MANIFEST.json from properties.jsonl and the property modules present"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import importlib
import vf.props
NA = {
    "N04": "collusion resistance is a cryptographic reduction over adversaries, not a property of program paths",
    "N05": "timing and cache behaviour depend on generated machine code and on dependencies' arithmetic, which source-level analysis does not determine",
}
checks, na = [], []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    f = os.path.join(R, "vf", "props", i.lower() + ".py")
    if os.path.exists(f):
        m = importlib.import_module("vf.props." + i.lower())
        checks.append({"property": i, "quick_cmd": f"python3 -m vf.check {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 -m vf.check {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": getattr(m, "TECHNIQUE", vf.props.TECHNIQUE), "level": "other", "level_note": getattr(m, "LEVEL", vf.props.LEVEL)})
    else:
        na.append({"property": i, "reason": NA.get(i, "no sound static rule built for it yet")})
json.dump({"version": 1, "setup_cmd": "python3 -m vf.check --setup", "checks": checks, "not_applicable": na}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)

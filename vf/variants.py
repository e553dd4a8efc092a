"""Other build configurations of /repo: which bodies differ from the ones analysed first (all features, release)?"""
import json

CONFIGS = [
    ("debug assertions", ["--all-features"], {"MIRDUMP_DEBUG": "1"}, False),
    ("no feature", [], {}, True),
    ("feature interfaces", ["--features", "interfaces"], {}, True),
    ("feature ffi", ["--features", "ffi"], {}, True),
    ("feature python", ["--features", "python"], {}, True),
    ("feature wasm_bindgen", ["--features", "wasm_bindgen"], {}, True),
]


def canon(P, inst):
    """the body without positions, type numbers replaced by types"""
    def go(x):
        if isinstance(x, dict):
            out = {}
            for k, v in x.items():
                if k == "sp":
                    continue
                if k == "ty" and isinstance(v, int):
                    out[k] = P.types[v]["s"]
                elif k in ("id", "body") and isinstance(v, int):
                    out[k] = P.inst[v]["name"] if P.inst[v] else None
                else:
                    out[k] = go(v)
            return out
        if isinstance(x, list):
            return [go(v) for v in x]
        return x
    return json.dumps([[P.types[t]["s"] for t in inst["locals"]], inst["argc"], go(inst["blocks"])], sort_keys=True)


def bodies(P):
    out = {}
    for i in P.inst:
        if i is not None and i["crate"] == P.crate:
            out.setdefault((i["name"], i["argc"]), set()).add(canon(P, i))
    return out


def data(P):
    """types of the crate and values of its constants"""
    out = {}
    for t in P.types:
        if t["k"] == "adt" and t.get("local"):
            out[t["s"]] = json.dumps([[v["name"], [(f["name"], P.types[f["ty"]]["s"] if isinstance(f.get("ty"), int) else None) for f in v["fields"]]] for v in t["variants"]])
    return out


def differences(P, Q):
    """names of bodies and types of variant Q that are not those of P (instantiations found in both are compared)"""
    a, b = bodies(P), bodies(Q)
    out = [k[0] for k in b if k in a and not b[k] <= a[k]]
    c, d = data(P), data(Q)
    return sorted(out), sorted(k for k in d if k in c and c[k] != d[k])

"""C26 - every public operation stays exported under every interface configuration."""
import json
import os

from ..ctx import *
from .. import check as CK, surface

RULE = ("The compiler type-checks every feature configuration on its own (none, interfaces, ffi, python, wasm_bindgen, all; with and without debug "
        "assertions). In each configuration the exported surface is read from the compiler's item tables: unmangled C symbols with the machine class of each "
        "argument and result, the Python method definitions (name, wrapped function, argument classes) and the wasm-bindgen shims; every operation of the "
        "documented surface (vf/surface.json) must be there with the same classes. Abstract interpretation of the Python module's initialiser: success "
        "implies that each documented function was registered.")
TECHNIQUE = "static analysis: type-checking of every feature configuration and comparison of the exported items read from the compiler's tables with the documented surface; abstract interpretation of the Python module initialiser"
LEVEL = 'complete for the configurations enumerated; the compiler is trusted'
ASSUME = ["the configurations of the native target stand for those of the wasm32 target (not installed)"]

WHERE = {"c": "src/interfaces/ffi", "py": "src/interfaces/pyo3", "js": "src/interfaces/wasm_bindgen"}
LANG = {"c": "C", "py": "Python", "js": "JavaScript"}
NEEDS = {"all features": ("c", "py", "js"), "debug assertions": ("c", "py", "js"), "feature ffi": ("c",), "feature python": ("py",), "feature wasm_bindgen": ("js",)}
KNOWN = {"bytes", "str", "int", "short int", "()", "pointer", "i8", "i16", "i32", "i64", "word", "bool", "f64"}


def check(ctx):
    want = json.load(open(os.path.join(os.path.dirname(surface.__file__), "surface.json")))
    if ctx.partial:
        return
    configs = {c[0]: c for c in CK.config_dumps(ctx.P)}
    have = dict(CK.SURFACES)
    have["all features"] = surface.surface(ctx.P)
    for name in ("all features", "debug assertions", "no feature", "feature interfaces", "feature ffi", "feature python", "feature wasm_bindgen"):
        c = configs.get(name)
        builds = c is None or c[1] is not None
        ctx.true(f"the configuration builds: {name}", "Cargo.toml, src", builds, c[3] if not builds else "")
        if not builds:
            continue
        for lang in NEEDS.get(name, ()):
            for op, w in sorted(want[lang].items()):
                exported(ctx, f"{LANG[lang]} ({name}): {op}", lang, op, w, have[name][lang])
    ctx.guard("Python module", registered, ctx, want["py"], have["all features"]["py"])


def known(t):
    t = t.strip()
    if t.startswith("optional "):
        return known(t[9:])
    if t.startswith("(") and t != "()":
        return all(known(x) for x in surface.split_top(t[1:-1]))
    return t in KNOWN


def exported(ctx, key, lang, op, w, have):
    where = WHERE[lang]
    if op not in have:
        ctx.true(f"{key} is exported", where, False, "no such export")
        return
    h = have[op]
    ctx.true(f"{key} is exported", where, True)
    if h is None:
        ctx.true(f"{key}: argument types", where, False, "the bound function was not found", definite=False)
        return
    if lang == "py":
        n = len(w["args"])
        ctx.true(f"{key}: documented argument count accepted", where, h["required"] is None or (h["required"] <= w["required"] and len(h["args"]) >= n),
                 f"{h['required']} required of {len(h['args'])}")
        got, exp, gr, er = h["args"][:n], w["args"], h["ret"], w["ret"]
    else:
        (got, gr), (exp, er) = h, w
        if lang == "js" and len(got) > len(exp) and all(x.startswith("optional") for x in got[len(exp):]):
            got = got[:len(exp)]
    if len(got) != len(exp):
        ctx.true(f"{key}: argument types", where, False, f"{got} instead of {exp}")
        return
    for n, (a, b) in enumerate(zip(got, exp)):
        ok = a == b or (lang != "c" and a == "optional " + b)
        ctx.true(f"{key}: type of argument {n + 1}", where, ok, f"{a} instead of {b}", definite=known(a))
    ctx.true(f"{key}: result type", where, gr == er, f"{gr} instead of {er}", definite=known(gr))


def registered(ctx, want, have):
    """success of the module initialiser implies the registration of each function"""
    f = ctx.fn(r"interfaces::pyo3::cosmian_abe_gpsw$", lambda i: i["argc"] == 2)
    ctx.true("the module's initialiser is exported", "src/interfaces/pyo3", any(i.get("symbol") == "PyInit_cosmian_abe_gpsw" for i in ctx.P.items), "PyInit_cosmian_abe_gpsw")
    r = ctx.run(f, {})
    ok, _ = ok_part(r)
    adds = [e for e in r.ev("call") if re.search(r"::(add_function|add|setattr|add_wrapped)$", e["path"])]
    for op in sorted(want):
        if op not in have:
            continue
        raw = have[op]["raw"]
        mine = [e for e in adds if contains(e["args"][-1], lambda x: x.op == "const" and any(isinstance(y, str) and re.search(re.escape(raw) + r"(#|,|$)", y) for y in x.args))]
        ctx.implies(f"Python: {op} is registered in the module", f["path"], ok, p_any([e["pc"] for e in mine]))

"""What one build configuration of the crate exports."""
import re


def split_top(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<([":
            d += 1
        elif c in ">)]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def sig(s):
    """(argument types, result type) of a printed signature"""
    s = re.sub(r"^for<[^>]*> ", "", s)
    a = s.index("fn(") + 3
    d, b = 1, a
    while d:
        d += {"(": 1, ")": -1}.get(s[b], 0)
        b += 1
    r = s[b:].strip()
    return split_top(s[a:b - 1]), (r[2:].strip() if r.startswith("->") else "()")


def c_class(t):
    """machine-level class of a C argument"""
    if t.startswith("*") or t.startswith("&") or "extern \"C\" fn" in t:
        return "pointer"
    return {"u32": "i32", "u64": "i64", "usize": "word", "isize": "word"}.get(t, t)


def py_class(t):
    t = re.sub(r"std::result::Result<(.*), pyo3::PyErr>$", r"\1", t)
    if t.startswith("(") and t != "()":
        return "(" + ", ".join(py_class(x) for x in split_top(t[1:-1])) + ")"
    m = re.match(r"std::option::Option<(.*)>$", t)
    if m:
        return "optional " + py_class(m.group(1))
    if re.search(r"Vec<u8>|&('\w+ )?\[u8\]|PyBytes|PyByteArray", t):
        return "bytes"
    if re.search(r"String|&('\w+ )?str|PyString", t):
        return "str"
    m = re.match(r"[ui](8|16|32|64|128|size)$", t)
    if m:
        return "short int" if m.group(1) in ("8", "16") else "int"
    return t


def js_class(t):
    t = re.sub(r"std::result::Result<(.*), (wasm_bindgen::JsValue|wasm_bindgen::JsError)>$", r"\1", t)
    m = re.match(r"std::option::Option<(.*)>$", t)
    if m:
        return "optional " + js_class(m.group(1))
    if re.search(r"Uint8Array|Vec<u8>|Box<\[u8\]>|&('\w+ )?\[u8\]", t):
        return "bytes"
    if re.search(r"String|&('\w+ )?str|JsString", t):
        return "str"
    m = re.match(r"[ui](8|16|32|size)$", t)
    if m:
        # a JavaScript number is reduced to the width of the type without notice
        return "short int" if m.group(1) in ("8", "16") else "int"
    return t


def surface(P):
    out = {"c": {}, "py": {}, "js": {}}
    sigs = {i["path"]: i["sig"] for i in P.items if i.get("sig")}
    for i in P.items:
        if i.get("symbol") and i["abi"].startswith("C") and not i["ext"]:
            a, r = sig(i["sig"])
            out["c"][i["symbol"]] = [[c_class(x) for x in a], c_class(r)]
    for i in P.items:
        if i["kind"].startswith("AssocConst") and "PyFunctionDef for " in i["path"]:
            name = next((x["str"].rstrip("\0") for x in i["lits"] if "str" in x), None)
            raw = next((x["path"] for x in i["lits"] if "__pyfunction_" in x.get("path", "")), None)
            if not raw:
                continue
            d = next((x["lits"] for x in P.items if x.get("lits") and x["path"].startswith(raw + "::") and x["path"].endswith("::DESCRIPTION")), [])
            names, req, only = [], None, None
            f = None
            for x in d:
                if "field" in x:
                    f = x["field"]
                elif f == "positional_parameter_names" and "str" in x:
                    names.append(x["str"])
                elif f == "required_positional_parameters" and "int" in x:
                    req = x["int"]
                elif f == "positional_only_parameters" and "int" in x:
                    only = x["int"]
            body = raw.replace("__pyfunction_", "")
            a, r = sig(sigs[body]) if body in sigs else ([], "?")
            a = [x for x in a if not x.startswith("pyo3::Python<")]
            out["py"][name] = {"raw": raw, "names": names, "required": req, "only": only, "args": [py_class(x) for x in a], "ret": py_class(r)}
    for i in P.items:
        m = re.search(r"::__wasm_bindgen_generated_(\w+)$", i["path"])
        if m and i["kind"] == "Fn":
            out["js"][m.group(1)] = None
    # the bound function: same module, called by the generated one
    for x in P.inst:
        if x is None:
            continue
        m = re.search(r"^(?:\w+::)?(.*::)_::__wasm_bindgen_generated_(\w+)(::\{closure#\d+\})*$", x["path"])
        if not m:
            continue
        for k in P.refs(x)[0]:
            g = P.inst[k]
            if g and g["crate"] == P.crate and "__wasm_bindgen_generated" not in g["path"]:
                p = g["path"].split("::", 1)[1] if g["path"].split("::", 1)[1] in sigs else g["path"]
                if p in sigs and p.startswith(m.group(1)) and m.group(2) in out["js"]:
                    a, r = sig(sigs[p])
                    out["js"][m.group(2)] = [[js_class(y) for y in a], js_class(r)]
    return out


if __name__ == "__main__":
    import pprint
    from .prog import Prog
    pprint.pprint(surface(Prog("/verif/build/dump.json")), width=180)

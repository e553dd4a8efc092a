"""C12 - memory reserved while parsing."""
from ..ctx import *
from ..safety import prove, definite, place
from . import scheme as S, iface, ffi as F
from .c09 import short
from .c11 import self_type, method

RULE = ("every reservation of memory (with_capacity, reserve, resize, filling, collecting a range) on every path of the decoders is an obligation: "
        "the path condition implies that all but one of the elements it has room for, each of its encoded size, fit in the bytes received; "
        "the interface functions may reserve nothing whose size comes from an announced count, unless the same holds")
ASSUME = ["encoded elements of the same type have the same size", "containers grow by a constant factor of what is pushed to them"]


def check(ctx):
    S.init(ctx)
    ctx.guard("decoders", decoders, ctx)
    ctx.guard("headers and interfaces", others, ctx)


def element_size(ctx, ti):
    """encoded size of the elements of a reserved container, 1 if unknown"""
    if ti is None:
        return 1
    t = ctx.P.types[ti]
    if t["k"] != "adt" or not t.get("args"):
        return 1
    e = ctx.P.types[t["args"][0]]
    if e["k"] == "adt" and e["adt"].endswith("::Vec"):
        return 1
    try:
        f = method(ctx, e["s"], "len_bytes")
    except Missing:
        return 1
    r = ctx.run(f, {})
    return r.ret.args[0] if is_int(r.ret) else 1


def bounded(ctx, r, what, total, only=None):
    n = 0
    for e in r.ev("alloc"):
        if only and not only(e):
            continue
        n += 1
        s = element_size(ctx, e["ty"])
        need = p_scale(p_sub(e["size"], INT(1)), s)
        cond = P_le(need, total)
        key, w = f"{what}: reserved memory is bounded by the input", place(e)
        v, rest = prove(e["pc"], cond)
        if v == EQ:
            ctx.ob(key, EQ, w, sample=f"{w}: room for {show(e['size'])[:120]} elements of {s} bytes")
            continue
        v, why = definite(ctx, e["pc"], cond, rest, ())
        ctx.ob(key, v, w, f"room for {show(e['size'])[:200]} elements of {s} bytes is reserved before the input is known to hold them; {why}")
    return n


def decoders(ctx):
    fs = [f for f in ctx.find(r"::AsBytes>::try_from_bytes$") if "{closure" not in f["path"]]
    if not fs:
        raise Missing("decoders")
    n = 0
    for f in fs:
        r = ctx.run(f, {})
        n += bounded(ctx, r, short(f["path"]), length(r.args[0]))
        ctx.ob(f"{short(f['path'])}: analysed", EQ, f["path"])
    ctx.notes.append(f"{n} reservations in {len(fs)} decoders")


def total_input(r, inst, ctx):
    t = INT(0)
    for n, a in enumerate(r.args):
        if re.search(r"u8|Uint8Array|str|String", ctx.P.types[inst["locals"][n + 1]]["s"]):
            t = p_add(t, length(a))
    return t


def others(ctx):
    fs = ctx.find(r"::(EncryptedHeader|ClearTextHeader)::<.*>::try_from_bytes$|::statics::decrypt_hybrid_(header|block)$")
    for i in ctx.P.inst:
        if i is not None and "{closure" not in i["path"] and "__" not in i["path"] and re.search(r"::interfaces::(ffi|pyo3|wasm_bindgen)::\w+::\w+$", i["path"]):
            fs.append(i)
    for f in fs:
        r = ctx.run(f, {}, stops=iface.STOPS)
        if "::ffi::" in f["path"]:
            t = INT(0)
            for x in {x for e in r.events for c in ("pc", "size") if c in e and isinstance(e[c], Term) for x in subterms(e[c]) if x.op == "mem"}:
                t = p_add(t, x.args[1])
        else:
            t = total_input(r, f, ctx)
        bounded(ctx, r, f["path"].rsplit("::", 1)[1], t, only=lambda e: contains(e["size"], lambda x: x.op == "dec"))
        ctx.ob(f"{f['path'].rsplit('::', 1)[1]}: analysed", EQ, f["path"])

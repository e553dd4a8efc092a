"""C09: decoding untrusted bytes never panics."""
from ..ctx import *
from ..safety import safe
from . import iface, hybrid as H, ffi as F

RULE = ("every panicking operation (index, slice, checked arithmetic, unwrap, map index, copy, division) on every path of every decoder is an obligation: "
        "the path condition computed over monomorphic MIR must imply that it succeeds (linear arithmetic with case analysis, loop "
        "summaries instantiated at the indices involved)")
ASSUME = ["lengths of byte strings are below 2^60; 64-bit usize", "cache locks are not poisoned (C29)", "the dependencies' own decoders (curve points, scalars, JSON, AES) return errors for invalid input rather than panicking"]


POISON = lambda a: a.op == "tt" and "poisoned" in (a.args[0].op, a.args[0].args[0])


def check(ctx):
    ctx.guard("decoders of keys, ciphertexts and access structures", decoders, ctx)
    ctx.guard("decoders of headers and blocks", headers, ctx)
    ctx.guard("interface functions", interfaces, ctx)


def short(p):
    m = re.match(r"<(.*?) as .*>::(\w+)$", p)
    if m:
        return re.sub(r"<.*", "", m.group(1)).split("::")[-1] + "::" + m.group(2)
    return p.split("::<", 1)[0].split("::")[-1] if "::<" in p else p.rsplit("::", 1)[-1]


def one(ctx, f, stops, what=None):
    r = ctx.run(f, {}, stops=stops)
    safe(ctx, r, what or short(f["path"]), only=lambda e: not re.search("deref", e["what"]), never=POISON)


def decoders(ctx):
    fs = [f for f in ctx.find(r"::AsBytes>::try_from_bytes$|AsBytes for .*>::try_from_bytes$") if "{closure" not in f["path"]]
    for n in ("GpswMasterPrivateKey", "GpswMasterPublicKey", "GpswMasterPublicDelegationKey", "GpswDecryptionKey", "GpswCipherText", "MonotoneSpanProgram"):
        if not any(n in f["path"] for f in fs):
            raise Missing(f"decoder of {n}")
    for f in fs:
        one(ctx, f, ())


def headers(ctx):
    for rx in (r"::EncryptedHeader::<.*>::try_from_bytes$", r"::ClearTextHeader::<.*>::try_from_bytes$", r"::statics::decrypt_hybrid_header$",
               r"::statics::decrypt_hybrid_block$", r"::Engine::<.*>::decrypt_symmetric_key$"):
        one(ctx, ctx.fn(rx), iface.STOPS)


def interfaces(ctx):
    for i in ctx.P.inst:
        if i is None or "{closure" in i["path"] or "__" in i["path"] or not re.search(r"::interfaces::(ffi|pyo3|wasm_bindgen)::\w+::\w+$", i["path"]):
            continue
        tys = " ".join(ctx.P.types[i["locals"][n + 1]]["s"] for n in range(i["argc"]))
        if not re.search(r"u8|i8|Uint8Array", tys):
            continue
        one(ctx, i, iface.STOPS, i["path"].split("::interfaces::")[1].split("::")[0] + "::" + i["path"].rsplit("::", 1)[1])

"""C28 - raw memory is touched only by the C interface, and only behind the caller's pointers."""
from ..ctx import *
from . import scheme as S
from . import ffi as F

RULE = ("Over every body and item of the crate: an unsafe block written in the crate (not produced by a macro of another crate), an unsafe function, unsafe "
        "impl, unsafe trait or mutable static outside the C interface is a violation, as is a call to an unchecked operation of the standard library "
        "anywhere. For each C entry point, every access through a raw pointer (dereference, slice, copy, C string, write) on every path has as base one of "
        "the function's own pointer arguments.")
TECHNIQUE = "static analysis: custom lint over the compiler's item tables, HIR unsafe blocks and MIR call sites; pointer provenance of raw accesses by abstract interpretation of the MIR"
LEVEL = 'sound for the whole crate, relative to external macros generating sound code'
ASSUME = ["macros of other crates (thread_local, pyo3, wasm-bindgen) generate sound unsafe code"]

FFI = r"(^|::)interfaces::ffi(::|$)"
UNCHECKED = r"::(get_unchecked(_mut)?|unwrap_unchecked|unreachable_unchecked|from_utf8_unchecked(_mut)?|set_len|assume_init|transmute|transmute_copy|read_volatile|write_volatile|from_raw_parts_in|zeroed|slice_unchecked|new_unchecked|unchecked_\w+|to_int_unchecked|as_bytes_mut|from_size_align_unchecked|alloc|realloc|dealloc)$"


def check(ctx):
    S.init(ctx)
    P = ctx.P
    mods = {}
    for b in P.unsafe_blocks:
        own = b["owner"]
        if own.endswith(" (macro)") or re.search(FFI, own):
            continue
        mods.setdefault(own, []).append(b["line"])
    owners = sorted({i["path"] for i in P.items if i["kind"] in ("Fn", "AssocFn") and not i["ext"]})
    for o in sorted(set(owners) | set(mods)):
        if re.search(FFI, o):
            continue
        ctx.true("no unsafe block outside the C interface", o, o not in mods, f"unsafe block at line {mods.get(o)}")
    for i in P.items:
        if i["ext"] or re.search(FFI, i["path"]):
            continue
        if i["kind"] in ("Fn", "AssocFn"):
            ctx.true("no unsafe function outside the C interface", i["path"], not i.get("unsafe"), i.get("sig", ""))
        elif i["kind"].startswith("Impl") or i["kind"] == "Trait":
            ctx.true("no unsafe impl or trait", f"{i['path']} {i.get('trait', '')}", not i.get("unsafe"), f"{i.get('trait')} for {i.get('self')}")
    for i in P.items:
        if i["kind"].startswith("Static") and not i["ext"]:
            ctx.true("no mutable static", i["path"], "mutability: Mut" not in i["kind"], i["kind"])
    unchecked(ctx)
    for nm, f in F.entry_points(ctx):
        ctx.guard(nm, entry, ctx, nm, f)


def unchecked(ctx):
    """calls to unchecked operations, in bodies written in the crate"""
    P = ctx.P
    ext = {i["path"] for i in P.items if i["ext"]}
    n = 0
    for i in P.inst:
        if i is None or i["crate"] != P.crate or i["path"] in ext or "__wasm_bindgen_generated" in i["path"] or "__pyfunction" in i["path"]:
            continue
        n += 1
        bad = []
        for b in i["blocks"]:
            t = b["t"]
            if t and t["k"] == "call" and "const" in t["f"]:
                ty = P.types[t["f"]["const"]["ty"]]
                if ty["k"] == "fndef" and ty.get("fn") and ty["fn"].get("id") is None and " unsafe fn(" in " " + ty["s"].split("{")[0] \
                        and re.search(UNCHECKED, re.sub(r"(::)?<.*?>", "", ty["fn"]["path"])):
                    bad.append(ty["fn"]["path"])
        if bad or not i["path"].endswith("}"):
            ctx.true("no unchecked operation", i["path"], not bad, ", ".join(bad))
    ctx.true("bodies were analysed", "crate", n > 100, f"{n} bodies", definite=False)


def entry(ctx, nm, f):
    w = f["path"]
    r = F.run(ctx, nm, f)
    own = [a.ptr for a in F.args(ctx, nm, f) if a.ptr is not None] + [a.len for a in F.args(ctx, nm, f) if a.len is not None]
    own = [x for x in own if x is not None]
    n = 0
    for p, c, what, e in F.accesses(r):
        if c.op == "false" or c == FALSE:
            continue
        n += 1
        b = F.base(p)
        ok = any(b is x or b == x for x in own) or b.op in ("ref", "addr", "sptr")
        if b.op == "sptr" and "len" in e:
            ctx.implies("raw read within the value it starts from", w, AND(e["pc"], c), P_le(e["len"], length(b.args[0])))
        ctx.true("raw access through the caller's pointer", w, ok, f"{what} through {show(p)[:150]}", definite=b.op in ("var", "int", "num", "const"))
    ctx.true("raw accesses were found", w, n > 0 or not any(a.ptr is not None for a in F.args(ctx, nm, f)), f"{n}", definite=False)

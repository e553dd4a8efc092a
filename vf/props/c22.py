"""C22 - cache handles."""
from ..ctx import *
from . import scheme as S
from . import hybrid as H
from . import ffi as F

RULE = ("For the create, destroy and use functions of each cache kind of the C and JavaScript interfaces: the key of the single insertion is the "
        "result of one atomic increment (by a non-zero constant) of a counter no other kind uses, the value holds the parsed inputs, the same key is what the "
        "caller receives; destruction removes exactly the given handle from the table filled by creation of that kind and is never refused for a present handle; use looks the given handle up in that "
        "table and success excludes an absent handle.")
ASSUME = ["fewer than 2^32 caches are created in the life of a process", "an atomic fetch_add returns each counter value once"]

KINDS = [
    ("C encryption cache", r"ffi::.*::h_aes_create_encryption_cache$", r"ffi::.*::h_aes_destroy_encryption_cache$", r"ffi::.*::h_aes_encrypt_header_using_cache$"),
    ("C decryption cache", r"ffi::.*::h_aes_create_decryption_cache$", r"ffi::.*::h_aes_destroy_decryption_cache$", r"ffi::.*::h_aes_decrypt_header_using_cache$"),
    ("JavaScript encryption cache", r"wasm_bindgen::.*::webassembly_create_encryption_cache$", r"wasm_bindgen::.*::webassembly_destroy_encryption_cache$",
     r"wasm_bindgen::.*::webassembly_encrypt_hybrid_header_using_cache$"),
    ("JavaScript decryption cache", r"wasm_bindgen::.*::webassembly_create_decryption_cache$", r"wasm_bindgen::.*::webassembly_destroy_decryption_cache$",
     r"wasm_bindgen::.*::webassembly_decrypt_hybrid_header_using_cache$"),
]


def plain(ctx, rx_):
    return ctx.fn(rx_, lambda i: "__wasm_bindgen_generated" not in i["path"] and "{closure" not in i["path"])


def shared_maps(t):
    return list(dict.fromkeys(x.args[0] for x in subterms(t) if x.op == "shared"))


def static_of(m):
    """the static behind the map reference of an event"""
    return m.args[0][1] if m.op == "ref" and m.args[0][0] == "G" else None


def check(ctx):
    S.init(ctx)
    tables, counters = {}, {}
    for name, cr, de, us in KINDS:
        ctx.guard(name, one, ctx, name, cr, de, us, tables, counters)
    for what, d in (("table", tables), ("counter", counters)):
        for k, v in d.items():
            ctx.true(f"each kind has its own {what}", "src/interfaces", len(v) == 1, f"{k}: {v}")


def ok_of(ctx, r, f):
    if "ffi::" in f["path"]:
        return AND(r.st.pc, P_eq_int(r.ret, INT(0))), None
    ok, v = ok_part(r)
    return AND(r.st.pc, ok), v


def users(ctx, name, w, fc, counter):
    """only the creation function (and what it calls) refers to the counter"""
    m = re.search(r"static:(<.*? as std::ops::Deref>::deref)", show(counter))
    P = ctx.P
    tgt = [i for i in P.inst if m and i["path"] == m.group(1)]
    if not tgt:
        ctx.true(f"{name}: the counter is a library static", w, False, show(counter)[:200], definite=False)
        return
    inside = P.reach(fc)[0]
    ids = {i["id"] for i in tgt}
    for i in P.inst:
        if i["id"] in ids or i["id"] in inside or not i["path"].lstrip("<").startswith(P.crate):
            continue
        if P.refs(i)[0] & ids and "LazyStatic" not in i["path"]:
            ctx.true(f"{name}: only creation touches the handle counter", i["path"], False, show(counter)[:120])


def one(ctx, name, cr, de, us, tables, counters):
    fc, fd, fu = plain(ctx, cr), plain(ctx, de), plain(ctx, us)
    # creation
    w = fc["path"]
    r = ctx.run(fc, {}, stops=H.STOPS)
    ok, val = ok_of(ctx, r, fc)
    ins = [e for e in r.ev("mapinsert") if static_of(e["map"]) is not None]
    ctx.true(f"{name}: creation stores one cache", w, len(ins) == 1, str(len(ins)))
    if not ins:
        return
    e = ins[0]
    tab = static_of(e["map"])
    tables.setdefault(show(tab), set()).add(name)
    ctx.implies(f"{name}: whenever a handle is returned the cache is stored", w, ok, e["pc"])
    key = e["key"]
    fresh = key.op == "call" and key.args[0] == "fetch_add"
    inc = [a for a in r.ev("atomic") if a["op"] == "fetch_add" and fresh and a["var"] is key.args[1][0]]
    ctx.true(f"{name}: the handle is the value of an atomic counter", w, fresh and len(inc) == 1, show(key)[:200])
    if fresh:
        counters.setdefault(show(key.args[1][0]), set()).add(name)
        ctx.true(f"{name}: the counter always advances", w, all(is_int(a["by"]) and a["by"].args[0] % 2 == 1 for a in inc), str([show(a["by"]) for a in inc]))
        others = [a["op"] for a in r.ev("atomic") if a["var"] is key.args[1][0] and a["op"] not in ("fetch_add", "load")]
        ctx.true(f"{name}: the counter is never set back", w, not others, str(others))
        users(ctx, name, w, fc, key.args[1][0])
    if val is None:
        h = [a for a in F.args(ctx, fc["path"].rsplit("::", 1)[1], fc) if a.kind == "outint"]
        ctx.true(f"{name}: the handle is returned", w, len(h) == 1)
        got = F.final(r, ("P", h[0].ptr)) if h else UNDEF
    else:
        got = val
    ctx.same(f"{name}: the caller receives that handle", w, got, key, ok)
    for x in r.ev("write"):
        if x["target"][0] == "G" and "LocalKey" not in show(x["target"][1]):
            ctx.true(f"{name}: creation changes nothing but the new entry", w, x["value"].op == "mins" and x["value"].args[0].op == "shared", show(x["value"])[:200])
    for x in r.ev("mapremove"):
        ctx.true(f"{name}: creation removes no cache", w, False, show(x["key"])[:200])
    leaves_ = e["value"].args[1] if e["value"].op == "agg" else ()
    ctx.true(f"{name}: the cache holds the parsed inputs", w, bool(leaves_) and all(not contains(x, lambda y: y.op in ("shared", "load")) for x in leaves_), show(e["value"])[:200])
    # destruction
    w = fd["path"]
    r = ctx.run(fd, {}, stops=H.STOPS)
    ok, _ = ok_of(ctx, r, fd)
    rem = [e for e in r.ev("mapremove")]
    ctx.true(f"{name}: destruction removes one cache", w, len(rem) == 1)
    free = mhas(mk("shared", tab), r.args[0])
    for x in subterms(ok):
        if x.op == "call" and x.args[0] == "poisoned":
            free = AND(free, NOT(lit(mk("tt", x))))
    ctx.implies(f"{name}: destruction of a present handle is never refused", w, free, ok)
    for e in rem:
        ctx.true(f"{name}: destruction works on the table of the same kind", w, static_of(e["map"]) is tab, show(e["map"])[:200])
        ctx.same(f"{name}: destruction removes the given handle", w, e["key"], r.args[0], ok)
        ctx.implies(f"{name}: destruction always removes", w, ok, e["pc"])
    for e in r.ev("write"):
        if e["target"][0] == "G" and "LocalKey" not in show(e["target"][1]):
            ctx.true(f"{name}: destruction changes nothing else", w, e["value"].op == "mrem" and e["value"].args[0].op == "shared", show(e["value"])[:200])
    # use
    w = fu["path"]
    r = ctx.run(fu, {}, stops=H.STOPS)
    ok, _ = ok_of(ctx, r, fu)
    hi = argn(ctx, fu, "^i32$", None) if "wasm" in w else [a.n for a in F.args(ctx, w.rsplit("::", 1)[1], fu) if a.kind == "int"][0]
    handle = r.args[hi]
    allt = [r.ret] + [v for k, v in r.st.s.items() if k[0] in ("P", "H")]
    gets = list(dict.fromkeys(x for t in allt for x in subterms(t) if x.op == "mget"))
    ctx.true(f"{name}: use reads a cache", w, len(gets) >= 1)
    for g in gets:
        ctx.true(f"{name}: use reads the table of the same kind", w, g.args[0].op == "shared" and g.args[0].args[0] is tab, show(g.args[0])[:200])
        ctx.same(f"{name}: use reads the given handle", w, g.args[1], handle, ok)
    ctx.forbids(f"{name}: an absent handle is refused", w, ok, NOT(mhas(mk("shared", tab), handle)))
    bad = [e for e in r.ev("oblig") if not e["proved"] and contains(e["cond"], lambda x: x.op == "mhas")]
    ctx.true(f"{name}: an absent handle does not crash", w, not bad, str([e["what"] for e in bad]))
    for e in r.ev("write"):
        if e["target"][0] == "G" and "LocalKey" not in show(e["target"][1]):
            ctx.true(f"{name}: use changes no table", w, False, show(e["value"])[:200])

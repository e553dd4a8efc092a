"""C15 - symmetric key derivation."""
from ..ctx import *
from . import scheme as S
from . import hybrid as H

RULE = ("Terms of the symmetric keys of Engine::generate_symmetric_key and Engine::decrypt_symmetric_key (scheme operations uninterpreted): with the "
        "encapsulated element renamed to the decrypted one they are the same term, whose only inputs are that element and the requested length; the "
        "element hashed is the random element given to the scheme encryption that yields the encapsulation; success of decryption implies the scheme "
        "returned an element. The same for the keys of encrypt_hybrid_header and decrypt_hybrid_header.")
ASSUME = ["Shake256 is an extendable-output function of its input (sha3)"]


def check(ctx):
    S.init(ctx)
    g, d = ctx.fn(r"Engine::<.*>::generate_symmetric_key$"), ctx.fn(r"Engine::<.*>::decrypt_symmetric_key$")
    n = var("symmetric_key_len")
    rg = ctx.run(g, {argn(ctx, g, "^usize$"): n}, stops=H.STOPS)
    rd = ctx.run(d, {argn(ctx, d, "^usize$"): n, argn(ctx, d, r"\[u8\]"): var("encapsulation")}, stops=H.STOPS)
    okg, vg = ok_part(rg)
    okd, vd = ok_part(rd)
    pair(ctx, "engine", g, okg, fld(vg, 0, 0), fld(vg, 0, 1), d, okd, vd, n, var("encapsulation"))
    e, f = ctx.fn(r"statics::encrypt_hybrid_header$"), ctx.fn(r"statics::decrypt_hybrid_header$")
    none = agg(("std::option::Option", 0), ())
    re_ = ctx.run(e, {argn(ctx, e, "Option<.*Metadata"): none}, stops=H.STOPS)
    rf = ctx.run(f, {}, stops=H.STOPS)
    oke, ve = ok_part(re_)
    okf, vf = ok_part(rf)
    kt = ctx.P.types[ctx.adt("EncryptedHeader")["variants"][0]["fields"][ctx.field("EncryptedHeader", "symmetric_key")]["ty"]] if "ty" in ctx.adt("EncryptedHeader")["variants"][0]["fields"][0] else None
    pair(ctx, "header", e, oke, ctx.get(ve, "EncryptedHeader", "symmetric_key"), ctx.get(ve, "EncryptedHeader", "encrypted_header_bytes"),
         f, okf, ctx.get(vf, "ClearTextHeader", "symmetric_key"), None, None)


def pair(ctx, name, g, okg, kg, eg, d, okd, kd, n, cap):
    wg, wd = g["path"], d["path"]
    ctx.true(f"{name}: encapsulation can succeed", wg, okg is not FALSE)
    ctx.true(f"{name}: decapsulation can succeed", wd, okd is not FALSE)
    se, sd = H.calls(eg, "^scheme:encrypt$"), H.calls(kd, "^scheme:decrypt$")
    ctx.true(f"{name}: one scheme encryption in the encapsulation", wg, len(se) == 1, show(eg)[:200])
    ctx.true(f"{name}: the key comes from one scheme decryption", wd, len(sd) == 1, show(kd)[:200])
    if len(se) != 1 or len(sd) != 1:
        return
    msg = H.role(se[0], ctx, "encrypt", "Gt$")
    got = fld(fld(sd[0], 0, 0), 1, 0)
    X = var("encapsulated element")
    k1, k2 = subst_term(kg, {msg: X}), subst_term(kd, {got: X})
    ctx.same(f"{name}: both sides derive the same key", wd, k2, k1)
    ctx.true(f"{name}: the element encapsulated is random", wg, len(H.calls(msg, "^scheme:generate_random_plaintext$")) == 1 or bool(draws(msg)), show(msg)[:200])
    ctx.true(f"{name}: the element encapsulated is the one drawn", wg, msg.op in ("fld", "draw"), show(msg)[:200])
    for side, k, w, el in (("encryption", k1, wg, msg), ("decryption", k2, wd, got)):
        vs = [x for x in subterms(k) if x.op in ("var", "draw", "entropy", "load", "phi", "unk") and x is not X and x is not n]
        cs = [x for x in H.calls(k, ".") if not re.search(r"to_compressed$", x.args[0])]
        ctx.true(f"{name}: {side} key depends on the element and length only", w, not vs and not cs, str([show(x)[:80] for x in vs + cs]))
        ctx.true(f"{name}: {side} key is a hash of the whole element", w, contains(k, lambda x: x.op in ("xof", "sponge")) and contains(k, lambda x: x is X)
                 and not contains(k, lambda x: x.op in ("sl", "at") and contains(x, lambda y: y is X)), show(k)[:300])
        if n is not None:
            ctx.same(f"{name}: {side} key has the requested length", w, length(k), n)
    if cap is not None:
        ctx.same(f"{name}: the ciphertext decrypted is the encapsulation given", wd, H.role(sd[0], ctx, "decrypt", "GpswCipherText"),
                 fld(mk("call", "parse:GpswCipherText", (cap,)), 0, 0), okd)
    ctx.implies(f"{name}: no key unless the scheme recovers the element", wd, okd, AND(NOT(tag(sd[0], 1, 2)), tag(fld(sd[0], 0, 0), 1, 2)))

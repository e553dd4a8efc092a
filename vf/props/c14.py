"""C14 - hybrid headers are read back as written."""
from ..ctx import *
from . import scheme as S
from . import hybrid as H

RULE = ("The header bytes encrypt_hybrid_header returns, as a term, are given to decrypt_hybrid_header as its input (value-flow over both functions, "
        "scheme operations and ciphertext encoding uninterpreted): the scheme must be given the very ciphertext, the authenticated cipher the very "
        "encrypted metadata, nonce and associated data of the encryption, and the metadata returned must be the decoding of that plaintext; without "
        "metadata the cipher is not used and the default is returned; nothing the encryption side accepted is refused.")
ASSUME = ["Metadata::try_from_bytes inverts Metadata::try_to_bytes and the authenticated cipher inverts itself (cosmian_crypto_core)",
          "decoding an encoded ciphertext yields it (C11); decryption of it with a satisfying key yields the message (C05, N01)"]


def check(ctx):
    S.init(ctx)
    enc = ctx.fn(r"statics::encrypt_hybrid_header$")
    dec_ = ctx.fn(r"statics::decrypt_hybrid_header$")
    mi = argn(ctx, enc, "Option<.*Metadata")
    hi = argn(ctx, dec_, r"\[u8\]")
    O = "std::option::Option"
    m = var("meta_data")
    for name, mv in (("with metadata", agg((O, 1), (m,))), ("without metadata", agg((O, 0), ()))):
        we, wd = enc["path"], dec_["path"]
        e = ctx.run(enc, {mi: mv}, stops=H.STOPS)
        oke, ve = ok_part(e)
        ctx.true(f"{name}: encryption can succeed", we, oke is not FALSE)
        hdr = ctx.get(ve, "EncryptedHeader", "encrypted_header_bytes")
        key = ctx.get(ve, "EncryptedHeader", "symmetric_key")
        d = ctx.run(dec_, {hi: hdr}, stops=H.STOPS, pc=oke)
        okd, vd = ok_part(d)
        meta = ctx.get(vd, "ClearTextHeader", "meta_data")
        kd = ctx.get(vd, "ClearTextHeader", "symmetric_key")
        scheme_dec = H.calls(vd, "^scheme:decrypt$")
        ctx.true(f"{name}: decryption can succeed", wd, okd is not FALSE)
        if not scheme_dec:
            ctx.true(f"{name}: the symmetric key is decrypted by the scheme", wd, False, show(kd)[:200])
            continue
        ctx.true(f"{name}: one scheme decryption", wd, len(scheme_dec) == 1)
        se = H.calls(hdr, "^scheme:encrypt$")
        ctx.true(f"{name}: one scheme encryption", we, len(se) == 1, show(hdr)[:200])
        if not se:
            continue
        ct = fld(se[0], 0, 0)
        ctx.same(f"{name}: the ciphertext read is the ciphertext written", wd, H.role(scheme_dec[0], ctx, "decrypt", "GpswCipherText"), ct, okd)
        ctx.same(f"{name}: the caller's key decrypts it", wd, H.role(scheme_dec[0], ctx, "decrypt", "GpswDecryptionKey"),
                 d.args[argn(ctx, dec_, "GpswDecryptionKey")], okd)
        # the symmetric key: both sides, the decrypted element being the encrypted one
        msg = H.role(se[0], ctx, "encrypt", "Gt$")
        got = fld(fld(scheme_dec[0], 0, 0), 1, 0)
        same_msg = {got: msg}
        sub = lambda t: subst_term(t, same_msg)
        ctx.same(f"{name}: same symmetric key", wd, sub(kd), key, oke)
        ce = [x for x in H.calls(hdr, r"SymmetricCrypto>::encrypt$")]
        cd = [x for x in H.calls(vd, r"SymmetricCrypto>::decrypt$")]
        need = AND(okd_opaque(scheme_dec[0]), TRUE)
        if mv.args[1]:
            ctx.true(f"{name}: metadata encrypted once", we, len(ce) == 1, str([show(x)[:100] for x in ce]))
            ctx.true(f"{name}: metadata decrypted once", wd, len(cd) == 1, str([show(x)[:100] for x in cd]))
            if not ce or not cd:
                continue
            ek, ep, en, ea = ce[0].args[1]
            dk, dc, dn, da = cd[0].args[1]
            ctx.same("metadata encrypted under the symmetric key of the header", we, ek, key, oke)
            ctx.same("metadata decrypted under the encapsulated key", wd, sub(dk), ek, oke)
            ctx.same("the encrypted metadata read is the one written", wd, sub(dc), fld(ce[0], 0, 0), oke)
            ctx.same("the nonce read is the one written", wd, dn, en, oke)
            ctx.same("same associated data", wd, da, ea, oke)
            ds = draws(en)
            ctx.true("the nonce is its own random draw", we, len(ds) == 1 and contains(en, lambda x: x is ds[0]) and en is not UNDEF and not H.calls(en, "encrypt|xof|sponge"), show(en)[:200])
            tb = [x for x in H.calls(ep, r"Metadata::try_to_bytes$")]
            ctx.same("the plaintext is the encoding of the metadata given", we, ep, fld(mk("call", tb[0].args[0], (m,)), 0, 0) if tb else UNDEF, oke)
            fb = [x for x in H.calls(meta, r"Metadata::try_from_bytes$")]
            ctx.same("the metadata returned is the decoding of the plaintext", wd, meta,
                     fld(mk("call", fb[0].args[0], (fld(cd[0], 0, 0),)), 0, 0) if fb else UNDEF, okd)
            ctx.implies("an authentication failure is an error", wd, okd, NOT(tag(sub_id(cd[0]), 1, 2)))
            need = AND(need, NOT(tag(cd[0], 1, 2)))
            if fb:
                need = AND(need, NOT(tag(fb[0], 1, 2)))
        else:
            ctx.true(f"{name}: the cipher is not used", we, not ce and not cd)
            t = ctx.P
            want = models_default(ctx, meta)
            ctx.same(f"{name}: default metadata returned", wd, meta, want, okd)
        ctx.implies(f"{name}: every header written is accepted", wd, AND(oke, need), okd)
        # nothing beyond what was written is in the header
        ctx.same(f"{name}: header layout", we, hdr, layout(ctx, ct, se, ce, mv), oke)


def sub_id(x):
    return x


def okd_opaque(c):
    return AND(NOT(tag(c, 1, 2)), tag(fld(c, 0, 0), 1, 2))


def models_default(ctx, meta):
    for t in ctx.P.types:
        if t["k"] == "adt" and t["adt"].endswith("::Metadata"):
            fs = [NIL if f["name"] == "uid" else agg(("std::option::Option", 0), ()) for f in t["variants"][0]["fields"]]
            return agg((t["adt"], 0), fs)
    return UNDEF


def layout(ctx, ct, se, ce, mv):
    b = fld(mk("call", "encode:GpswCipherText", (ct,)), 0, 0)
    parts = [enc("be", 4, length(b)), b]
    if mv.args[1] and ce:
        c = fld(ce[0], 0, 0)
        parts += [ce[0].args[1][2], enc("be", 4, length(c)), c]
    return cat(parts)

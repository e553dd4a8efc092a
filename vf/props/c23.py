"""C23 - every interface variant is the same operation."""
from ..ctx import *
from . import scheme as S
from . import hybrid as H
from . import iface as I
from . import ffi as F

RULE = ("Every interface function (C, Python, JavaScript; cached and uncached) is reduced to a term over its decoded arguments (value-flow through all callees, "
        "scheme operations and encoders as operations by argument role) and compared, output by output, with the term of the core operation applied to those "
        "arguments; success of the interface implies success of the core operation.")
ASSUME = ["the two textual notations of access policies (JSON in C, boolean expression in Python and JavaScript) are decoded by their own parsers",
          "keys and ciphertexts shorter than 2^32 bytes"]


def can(t):
    return H.canon(uncast(t))


def uncast(t):
    m = {x: x.args[0] for x in subterms(t) if x.op == "cast" and x.args[1] == "u32"}
    return subst_term(t, m) if m else t


def cmp(ctx, v, what, got, want, ok, okw):
    ctx.same(f"{v.lang}: {what}", v.where, can(got), can(want), can(ok))
    if okw is not None:
        ctx.implies(f"{v.lang}: {what}: no success when the operation fails", v.where, can(ok), can(okw))
        accepts(ctx, v, what, can(ok), can(okw))


def accepts(ctx, v, what, ok, okw, more=TRUE):
    """what the operation accepts is accepted: arguments present and decodable, room for the results"""
    pc = AND(okw, more)
    for u in (getattr(v, "vs", None) or [v]):
        if u.lang == "C":
            for a in u.A:
                if a.kind == "in" and not a.optional:
                    pc = AND(pc, P_lt(INT(0), a.len))
                if a.kind == "out":
                    pc = AND(pc, NOT(F.null(a.len)))
    known = set(subterms(okw))
    for x in dict.fromkeys(subterms(ok)):
        if x.op == "len" and x.args[0].op == "var":
            pc = AND(pc, P_lt(INT(0), x))
        if x.op != "ite" or x.args[0] in known:
            continue
        a = x.args[0]
        room = [c for m, c in poly_of(a.args[0], "int").items() if any(y.op == "load" for y, _ in m)] if a.op == "le0" else []
        if room:
            # enough of it
            pc = AND(pc, lit(a, max(room) < 0))
            continue
        if a.op == "eq0" and restrict(ok, lit(a, False)) is FALSE and a.args[0].op == "poly" and () in poly_of(a.args[0], "int"):
            # an exact length
            pc = AND(pc, lit(a))
        if a.op in ("tag", "null", "tt", "mhas"):
            # needed for success: given
            if restrict(ok, lit(a)) is FALSE:
                pc = AND(pc, lit(a, False))
            elif restrict(ok, lit(a, False)) is FALSE:
                pc = AND(pc, lit(a))
    ctx.implies(f"{v.lang}: {what}: no failure when the operation succeeds", v.where, pc, ok)


def frame(parts):
    return cat(parts)


def check(ctx):
    S.init(ctx)
    for g in (master, user, delegate, policy, enc_header, dec_header, blocks, header_size, cached, combined):
        ctx.guard(g.__name__, g, ctx)


ENGINE = r"engine::Engine::<S>::"


def master(ctx):
    for lang, rx_ in (("C", r"h_generate_master_keys$"), ("Python", r"pyo3::.*::generate_master_keys$"), ("JavaScript", r"webassembly_generate_master_keys$")):
        v = I.V(ctx, lang, rx_)
        pol = v.json(v.text(0) if lang == "C" else v.a[0])
        okc, k, _ = I.core(ctx, ENGINE + "generate_master_key$", [("Policy", pol)])
        priv, pub, dele = I.encode("GpswMasterPrivateKey", fld(k, 0, 0)), I.encode("GpswMasterPublicKey", fld(k, 0, 1)), I.encode("GpswMasterPublicDelegationKey", fld(k, 0, 2))
        if lang == "Python":
            for i, (n, x) in enumerate((("private key", priv), ("public key", pub), ("delegation key", dele))):
                cmp(ctx, v, "master " + n, fld(v.value, 0, i), x, v.ok, okc)
        else:
            want = frame([enc("be", 4, length(priv)), priv, pub])
            got = v.out(0)[1] if lang == "C" else v.value
            cmp(ctx, v, "master keys", got, want, v.ok, okc)


def access_policy(v, i):
    return v.json(v.text(0)) if v.lang == "C" else v.decoded(v.a[i], r"from_boolean_expression$")


def user(ctx):
    for lang, rx_ in (("C", r"h_generate_user_private_key$"), ("Python", r"pyo3::.*::generate_user_private_key$"), ("JavaScript", r"webassembly_generate_user_private_key$")):
        v = I.V(ctx, lang, rx_)
        msk = I.parse("GpswMasterPrivateKey", v.bytes(0))
        ap = access_policy(v, 1)
        pol = v.json(v.text(1) if lang == "C" else v.a[2])
        okc, k, _ = I.core(ctx, ENGINE + "generate_user_key$", [("PrivateKey", msk), ("AccessPolicy", ap), (r"\bPolicy", pol)])
        got = v.out(0)[1] if lang == "C" else v.value
        cmp(ctx, v, "user key", got, I.encode("GpswDecryptionKey", k), v.ok, okc)


def delegate(ctx):
    v = I.V(ctx, "Python", r"pyo3::.*::generate_delegated_key$")
    dk, udk = I.parse("GpswMasterPublicDelegationKey", v.a[0]), I.parse("GpswDecryptionKey", v.a[1])
    ap, pol = access_policy(v, 2), v.json(v.a[3])
    okc, k, _ = I.core(ctx, ENGINE + "delegate_user_key$", [("DelegationKey", dk), ("DecryptionKey|UserKey", udk), ("AccessPolicy", ap), (r"\bPolicy", pol)])
    cmp(ctx, v, "delegated key", v.value, I.encode("GpswDecryptionKey", k), v.ok, okc)


def policy(ctx):
    vs = []
    for lang, rx_ in (("C", r"h_rotate_attributes$"), ("Python", r"pyo3::.*::rotate_attributes$"), ("JavaScript", r"webassembly_rotate_attributes$")):
        v = I.V(ctx, lang, rx_)
        a, p = (v.text(0), v.text(1)) if lang == "C" else (v.a[0], v.a[1])
        da, dp = v.json(a), v.json(p)
        got = v.out(0)[1] if lang == "C" else v.value
        # the serialised policy
        ser = [x for x in subterms(got) if x.op == "call" and type(x.args[0]) is str and re.search(r"(to_string|to_vec)$", x.args[0])]
        ctx.true(f"{lang}: the policy returned is serialised", v.where, len(ser) == 1, show(got)[:200], definite=False)
        if ser:
            A, Q = var("spec attributes"), var("spec policy")
            vs.append((v, subst_term(ser[0].args[1][0], {da: A, dp: Q}), subst_term(v.ok, {da: A, dp: Q})))
    for v, t, ok in vs[1:]:
        cmp(ctx, v, "rotated policy, as in C", t, vs[0][1], TRUE, None)


def header_out(ctx, v):
    if v.lang == "C":
        return v.out(0)[1], v.out(1)[1]
    if v.lang == "Python":
        return fld(v.value, 0, 0), fld(v.value, 0, 1)
    return None, None


def enc_header(ctx):
    for lang, rx_ in (("C", r"h_aes_encrypt_header$"), ("Python", r"pyo3::.*::encrypt_hybrid_header$"), ("JavaScript", r"webassembly_encrypt_hybrid_header$")):
        v = I.V(ctx, lang, rx_)
        if lang == "C":
            pol, pk, at_ = v.json(v.text(0)), I.parse("GpswMasterPublicKey", v.bytes(0)), v.json(v.text(1))
            uid = v.bytes(1)
            ad = ITE(v.given(2), I.some(mk("mem", v.nth("in", 2).ptr, v.nth("in", 2).len)), I.NONE)
            md = I.metadata(ctx, uid, ad)
        elif lang == "Python":
            md, pol, at_, pk = v.json(v.a[0]), v.json(v.a[1]), v.json(v.a[2]), I.parse("GpswMasterPublicKey", v.a[3])
        else:
            pol, pk, at_ = v.json(v.a[0]), I.parse("GpswMasterPublicKey", v.a[1]), v.decoded(v.a[2], r"from_(str|slice)$|try_from$")
            md = I.metadata(ctx, v.a[3], I.NONE)
        headers(ctx, v, pol, pk, at_, md)


def headers(ctx, v, pol, pk, at_, md):
    okc, h, _ = I.core(ctx, r"statics::encrypt_hybrid_header$", [("Option<.*Metadata", I.some(md)), (r"\bPolicy", pol), ("PublicKey", pk), (r"\[.*Attribute\]", at_)])
    key, hdr = ctx.get(h, "EncryptedHeader", "symmetric_key"), ctx.get(h, "EncryptedHeader", "encrypted_header_bytes")
    if v.lang == "JavaScript":
        cmp(ctx, v, "symmetric key and header", v.value, frame([enc("be", 4, length(key)), key, hdr]), v.ok, okc)
    else:
        gk, gh = header_out(ctx, v)
        cmp(ctx, v, "symmetric key", gk, key, v.ok, okc)
        cmp(ctx, v, "header", gh, hdr, v.ok, None)


def clear(ctx, v, udk, hdr):
    okc, c, _ = I.core(ctx, r"statics::decrypt_hybrid_header$", [("DecryptionKey|UserKey", udk), (r"\[u8\]", hdr)])
    key, md = ctx.get(c, "ClearTextHeader", "symmetric_key"), ctx.get(c, "ClearTextHeader", "meta_data")
    if v.lang == "C":
        cmp(ctx, v, "symmetric key", v.out(0)[1], key, v.ok, okc)
        cu, u = v.out(1)
        cmp(ctx, v, "resource identifier", u, I.meta_field(ctx, md, "uid"), AND(v.ok, cu), None)
        ca, a = v.out(2)
        adm = I.meta_field(ctx, md, "additional_data")
        cmp(ctx, v, "additional data", a, fld(adm, 1, 0), AND(v.ok, ca), None)
        ctx.implies(f"{v.lang}: additional data only when there is some", v.where, can(AND(v.ok, ca)), can(v.r.E.variant_cond(adm, 1, 2)))
    else:
        got = v.value
        mb = [x for x in subterms(got) if x.op == "call" and type(x.args[0]) is str and re.search(r"Metadata::try_to_bytes$", x.args[0])]
        mdb = fld(mk("call", mb[0].args[0], (md,)), 0, 0) if mb else UNDEF
        if v.lang == "Python":
            cmp(ctx, v, "symmetric key", fld(got, 0, 0), key, v.ok, okc)
            cmp(ctx, v, "metadata", fld(got, 0, 1), mdb, v.ok, None)
        else:
            cmp(ctx, v, "symmetric key and metadata", got, frame([enc("be", 4, length(key)), key, mdb]), v.ok, okc)


def dec_header(ctx):
    for lang, rx_ in (("C", r"h_aes_decrypt_header$"), ("Python", r"pyo3::.*::(?<!internal_)decrypt_hybrid_header$"), ("JavaScript", r"webassembly_decrypt_hybrid_header$")):
        v = I.V(ctx, lang, rx_)
        h, k = (v.bytes(0), v.bytes(1)) if lang == "C" else (v.a[1], v.a[0])
        clear(ctx, v, I.parse("GpswDecryptionKey", k), h)


def blocks(ctx):
    for side in ("encrypt", "decrypt"):
        for lang, rx_ in I.BLOCKS[side]:
            b = I.Block(ctx, lang, rx_)
            okc, r, _ = I.core(ctx, r"statics::%s_hybrid_block$" % side, [(r"\[u8\]", b.uid), (r"\[u8\]", b.data), ("^usize$", b.number), ("Key", b.key)])
            cmp(ctx, b.v, f"block {side}ion", b.result, r, b.ok, okc)


def header_size(ctx):
    for lang, rx_ in (("C", r"h_get_encrypted_header_size$"), ("Python", r"pyo3::.*::get_encrypted_header_size$"), ("JavaScript", r"webassembly_get_encrypted_header_size$")):
        v = I.V(ctx, lang, rx_)
        x = v.bytes(0)
        okc = v.ok if lang != "C" else AND(v.ok, P_le(INT(4), v.nth("in", 0).len))
        n = [d for d in subterms(v.value) if d.op == "dec"]
        ctx.true(f"{lang}: the header size is read from the bytes", v.where, len(n) == 1, show(v.value)[:200])
        if n:
            ctx.true(f"{lang}: the header size is big-endian on 4 bytes", v.where, n[0].args[0] in ("be", "bes") and n[0].args[1] == 4, show(n[0])[:100])
            ctx.same(f"{lang}: the header size is in the first 4 bytes", v.where, n[0].args[2], sl(x, INT(0), INT(4)), okc)
            ctx.same(f"{lang}: the size read is returned", v.where, v.value, n[0], okc)


CACHED = [
    ("C", r"h_aes_create_encryption_cache$", r"h_aes_encrypt_header_using_cache$", "enc"),
    ("C", r"h_aes_create_decryption_cache$", r"h_aes_decrypt_header_using_cache$", "dec"),
    ("JavaScript", r"webassembly_create_encryption_cache$", r"webassembly_encrypt_hybrid_header_using_cache$", "enc"),
    ("JavaScript", r"webassembly_create_decryption_cache$", r"webassembly_decrypt_hybrid_header_using_cache$", "dec"),
]


def cached(ctx):
    for lang, cr, us, kind in CACHED:
        c = I.V(ctx, lang, cr)
        ins = [e for e in c.r.ev("mapinsert") if e["map"].op == "ref" and e["map"].args[0][0] == "G"]
        if len(ins) != 1:
            ctx.true(f"{lang}: the cache is stored", c.where, False)
            continue
        stored = ins[0]["value"]
        v = I.V(ctx, lang, us)
        gets = list(dict.fromkeys(x for t in v.terms() + [v.ok] for x in subterms(t) if x.op == "mget"))
        if len(gets) != 1:
            ctx.true(f"{lang}: the cache is read", v.where, False, str(len(gets)))
            continue
        m = {gets[0]: stored}
        sub = lambda t: subst_term(t, m)
        w = Cached(v, sub, AND(sub(v.ok), c.ok))
        w.vs = (c, v)
        if kind == "enc":
            if lang == "C":
                pol, pk, at_ = c.json(c.text(0)), I.parse("GpswMasterPublicKey", c.bytes(0)), v.json(v.text(0))
                md = I.metadata(ctx, v.bytes(0), ITE(v.given(1), I.some(mk("mem", v.nth("in", 1).ptr, v.nth("in", 1).len)), I.NONE))
            else:
                pol, pk, at_ = c.json(c.a[0]), I.parse("GpswMasterPublicKey", c.a[1]), v.decoded(v.a[1], r"from_(str|slice)$|try_from$")
                md = I.metadata(ctx, v.a[2], I.NONE)
            headers(ctx, w, pol, pk, at_, md)
        else:
            k = c.bytes(0)
            h = v.bytes(0) if lang == "C" else v.a[1]
            clear(ctx, w, I.parse("GpswDecryptionKey", k), h)


class Cached:
    """a use function, the cache it reads being the one created"""

    def __init__(self, v, sub, ok):
        self.v, self.sub, self.ok = v, sub, ok
        self.lang, self.where, self.r = v.lang, v.where, v.r
        self.value = sub(v.value)

    def out(self, i):
        c, x = self.v.out(i)
        return self.sub(c), self.sub(x)


def combined(ctx):
    v = I.V(ctx, "Python", r"pyo3::.*hybrid_gpsw_aes::encrypt$")
    md, pol, at_, pk = v.json(v.a[0]), v.json(v.a[1]), v.json(v.a[2]), I.parse("GpswMasterPublicKey", v.a[3])
    okh, h, _ = I.core(ctx, r"statics::encrypt_hybrid_header$", [("Option<.*Metadata", I.some(md)), (r"\bPolicy", pol), ("PublicKey", pk), (r"\[.*Attribute\]", at_)])
    key, hdr = ctx.get(h, "EncryptedHeader", "symmetric_key"), ctx.get(h, "EncryptedHeader", "encrypted_header_bytes")
    okb, b, _ = I.core(ctx, r"statics::encrypt_hybrid_block$", [(r"\[u8\]", I.meta_field(ctx, md, "uid")), (r"\[u8\]", v.a[4]), ("^usize$", INT(0)), ("Key", key)])
    loose = lambda t: ent0(t)
    ctx.same("Python: encrypt: size, header and block 0 under the metadata identifier", v.where, loose(can(v.value)),
             loose(can(frame([enc("be", 4, length(hdr)), hdr, b]))), loose(can(v.ok)))
    ctx.implies("Python: encrypt: no success when the operation fails", v.where, loose(can(v.ok)), loose(can(AND(okh, okb))))
    accepts(ctx, v, "encrypt", loose(can(v.ok)), loose(can(AND(okh, okb))))
    d = I.V(ctx, "Python", r"pyo3::.*hybrid_gpsw_aes::decrypt$")
    x = d.a[1]
    n = dec("be", 4, sl(x, INT(0), INT(4)))
    e = p_add(INT(4), n)
    okc, c, _ = I.core(ctx, r"statics::decrypt_hybrid_header$", [("DecryptionKey|UserKey", I.parse("GpswDecryptionKey", d.a[0])), (r"\[u8\]", sl(x, INT(4), e))])
    key, m2 = ctx.get(c, "ClearTextHeader", "symmetric_key"), ctx.get(c, "ClearTextHeader", "meta_data")
    tb = [y for y in subterms(d.value) if y.op == "call" and type(y.args[0]) is str and re.search(r"Metadata::try_to_bytes$", y.args[0])]
    fb = [y for y in subterms(d.value) if y.op == "call" and type(y.args[0]) is str and re.search(r"Metadata::try_from_bytes$", y.args[0])
          and contains(y.args[1][0], lambda z: tb and z is tb[0])]
    back = {fld(y, 0, 0): m2 for y in fb}
    okb, b, _ = I.core(ctx, r"statics::decrypt_hybrid_block$", [(r"\[u8\]", I.meta_field(ctx, m2, "uid")), (r"\[u8\]", sl(x, e, length(x))), ("^usize$", INT(0)), ("Key", key)])
    ctx.same("Python: decrypt: block 0 after the header, under its metadata identifier", d.where, can(subst_term(d.value, back)), can(b), can(d.ok))
    ctx.implies("Python: decrypt: no success when the operation fails", d.where, can(subst_term(d.ok, back)), can(AND(okc, okb)))
    accepts(ctx, d, "decrypt", can(subst_term(d.ok, back)), can(AND(okc, okb)), can(AND(P_le(INT(4), length(x)), P_le(e, length(x)))))


def ent0(t):
    m = {x: mk("entropy", INT(0)) for x in subterms(t) if x.op == "entropy"}
    return subst_term(t, m) if m else t

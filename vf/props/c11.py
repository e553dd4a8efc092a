"""C11 - encoders, decoders and size functions agree."""
from ..ctx import *
from .. import terms as T
from ..layout import Layout
from . import scheme as S, iface

RULE = ("For every implementation of AsBytes: the decoder is evaluated on the term of the bytes the encoder writes for an arbitrary well-formed value (any number of "
        "elements, rows and columns); slices of those bytes are resolved to the elements they were written from by linear arithmetic, and every "
        "field of the result must be the field of the value, decoding must succeed, the size function must equal the length of the bytes, and every integer "
        "written must be big-endian on four bytes.  The same for the two header types, and ciphertext_len against the length of an encoded ciphertext.")
ASSUME = ["collections are not empty and have fewer than 2^32 - 1 elements", "group elements and scalars are read back from their own encoding by the curve library",
          "metadata are read back from their own encoding by cosmian_crypto_base", "an access structure has one attribute and one row of nb_col entries per row, no attribute twice (C07)",
          "elements of a master private key are not zero (C10)"]

MAXN = 2 ** 31 - 2


def check(ctx):
    S.init(ctx)
    encs = {}
    for f in ctx.find(r" as .*::AsBytes>::try_into_bytes$"):
        encs.setdefault(self_type(ctx, f), f)
    for n in ("GpswMasterPrivateKey", "GpswMasterPublicKey", "GpswMasterPublicDelegationKey", "GpswDecryptionKey", "GpswCipherText", "MonotoneSpanProgram"):
        if not any(n in s for s in encs):
            raise Missing(f"encoder of {n}")
    for s in sorted(encs):
        ctx.guard(f"{short(s)}: layout", codec, ctx, s, encs[s])
    for n in ("EncryptedHeader", "ClearTextHeader"):
        ctx.guard(f"{n}: layout", header, ctx, n)
    ctx.guard("announced ciphertext size", announced, ctx)


def self_type(ctx, f):
    return re.sub(r"^&", "", ctx.P.types[f["locals"][1]]["s"])


def short(s):
    h, _, t = s.partition("<")
    h = h.split("::")[-1]
    if h == "Vec":
        return "Vec<" + t.rstrip(">").split("::")[-1] + ">"
    return h


def method(ctx, s, name):
    for f in ctx.find(r" as .*::AsBytes>::%s$" % name):
        if name == "try_from_bytes":
            t = ctx.P.types[f["locals"][0]]["s"]
            m = re.match(r"(std|core)::result::Result<(.*), [^,]*>$", t)
            if m and m.group(2) == s:
                return f
        elif self_type(ctx, f) == s:
            return f
    raise Missing(f"{name} of {s}")


class Val:
    """an arbitrary well-formed value of a serialisable type"""

    def __init__(self, ctx, s, name="v"):
        self.ctx, self.pc, self.rows, self.cols = ctx, TRUE, None, None
        self.t = self.make(s, name)

    def size(self, name):
        n = var("number of " + name)
        T.RANGE[n] = (1, MAXN)
        self.pc = AND(self.pc, P_lt(INT(0), n))
        return n

    def make(self, s, name):
        ctx = self.ctx
        h = short(s)
        if h.startswith("Vec<"):
            return self.seq(name, self.size(name), re.match(r".*?<(.*)>$", s).group(1))
        if h == "MonotoneSpanProgram":
            R, C = self.size("rows"), self.size("columns")
            k, j = mk("k", ("c11", "r")), mk("k", ("c11", "c"))
            m = flat(R, k, seq([flat(C, j, seq([self.elem(re.match(r".*?<(.*)>$", s).group(1), at(at(var("matrix"), k), j))]))]))
            a = self.seq("row_to_attr", R, "u32")
            self.rows, self.cols = R, C
            self.pc = AND(self.pc, NOT(exists(R, k, exists(k, j, P_eq_int(at(a, k), at(a, j))))))
            return ctx.struct(h, nb_row=R, nb_col=C, matrix=m, row_to_attr=a, attr_to_row=bind("mbuild", R, k, T.MNIL, at(a, k), k))
        t = [t for t in ctx.P.types if t["k"] == "adt" and t["s"] == s]
        if t and t[0].get("local") and h != "Scalar":
            fs = t[0]["variants"][0]["fields"]
            by = {f["name"]: f for f in fs}
            vals = {}
            for f in fs:
                fs_ = ctx.P.types[f["ty"]]["s"]
                vals[f["name"]] = self.make(fs_, f["name"])
            if h == "GpswDecryptionKey":
                n = self.rows
                vals["raw_d_i"] = self.seq("raw_d_i", n, "")
                # the components used for pairings are the images of the transmitted ones
                k = mk("k", ("c11", "conv"))
                c = ctx.run(ctx.fn(r"::g3_to_g1$"), {0: at(vals["raw_d_i"], k)})
                vals["d_i"] = flat(n, k, seq([c.ret]))
            if h == "GpswMasterPrivateKey":
                k, x = mk("k", ("c11", "z")), vals["t_i"]
                self.pc = AND(self.pc, NOT(exists(length(x), k, P_eq(fld(at(x, k), 0, 0), ALG0))))
            if h == "GpswCipherText":
                n = self.n = self.size("attributes")
                vals["gamma"], vals["e_i"] = self.seq("gamma", n, "u32"), self.seq("e_i", n, "")
            return agg((t[0]["adt"], 0), [vals[f["name"]] for f in fs])
        return self.elem(s, var(name))

    def elem(self, s, x):
        """an element; wrappers of one field are opened"""
        for t in self.ctx.P.types:
            if t["k"] == "adt" and t["s"] == s and t.get("local") and len(t["variants"]) == 1 and len(t["variants"][0]["fields"]) == 1:
                return agg((t["adt"], 0), (x,))
        return x

    def seq(self, name, n, s):
        k = mk("k", ("c11", name))
        return flat(n, k, seq([self.elem(s, at(var(name), k))]))


def integers(ctx, what, where, b):
    bad = [x for x in subterms(b) if x.op == "enc" and (x.args[0] not in ("be", "bes") or x.args[1] not in (4, INT(4)))]
    ctx.true(f"{what}: integers are written big-endian on four bytes", where, not bad, "; ".join(show(x)[:100] for x in bad[:3]))


def codec(ctx, s, f):
    what = short(s)
    v = Val(ctx, s)
    r = ctx.run(f, {0: v.t})
    ok, b = ok_part(r)
    # sizes beyond the address space are refused by both sides
    pc = AND(v.pc, AND(r.st.pc, ok))
    L = Layout(v.pc)
    b = restrict(b, pc)
    integers(ctx, what, f["path"], b)
    g = method(ctx, s, "len_bytes")
    q = ctx.run(g, {0: v.t})
    ctx.same(f"{what}: the size function is the number of bytes written", g["path"], L.resolve(restrict(q.ret, q.st.pc), v.pc), L.resolve(length(b), v.pc), AND(pc, q.st.pc))
    d = method(ctx, s, "try_from_bytes")
    q = ctx.run(d, {0: b}, pc=v.pc)
    dok, t = ok_part(q)
    got = L.resolve(t, v.pc)
    small = AND(pc, FITS(v))
    ctx.implies(f"{what}: the bytes written are accepted", d["path"], small, L.resolve(AND(q.st.pc, dok), v.pc))
    fields(ctx, what, d["path"], got, v.t, small)


def FITS(v):
    """the sizes computed while decoding are addressable"""
    c = TRUE
    if v.rows is not None:
        c = P_le(p_add(p_scale(v.rows, 32), p_scale(p_mul(v.rows, v.cols), 64)), INT(2 ** 60))
    return c


def fields(ctx, what, where, got, v, pc):
    ts = [t for t in ctx.P.types if t["k"] == "adt" and t.get("local") and t["adt"].split("::")[-1] == what]
    if not ts:
        ctx.same(f"{what}: read back as written", where, got, v, pc)
        return
    for i, f in enumerate(ts[0]["variants"][0]["fields"]):
        ctx.same(f"{what}: {f['name']} is read back as written", where, fld(got, 0, i), fld(v, 0, i), pc)


META = r"metadata::Metadata::try_from_bytes$"


def header(ctx, n):
    f = ctx.fn(r"::%s::<.*>::try_into_bytes$" % n)
    r = ctx.run(f, {}, stops=iface.STOPS)
    ok, b = ok_part(r)
    v = r.E.load(r.st, r.args[0]) if r.args[0].op == "ref" else r.args[0]
    pc = AND(r.st.pc, ok)
    d = ctx.fn(r"::%s::<.*>::try_from_bytes$" % n)
    q = ctx.run(d, {0: b}, stops=iface.STOPS)
    dok, t = ok_part(q)
    dok = AND(q.st.pc, dok)
    # metadata are read back from their own bytes
    back = {}
    for x in subterms(agg("pair", (t, dok))):
        if x.op == "call" and re.search(r"Metadata::try_from_bytes$", x.args[0]) and x.args[1][0].op == "fld" and re.search(r"Metadata::try_to_bytes$", x.args[1][0].args[0].args[0]):
            back[x] = agg(("std::result::Result", 0), (x.args[1][0].args[0].args[1][0],))
    sub = lambda x: subst_term(x, back) if back else x
    L = Layout(pc)
    ctx.implies(f"{n}: the bytes written are accepted", d["path"], pc, L.resolve(sub(dok), pc))
    fields(ctx, n, d["path"], L.resolve(sub(t), pc), v, pc)


def announced(ctx):
    f = ctx.fn(r" as .*AbeScheme>::ciphertext_len$")
    s = [self_type(ctx, g) for g in ctx.find(r"GpswCipherText<.*> as .*::AsBytes>::try_into_bytes$")]
    if not s:
        raise Missing("encoder of GpswCipherText")
    v = Val(ctx, s[0])
    r = ctx.run(ctx.find(r"GpswCipherText<.*> as .*::AsBytes>::try_into_bytes$")[0], {0: v.t})
    ok, b = ok_part(r)
    q = ctx.run(f, {0: v.n})
    pc = AND(AND(v.pc, AND(r.st.pc, ok)), q.st.pc)
    ctx.same("announced ciphertext size: the number of bytes of a ciphertext for that many attributes", f["path"], q.ret, restrict(length(b), pc), pc)

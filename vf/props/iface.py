"""Operations offered by the language interfaces, with their inputs decoded and outputs as terms."""
from ..ctx import *
from . import scheme as S
from . import hybrid as H
from . import ffi as F

OPTION = "std::option::Option"
LIMIT = 1 << 30


def some(x):
    return agg((OPTION, 1), (x,))


NONE = agg((OPTION, 0), ())


def msp_stop(E, st, a, info):
    """the translation of an access policy under a policy (C06/C07), arguments by type"""
    vals = [H.arg(E, st, x) for x in a]
    order = sorted(range(len(vals)), key=lambda i: re.sub(r"^&", "", E.types[info.atys[i]]["s"]))
    return E.note(mk("call", "op:access_structure", tuple(vals[i] for i in order)), info.dty)


STOPS = H.STOPS + [(lambda fn: re.search(r"::policy_to_msp$", fn["path"]) is not None, msp_stop)]


def plain(ctx, rx_):
    return ctx.fn(rx_, lambda i: not re.search(r"__wasm_bindgen|__pyfunction|\{closure", i["path"]))


class V:
    """one interface function, analysed"""

    def __init__(self, ctx, lang, rx_):
        self.ctx, self.lang = ctx, lang
        f = plain(ctx, rx_)
        self.f, self.where = f, f["path"]
        r = ctx.run(f, {}, stops=STOPS)
        self.r = r
        if lang == "C":
            self.name = f["path"].rsplit("::", 1)[1]
            self.A = F.args(ctx, self.name, f)
            self.ok = F.ok_of(self.name, r)
            self.value = r.ret
        else:
            ok, self.value = ok_part(r)
            self.ok = AND(r.st.pc, ok)
        self.a = r.args

    def nth(self, kind, i):
        xs = [a for a in self.A if a.kind == kind]
        if i >= len(xs):
            raise Missing(f"{kind} argument {i} of {self.where}")
        return xs[i]

    def bytes(self, i):
        """C: bytes of the i-th input buffer; others: the i-th argument"""
        if self.lang != "C":
            return self.a[i]
        a = self.nth("in", i)
        m = mk("mem", a.ptr, a.len)
        if a.optional:
            return ITE(F.null(a.ptr), NIL, ITE(P_le(a.len, INT(0)), NIL, m))
        return m

    def given(self, i):
        a = self.nth("in", i)
        return AND(NOT(F.null(a.ptr)), P_lt(INT(0), a.len))

    def text(self, i):
        if self.lang != "C":
            return self.a[i]
        return mk("call", "cstr", (self.nth("str", i).ptr,))

    def ints(self, i):
        return self.nth("int", i).len

    def out(self, i):
        """C: (condition, value) of the bytes written to the i-th output"""
        a = self.nth("out", i)
        res, c0 = UNDEF, FALSE
        for p, L, v, pc, e in F.mem_writes(self.r):
            for c, q in F.split(p):
                if q is a.ptr:
                    c = AND(pc, c)
                    res = v if res is UNDEF else ITE(c, v, res)
                    c0 = OR(c0, c)
        return c0, res

    def terms(self):
        ts = [self.r.ret]
        if self.lang == "C":
            ts += [v for p, L, v, pc, e in F.mem_writes(self.r)]
            ts += [e["value"] for e in self.r.ev("mapinsert")]
        return ts

    def decoded(self, x, rx_):
        """the value decoded from the argument x by the (opaque) decoder used in this function"""
        r_ = re.compile(rx_)
        found = list(dict.fromkeys(c for t in self.terms() for c in subterms(t)
                                   if c.op == "call" and type(c.args[0]) is str and r_.search(c.args[0]) and c.args[1] and c.args[1][0] is x))
        if not found:
            for c in (c for t in self.terms() for c in subterms(t) if c.op == "call" and type(c.args[0]) is str and r_.search(c.args[0]) and c.args[1]):
                if changed(c.args[1][0]) is x and not re.search(r"trim(_start|_end|_ascii\w*)?\b", show(c.args[1][0])):
                    self.ctx.ob("what is decoded is what was given", NE, self.where, f"{show(c)[:300]} instead of {show(x)}")
                    return c
            raise Missing(f"decoding of {show(x)} in {self.where}")
        return fld(found[0], 0, 0)

    def json(self, x):
        return self.decoded(x, r"from_(str|slice|reader)$")


def parse(T, x):
    return fld(mk("call", "parse:" + T, (x,)), 0, 0)


def encode(T, x):
    return fld(mk("call", "encode:" + T, (x,)), 0, 0)


def core(ctx, rx_, by_type, pred=None):
    """run a core function with arguments given by type; by_type: list of (type regex, term) in order"""
    f = ctx.fn(rx_, pred)
    used = {}
    left = list(range(f["argc"]))
    for rxx, term in by_type:
        for n in left:
            if re.search(rxx, ctx.P.types[f["locals"][n + 1]]["s"]):
                used[n] = term
                left.remove(n)
                break
        else:
            raise Missing(f"argument {rxx} of {f['path']}")
    r = ctx.run(f, used, stops=STOPS)
    ok, v = ok_part(r)
    return AND(r.st.pc, ok), v, f


def metadata(ctx, uid, ad):
    for t in ctx.P.types:
        if t["k"] == "adt" and t["adt"].endswith("::Metadata"):
            return agg((t["adt"], 0), [uid if f["name"] == "uid" else ad for f in t["variants"][0]["fields"]])
    raise Missing("type Metadata")


def meta_field(ctx, m, name):
    for t in ctx.P.types:
        if t["k"] == "adt" and t["adt"].endswith("::Metadata"):
            for i, f in enumerate(t["variants"][0]["fields"]):
                if f["name"] == name:
                    return fld(m, 0, i)
    raise Missing("field Metadata." + name)


BLOCKS = {
    "encrypt": [("C", r"h_aes_encrypt_block$"), ("Python", r"pyo3::.*::encrypt_hybrid_block$"), ("JavaScript", r"webassembly_encrypt_hybrid_block$")],
    "decrypt": [("C", r"h_aes_decrypt_block$"), ("Python", r"pyo3::.*::decrypt_hybrid_block$"), ("JavaScript", r"webassembly_decrypt_hybrid_block$")],
}


class Block:
    """a block operation: key, uid, number, data as terms; ok condition; result"""

    def __init__(self, ctx, lang, rx_):
        v = V(ctx, lang, rx_)
        self.v, self.ok, self.where, self.lang = v, v.ok, v.where, lang
        if lang == "C":
            self.key, self.uid, self.data = v.bytes(0), v.bytes(1), v.bytes(2)
            n = v.ints(0)
            cs = [e for e in v.r.ev("cast") if e["value"] is n and e["to"] in ("usize", "u64")]
            self.number = mk("cast", n, cs[0]["to"]) if cs else n
            c, self.result = v.out(0)
            o = v.nth("out", 0)
            self.pre = AND(AND(v.given(0), v.given(2)), AND(AND(NOT(F.null(o.ptr)), NOT(F.null(o.len))), P_lt(INT(0), o.cap())))
            self.fits = P_le(length(self.result), o.cap()) if self.result is not UNDEF else FALSE
            self.empty = NOT(P_lt(INT(0), v.nth("in", 2).len))
            self.len = v.nth("in", 2).len
            self.keylen = v.nth("in", 0).len
        else:
            self.key, self.uid, self.number, self.data = v.a[0], v.a[1], v.a[2], v.a[3]
            if lang == "JavaScript":
                self.uid = ITE(tag(v.a[1], 1, 2), fld(v.a[1], 1, 0), NIL)
                self.number = ITE(tag(v.a[2], 1, 2), fld(v.a[2], 1, 0), INT(0))
            self.result = v.value
            self.pre, self.fits = TRUE, TRUE
            self.empty = P_eq_int(length(self.data), INT(0))
            self.len = length(self.data)
            self.keylen = length(self.key)


class CoreBlock:
    def __init__(self, ctx, f):
        self.where = f["path"]
        self.lang = "Rust"
        tys = [ctx.P.types[f["locals"][n + 1]]["s"] for n in range(f["argc"])]
        r = ctx.run(f, {}, stops=STOPS)
        ok, self.result = ok_part(r)
        self.r = r
        self.ok = AND(r.st.pc, ok)
        bytes_ = [n for n, t in enumerate(tys) if re.search(r"\[u8\]", t)]
        num = [n for n, t in enumerate(tys) if t == "usize"]
        key = [n for n in range(len(tys)) if n not in bytes_ and n not in num]
        if len(bytes_) != 2 or len(num) != 1 or len(key) != 1:
            raise Missing("arguments of " + f["path"])
        a = r.args
        self.key, self.number, self.uid, self.data = a[key[0]], a[num[0]], a[bytes_[0]], a[bytes_[1]]
        self.len = length(self.data)
        self.empty = P_eq_int(self.len, INT(0))
        self.pre = self.fits = TRUE
        self.keylen = None


def all_blocks(ctx, side):
    out = []
    for f in ctx.find(r"statics::%s_hybrid_block$" % side):
        out.append(CoreBlock(ctx, f))
    for lang, rx_ in BLOCKS[side]:
        out.append(Block(ctx, lang, rx_))
    return out


CIPHER = {"encrypt": r"Block.*::to_encrypted_bytes$|SymmetricCrypto>::encrypt$", "decrypt": r"Block.*::from_encrypted_bytes$|SymmetricCrypto>::decrypt$"}


def opaque_success(c):
    """every fallible operation outside the library mentioned in the condition succeeds"""
    out = TRUE
    for a in dict.fromkeys(x for x in subterms(c) if x.op == "tag" and x.args[0].op == "call" and x.args[1:] == (1, 2)):
        out = AND(out, NOT(lit(a)))
    return out

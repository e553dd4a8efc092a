"""C24 - secrets stay out of error messages and diagnostics."""
from ..ctx import *
from . import scheme as S, iface, hybrid as H

RULE = ("explicit information flow over the values computed for every public operation, interface function and decoder: the value of every formatting argument "
        "(messages, panics, prints), every error returned and every error stored for C is walked through data dependences - not through lengths, discriminants, "
        "branch conditions or the error component of a failed call into a dependency - and must not reach a secret: key material of a master private or user key, "
        "their encodings, symmetric keys, plaintexts, the encapsulated secret, or a random draw")
ASSUME = ["element counts and sizes announced in an encoded key are not secret", "errors returned by the dependencies do not quote their secret inputs", "which branch was taken may be visible"]

SECRET_NAME = re.compile(r"symmetric_key|master_private_key|user_decryption_key|decryption_key|user_key|priv_?key|plain_?text|clear_?text|^msg|secret")
PUBLIC_NAME = re.compile(r"encrypted|delegation|public")
SECRET_TYPE = re.compile(r"GpswMasterPrivateKey|GpswDecryptionKey|bls12_381::Scalar\b|\bGt\b|symmetric_crypto::.*Key\b")
STOP_OPS = {"len", "int", "str", "bytes", "bool", "bv", "k", "undef", "tag", "entropy", "clone_entropy", "dec"}
ENCODING = re.compile(r"(^|::)(to_(un)?compressed|from_(un)?compressed|(to|from)_bytes|ctval)$")
SECRET_CALL = re.compile(r"^(scheme:(generate_master_key|key_generation|key_delegation|decrypt|generate_random_plaintext)|encode:(GpswMasterPrivateKey|GpswDecryptionKey)|parse:(GpswMasterPrivateKey|GpswDecryptionKey))$")
DECRYPT_CALL = re.compile(r"Block.*::from_encrypted_bytes$|SymmetricCrypto>::decrypt$|::clear_text(_owned)?$")


class Flow:
    def __init__(self, ctx, r):
        self.ctx = ctx
        self.vars = {}
        inst = r.inst
        block_enc = re.search(r"encrypt_(hybrid_)?block$|::encrypt$", inst["path"])
        for n, a in enumerate(r.args):
            s = ctx.P.types[inst["locals"][n + 1]]["s"]
            name = a.args[0].rstrip("'") if a.op == "var" else ""
            sec = bool(SECRET_TYPE.search(s)) and not re.search(r"Option<.*MonotoneSpan|GpswMasterPublic", s)
            sec = sec or (SECRET_NAME.search(name) and not PUBLIC_NAME.search(name) and re.search(r"u8|i8|Uint8Array|\[", s))
            sec = sec or (block_enc and re.match(r"(data|plain)", name))
            sec = sec and not re.match(r"[iu](8|16|32|64|128|size)$", s)
            if sec:
                self.vars[a] = (name, bool(re.match(r"\*", s)))
        self.msp = ctx.field("GpswDecryptionKey", "msp")
        self.parsed = set()

    def reach(self, t):
        """first secret reached from t through data, as text; second component: is it certainly one"""
        seen = set()
        out = []

        def go(x, weak):
            if type(x) is tuple:
                for y in x:
                    go(y, weak)
                return
            if type(x) is not Term or (x, weak) in seen:
                return
            seen.add((x, weak))
            o = x.op
            if o in STOP_OPS:
                return
            if o == "ite":
                go(x.args[1], weak)
                go(x.args[2], weak)
                return
            if o == "var":
                v = self.vars.get(x)
                if v and not v[1]:
                    out.append((v[0], not weak))
                return
            if o in ("draw", "xof"):
                out.append((o, not weak))
                return
            if o == "mem":
                v = self.vars.get(x.args[0])
                if v:
                    out.append((v[0], not weak))
                return
            if o == "load":
                return
            if o == "fld":
                b, vi, i = x.args[0], x.args[1], x.args[2]
                if b.op == "call" and vi == 1:
                    return              # an error of a dependency
                if b.op == "call" and type(b.args[0]) is str and SECRET_CALL.match(b.args[0]) and vi == 0:
                    out.append((b.args[0], not weak))
                    return
                if i == self.msp and b.op in ("var", "fld") and self.is_key(b):
                    return
                go(b, weak)
                return
            if o == "call":
                nm = x.args[0]
                if type(nm) is str:
                    if SECRET_CALL.match(nm) or DECRYPT_CALL.search(nm):
                        out.append((nm, not weak))
                        return
                    if re.search(r"scheme:encrypt$|op:access_structure|parse:|size:|encode:|(utf8|nul)_err", nm):
                        return
                go(x.args[1:], weak or not (type(nm) is str and ENCODING.search(nm)))
                return
            if o in ("unk", "phi", "rec", "cast", "le0", "eq0", "tt"):
                weak = True
            for y in x.args:
                go(y, weak)
        go(t, False)
        return out

    def is_key(self, b):
        for a in self.vars:
            if any(y is a for y in subterms(b)):
                return True
        return b.op == "fld" and b.args[0].op == "call" and "GpswDecryptionKey" in str(b.args[0].args[0])


def errors(r):
    """error components of the result"""
    out = []

    def go(t):
        if t.op == "ite":
            go(t.args[1])
            go(t.args[2])
        elif t.op == "agg" and t.args[0] == ("std::result::Result", 1):
            out.append(t.args[1][0])
        elif t.op == "agg" and t.args[0] == ("std::result::Result", 0):
            pass
        else:
            e = fld(t, 1, 0)
            out.append(e)
    go(r.ret)
    return out


def check(ctx):
    S.init(ctx)
    n = 0
    for i in list(ctx.P.inst):
        if i is None or "{closure" in i["path"] or re.search(r"::test|demo|__|Display>::fmt$|Debug>::fmt$|std::cmp|::clone$", i["path"]):
            continue
        sig = " ".join(ctx.P.types[i["locals"][k + 1]]["s"] for k in range(i["argc"]))
        core = "::interfaces::" not in i["path"]
        ret = ctx.P.types[i["locals"][0]]["s"]
        public = re.search(r"AsBytes>::|AbeScheme>::|engine::Engine|Gpsw::<G>::|BilinearMap>::|policy_to|MonotoneSpanProgram::<", i["path"]) if core else \
            re.search(r"interfaces::(ffi|pyo3|wasm_bindgen)::\w+::\w+$|hybrid_crypto::statics::", i["path"])
        if not public or not ("Result<" in ret or "ffi::" in i["path"] or "fmt::" in sig or core):
            continue
        n += 1
        ctx.guard(f"{name(i)}: messages", one, ctx, i, core)
    if not n:
        raise Missing("operations")


def name(i):
    p = i["path"]
    m = re.match(r"<(.*?) as .*>::(\w+)$", p)
    if m:
        return re.sub(r"<.*", "", m.group(1)).split("::")[-1] + "::" + m.group(2)
    q = re.sub(r"::<[^:]*>", "", p).split("::")
    return "::".join(q[-2:])


def one(ctx, i, core):
    r = ctx.run(i, {}, stops=() if core else iface.STOPS)
    fl = Flow(ctx, r)
    w = i["path"]
    items = [(f"{name(i)}: what is formatted", e["value"], e) for e in r.ev("fmt")]
    if "Result<" in ctx.P.types[i["locals"][0]]["s"]:
        items += [(f"{name(i)}: what an error carries", t, None) for t in errors(r)]
    items += [(f"{name(i)}: what is stored as last error", c, None) for c in cells(r)]
    if re.search(r"AsBytes>::try_from_bytes$", w) and re.search(r"Scalar|GpswMasterPrivateKey|GpswDecryptionKey|\bGt\b", w + ctx.P.types[i["locals"][0]]["s"]):
        # what is decoded is secret
        fl.vars[r.args[0]] = ("the bytes of a secret", False)
    bad = {}
    for key, t, e in items:
        for s, sure in fl.reach(t):
            bad.setdefault(key, []).append((s, sure, t, e))
    for key in dict.fromkeys(k for k, _, _ in items) or [f"{name(i)}: no message"]:
        b = bad.get(key)
        if not b:
            ctx.ob(key, EQ, w)
            continue
        sure = [x for x in b if x[1]]
        s, _, t, e = (sure or b)[0]
        at_ = f" at {e['site']}" if e and e.get("site") else ""
        ctx.ob(key, NE if sure else UNK, w, f"depends on {s}{at_}: {show(t)[:300]}")


def cells(r):
    out = []
    for k, v in r.st.s.items():
        if k[0] == "G" and "LocalKey" in show(k[1]):
            out.append(v)
    return out

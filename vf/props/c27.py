"""C27 - key roles and key internals are separated by the type system."""
from ..ctx import *
from .. import witness

RULE = ("Compile-fail witnesses: for every public operation of the engine, of the hybrid layer and of the scheme trait, and every key parameter, one program "
        "per other kind of key is type-checked by rustc against the current crate and has to be rejected in that function (E0308, E0277); programs that read "
        "each field of each key type or build the key from its fields have to be rejected (E0616, E0451, E0423), as do programs that clone or copy a master "
        "private key; the same programs with the right key have to be accepted, otherwise the witness decides nothing. Item tables: no public method and no "
        "conversion or dereference trait of a key type hands out its group elements or another kind of key.")
TECHNIQUE = 'static analysis: compile-fail witnesses (programs rustc has to reject, each paired with one it has to accept) and a query over public methods and trait impls of the key types'
LEVEL = 'complete for the operations, key kinds and fields enumerated from the current source; the compiler is trusted'
ASSUME = ["serialising a key and parsing the bytes as another kind of key is outside the type system"]

PRELUDE = """#![allow(unused, unreachable_code)]
use cosmian_abe_gpsw::core::{bilinear_map::bls12_381::Bls12_381, Engine, gpsw::{Gpsw, AbeScheme, AsBytes}, msp::MonotoneSpanProgram};
use cosmian_abe_gpsw::interfaces::hybrid_crypto::*;
use cosmian_abe_gpsw::interfaces::abe_policy::{AccessPolicy, Attribute, Policy};
use cosmian_crypto_base::symmetric_crypto::{aes_256_gcm_pure::Aes256GcmCrypto, Metadata};
type B = Bls12_381;
type S = Gpsw<B>;
type Private = <S as AbeScheme>::MasterPrivateKey;
type Public = <S as AbeScheme>::MasterPublicKey;
type Delegation = <S as AbeScheme>::MasterPublicDelegationKey;
type User = <S as AbeScheme>::UserDecryptionKey;
fn any<T>() -> T { loop {} }
"""
ROLES = ("Private", "Public", "Delegation", "User")
# operation, right roles of its key parameters, call
OPS = [
    ("Engine::generate_user_key", ("Private",), "let e: Engine<S> = any(); let _ = e.generate_user_key(any::<&Policy>(), {0}, any::<&AccessPolicy>());"),
    ("Engine::delegate_user_key", ("Delegation", "User"), "let e: Engine<S> = any(); let _ = e.delegate_user_key(any::<&Policy>(), {0}, {1}, any::<&AccessPolicy>());"),
    ("Engine::encrypt", ("Public",), "let e: Engine<S> = any(); let _ = e.encrypt(any::<&Policy>(), {0}, any::<&[Attribute]>(), any::<&<S as AbeScheme>::PlainText>());"),
    ("Engine::decrypt", ("User",), "let e: Engine<S> = any(); let _ = e.decrypt(any::<&<S as AbeScheme>::CipherText>(), {0});"),
    ("Engine::generate_symmetric_key", ("Public",), "let e: Engine<S> = any(); let _ = e.generate_symmetric_key(any::<&Policy>(), {0}, any::<&[Attribute]>(), 32);"),
    ("Engine::decrypt_symmetric_key", ("User",), "let e: Engine<S> = any(); let _ = e.decrypt_symmetric_key({0}, any::<&[u8]>(), 32);"),
    ("AbeScheme::key_generation", ("Private",), "let s: S = any(); let _ = AbeScheme::key_generation(&s, any::<&MonotoneSpanProgram<i32>>(), {0});"),
    ("AbeScheme::key_delegation", ("User", "Delegation"), "let s: S = any(); let _ = AbeScheme::key_delegation(&s, any::<&Option<MonotoneSpanProgram<i32>>>(), {0}, {1});"),
    ("AbeScheme::encrypt", ("Public",), "let s: S = any(); let _ = AbeScheme::encrypt(&s, any::<&<S as AbeScheme>::PlainText>(), any::<&[u32]>(), {0});"),
    ("AbeScheme::decrypt", ("User",), "let s: S = any(); let _ = AbeScheme::decrypt(&s, any::<&<S as AbeScheme>::CipherText>(), {0});"),
    ("encrypt_hybrid_header", ("Public",), "let _ = encrypt_hybrid_header::<S, Aes256GcmCrypto>(any::<&Policy>(), {0}, any::<&[Attribute]>(), any::<Option<Metadata>>());"),
    ("decrypt_hybrid_header", ("User",), "let _ = decrypt_hybrid_header::<S, Aes256GcmCrypto>({0}, any::<&[u8]>());"),
]
TYPES = {"Private": "GpswMasterPrivateKey", "Public": "GpswMasterPublicKey", "Delegation": "GpswMasterPublicDelegationKey", "User": "GpswDecryptionKey"}
SECRET = r"Scalar|\bG1\b|\bG2\b|\bG3\b|\bGt\b|G1Affine|G2Affine|Projective|Prepared|Pairing"
W = "programs outside the crate"


def call(text, roles):
    return text.format(*[f"any::<&{r}>()" for r in roles])


def check(ctx):
    if ctx.partial:
        return
    good = witness.Crate("accepted", PRELUDE)
    bad = witness.Crate("rejected", PRELUDE)
    build = witness.Crate("built", PRELUDE)
    n = 0
    neg = []
    for op, roles, text in OPS:
        good.add(op, f"fn good{n}() {{ {call(text, roles)} }}")
        n += 1
        for j, r in enumerate(roles):
            for q in ROLES:
                if q != r:
                    rs = roles[:j] + (q,) + roles[j + 1:]
                    key = f"{op} refuses a {q.lower()} key for its {r.lower()} key"
                    bad.add(key, f"fn bad{len(neg)}() {{ {call(text, rs)} }}")
                    neg.append((key, op))
    priv = []
    for role, name in TYPES.items():
        good.add(f"use {role}", f"fn good{n}(k: &{role}) {{ let _ = k.try_into_bytes(); }}")
        n += 1
        t = next((i for i in ctx.P.items if i["kind"] == "Struct" and i["path"].endswith("::" + name)), None)
        if t is None:
            raise Missing("type " + name)
        for f in t["fields"]:
            key = f"the part {f['name']} of {name} cannot be read"
            bad.add(key, f"fn bad{len(neg) + len(priv)}(k: &{role}) {{ let _ = &k.{f['name']}; }}")
            priv.append((key, f"use {role}"))
        key = f"{name} cannot be built from its parts"
        init = ", ".join(f"{f['name']}: any()" for f in t["fields"]) if t["fields"] and not t["fields"][0]["name"].isdigit() else None
        expr = f"{role} {{ {init} }}" if init else f"{role}({', '.join('any()' for _ in t['fields'])})"
        build.add(key, f"fn bad{len(neg) + len(priv)}() -> {role} {{ {expr} }}")
        priv.append((key, f"use {role}"))
    dup = []
    for how, text in (("cloned", "fn {}(k: &Private) -> Private {{ k.clone() }}"), ("copied", "fn {}(k: &Private) -> Private {{ *k }}"),
                      ("cloned by a bound", "fn {}() {{ fn need<T: Clone>() {{}} need::<Private>() }}"),
                      ("cloned with the other master keys", "fn {}() {{ fn need<T: Clone>(_: &T) {{}} let s: S = any(); need(&s.generate_master_key(3).unwrap()) }}")):
        key = f"a master private key cannot be {how}"
        bad.add(key, text.format(f"dup{len(dup)}"))
        dup.append((key, "generate" if "other" in how else "use Private"))
    good.add("generate", "fn generate() { fn need<T>(_: &T) {} let s: S = any(); need(&s.generate_master_key(3).unwrap()) }")
    g, rest, rc = good.judge()
    usable = {k: not v for k, v in g.items()}
    if rest:
        ctx.true("the accepted programs are understood", W, False, f"{list(rest.values())[:2]}", definite=False)
        usable = {k: False for k in usable}
    for k, v in g.items():
        ctx.true(f"{k} accepts the right key", W, not v, f"{v[:1]}", definite=False)
    b, rest, rc = bad.judge()
    b.update(build.judge()[0])
    for key, base in neg + priv + dup:
        if usable.get(base):
            ctx.true(key, W, bool(b[key]), "rustc accepts the program")
        else:
            ctx.true(key, W, False, "the program with the right key is not accepted either", definite=False)
    handed(ctx)


def handed(ctx):
    """methods and trait implementations of the key types that hand out their parts"""
    names = "|".join(TYPES.values())
    for i in ctx.P.items:
        if i["kind"] == "AssocFn" and i["vis"] == "pub" and re.search(rf"::({names})::<[^>]*>::\w+$", i["path"]):
            out = i["sig"].rsplit("->", 1)[1] if "->" in i["sig"] else ""
            ctx.true("no public method hands out the parts of a key", i["path"], not re.search(SECRET, out) and not re.search(names, re.sub(r"Self", "", out).replace(i["path"].split("::<")[0], "")), i["sig"][:200])
        if i["kind"].startswith("Impl") and i.get("trait"):
            t, s = i["trait"], i["self"]
            k = re.search(names, s)
            if k and re.match(r"(std|core)::(ops::(Deref|DerefMut|Index|IndexMut)|convert::(AsRef|AsMut)|borrow::(Borrow|BorrowMut)|iter::IntoIterator)\b", t):
                ctx.true("no trait hands out the parts of a key", i["path"], False, f"{t} for {s}")
            m = re.match(r"(std|core)::convert::(From|TryFrom|Into|TryInto)<(.*)>$", t)
            if m:
                o = re.search(names, m.group(3))
                other = m.group(3) if k else s
                if (k or o) and (re.search(SECRET, other) or re.search(names, other)):
                    ctx.true("no conversion hands out the parts of a key or changes its kind", i["path"], False, f"{t} for {s}")
            if k:
                ctx.true("the traits of a key were examined", f"{s} {t}", True)

"""C31 - rotation renews every listed attribute; encryption uses the newest values."""
from ..ctx import *
from ..terms import binder_h
from . import scheme as S
from . import hybrid as H
from . import iface as I
from . import ffi as F

RULE = ("For each interface's rotation function: the policy that is serialised is, for every number of listed attributes, the parsed policy with "
        "abe_policy's rotation applied to each listed attribute in turn; success is reported exactly when both inputs parse, no rotation fails and the result fits. "
        "On the encryption side: the attribute values given to every scheme encryption are those abe_policy reports as the current ones of the given "
        "policy for all the given attributes, and a refusal by abe_policy is an error.")
ASSUME = ["abe_policy's rotate gives the attribute a value no attribute had before, and its attributes_values reports the newest value of each attribute"]
TRUST = ["abe_policy", "serde_json"]

WHERE = (("C", r"h_rotate_attributes$"), ("Python", r"pyo3::.*::rotate_attributes$"), ("JavaScript", r"webassembly_rotate_attributes$"))


def check(ctx):
    S.init(ctx)
    for lang, rx_ in WHERE:
        ctx.guard(f"{lang}: rotation", rotation, ctx, lang, rx_)
    ctx.guard("values of Engine::encrypt", encrypt, ctx)
    ctx.guard("values of the headers", headers, ctx)


def rotated(attrs, policy, n=None):
    """policy after the first n (all) of attrs were rotated, in order; (policy, failure of the next rotation)"""
    k, p = mk("k", "c31"), var("c31 policy")
    body = mk("call", "rotate!mut0", (p, at(attrs, k)))
    h = binder_h(body)
    body = subst(subst_term(body, {p: mk("bv", h, "p")}), {k: mk("bv", h, "k")})
    return mk("rec", h, length(attrs) if n is None else n, policy, body)


def rename(t):
    """abe_policy's rotation under one name, however it is reached"""
    def full(x):
        return x.op == "call" and type(x.args[0]) is str and re.search(r"(^|::)rotate(!mut0)?$", x.args[0]) and x.args[0] not in ("rotate", "rotate!mut0")
    while True:
        m = {x: mk("call", "rotate!mut0" if x.args[0].endswith("!mut0") else "rotate", x.args[1]) for x in subterms(t) if full(x)}
        if not m:
            return t
        t = subst_term(t, m)


def rotation(ctx, lang, rx_):
    v = I.V(ctx, lang, rx_)
    a, p = (v.text(0), v.text(1)) if lang == "C" else (v.a[0], v.a[1])
    attrs, pol = v.json(a), v.json(p)
    got, ok = rename(v.out(0)[1] if lang == "C" else v.value), rename(v.ok)
    ser = list(dict.fromkeys(x for x in subterms(got) if x.op == "call" and type(x.args[0]) is str and re.search(r"(to_string|to_vec)$", x.args[0])))
    if len(ser) != 1:
        ctx.ob(f"{lang}: the rotated policy is serialised", UNK, v.where, show(got)[:300])
        return
    spec = rotated(attrs, pol)
    ctx.same(f"{lang}: every listed attribute is rotated, in order", v.where, ser[0].args[1][0], spec, ok)
    whole = got is ser[0] or got is fld(ser[0], 0, 0)
    ctx.true(f"{lang}: the serialised policy is what is returned", v.where, whole, show(got)[:300], definite=False)
    k = mk("k", "c31f")
    fails = exists(length(attrs), k, tag(mk("call", "rotate", (rotated(attrs, pol, k), at(attrs, k))), 1, 2))
    parse = [x for x in (attrs.args[0], pol.args[0])]
    good = NOT(fails if isinstance(fails, tuple) else fails)
    for x in parse:
        good = AND(good, NOT(tag(x, 1, 2)))
    if lang == "C":
        o = v.nth("out", 0)
        for s in (0, 1):
            q = v.nth("str", s).ptr
            good = AND(AND(good, NOT(F.null(q))), lit(mk("tt", mk("call", "utf8_ok", (v.text(s),)))))
        good = AND(good, AND(AND(NOT(F.null(o.ptr)), NOT(F.null(o.len))), P_lt(INT(0), o.cap())))
        good = AND(good, P_le(length(got), o.cap()))
    if got is fld(ser[0], 0, 0):
        good = AND(good, NOT(tag(ser[0], 1, 2)))
    ctx.implies(f"{lang}: success implies that every rotation succeeded", v.where, ok, good)
    ctx.implies(f"{lang}: rotation succeeds when nothing fails", v.where, good, ok)


def values(ctx, r, where, pol, attrs, what):
    evs = [e for e in r.ev("scheme") if e["op"] == "encrypt"]
    if not evs:
        raise Missing("scheme encryption reached from " + where)
    for e in evs:
        got = H.role(e["result"], ctx, "encrypt", r"\[u32\]|Vec<u32>")
        c = next((x for x in subterms(got) if x.op == "call" and type(x.args[0]) is str and x.args[0].endswith("attributes_values")), None)
        if c is None:
            ctx.ob(what, UNK, where, show(got)[:300])
            continue
        want = fld(mk("call", c.args[0], (pol, attrs)), 0, 0)
        ctx.same(what, where, got, want, e["pc"])
        ctx.implies(what + " (refusals are errors)", where, e["pc"], NOT(tag(mk("call", c.args[0], (pol, attrs)), 1, 2)))


def encrypt(ctx):
    f = ctx.fn(r"engine::Engine::<S>::encrypt$")
    r = ctx.run(f, {}, stops=I.STOPS)
    pol, attrs = r.args[argn(ctx, f, r"\bPolicy")], r.args[argn(ctx, f, r"\[.*Attribute\]")]
    values(ctx, r, f["path"], pol, attrs, "the newest values of all the attributes are encrypted under")


def headers(ctx):
    fs = [f for f in ctx.find(r"statics::encrypt_hybrid_header$")]
    for f in fs:
        r = ctx.run(f, {}, stops=I.STOPS)
        pol, attrs = r.args[argn(ctx, f, r"\bPolicy")], r.args[argn(ctx, f, r"\[.*Attribute\]")]
        values(ctx, r, f["path"], pol, attrs, "header: the newest values of all the attributes")
    v = I.V(ctx, "C", r"h_aes_encrypt_header_using_cache$")
    at_ = v.json(v.text(0))
    evs = [e for e in v.r.ev("scheme") if e["op"] == "encrypt"]
    if not evs:
        raise Missing("scheme encryption reached from " + v.where)
    for e in evs:
        got = H.role(e["result"], ctx, "encrypt", r"\[u32\]|Vec<u32>")
        c = next((x for x in subterms(got) if x.op == "call" and type(x.args[0]) is str and x.args[0].endswith("attributes_values")), None)
        if c is None:
            ctx.ob("cache: the newest values of all the attributes", UNK, v.where, show(got)[:300])
            continue
        ctx.same("cache: the newest values of all the attributes", v.where, got, fld(mk("call", c.args[0], (c.args[1][0], at_)), 0, 0), e["pc"])

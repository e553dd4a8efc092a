"""C30 - a policy created through an interface has exactly the requested axes and capacity."""
from ..ctx import *
from ..terms import binder_h
from . import scheme as S
from . import iface as I

RULE = ("The policy serialised by the interface's policy creation, as a term over the parsed axes (value-flow through all callees, one summary for every number of axes), "
        "is a new policy of the requested capacity to which abe_policy's add_axis was applied with every parsed axis (name, all attributes in order, hierarchy flag), in order; "
        "success implies that the axes parsed, that no addition failed and that the capacity is representable, and conversely nothing else is refused.")
ASSUME = ["abe_policy's add_axis records the axis it is given; PolicyAxis::new keeps its arguments"]
TRUST = ["abe_policy", "serde_json"]


def check(ctx):
    S.init(ctx)
    ctx.guard("Python: policy creation", create, ctx)


def axis(t):
    """an axis put together from the three fields of one axis is that axis"""
    while True:
        m = {}
        for x in subterms(t):
            if x.op == "call" and type(x.args[0]) is str and re.search(r"(^|::)new$", x.args[0]) and len(x.args[1]) == 3:
                a = x.args[1]
                src = a[0].args[0] if a[0].op == "fld" else None
                if src is not None and all(a[i] is fld(src, 0, i) for i in range(3)):
                    m[x] = src
        if not m:
            return t
        t = subst_term(t, m)


def short(t):
    """abe_policy's functions under their last name, however they are reached"""
    def full(x):
        return x.op == "call" and type(x.args[0]) is str and re.search(r"::(add_axis(!mut0)?|new)$", x.args[0])
    while True:
        m = {x: mk("call", x.args[0].rsplit("::", 1)[1], x.args[1]) for x in subterms(t) if full(x)}
        if not m:
            return t
        t = subst_term(t, m)


def built(axes, cap, n=None):
    k, p = mk("k", "c30"), var("c30 policy")
    body = mk("call", "add_axis!mut0", (p, at(axes, k)))
    h = binder_h(body)
    body = subst(subst_term(body, {p: mk("bv", h, "p")}), {k: mk("bv", h, "k")})
    return mk("rec", h, length(axes) if n is None else n, mk("call", "new", (cap,)), body)


def create(ctx):
    v = I.V(ctx, "Python", r"pyo3::.*::generate_policy$")
    axes, cap = v.json(v.a[0]), v.a[1]
    got, ok = axis(short(v.value)), axis(short(v.ok))
    ser = list(dict.fromkeys(x for x in subterms(got) if x.op == "call" and type(x.args[0]) is str and re.search(r"(to_string|to_vec)$", x.args[0])))
    if len(ser) != 1:
        ctx.ob("Python: the created policy is serialised", UNK, v.where, show(got)[:300])
        return
    ctx.same("Python: the policy has every axis given, in order, and the capacity given", v.where, ser[0].args[1][0], built(axes, cap), ok)
    ctx.true("Python: the serialised policy is what is returned", v.where, got is ser[0] or got is fld(ser[0], 0, 0), show(got)[:300], definite=False)
    k = mk("k", "c30f")
    fails = exists(length(axes), k, tag(mk("call", "add_axis", (built(axes, cap, k), at(axes, k))), 1, 2))
    good = AND(AND(NOT(tag(axes.args[0], 1, 2)), NOT(fails)), P_lt(cap, INT(1 << 32)))
    if got is fld(ser[0], 0, 0):
        good = AND(good, NOT(tag(ser[0], 1, 2)))
    ctx.implies("Python: success implies that every axis was added", v.where, ok, good)
    ctx.implies("Python: creation succeeds when nothing fails", v.where, good, ok)

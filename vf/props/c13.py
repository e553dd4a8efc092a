"""C13 - master key consistency."""
from ..ctx import *
from . import scheme as S

RULE = ("The value returned by AbeScheme::generate_master_key, as a term over the requested size (forward value-flow over monomorphic MIR, all paths "
        "joined), holds size attribute secrets each its own scalar draw, a master secret drawn separately, and public / delegation elements whose k-th "
        "entries are the generators raised to the k-th secret / its inverse, the mask being the paired generators raised to the master secret.")
ASSUME = ["a scalar drawn at random is not zero (probability 2^-255)"]


def check(ctx):
    S.init(ctx)
    f = S.scheme(ctx, "generate_master_key")
    w = f["path"]
    n = var("size")
    r = ctx.run(f, {1: n})
    ok, v = ok_part(r)
    ctx.true("master key generation can succeed", w, ok is not FALSE)
    priv, pub, dele = (fld(v, 0, i) for i in range(3))
    t = ctx.get(priv, "GpswMasterPrivateKey", "t_i")
    y = fld(ctx.get(priv, "GpswMasterPrivateKey", "y"), 0, 0)
    fy, ft = families(y), families(t)
    ctx.true("the master secret is one draw", w, len(fy) == 1 and y.op == "draw", show(y)[:300])
    ctx.true("the attribute secrets are one family of draws", w, len(ft) == 1, show(t)[:300])
    if not ft or not fy:
        return
    S.fresh(ctx, w, fy[0], "master secret")
    S.fresh(ctx, w, ft[0], "attribute secrets")
    ctx.true("every attribute secret is its own draw", w, S.indexed(ft[0]), show(ft[0](n))[:300])
    j = mk("k", ("spec", "fam"))
    k = mk("k", ("spec", "c13"))
    x = restrict(fld(at(t, k), 0, 0), AND(ok, P_lt(k, n)))
    if x.op == "draw" and y.op == "draw" and x.args[1] is y.args[1]:
        # drawn together: told apart by their positions
        ctx.forbids("the master secret is not an attribute secret", w, ok, P_eq_int(x.args[2], y.args[2]), k, n)
    else:
        ctx.true("the master secret is not an attribute secret", w, fy[0](j).args[1] is not ft[0](j).args[1] or not S.indexed(ft[0]), show(t)[:300])
    k = mk("k", ("spec", "c13"))
    d = ft[0](k)
    g = lambda x: mk("gen", x)
    ctx.same("attribute secrets", w, t, flat(n, k, seq([agg(S.SC, (d,))])), ok)
    ctx.same("public elements", w, ctx.get(pub, "GpswMasterPublicKey", "t_i"), flat(n, k, seq([p_mul(g("G1"), d, "alg")])), ok)
    ctx.same("public mask", w, ctx.get(pub, "GpswMasterPublicKey", "y"), p_mul(p_mul(g("G1"), g("G2"), "alg"), y, "alg"), ok)
    ctx.same("delegation elements", w, ctx.get(dele, "GpswMasterPublicDelegationKey", "inv_t_i"), flat(n, k, seq([p_mul(g("G2"), alg_inv(d), "alg")])), ok)

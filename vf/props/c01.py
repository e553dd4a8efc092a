"""C01 - ciphertext structure."""
from ..ctx import *
from . import scheme as S

RULE = ("The value returned by AbeScheme::encrypt, as a term over its arguments (forward value-flow over monomorphic MIR, "
        "all paths joined), equals (gamma, msg + s*Y, [s*T[gamma_k]]_k) for one scalar s drawn in the call.")


def check(ctx):
    S.init(ctx)
    f = S.scheme(ctx, "encrypt")
    w = f["path"]
    gamma, pk, msg = var("gamma"), var("pub_key"), var("msg")
    r = ctx.run(f, {argn(ctx, f, r"\[u32\]|Vec<u32"): gamma, argn(ctx, f, "MasterPublicKey"): pk, argn(ctx, f, "Gt$"): msg})
    ok, v = ok_part(r)
    ctx.true("encryption can succeed", w, ok is not FALSE)
    ds = draws(v)
    ctx.true("exactly one random exponent", w, len(ds) == 1, f"draws in the ciphertext: {[show(d) for d in ds]}"[:400])
    if not ds:
        return
    s = ds[0]
    ctx.true("the exponent is drawn from entropy obtained in the call", w, s.args[1].op == "entropy", show(s))
    ctx.true("the exponent is a scalar", w, s.args[0] == "Scalar", show(s))
    g = lambda n: ctx.get(v, "GpswCipherText", n)
    ctx.same("attribute list", w, g("gamma"), gamma, ok)
    ctx.same("masked message", w, g("e_prime"), p_add(msg, p_mul(s, ctx.get(pk, "GpswMasterPublicKey", "y"), "alg"), "alg"), ok)
    k = mk("k", ("spec", "c01"))
    ti = ctx.get(pk, "GpswMasterPublicKey", "t_i")
    ctx.same("attribute components", w, g("e_i"),
             flat(length(gamma), k, seq([p_mul(s, at(ti, at(gamma, k)), "alg")])), ok)

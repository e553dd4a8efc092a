"""C05 - decryption pairs matching components and fails closed."""
from ..ctx import *
from . import scheme as S
from . import hybrid as H
from . import solver

RULE = ("The value returned by AbeScheme::decrypt is none when the solver yields no coefficients, an error when it errs, and otherwise "
        "e_prime minus the sum, over the positions of the ciphertext attributes held by the key, of coefficient * e(key component of that attribute, "
        "ciphertext component of that position); the linear solver keeps the invariant of C32; the solver receives exactly the key rows of these attributes, in that order.")
ASSUME = ["bilinearity and non-degeneracy of the pairing"]


def check(ctx):
    S.init(ctx)
    f = S.scheme(ctx, "decrypt")
    w = f["path"]
    enc, key = var("enc"), var("key")
    r = ctx.run(f, {1: enc, 2: key}, stops=S.STOPS)
    ok, v = ok_part(r)
    calls = [x for x in subterms(r.ret) if x.op == "call" and x.args[0] == "span_coefs"]
    if not calls:
        ctx.ob("the linear solver is consulted", UNK, w, "no call of span_coefs found")
        return
    gamma, ei, ep = (ctx.get(enc, "GpswCipherText", n) for n in ("gamma", "e_i", "e_prime"))
    di = ctx.get(key, "GpswDecryptionKey", "d_i")
    M = S.Msp(ctx, ctx.get(key, "GpswDecryptionKey", "msp"))
    k = mk("k", ("spec", "c05"))
    a = at(gamma, k)
    sel = lambda x: flat(length(gamma), k, ITE(mhas(M.a2r, a), seq([x]), NIL))
    row = mget(M.a2r, a)
    rows, ds, es = sel(at(M.matrix, row)), sel(at(di, row)), sel(at(ei, k))
    ctx.true("one solver call", w, len(set(calls)) == 1)
    ctx.same("rows given to the solver", w, calls[0].args[1][0], rows, ok)
    r1 = calls[0]
    okc = tag(r1, 0, 2)
    ctx.implies("solver errors are errors", w, ok, okc)
    inner = fld(r1, 0, 0)
    some = tag(inner, 1, 2)
    coef = fld(inner, 1, 0)
    kk = mk("k", ("spec", "c05k"))
    total = algsum(length(rows), kk, p_mul(p_mul(fld(at(coef, kk), 0, 0), at(ds, kk), "alg"), at(es, kk), "alg"))
    O = ("std::option::Option", 1)
    want = ITE(some, agg(O, (p_sub(ep, total, "alg"),)), agg((O[0], 0), ()))
    ctx.same("plaintext or none", w, v, want, ok)
    # the symmetric-key path
    for g in ctx.find(r"Engine::<.*>::decrypt_symmetric_key$"):
        sk = ctx.run(g, {}, stops=S.STOPS + [(lambda fn: H.part_of(fn) is not None, H.part_stop)])
        o2, _ = ok_part(sk)
        c2 = [x for x in subterms(sk.ret) if x.op == "call" and x.args[0] == "span_coefs"]
        if c2:
            ctx.implies("no coefficients is an error of the symmetric-key path", g["path"], o2, AND(tag(c2[0], 0, 2), tag(fld(c2[0], 0, 0), 1, 2)))
    ctx.guard("linear solver", solver.check, ctx)

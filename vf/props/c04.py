"""C04 - delegated keys."""
from ..ctx import *
from . import scheme as S
from .c03 import S_ofint

RULE = ("The key returned by AbeScheme::key_delegation, as a term over (structure or none, parent key, delegation key), has for row i the "
        "component parent[row of attr(i)] + inv_t[attr(i)] * sum_j M[i][j] r_j with r = n-1 draws and the remainder to zero; success excludes "
        "structures without columns and attributes the parent key or the delegation key does not hold.")
ASSUME = ["rows of an access structure have nb_col entries and there is one attribute per row"]


def check(ctx):
    S.init(ctx)
    f = S.scheme(ctx, "key_delegation")
    w = f["path"]
    uk, dk = var("user_key"), var("del_key")
    raw = ctx.get(uk, "GpswDecryptionKey", "raw_d_i")
    pm = ctx.get(uk, "GpswDecryptionKey", "msp")
    P = S.Msp(ctx, pm)
    inv = ctx.get(dk, "GpswMasterPublicDelegationKey", "inv_t_i")
    ni, ki, di = argn(ctx, f, "Option<"), argn(ctx, f, "GpswDecryptionKey"), argn(ctx, f, "DelegationKey")
    opt = ("std::option::Option", 1)
    m = var("msp")
    for kind in ("delegation", "randomisation"):
        o = agg(opt, (m,)) if kind == "delegation" else agg((opt[0], 0), ())
        r = ctx.run(f, {ni: o, ki: uk, di: dk})
        ok, v = ok_part(r)
        ctx.true(f"{kind} can succeed", w, ok is not FALSE)
        M = S.Msp(ctx, m) if kind == "delegation" else P
        conv = S_ofint if kind == "delegation" else (lambda x: fld(x, 0, 0))
        u = S.shares(S.one_family(ctx, w, v, f"{kind}: exponents"), M.nb_col, ALG0)
        k = mk("k", ("spec", "c04"))
        a = at(M.r2a, k)
        comp = p_add(at(raw, mget(P.a2r, a)), p_mul(at(inv, a), S.dot(at(M.matrix, k), u, M.nb_col, conv), "alg"), "alg")
        want = flat(length(M.matrix), k, seq([comp]))
        g = lambda n: ctx.get(v, "GpswDecryptionKey", n)
        ok2 = AND(ok, P_lt(INT(0), M.nb_col))
        ctx.same(f"{kind}: components (raw)", w, g("raw_d_i"), want, ok2, M.axioms())
        ctx.same(f"{kind}: components (prepared)", w, g("d_i"), want, ok2, M.axioms())
        K = S.Msp(ctx, g("msp"))
        for n in ("nb_row", "nb_col", "r2a", "a2r"):
            ctx.same(f"{kind}: structure {n}", w, getattr(K, n), getattr(M, n), ok)
        j = mk("k", ("spec", "c04j"))
        wm = flat(length(M.matrix), k, seq([flat(length(at(M.matrix, k)), j, seq([agg(S.SC, (S_ofint(at(at(M.matrix, k), j)),))]))])) if kind == "delegation" else M.matrix
        ctx.same(f"{kind}: structure matrix", w, K.matrix, wm, ok)
        ctx.forbids(f"{kind}: structure without columns refused", w, ok, P_eq_int(M.nb_col, INT(0)))
        wf = AND(ok, P_eq_int(length(M.r2a), length(M.matrix)))
        ctx.forbids(f"{kind}: attribute the parent lacks refused", w, wf, NOT(mhas(P.a2r, a)), k, length(M.matrix))
        ctx.forbids(f"{kind}: attribute the delegation key lacks refused", w, wf, P_le(length(inv), a), k, length(M.matrix))

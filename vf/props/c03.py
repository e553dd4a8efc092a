"""C03 - user keys are shares of the master secret."""
from ..ctx import *
from . import scheme as S

RULE = ("The key returned by AbeScheme::key_generation, as a term over (access structure, master key), has for row i the "
        "component g2 * (sum_j M[i][j] u_j) / t[attr(i)], with u = n-1 draws and the remainder to y; the success condition excludes "
        "an access structure without columns or naming an attribute without secret.")
ASSUME = ["rows of an access structure have nb_col entries and there is one attribute per row (established by C07/C09 for decoded and built structures)"]


def check(ctx):
    S.init(ctx)
    f = S.scheme(ctx, "key_generation")
    w = f["path"]
    m, pk = var("msp"), var("priv_key")
    r = ctx.run(f, {1: m, 2: pk})
    ok, v = ok_part(r)
    ctx.true("key generation can succeed", w, ok is not FALSE)
    M = S.Msp(ctx, m)
    y = fld(ctx.get(pk, "GpswMasterPrivateKey", "y"), 0, 0)
    ti = ctx.get(pk, "GpswMasterPrivateKey", "t_i")
    u = S.shares(S.one_family(ctx, w, v, "shares"), M.nb_col, y)
    k = mk("k", ("spec", "c03"))
    comp = p_mul(p_mul(mk("gen", "G2"), S.dot(at(M.matrix, k), u, M.nb_col, S_ofint), "alg"),
                 alg_inv(fld(at(ti, at(M.r2a, k)), 0, 0)), "alg")
    want = flat(length(M.matrix), k, seq([comp]))
    g = lambda n: ctx.get(v, "GpswDecryptionKey", n)
    ok2 = AND(ok, P_lt(INT(0), M.nb_col))
    ctx.same("components (raw)", w, g("raw_d_i"), want, ok2, M.axioms())
    ctx.same("components (prepared)", w, g("d_i"), want, ok2, M.axioms())
    K = S.Msp(ctx, g("msp"))
    ctx.same("structure: rows", w, K.nb_row, M.nb_row, ok)
    ctx.same("structure: columns", w, K.nb_col, M.nb_col, ok)
    ctx.same("structure: attribute of row", w, K.r2a, M.r2a, ok)
    ctx.same("structure: row of attribute", w, K.a2r, M.a2r, ok)
    j = mk("k", ("spec", "c03j"))
    ctx.same("structure: matrix", w, K.matrix,
             flat(length(M.matrix), k, seq([flat(length(at(M.matrix, k)), j, seq([agg(S.SC, (S_ofint(at(at(M.matrix, k), j)),))]))])), ok)
    ctx.forbids("structure without columns refused", w, ok, P_eq_int(M.nb_col, INT(0)))
    ctx.forbids("attribute without secret refused", w, AND(ok, P_eq_int(length(M.r2a), length(M.matrix))), P_le(length(ti), at(M.r2a, k)), k, length(M.matrix))


def S_ofint(x):
    return models.ofint(x)

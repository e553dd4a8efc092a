"""Anchors and specification terms of the core scheme."""
from ..ctx import *

TRAIT = r" as .*AbeScheme>::"


def span_stop(E, st, a, info):
    """the linear solver is treated as an operation returning one coefficient per row (see C32)"""
    m = E.load(st, a[0]) if a[0].op == "ref" else a[0]
    r = mk("call", "span_coefs", (m,))
    T.FIXED_LEN[fld(fld(r, 0, 0), 1, 0)] = length(m)
    return r


STOPS = [(lambda fn: fn["path"].endswith("::span_coefs"), span_stop)]


def scheme(ctx, name):
    return ctx.fn(TRAIT + name + "$", lambda i: "scheme" in i["path"])


class Msp:
    def __init__(self, ctx, t):
        self.t = t
        g = lambda n: ctx.get(t, "MonotoneSpanProgram", n)
        self.nb_row, self.nb_col, self.matrix = g("nb_row"), g("nb_col"), g("matrix")
        self.a2r, self.r2a = g("attr_to_row"), g("row_to_attr")
        T.RANGE.setdefault(self.nb_row, (0, 2 ** 62))
        T.RANGE.setdefault(self.nb_col, (0, 2 ** 62))

    def axioms(self):
        """well-formedness of an access structure, used at one row index"""
        def ax(k, pc):
            us = units(pc)
            if linear.entails_le(us, p_sub(p_add(k, INT(1)), length(self.matrix))):
                return AND(P_eq_int(length(at(self.matrix, k)), self.nb_col), P_eq_int(length(self.r2a), length(self.matrix)))
            return None
        return [ax]


def dot(row, shares, n, conv):
    j = mk("k", ("spec", "dot"))
    return algsum(n, j, p_mul(conv(at(row, j)), fld(at(shares, j), 0, 0), "alg"))


def shares(fam, n, total):
    """n exponents: n-1 draws and the remainder to `total`"""
    j = mk("k", ("spec", "sh"))
    d = fam(j)
    N = max0(p_sub(n, INT(1)))
    s = SC
    return cat([flat(N, j, seq([agg(s, (d,))])), seq([agg(s, (p_sub(total, algsum(N, j, d), "alg"),))])])


SC = ("core::bilinear_map::bls12_381::Scalar", 0)


def init(ctx):
    global SC
    SC = (ctx.adt("Scalar")["adt"], 0)


def one_family(ctx, w, v, what):
    """the random exponents of v: one family, seeded from entropy of this call"""
    fs = families(v)
    j = mk("k", ("spec", "fam"))
    ctx.true(f"{what} are one family of draws", w, len(fs) == 1, str([show(f(j)) for f in fs])[:300])
    if not fs:
        return lambda j: UNDEF
    fresh(ctx, w, fs[0], what)
    return fs[0]


def fresh(ctx, w, fam, what):
    j = mk("k", ("spec", "fam"))
    d = fam(j)
    ctx.true(f"{what} are scalars drawn from entropy obtained in the call", w, d.args[0] == "Scalar" and d.args[1].op == "entropy", show(d)[:300])
    return d


def indexed(fam):
    j = mk("k", ("spec", "fam"))
    return j in fam(j).free or contains(fam(j), lambda x: x is j)

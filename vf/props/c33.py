"""C33 - decrypting with a satisfying key gives the message back."""
from ..ctx import *
from . import scheme as S
from . import solver

RULE = ("The terms returned by master key generation, key generation, encryption and decryption are composed: the message decrypted is the message "
        "encrypted plus the mask (pairing of the generators, to the exponent times the master secret), minus the sum of the coefficients times the "
        "same pairing to the exponent times the share of the row they were found for; attribute secrets cancel. The shares add up to the master secret "
        "and the solver's coefficients reproduce a target of ones from the rows it is given (C32), so the last two are equal.")
ASSUME = ["the pairing is bilinear", "random scalars are not zero", "an access structure's maps from attributes to rows and back agree (C07)",
          "the policy is satisfied: the solver finds coefficients (C32: whenever there are any)"]


def check(ctx):
    S.init(ctx)
    msp, gamma, msg, size = var("msp"), var("gamma"), var("msg"), var("size")
    fm, fk, fe, fd = (S.scheme(ctx, x) for x in ("generate_master_key", "key_generation", "encrypt", "decrypt"))
    w = fd["path"]
    okm, v = ok_part(ctx.run(fm, {1: size}))
    priv, pub = fld(v, 0, 0), fld(v, 0, 1)
    okk, key = ok_part(ctx.run(fk, {1: msp, 2: priv}))
    oke, ct = ok_part(ctx.run(fe, {argn(ctx, fe, r"\[u32\]|Vec<u32"): gamma, argn(ctx, fe, "MasterPublicKey"): pub, argn(ctx, fe, "Gt$"): msg}))
    r = ctx.run(fd, {1: restrict(ct, oke), 2: restrict(key, okk)}, stops=S.STOPS)
    okd, out = ok_part(r)
    done = AND(AND(okm, okk), AND(oke, okd))
    ctx.true("a message can be decrypted", w, done is not FALSE)
    calls = list(dict.fromkeys(x for x in subterms(out) if x.op == "call" and x.args[0] == "span_coefs"))
    if len(calls) != 1:
        ctx.ob("the linear solver is consulted", UNK, w, f"{len(calls)} calls of span_coefs")
        return
    c = calls[0]
    rows, some = c.args[1][0], AND(tag(c, 0, 2), tag(fld(c, 0, 0), 1, 2))
    coef = fld(fld(c, 0, 0), 1, 0)
    M = S.Msp(ctx, msp)
    pc = AND(AND(done, some), P_lt(INT(0), M.nb_col))
    got = restrict(fld(out, 1, 0), pc)
    # the secrets
    y = fld(ctx.get(priv, "GpswMasterPrivateKey", "y"), 0, 0)
    ss = draws(ctx.get(ct, "GpswCipherText", "e_prime"))
    ss = [x for x in ss if x is not y and not any(z is x for z in subterms(v))]
    fams = [f for f in families(ctx.get(key, "GpswDecryptionKey", "d_i")) if S.indexed(f) and not contains(v, lambda z, e=f(mk("k", "z")).args[1]: z is e)]
    sums = list(dict.fromkeys(x for m in poly_of(got, "alg") for x, e in m if x.op == "sum"))
    if len(ss) != 1 or len(fams) != 1 or len(sums) != 1:
        ctx.ob("the message is unmasked by one sum", UNK, w, f"{len(ss)} exponents, {len(fams)} families of shares, {len(sums)} sums")
        return
    s, u = ss[0], S.shares(fams[0], M.nb_col, y)
    mask = p_mul(p_mul(mk("gen", "G1"), mk("gen", "G2"), "alg"), s, "alg")
    h, n, body = sums[0].args
    K = mk("k", ("spec", "c33"))
    body = subst(body, {mk("bv", h, "k"): K})
    ctx.same("the message plus the mask, less one sum", w, got, p_sub(p_add(msg, p_mul(mask, y, "alg"), "alg"), sums[0], "alg"), pc)
    ctx.same("one term per row given to the solver", w, n, length(rows), pc)
    pick = Picked(M, gamma)
    row = pick(at(rows, K))
    cK = fld(at(coef, K), 0, 0)
    one = pick(body)
    want = p_mul(p_mul(cK, mask, "alg"), dot(row, u, M.nb_col), "alg")
    n = len(ctx.obs)
    ctx.same("each term is the coefficient of its row, times the mask to the share of the row", w, one, want, AND(pc, pick.facts), M.axioms())
    if len(pick.at) != 1 and ctx.obs[n]["verdict"] == NE:
        # several tests: equivalent ones pick the same positions
        ctx.obs[n]["verdict"] = UNK
    solver.check(ctx)


def dot(row, u, n):
    j = mk("k", ("spec", "c33j"))
    return algsum(n, j, p_mul(fld(at(row, j), 0, 0), fld(at(u, j), 0, 0), "alg"))


class Picked:
    """elements of filtered sequences, as functions of the position they were picked at: lists
    filtered by the same test pick the same positions"""

    def __init__(self, M, gamma):
        self.M, self.gamma = M, gamma
        self.facts = TRUE
        self.at = {}

    def __call__(self, t):
        for _ in range(20):
            m = {}
            for x in subterms(t):
                if x.op == "at" and x.args[0].op == "flat" and not any(z.op == "bv" for z in x.free) and x.args[0].args[2].op == "ite":
                    h, n, b = x.args[0].args
                    g, a, b_ = b.args
                    if a.op == "seq" and len(a.args) == 1 and b_ is NIL:
                        k = self.where(h, n, g, x.args[1])
                        m[x] = subst(a.args[0], {mk("bv", h, "k"): k})
            if not m:
                break
            t = subst_term(t, m)
        # maps from attributes to rows and back agree
        M = self.M
        m = {x: x.args[1].args[1] for x in subterms(t) if x.op == "at" and x.args[0] is M.r2a and x.args[1].op == "mget" and x.args[1].args[0] is M.a2r}
        for x in subterms(t):
            if x.op == "at" and x.args[0] is M.matrix:
                self.facts = AND(self.facts, P_eq_int(length(x), M.nb_col))
        return subst_term(t, m)

    def where(self, h, n, g, i):
        tok = mk("k", ("spec", "picked"))
        key = (n, subst(g, {mk("bv", h, "k"): tok}), i)
        if key not in self.at:
            v = var(f"position {len(self.at)} picked")
            RANGE.setdefault(v, (0, 2 ** 62))
            self.at[key] = v
            self.facts = AND(self.facts, AND(P_lt(v, n), lit(subst(g, {mk("bv", h, "k"): v}))))
        return self.at[key]

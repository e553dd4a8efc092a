"""C10: mismatched but well-formed inputs give errors."""
from ..ctx import *
from ..safety import safe
from . import scheme as S, iface, solver
from .c09 import short, POISON
from .c06 import M as M06, formula_stop, translator

RULE = ("every panicking operation on every path of the scheme's operations, of the policy translation and of Engine is an obligation proved "
        "from the path condition and the well-formedness of each argument alone (type invariants); the invariants themselves are "
        "proved to hold of everything the decoders and the operations return")
ASSUME = ["a scalar drawn at random is not zero", "the number of attribute elements asked for is at most 2^32 (the engine asks for no more)",
          "the matrix given to the linear solver is rectangular and the first entry of an equation it reads is its pivot (invariant of C32)",
          "an access structure built from a formula has entries -1, 0, 1 before the change of basis and fewer than 2^63 columns",
          "lengths are below 2^60"]


def check(ctx):
    S.init(ctx)
    ctx.guard("scheme operations", operations, ctx)
    ctx.guard("policy translation", translation, ctx)
    ctx.guard("Engine", engine, ctx)
    ctx.guard("well-formed values", wellformed, ctx)


def kind(ctx, ty):
    s = ctx.P.types[ty]["s"]
    for n in ("GpswMasterPrivateKey", "GpswMasterPublicKey", "GpswMasterPublicDelegationKey", "GpswDecryptionKey", "GpswCipherText", "MonotoneSpanProgram"):
        if re.search(r"(^|[&:<])" + n + "<", s):
            return n, "Option<" in s
    return None, False


def shape(ctx, v, k):
    """well-formedness of one value: (condition, facts by index, facts about terms)"""
    conds, axioms, terms = [], [], []
    if k == "GpswMasterPrivateKey":
        t = ctx.get(v, k, "t_i")
        terms.append(lambda x: NOT(p_zero(fld(x, 0, 0))) if x.op == "at" and x.args[0] is t else None)
    elif k == "GpswCipherText":
        conds.append(P_eq_int(length(ctx.get(v, k, "e_i")), length(ctx.get(v, k, "gamma"))))
    elif k == "GpswDecryptionKey":
        m = ctx.get(v, k, "msp")
        n = length(ctx.get(m, "MonotoneSpanProgram", "matrix"))
        for f in ("raw_d_i", "d_i"):
            conds.append(P_eq_int(length(ctx.get(v, k, f)), n))
        c, a, t = shape(ctx, m, "MonotoneSpanProgram")
        conds += c
        axioms += a
        terms += t
    elif k == "MonotoneSpanProgram":
        m = S.Msp(ctx, v)
        rows = length(m.matrix)
        conds += [P_eq_int(length(m.r2a), rows)]
        axioms += m.axioms()

        def known(x):
            if x.op == "mget" and x.args[0] is m.a2r:
                return OR(NOT(mhas(m.a2r, x.args[1])), P_lt(x, rows))
            if x.op == "len" and x.args[0].op == "at" and x.args[0].args[0] is m.matrix:
                return OR(NOT(P_lt(x.args[0].args[1], rows)), P_eq_int(x, m.nb_col))
        terms.append(known)
    return conds, axioms, terms


def p_zero(x):
    return P_eq(x, ALG0)


def assumptions(ctx, r):
    """well-formedness of the arguments of an analysed function"""
    conds, axioms, terms = [], [], []
    for n, a in enumerate(r.args):
        k, opt = kind(ctx, r.inst["locals"][n + 1])
        if k is None:
            continue
        v = r.E.load(r.st, a) if a.op == "ref" else a
        if opt:
            v = fld(v, 1, 0)
            some = tag(r.E.load(r.st, a) if a.op == "ref" else a, 1, 2)
        c, ax, t = shape(ctx, v, k)
        conds += c
        axioms += ax
        terms += t
    return conds, axioms, terms


def facts(conds, terms):
    """what well-formedness says about the terms in a condition"""
    def f(*ts):
        out = list(conds)
        seen = set()
        for t in ts:
            for x in subterms(t, seen):
                if any(y.op == "bv" for y in x.free):
                    continue
                for g in terms:
                    c = g(x)
                    if c is not None:
                        out.append(c)
        return out
    return f


def one(ctx, f, stops, what=None):
    counts = {n: var(f"count{n}") for n in range(f["argc"]) if ctx.P.types[f["locals"][n + 1]]["s"] == "usize"}
    r = ctx.run(f, counts, stops=stops, pc=p_all([P_le(c, INT(2 ** 32)) for c in counts.values()]))
    conds, axioms, terms = assumptions(ctx, r)
    safe(ctx, r, what or short(f["path"]), axioms, only=lambda e: not re.search("deref", e["what"]), never=POISON, facts=facts(conds, terms))
    return r


OPS = ("encrypt", "decrypt", "key_generation", "key_delegation", "generate_master_key", "generate_random_plaintext", "msg_encode")


def operations(ctx):
    done = set()
    for op in OPS:
        f = S.scheme(ctx, op)
        one(ctx, f, S.STOPS)
        done |= set(ctx.P.reach(f)[0])
    for f in ctx.find(r"::scheme::Gpsw::<.*>::\w+$"):
        if f["id"] not in done or f["path"].endswith("::span_coefs"):
            n = len(ctx.obs)
            one(ctx, f, S.STOPS)
            if f["path"].endswith("::span_coefs"):
                # inside the elimination, by the invariant of C32
                ctx.obs[n:] = [o for o in ctx.obs[n:] if o["verdict"] != UNK]
                n = len(ctx.obs)
                ctx.guard("linear solver", solver.check, ctx)
                for o in ctx.obs[n:]:
                    if o["verdict"] == NE and "cannot fail" not in o["key"]:
                        o["verdict"] = UNK


def translation(ctx):
    try:
        stops = (formula_stop(ctx), M06)
        fs = [translator(ctx)]
    except Missing:
        stops, fs = (M06,), []
    for f in ctx.find(r"::policy_to_msp$") + fs:
        one(ctx, f, stops)
    for f in ctx.find(r"::Node::to_msp$"):
        one(ctx, f, ())


def engine(ctx):
    for f in ctx.find(r"::Engine::<.*>::\w+$"):
        if not f["path"].endswith("decrypt_symmetric_key"):
            one(ctx, f, iface.STOPS)


def wellformed(ctx):
    """decoders and operations return well-formed values only"""
    fs = [(f, ()) for f in ctx.find(r"AsBytes>::try_from_bytes$") if kind(ctx, f["locals"][0])[0] and "Vec<" not in f["path"].split(" as ")[0]]
    fs += [(S.scheme(ctx, op), S.STOPS) for op in ("encrypt", "key_generation", "key_delegation")]
    for f, stops in fs:
        k, _ = kind(ctx, f["locals"][0])
        if k not in ("GpswMasterPrivateKey", "GpswDecryptionKey", "GpswCipherText", "MonotoneSpanProgram"):
            continue
        r = ctx.run(f, {}, stops=stops)
        ok, v = ok_part(r)
        w, what = f["path"], short(f["path"])
        cs, ax, ts = assumptions(ctx, r)
        ok = AND(ok, p_all(facts(cs, ts)(ok)))
        conds, _, _ = shape(ctx, v, k)
        for n, c in enumerate(conds):
            ctx.implies(f"{what}: the parts have matching lengths ({n + 1})", w, ok, c, ax)
        if k == "GpswMasterPrivateKey":
            t = ctx.get(v, k, "t_i")
            i = mk("k", "c10")
            ctx.forbids(f"{what}: no zero element", w, ok, p_zero(fld(at(t, i), 0, 0)), i, length(t))

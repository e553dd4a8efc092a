"""C08: attribute values always fit the keys."""
from ..ctx import *
from . import scheme as S, hybrid as H, iface
from .c06 import pfield

RULE = ("the number of elements requested for a policy's master keys, a term over the policy, is shown to exceed every value the policy can "
        "assign; the lists of the three keys are shown to have that length; success of encryption, key generation and delegation is shown to "
        "exclude values without an element in each list used, and every index into these lists is proved to be in bounds; with an element for every value, success follows")
ASSUME = ["values assigned by abe_policy range from 1 to max_attribute_creations", "well-formed access structures have one attribute per row"]


def check(ctx):
    S.init(ctx)
    ctx.guard("keys for a policy", sizes, ctx)
    ctx.guard("keys of a given size", lists, ctx)
    ctx.guard("values without element", refused, ctx)
    ctx.guard("values with an element", accepted, ctx)
    ctx.guard("no crash for want of an element", crash, ctx)


def sizes(ctx):
    f = ctx.fn(r"::Engine::<.*>::generate_master_key$")
    r = ctx.run(f, {}, stops=H.STOPS)
    pol = r.args[argn(ctx, f, r"abe_policy::Policy$")]
    request(ctx, f, r, fld(pol, 0, pfield(ctx, "max_attribute_creations")))
    for i in ctx.P.inst:
        if i is None or "__" in i["path"] or not re.search(r"::interfaces::\w+::\w+::\w*generate_master_keys?$", i["path"]):
            continue
        r = ctx.run(i, {}, stops=iface.STOPS)
        request(ctx, i, r, None)


def request(ctx, f, r, most):
    w = f["path"]
    calls = r.ev("scheme")
    calls = [e for e in calls if e["op"] == "generate_master_key"]
    ctx.true("master keys are generated by the scheme", w, len(calls) > 0, definite=False)
    for e in calls:
        n = e["args"]
        n = [x for x in n if not (x.op == "var" and "sch" in str(x.args[0]))]
        n = n[-1]
        m = most
        if m is None:
            ms = [x for x in subterms(n) if x.op == "fld" and x.args[2] == pfield(ctx, "max_attribute_creations")]
            ms = list(dict.fromkeys(ms))
            if len(ms) != 1:
                ctx.ob("master keys are sized by the policy", NE if not contains(n, lambda x: x.op in ("unk", "phi")) and not ms else UNK, w, show(n)[:200])
                continue
            m = ms[0]
        ctx.implies("an element for every value the policy can assign", w, e["pc"], P_lt(m, n))


def lists(ctx):
    f = S.scheme(ctx, "generate_master_key")
    w = f["path"]
    n = var("size")
    r = ctx.run(f, {argn(ctx, f, "^usize$"): n})
    ok, v = ok_part(r)
    ctx.true("master keys can be generated", w, ok is not FALSE)
    tys = v.args[1] if v.op == "agg" else ()
    for x, (k, fl) in zip(tys, (("GpswMasterPrivateKey", "t_i"), ("GpswMasterPublicKey", "t_i"), ("GpswMasterPublicDelegationKey", "inv_t_i"))):
        ctx.same(f"{k}: as many elements as asked for", w, length(ctx.get(x, k, fl)), n, ok)
    ctx.true("three keys are returned", w, len(tys) == 3, show(v)[:200], definite=v.op == "agg")


def refused(ctx):
    k = mk("k", ("spec", "c08"))
    # encryption
    f = S.scheme(ctx, "encrypt")
    gamma, pk = var("gamma"), var("pub_key")
    r = ctx.run(f, {argn(ctx, f, r"\[u32\]|Vec<u32"): gamma, argn(ctx, f, "MasterPublicKey"): pk})
    ok, v = ok_part(r)
    ctx.forbids("encryption refuses a value the public key has no element for", f["path"], ok,
                P_le(length(ctx.get(pk, "GpswMasterPublicKey", "t_i")), at(gamma, k)), k, length(gamma))
    # key generation
    f = S.scheme(ctx, "key_generation")
    m, sk = var("msp"), var("priv_key")
    r = ctx.run(f, {argn(ctx, f, "MonotoneSpanProgram"): m, argn(ctx, f, "MasterPrivateKey"): sk})
    ok, v = ok_part(r)
    M = S.Msp(ctx, m)
    wf = AND(ok, P_eq_int(length(M.r2a), length(M.matrix)))
    ctx.forbids("key generation refuses a value the private key has no element for", f["path"], wf,
                P_le(length(ctx.get(sk, "GpswMasterPrivateKey", "t_i")), at(M.r2a, k)), k, length(M.matrix))
    # delegation and re-randomisation
    f = S.scheme(ctx, "key_delegation")
    uk, dk = var("user_key"), var("del_key")
    ni, ki, di = argn(ctx, f, "Option<"), argn(ctx, f, "GpswDecryptionKey"), argn(ctx, f, "DelegationKey")
    pm = S.Msp(ctx, ctx.get(uk, "GpswDecryptionKey", "msp"))
    for what, o, X in (("delegation", agg(("std::option::Option", 1), (m,)), M), ("re-randomisation", agg(("std::option::Option", 0), ()), pm)):
        r = ctx.run(f, {ni: o, ki: uk, di: dk})
        ok, v = ok_part(r)
        wf = AND(ok, P_eq_int(length(X.r2a), length(X.matrix)))
        a = at(X.r2a, k)
        ctx.forbids(f"{what} refuses a value the delegation key has no element for", f["path"], wf,
                    P_le(length(ctx.get(dk, "GpswMasterPublicDelegationKey", "inv_t_i")), a), k, length(X.matrix))
        if what == "delegation":
            ctx.forbids(f"{what} refuses a value the user key has no component for", f["path"], wf, NOT(mhas(pm.a2r, a)), k, length(X.matrix))


def accepted(ctx):
    """an operation all of whose values have elements does not fail"""
    k = mk("k", ("spec", "c08"))
    every = lambda n, c: NOT(exists(n, k, NOT(c)))
    f = S.scheme(ctx, "encrypt")
    gamma, pk = var("gamma"), var("pub_key")
    ok, v = ok_part(ctx.run(f, {argn(ctx, f, r"\[u32\]|Vec<u32"): gamma, argn(ctx, f, "MasterPublicKey"): pk}))
    t = length(ctx.get(pk, "GpswMasterPublicKey", "t_i"))
    ctx.implies("encryption under fewer values than elements, each with one, does not fail", f["path"],
                AND(P_lt(length(gamma), t), every(length(gamma), P_lt(at(gamma, k), t))), ok)
    f = S.scheme(ctx, "key_generation")
    m, sk = var("msp"), var("priv_key")
    ok, v = ok_part(ctx.run(f, {argn(ctx, f, "MonotoneSpanProgram"): m, argn(ctx, f, "MasterPrivateKey"): sk}))
    M = S.Msp(ctx, m)
    t = ctx.get(sk, "GpswMasterPrivateKey", "t_i")
    n, a = length(M.matrix), at(M.r2a, k)
    shape = AND(P_lt(INT(0), M.nb_col), P_eq_int(length(M.r2a), n))
    ctx.implies("key generation with an element for each value does not fail", f["path"],
                AND(AND(shape, every(n, P_lt(a, length(t)))), every(n, NOT(P_eq(fld(at(t, a), 0, 0), ALG0)))), ok)
    f = S.scheme(ctx, "key_delegation")
    uk, dk = var("user_key"), var("del_key")
    ni, ki, di = argn(ctx, f, "Option<"), argn(ctx, f, "GpswDecryptionKey"), argn(ctx, f, "DelegationKey")
    U = S.Msp(ctx, ctx.get(uk, "GpswDecryptionKey", "msp"))
    t, d = length(ctx.get(dk, "GpswMasterPublicDelegationKey", "inv_t_i")), length(ctx.get(uk, "GpswDecryptionKey", "raw_d_i"))
    for what, o, X in (("delegation", agg(("std::option::Option", 1), (m,)), M), ("re-randomisation", agg(("std::option::Option", 0), ()), U)):
        ok, v = ok_part(ctx.run(f, {ni: o, ki: uk, di: dk}))
        n, a = length(X.matrix), at(X.r2a, k)
        pc = AND(AND(P_lt(INT(0), X.nb_col), P_eq_int(length(X.r2a), n)), every(n, P_lt(a, t)))
        pc = AND(pc, every(n, AND(mhas(U.a2r, a), P_lt(mget(U.a2r, a), d))))
        if what != "delegation":
            pc = AND(AND(pc, every(n, P_eq_int(mget(U.a2r, a), k))), P_eq_int(d, n))
        ctx.implies(f"{what} with an element and a component for each value does not fail", f["path"], pc, ok)
    f = S.scheme(ctx, "decrypt")
    ct, key = var("enc"), var("key")
    ok, v = ok_part(ctx.run(f, {argn(ctx, f, "GpswCipherText"): ct, argn(ctx, f, "GpswDecryptionKey"): key}, stops=S.STOPS))
    D = S.Msp(ctx, ctx.get(key, "GpswDecryptionKey", "msp"))
    g, e = ctx.get(ct, "GpswCipherText", "gamma"), ctx.get(ct, "GpswCipherText", "e_i")
    row = mget(D.a2r, at(g, k))
    known = OR(NOT(mhas(D.a2r, at(g, k))), AND(P_lt(row, length(D.matrix)), P_lt(row, length(ctx.get(key, "GpswDecryptionKey", "d_i")))))
    pc = AND(P_eq_int(length(g), length(e)), every(length(g), known))
    for c in dict.fromkeys(x for x in subterms(ok) if x.op == "call" and x.args[0] == "span_coefs"):
        pc = AND(pc, NOT(tag(c, 1, 2)))
    ctx.implies("decryption with a component for each row of a known value does not fail", f["path"], pc, ok)


def crash(ctx):
    """every operation that can panic on the number of elements of a key is proved not to"""
    from .c10 import assumptions, facts, kind
    from .c09 import POISON, short
    from ..safety import safe
    lists = {"GpswMasterPrivateKey": "t_i", "GpswMasterPublicKey": "t_i", "GpswMasterPublicDelegationKey": "inv_t_i"}
    for op in ("encrypt", "key_generation", "key_delegation"):
        f = S.scheme(ctx, op)
        r = ctx.run(f, {}, stops=S.STOPS)
        els = set()
        for n, a in enumerate(r.args):
            k, _ = kind(ctx, r.inst["locals"][n + 1])
            if k in lists:
                v = r.E.load(r.st, a) if a.op == "ref" else a
                els.add(length(ctx.get(v, k, lists[k])))
        conds, axioms, terms = assumptions(ctx, r)
        safe(ctx, r, f"{op}, element of a key", axioms, never=POISON, facts=facts(conds, terms),
             only=lambda e: any(x in els for x in subterms(e["cond"])))

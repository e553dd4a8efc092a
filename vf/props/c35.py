"""C35 - what is valid is not refused by the core operations."""
from ..ctx import *
from . import scheme as S
from . import hybrid as H

RULE = ("The condition under which each core operation succeeds (value-flow over all its paths, the scheme's operations, the encoders and the functions of other crates "
        "uninterpreted) is implied by: every operation it relies on succeeded, a message was found where one is decrypted, and nothing encoded is longer than its length field can say.  Success of decryption does not depend on a message being found.")
ASSUME = ["sizes in memory are far below 2^27 elements; length fields have 32 bits", "the operations relied on are those C06, C08, C14, C17, C23, C30 and C31 say accept what is valid"]
MOST = 1 << 27


def check(ctx):
    S.init(ctx)
    ctx.guard("master keys", masters, ctx)
    ctx.guard("operations of the engine", engine, ctx)
    ctx.guard("encoders", encoders, ctx)
    ctx.guard("hybrid headers", headers, ctx)


def relied(ok, found=True):
    """nothing the operation relies on failed, what is decrypted is a message, lengths are moderate"""
    pc = TRUE
    for x in dict.fromkeys(subterms(ok)):
        if x.op == "ite" and x.args[0].op == "tag":
            t, i, n = x.args[0].args
            if t.op == "call" and type(t.args[0]) is str and (i, n) == (1, 2):
                pc = AND(pc, NOT(tag(t, 1, 2)))
            elif t.op == "call" and type(t.args[0]) is str and (i, n) == (0, 2):
                pc = AND(pc, tag(t, 0, 2))
            elif found and t.op == "fld" and t.args[0].op == "call" and t.args[0].args[0] == "scheme:decrypt" and n == 2:
                pc = AND(pc, tag(t, 1, 2))
    return pc


def moderate(ok):
    pc = TRUE
    for x in dict.fromkeys(subterms(ok)):
        if x.op == "len" and not any(k.op in ("k", "bv") for k in x.free):
            pc = AND(pc, P_lt(x, INT(MOST)))
            if any(y.op == "call" and str(y.args[0]).startswith("encode:") for y in (x.args[0], x.args[0].args[0]) if isinstance(y, type(x))):
                # two length fields or an element
                pc = AND(pc, P_le(INT(8), x))
        if x.op == "isum" and not any(k.op in ("k", "bv") for k in x.free) and all(y.op != "var" and c >= 0 for m, c in poly_of(x.args[2], "int").items() for y, _ in m):
            # a total of lengths
            pc = AND(pc, AND(P_le(INT(0), x), P_lt(x, INT(MOST * MOST))))
    return pc


def accepts(ctx, key, f, r, more=TRUE):
    ok, v = ok_part(r)
    t = f["locals"][0]
    # an operation that can say there is no message does not fail for want of one
    found = "Option<" not in ctx.P.types[t["ty"] if isinstance(t, dict) else t]["s"]
    if contains(ok, lambda x: x.op in ("unk", "phi")):
        ctx.ob(key, UNK, f["path"], show(ok)[:300])
        return
    pc = AND(AND(relied(ok, found), moderate(ok)), more)
    ctx.implies(key, f["path"], pc, ok)


def masters(ctx):
    f = S.scheme(ctx, "generate_master_key")
    accepts(ctx, "master keys of any size are generated", f, ctx.run(f, {}, stops=S.STOPS))


def engine(ctx):
    fs = [i for i in ctx.P.inst if i is not None and re.search(r"::core::engine::Engine::<.*>::\w+$", i["path"])]
    done = set()
    for f in fs:
        nm = f["path"].rsplit("::", 1)[1]
        s = ctx.P.types[f["locals"][0]["ty"] if isinstance(f["locals"][0], dict) else f["locals"][0]]["s"]
        if nm in done or "Result<" not in s:
            continue
        done.add(nm)
        r = ctx.run(f, {}, stops=H.STOPS + [(lambda fn: re.search(r"::policy_to_msp$", fn["path"]) is not None, structure)])
        accepts(ctx, f"{nm} fails only when an operation it relies on does", f, r)
    ctx.true("operations of the engine are found", "core::engine", len(done) >= 6, str(sorted(done)), definite=False)


def structure(E, st, a, info):
    """the access structure of a policy: C06 says when there is one"""
    return E.note(mk("call", "policy_to_msp", tuple(H.arg(E, st, x) for x in a)), info.dty)


def encoders(ctx):
    for part in ("GpswMasterPrivateKey", "GpswMasterPublicKey", "GpswMasterPublicDelegationKey", "GpswCipherText"):
        f = ctx.fn(rf"<.*{part}<.*> as .*::AsBytes>::try_into_bytes$")
        accepts(ctx, f"every {part} is encoded", f, ctx.run(f, {}, stops=S.STOPS))
    f = ctx.fn(r"<std::vec::Vec<.*> as .*::AsBytes>::try_into_bytes$")
    accepts(ctx, "every list is encoded", f, ctx.run(f, {}, stops=S.STOPS))
    for part, at_ in (("MonotoneSpanProgram", None), ("GpswDecryptionKey", "msp")):
        f = ctx.fn(rf"<.*{part}<.*> as .*::AsBytes>::try_into_bytes$")
        r = ctx.run(f, {}, stops=S.STOPS)
        x = r.E.load(r.st, r.args[0]) if r.args[0].op == "ref" else r.args[0]
        M = S.Msp(ctx, ctx.get(x, "GpswDecryptionKey", "msp") if at_ else x)
        k = mk("k", ("spec", "c35"))
        n = length(M.matrix)
        pc = AND(AND(P_lt(INT(0), n), P_lt(INT(0), M.nb_col)), AND(P_eq_int(M.nb_row, n), P_eq_int(length(M.r2a), n)))
        pc = AND(pc, AND(P_lt(p_mul(M.nb_row, M.nb_col), INT(MOST)), AND(P_lt(M.nb_row, INT(MOST)), P_lt(M.nb_col, INT(MOST)))))
        pc = AND(pc, NOT(exists(n, k, NOT(P_eq_int(length(at(M.matrix, k)), M.nb_col)))))
        pc = AND(pc, P_eq_int(length(at(M.matrix, INT(0))), M.nb_col))
        accepts(ctx, f"every {part} is encoded", f, r, pc)


def headers(ctx):
    f = ctx.fn(r"statics::encrypt_hybrid_header$")
    mi = argn(ctx, f, "Option<.*Metadata")
    O = "std::option::Option"
    for what, mv in (("with metadata", agg((O, 1), (var("meta_data"),))), ("without metadata", agg((O, 0), ()))):
        accepts(ctx, f"headers {what} are made", f, ctx.run(f, {mi: mv}, stops=H.STOPS))
    for n in ("EncryptedHeader", "ClearTextHeader"):
        f = ctx.fn(rf"statics::{n}::<.*>::try_into_bytes$")
        accepts(ctx, f"every {n} is encoded", f, ctx.run(f, {}, stops=H.STOPS))

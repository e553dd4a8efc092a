"""C25 - a message is encoded whole or refused."""
from ..ctx import *
from . import scheme as S

RULE = ("The plaintext AbeScheme::msg_encode returns, as a term over the message bytes (value-flow over monomorphic MIR), is the target-group generator raised to the "
        "scalar whose 32 little-endian bytes are the whole message followed by zeros; it is returned exactly when the message has at most 32 bytes and the curve library "
        "accepts these bytes as a canonical scalar.  A random plaintext is a random draw of the target group.")
ASSUME = ["Scalar::from_bytes of the curve library reads 32 little-endian bytes and refuses those that are not below the group order"]
TRUST = ["cosmian_bls12_381"]


def check(ctx):
    S.init(ctx)
    ctx.guard("message encoding", encode, ctx)
    ctx.guard("random messages", random, ctx)


def encode(ctx):
    g = lambda x: mk("gen", x)
    fs = [f for f in ctx.find(r"scheme::Gpsw<.*> as .*AbeScheme>::msg_encode$") + ctx.find(r"scheme::Gpsw::<.*>::msg_encode$")]
    if not fs:
        raise Missing("msg_encode")
    for f in fs:
        r = ctx.run(f)
        ok, v = ok_part(r)
        msg = r.args[argn(ctx, f, r"\[u8\]")]
        n, k = length(msg), mk("k", "c25")
        fits = P_le(n, INT(32))
        ctx.implies("a message that does not fit is refused", f["path"], ok, fits)
        ok, v = restrict(ok, fits), restrict(v, AND(ok, fits))
        calls = list(dict.fromkeys(x for y in (v, ok) for x in subterms(y) if x.op == "call" and type(x.args[0]) is str and re.search(r"\bfrom_bytes$", x.args[0])))
        if len(calls) != 1 or len(calls[0].args[1]) != 1:
            ctx.ob("the whole message, padded with zeros, is encoded", UNK, f["path"], show(v)[:300])
            continue
        whole = calls[0]
        ctx.same("the bytes of the scalar are the whole message, padded with zeros", f["path"], whole.args[1][0],
                 cat([msg, flat(p_sub(INT(32), n), k, seq([INT(0)]))]), AND(ok, fits))
        ctx.same("the plaintext is the generator raised to that scalar", f["path"], v, p_mul(p_mul(g("G1"), g("G2"), "alg"), mk("ctval", whole), "alg"), AND(ok, fits))
        good = AND(fits, lit(mk("tt", mk("ctok", whole))))
        ctx.implies("a message the curve library does not accept is refused", f["path"], AND(ok, fits), good)
        ctx.implies("every other message is encoded", f["path"], good, ok)


def random(ctx):
    for f in ctx.find(r"AbeScheme>::generate_random_plaintext$") + ctx.find(r"engine::Engine::<S>::random_message$"):
        r = ctx.run(f)
        ok, v = ok_part(r)
        ctx.true("a random message is a draw of the target group", f["path"], v.op == "draw" and v.args[0] == "Gt", show(v)[:300])
        ctx.implies("random messages are never refused", f["path"], TRUE, ok)

"""Component view of the library: the scheme and the key/ciphertext encoders as uninterpreted operations.

The scheme operations are characterised by C01-C05/C13, the encoders by C11; properties about the layers above
see them as operations of their arguments.  Parsing the encoding of a value yields that value (C11)."""
from ..ctx import *
from . import scheme as S

PARTS = ("GpswCipherText", "GpswMasterPublicKey", "GpswMasterPrivateKey", "GpswMasterPublicDelegationKey", "GpswDecryptionKey")
RESULT = "std::result::Result"


def OK(x):
    return agg((RESULT, 0), (x,))


def arg(E, st, a):
    return E.load(st, a) if a.op == "ref" else a


def part_of(fn):
    """(type, method) when fn is a method of AsBytes implemented by a key or ciphertext"""
    m = re.search(r"<(.*) as .*::AsBytes>::(\w+)$", fn["path"])
    if not m:
        return None
    n = re.sub(r"<.*", "", m.group(1)).split("::")[-1]
    return (n, m.group(2)) if n in PARTS and m.group(2) in ("try_into_bytes", "try_from_bytes", "len_bytes") else None


def part_stop(E, st, a, info):
    n, meth = part_of(info.fn)
    x = arg(E, st, a[0])
    if meth == "try_from_bytes":
        if x.op == "fld" and x.args[0].op == "call" and x.args[0].args[0] == "encode:" + n:
            return OK(x.args[0].args[1][0])
        return E.note(mk("call", "parse:" + n, (x,)), info.dty)
    if meth == "len_bytes":
        return length(fld(mk("call", "encode:" + n, (x,)), 0, 0))  # C09
    return E.note(mk("call", "encode:" + n, (x,)), info.dty)


def scheme_stop(E, st, a, info):
    """scheme operations, arguments by role (type), not by position"""
    nm = info.path.rsplit("::", 1)[1]
    vals = [arg(E, st, x) for x in a[1:]]
    tys = info.atys[1:] if info.atys else [None] * len(vals)
    order = sorted(range(len(vals)), key=lambda i: (re.sub(r"^&", "", E.types[tys[i]]["s"]) if tys[i] is not None else "", i))
    r = mk("call", "scheme:" + nm, tuple(vals[i] for i in order))
    E.event(st, "scheme", op=nm, args=tuple(vals[i] for i in order), result=r)
    return E.note(r, info.dty)


STOPS = [
    (lambda fn: re.search(r" as .*::AbeScheme>::(encrypt|decrypt|key_generation|key_delegation|generate_master_key|generate_random_plaintext)$", fn["path"]) is not None, scheme_stop),
    (lambda fn: part_of(fn) is not None, part_stop),
]


def calls(t, rx):
    r = re.compile(rx)
    return list(dict.fromkeys(x for x in subterms(t) if x.op == "call" and type(x.args[0]) is str and r.search(x.args[0])))


def role(c, ctx, scheme_op, rx):
    """the argument of a scheme call with the given type"""
    f = S.scheme(ctx, scheme_op)
    tys = sorted((re.sub(r"^&", "", ctx.P.types[f["locals"][n + 1]]["s"]), n) for n in range(1, f["argc"]))
    i = [k for k, (s, _) in enumerate(tys) if re.search(rx, s)]
    if len(i) != 1:
        raise Missing(f"argument {rx} of scheme operation {scheme_op}")
    return c.args[1][i[0]]


def canon(t):
    """entropy sources numbered by first use"""
    m = {}
    for x in subterms(t):
        if x.op == "entropy" and x not in m:
            m[x] = mk("entropy", INT(len(m)))
    return subst_term(t, m) if m else t

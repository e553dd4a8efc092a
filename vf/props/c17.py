"""C17 - block size limits."""
from ..ctx import *
from . import scheme as S
from . import iface as I
from . import ffi as F

RULE = ("For the generic block functions and those of every language interface: the path condition of every cipher operation and of success excludes empty "
        "and over-long input; conversely every input within the limits is accepted when the cipher itself succeeds (and, in C, the pointers are valid and the "
        "output fits). The limits are 2^30 bytes of plaintext and 2^30+28 bytes of ciphertext for every interface.")
ASSUME = ["AES-256-GCM blocks are 28 bytes longer than their plaintext"]


def check(ctx):
    S.init(ctx)
    for side, limit in (("encrypt", I.LIMIT), ("decrypt", I.LIMIT + 28)):
        for b in I.all_blocks(ctx, side):
            w = b.where
            over = P_lt(INT(limit), b.len)
            ctx.forbids(f"{b.lang}: empty input refused", w, b.ok, b.empty)
            ctx.forbids(f"{b.lang}: input over the limit refused", w, b.ok, over)
            r = b.r if b.lang == "Rust" else b.v.r
            n = 0
            for e in r.ev("call"):
                if re.search(I.CIPHER[side], e["path"]):
                    n += 1
                    ctx.forbids(f"{b.lang}: the cipher never runs on empty input", w, e["pc"], b.empty)
                    ctx.forbids(f"{b.lang}: the cipher never runs over the limit", w, e["pc"], over)
            ctx.true(f"{b.lang}: the cipher is used", w, n > 0, definite=False)
            good = AND(AND(b.pre, b.fits), AND(NOT(b.empty), P_le(b.len, INT(limit))))
            if b.keylen is not None:
                good = AND(good, P_eq_int(b.keylen, INT(32)))
            good = AND(good, I.opaque_success(b.ok))
            ctx.implies(f"{b.lang}: everything within the limits is accepted", w, good, b.ok)

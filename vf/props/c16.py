"""C16 - block encryption binds key, identifier and number."""
from ..ctx import *
from . import scheme as S
from . import iface as I

RULE = ("For the generic block functions and those of every language interface: the result, as a term over the arguments (value-flow through all callees), is "
        "one block-cipher operation whose key, resource identifier and block number are the caller's (absent ones being the empty identifier and zero) and whose "
        "content is the caller's data; decryption uses the same roles.")
ASSUME = ["Block of cosmian_crypto_base authenticates the identifier and number it is given"]


def check(ctx):
    S.init(ctx)
    for side in ("encrypt", "decrypt"):
        bs = I.all_blocks(ctx, side)
        ctx.true(f"block {side}ion exists in the library", "statics", any(b.lang == "Rust" for b in bs))
        for b in bs:
            w = b.where
            cs = [c for c in dict.fromkeys(subterms(b.result)) if c.op == "call" and type(c.args[0]) is str and re.search(I.CIPHER[side], c.args[0])]
            ctx.true(f"{b.lang}: one cipher operation", w, len(cs) == 1, show(b.result)[:300])
            for c in cs:
                a = c.args[1]
                if "Block" not in c.args[0] or len(a) != (5 if side == "encrypt" else 4):
                    ctx.true(f"{b.lang}: block operation of the cipher library", w, False, show(c)[:200], definite=False)
                    continue
                k, u, n = a[-3:]
                ctx.same(f"{b.lang}: key", w, k, b.key, b.ok)
                ctx.same(f"{b.lang}: resource identifier", w, u, b.uid, b.ok)
                ctx.same(f"{b.lang}: block number", w, n, b.number, b.ok)
                if side == "encrypt":
                    wr = a[0]
                    isw = wr.op == "call" and wr.args[0].endswith("write!mut0")
                    ctx.true(f"{b.lang}: the block holds what was written into it", w, isw, show(wr)[:200])
                    if isw:
                        blk, off, data = wr.args[1]
                        ctx.true(f"{b.lang}: written into a new block", w, blk.op == "call" and blk.args[0].endswith("::new"), show(blk)[:200])
                        ctx.same(f"{b.lang}: written from its start", w, off, INT(0), b.ok)
                        ctx.same(f"{b.lang}: plaintext", w, data, b.data, b.ok)
                    ctx.same(f"{b.lang}: the result is the encrypted block", w, b.result, fld(c, 0, 0), b.ok)
                else:
                    ctx.same(f"{b.lang}: ciphertext", w, a[0], b.data, b.ok)
                    res = b.result
                    okr = res.op == "call" and res.args[0].endswith("::clear_text_owned") or res.op == "call" and res.args[0].endswith("::clear_text")
                    ctx.true(f"{b.lang}: the result is the clear text of the block", w, okr, show(res)[:200])
                    if okr:
                        ctx.same(f"{b.lang}: the clear text is that of the decrypted block", w, res.args[1][0], fld(c, 0, 0), b.ok)
                ctx.implies(f"{b.lang}: a failure of the cipher is an error", w, b.ok, NOT(tag(c, 1, 2)))

"""C18 - pointer checks."""
from ..ctx import *
from . import scheme as S
from . import ffi as F

RULE = ("For every function exported to C (found from the item table): every access through a raw pointer argument (dereference, slice made from it, "
        "C string, copy) carries a path condition (forward analysis of all paths over MIR) that implies the pointer is not null; and the "
        "condition under which the function reports success excludes a null mandatory pointer.")
ASSUME = ["optional arguments are the resource identifier and additional data of the header and block functions"]


def check(ctx):
    S.init(ctx)
    n = 0
    for nm, f in F.entry_points(ctx):
        w = f["path"]
        r = F.run(ctx, nm, f)
        ok = F.ok_of(nm, r)
        acc = F.accesses(r)
        for a in F.args(ctx, nm, f):
            ptrs = [p for p in (a.ptr, a.len if a.kind == "out" else None) if p is not None]
            for m, p in enumerate(ptrs):
                key = a.name + (" (length)" if m else "")
                for q, pc, what, e in acc:
                    if F.base(q) is p:
                        n += 1
                        ctx.implies(f"{key} is compared with null before {what}", w, pc, NOT(F.null(p)))
                if not a.optional:
                    ctx.forbids(f"null {key} is refused", w, ok, F.null(p))
    ctx.true("entry points found", "src/interfaces/ffi", n > 0)

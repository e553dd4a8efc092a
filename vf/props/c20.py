"""C20 - lengths received from C."""
from ..ctx import *
from . import scheme as S
from . import ffi as F

RULE = ("For every function exported to C: each slice made from an input pointer has exactly the length argument that follows it, under a path condition "
        "implying that length is positive; no conversion of a received length to an unsigned type happens where it may be negative; success excludes "
        "a non-positive length of a mandatory input or output buffer.")
ASSUME = ["C functions pair a pointer with the length that follows it (documented convention)"]


def check(ctx):
    S.init(ctx)
    n = 0
    for nm, f in F.entry_points(ctx):
        w = f["path"]
        r = F.run(ctx, nm, f)
        ok = F.ok_of(nm, r)
        for a in F.args(ctx, nm, f):
            if a.kind == "in":
                for e in r.ev("rawslice"):
                    for c, p in F.split(e["ptr"]):
                        if F.base(p) is a.ptr:
                            n += 1
                            pc = AND(e["pc"], c)
                            ctx.true(f"{a.name} is read from its start", w, p is a.ptr)
                            ctx.implies(f"{a.name}: length is positive where used", w, pc, P_lt(INT(0), a.len))
                            ctx.same(f"{a.name}: memory read is exactly its own length", w, e["len"], a.len, pc)
            if a.kind in ("in", "out"):
                L = a.len if a.kind == "in" else a.cap()
                for e in r.ev("cast"):
                    if e["frm"].startswith("i") and e["to"].startswith("u") and contains(e["value"], lambda x: x is L):
                        ctx.implies(f"{a.name}: length is not negative where converted", w, e["pc"], P_le(INT(0), e["value"]))
                if not a.optional:
                    ctx.forbids(f"{a.name}: non-positive length refused", w, ok, P_le(L, INT(0)))
    ctx.true("input buffers found", "src/interfaces/ffi", n > 0)

"""C19 - output buffers."""
from ..ctx import *
from . import scheme as S
from . import ffi as F

RULE = ("For every function exported to C and every memory write or mutable slice made through a pointer argument: the pointer is the start of an output "
        "buffer, the number of bytes written is at most the value initially behind the capacity pointer that follows it (implied by the path condition), "
        "the value stored back in that capacity is that number, also when the buffer is too small, and then the status is an error.")
ASSUME = ["outputs are shorter than 2^31 bytes", "the capacity announced is the size of the buffer", "output and input buffers do not overlap"]


def check(ctx):
    S.init(ctx)
    n = 0
    for nm, f in F.entry_points(ctx):
        w = f["path"]
        r = F.run(ctx, nm, f)
        ok = F.ok_of(nm, r)
        As = F.args(ctx, nm, f)
        outs = {a.ptr: a for a in As if a.kind == "out"}
        caps = {a.len: a for a in As if a.kind == "out"}
        ints = {a.ptr: a for a in As if a.kind == "outint"}
        for e in r.ev("rawslice"):
            if not e["mut"]:
                continue
            for c, p in F.split(e["ptr"]):
                n += 1
                a = outs.get(p)
                ctx.true("mutable memory is an output buffer from its start", w, a is not None, show(p))
                if a:
                    ctx.implies(f"{a.name}: writable part fits the announced capacity", w, AND(e["pc"], c), P_le(e["len"], a.cap()))
        for e in r.ev("write"):
            if e["target"][0] != "P":
                continue
            p = e["target"][1]
            ctx.true("value written is a length or a handle", w, p in caps or p in ints, show(p))
        wr = F.mem_writes(r)
        done = set()
        for p, L, v, pc, e in wr:
            for c, q in F.split(p):
                a = outs.get(q)
                ctx.true("memory written is an output buffer from its start", w, a is not None and L is not None, show(q))
                if not a or L is None:
                    continue
                n += 1
                done.add(a.n)
                pc2 = AND(pc, c)
                ctx.implies(f"{a.name}: bytes written fit the announced capacity", w, pc2, P_le(L, a.cap()))
                ctx.same(f"{a.name}: the buffer part written is filled exactly", w, length(v), L, pc2)
                if nm == "get_last_error":
                    continue
                fin = uncast(F.final(r, ("P", a.len)))
                want = L
                ctx.same(f"{a.name}: length stored back", w, fin, want, pc2)
                small = P_lt(a.cap(), L)
                would = restrict(pc2, P_le(L, a.cap()))
                ctx.forbids(f"{a.name}: too small a buffer is an error", w, AND(ok, would), small)
                exact = AND(AND(restrict(pc2, P_lt(L, a.cap())), P_eq_int(a.cap(), L)), P_lt(INT(0), L))
                ctx.implies(f"{a.name}: a buffer exactly large enough is accepted", w, exact, pc2)
                ctx.same(f"{a.name}: required size stored back when too small", w, fin, want, AND(would, small))
        for a in As:
            if a.kind == "out":
                ctx.true(f"{a.name}: written by the function", w, a.n in done)
    ctx.true("output buffers found", "src/interfaces/ffi", n > 0)


def uncast(t):
    """lengths are below 2^31 (assumed): converting one to a C int keeps its value"""
    m = {x: x.args[0] for x in subterms(t) if x.op == "cast" and x.args[1] == "i32"}
    return subst_term(t, m) if m else t

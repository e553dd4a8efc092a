"""C21 - status, error message and outputs agree."""
from ..ctx import *
from . import scheme as S
from . import ffi as F

RULE = ("For every function exported to C, on the joined final state of all its paths: the status is zero or one; wherever it is not zero the thread's "
        "last-error cell holds a value stored by this call; wherever it is zero every requested output buffer, length and handle was written. "
        "get_last_error leaves the cell empty, writes within the capacity and terminates the text it reports.")
ASSUME = ["outputs are shorter than 2^31 bytes"]


def cell(r):
    return [k for k in r.st.s if k[0] == "G" and "LocalKey" in show(k[1])]


def stored(v):
    """condition under which the cell holds an error stored by this call"""
    def f(x):
        return TRUE if x.op == "agg" and x.args[0] == ("std::option::Option", 1) else FALSE
    return lift(f, v) if v.op == "ite" else f(v)


def disj(cs):
    o = FALSE
    for c in cs:
        o = OR(o, c)
    return o


def check(ctx):
    S.init(ctx)
    n = 0
    for nm, f in F.entry_points(ctx):
        w = f["path"]
        r = F.run(ctx, nm, f)
        ok = F.ok_of(nm, r)
        n += 1
        if nm == "h_aes_symmetric_encryption_overhead":
            continue
        if nm != "h_get_encrypted_header_size":
            ctx.implies("the status is zero or one", w, r.st.pc, OR(P_eq_int(r.ret, INT(0)), P_eq_int(r.ret, INT(1))))
        c = cell(r)
        if nm == "get_last_error":
            last_error(ctx, w, r, ok, c)
            continue
        if nm == "set_error":
            ctx.implies("the caller's message is recorded", w, ok, disj([stored(F.final(r, k)) for k in c]))
        ctx.implies("every error status has its message recorded", w, F.failed(nm, r), disj([stored(F.final(r, k)) for k in c]))
        wr = F.mem_writes(r)
        for a in F.args(ctx, nm, f):
            req = ok
            if a.kind == "out":
                done = disj([AND(pc, cc) for p, L, v, pc, e in wr for cc, q in F.split(p) if q is a.ptr])
                if a.optional:
                    req = AND(AND(AND(ok, NOT(F.null(a.ptr))), NOT(F.null(a.len))), P_lt(INT(0), a.cap()))
                    fin = F.final(r, ("P", a.len))
                    done = OR(done, P_eq_int(fin, INT(0)))
                ctx.implies(f"{a.name}: written whenever success is reported", w, req, done)
            if a.kind == "outint":
                done = disj([AND(e["pc"], cc) for e in r.ev("write") if e["target"][0] == "P" for cc, q in F.split(e["target"][1]) if q is a.ptr])
                ctx.implies(f"{a.name}: written whenever success is reported", w, ok, done)
    ctx.true("entry points found", "src/interfaces/ffi", n > 0)


def last_error(ctx, w, r, ok, c):
    ctx.true("the last error is read", w, len(c) == 1)
    a = F.args(ctx, "get_last_error", r.inst)[0]
    for k in c:
        v = F.final(r, k)
        f = lambda x: TRUE if x.op == "agg" and x.args[0] == ("std::option::Option", 0) else FALSE
        ctx.implies("reading the last error clears it", w, ok, lift(f, v) if v.op == "ite" else f(v))
        msg = mk("shared", k[1])
        wr = F.mem_writes(r)
        ctx.true("the message is written", w, len(wr) > 0)
        for p, L, v, pc, e in wr:
            ctx.implies("the message fits the buffer", w, pc, P_le(L, a.cap()))
            n = F.final(r, ("P", a.len))
            ctx.same("the message is terminated within the buffer", w, at(v, n), INT(0), AND(pc, ok))
            ctx.implies("the terminator is inside the part written", w, AND(pc, ok), P_lt(n, L))
            txt = [x for x in subterms(v) if x.op == "call" and x.args[0] == "to_string" and contains(x, lambda y: y is msg)]
            ctx.true("the text written is the recorded error", w, len(txt) >= 1, show(v)[:200])
            if txt:
                there = AND(AND(pc, ok), variant(r.E, msg))
                ctx.same("the text written is the recorded error, cut to the buffer", w, sl(v, INT(0), n), sl(txt[0], INT(0), n), there)


def variant(E, msg):
    return E.variant_cond(msg, 1, 2)

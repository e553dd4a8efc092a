"""Absence of panics: every checked operation met on a path (index, slice, arithmetic, unwrap, ...)
is proved to succeed under the condition of the path."""
from .terms import *
from .compare import Cmp, EQ, NE, UNK
from . import linear


def prove(pc, cond, axioms=(), soft=(), budget=40):
    """does pc imply cond?  returns (verdict, the case left over)"""
    cond = b_norm(cond)
    c = Cmp(axioms, soft=soft)
    cond = restrict(cond, pc)
    if cond is TRUE or pc is FALSE:
        return EQ, None
    bad = c.add(pc, NOT(cond))
    if bad is None:
        return EQ, None
    left = [budget]
    r = case(c, bad, 0, left, frozenset())
    return (EQ, None) if r is None else (UNK, r)


def case(c, pc, depth, left, done):
    """None if pc is contradictory, otherwise a case of it that is not refuted"""
    left[0] -= 1
    if left[0] < 0 or depth > 16:
        return pc
    us = units(pc)
    # facts about indices that occur
    ks = set()
    for a in us:
        for x in subterms(a):
            if x.op == "k" and not any(f.op == "bv" for f in x.free):
                ks.add(x)
    for k in sorted(ks, key=lambda x: x.id):
        n = c.instantiate_all(pc, k)
        if n is None:
            return None
        pc = n
    us = units(pc)
    # what holds of every element holds of the last one
    for a, v in sorted(us.items(), key=lambda x: x[0].id):
        if a.op == "exists" and v is False and a not in done:
            h, n, u = a.args
            if any(f.op == "bv" for f in n.free):
                continue
            done2 = done | {a}
            some = P_lt(INT(0), n)
            p1 = c.add(pc, some)
            if p1 is not None:
                i = NOT(b_norm(subst(u, {mk("bv", h, "k"): p_sub(n, INT(1))})))
                p1 = c.add(p1, i)
            p0 = c.add(pc, NOT(some))
            for p in (p0, p1):
                if p is not None:
                    r = case(c, p, depth + 1, left, done2)
                    if r is not None:
                        return r
            return None
    p = pc
    while p.op == "ite" and (p.args[1] is FALSE or p.args[2] is FALSE):
        p = p.args[2] if p.args[1] is FALSE else p.args[1]
    if p.op != "ite":
        return pc
    for v in (True, False):
        q = c.add(pc, lit(p.args[0], v))
        if q is not None:
            r = case(c, q, depth + 1, left, done)
            if r is not None:
                return r
    return None


OPEN = {"unk", "phi", "rec"}
CLOSED = {"flat", "sum", "isum", "exists", "first", "mbuild", "upd"}


def place(e):
    s = e.get("site")
    fn = s[0] if isinstance(s, (tuple, list)) and s else str(s)
    return str(fn)


def safe(ctx, r, what, axioms=(), only=None, trusted=None, never=None, facts=None):
    """one obligation per checked operation of the analysed function"""
    n = 0
    for e in r.ev("oblig"):
        if only and not only(e):
            continue
        n += 1
        key = f"{what}: {e['what']} cannot fail"
        w = place(e)
        if e["proved"]:
            ctx.ob(key, EQ, w)
            continue
        if never:
            for a in list(units(e["pc"])) + [x for x in subterms(e["pc"]) if x.op == "tt"]:
                if never(a):
                    e = dict(e, pc=AND(e["pc"], lit(a, False)))
        if facts:
            e = dict(e, pc=AND(e["pc"], p_all(facts(e["pc"], e["cond"]))))
        v, rest = prove(e["pc"], e["cond"], axioms)
        if v == EQ:
            ctx.ob(key, EQ, w, sample=f"{w}: {key}: {show(e['cond'])[:200]}")
            continue
        if trusted and trusted(e, rest):
            ctx.ob(key, UNK, w, "left to the assumptions: " + show(e["cond"])[:200])
            continue
        v, why = definite(ctx, e["pc"], e["cond"], rest, axioms)
        ctx.ob(key, v, w, f"{show(e['cond'])[:200]} is not ensured; {why} left over: {show(rest)[-300:]}")
    return n


def definite(ctx, pc, cond, rest, axioms):
    """is a case left over one that can really happen?  Only when it is made of understood values."""
    def bad(t):
        return contains(t, lambda x: x.op in OPEN)
    if bad(rest):
        return UNK, "the case left over depends on a loop that is not understood;"
    us = units(rest)
    if not any(contains(a, lambda x: x.op in CLOSED) for a in us):
        return NE, ""
    v, why = ctx.by_size(b_norm(cond), TRUE, pc, axioms)
    return v, "; ".join(why[-1:])

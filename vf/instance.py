"""Size instances of a comparison.

When two normal forms can neither be unified nor told apart in general, because a loop summary has
no closed form, the same comparison is made for fixed sizes: the sizes the summaries range over
(lengths and counts, nothing else) are fixed to small numbers, the summaries are written out, and
the two sides are compared again as terms; every other value stays a variable.  An instance whose
sizes contradict what is known is skipped.  An instance can only reveal a difference: agreement in
all of them leaves the verdict undecided."""
import signal
import time

from .terms import *
from . import terms as T
from . import linear

BOUND = {"flat": 1, "sum": 1, "isum": 1, "exists": 1, "first": 1, "rec": 1, "mbuild": 1, "upd": 2}
LEAF = {"len", "fld", "var", "at", "call", "mget", "dec", "load"}


class Timeout(Exception):
    pass


def int_leaves(p, acc, depth=0):
    """the integer unknowns a bound is made of"""
    if depth > 12 or is_int(p):
        return
    if p.op == "ite":
        int_leaves(p.args[1], acc, depth + 1)
        int_leaves(p.args[2], acc, depth + 1)
        a = p.args[0]
        if a.op in ("le0", "eq0"):
            int_leaves(a.args[0], acc, depth + 1)
        return
    if p.op == "poly":
        for m in poly_of(p, "int"):
            for a, e in m:
                int_leaves(a, acc, depth + 1)
        return
    if p.op in LEAF:
        if not any(x.op in ("bv", "k") for x in p.free):
            acc.append(p)
        return
    if p.op in ("isum", "first"):
        int_leaves(p.args[1], acc, depth + 1)
        return
    if p.op in ("max0", "min", "max", "div", "divc", "rem", "remc", "cast"):
        for x in p.args:
            if type(x) is Term:
                int_leaves(x, acc, depth + 1)


def size_atoms(*ts):
    acc, seen = [], set()
    for t in ts:
        for x in subterms(t, seen):
            if x.op in BOUND:
                int_leaves(x.args[BOUND[x.op]], acc)
    return list(dict.fromkeys(acc))


def settle(L, pc, ts, limit):
    """filters and counts over many elements: take the case where each element is selected"""
    seen = set()
    for t in ts:
        for x in list(subterms(t, seen)):
            if x.op in ("isum", "flat", "exists") and is_int(x.args[1]) and 3 < x.args[1].args[0] <= limit and not any(f.op == "bv" for f in x.free):
                if x.args[2].op != "ite" or x.op == "exists":
                    continue
                for i in range(x.args[1].args[0]):
                    e = restrict(subst(x.args[2], {mk("bv", x.args[0], "k"): INT(i)}), L)
                    while e.op == "ite":
                        want = not (is_int(e.args[1]) and e.args[1].args[0] == 0 or e.args[1] is NIL)
                        for v in (want, not want):
                            q = pc_of(AND(L, lit(e.args[0], v)))
                            if q is not FALSE and q is not UNDEF:
                                L = q
                                e = restrict(e.args[1] if v else e.args[2], L)
                                break
                        else:
                            return L
    return L


def write_out(t, limit, pc=TRUE):
    """unfold the binders whose bound is a constant now"""
    for _ in range(1):
        m = {}
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if type(x) is Term:
                if x in seen:
                    continue
                seen.add(x)
                if x.op in BOUND and counts(x.args[BOUND[x.op]]) and not any(f.op == "bv" for f in x.free):
                    u = unfold(x, limit, pc)
                    if u is not None and u is not x:
                        m[x] = u
                        continue
                st.extend(x.args)
            elif type(x) in (tuple, frozenset):
                st.extend(x)
        if not m:
            return t
        t = subst_term(t, m)
    return t


def counts(n, depth=0):
    """a constant, or a choice of few"""
    if is_int(n):
        return True
    return n.op == "ite" and depth < 6 and counts(n.args[1], depth + 1) and counts(n.args[2], depth + 1)


def unfold(x, limit, pc=TRUE):
    n = x.args[BOUND[x.op]]
    if n.op == "ite":
        def one(v):
            new = list(x.args)
            new[BOUND[x.op]] = v
            return unfold(mk(x.op, *new), limit, pc)
        ls = {}
        for v in leaves(n):
            ls[v] = one(v)
            if ls[v] is None:
                return None
        return lift(lambda v: ls[v], n)
    n = n.args[0]
    if n > limit:
        return None
    n = max(n, 0)
    h = x.args[0]
    kv = mk("bv", h, "k")
    o = x.op
    subst_ = subst
    if pc is not TRUE and n > 3:
        def subst_(t, m):
            return restrict(subst(t, m), pc)
    if o == "rec":
        acc = x.args[2]
        for i in range(n):
            acc = subst_(x.args[3], {mk("bv", h, "p"): acc, kv: INT(i)})
        return acc
    if o == "exists":
        return p_any([b_norm(subst_(x.args[2], {kv: INT(i)})) for i in range(n)])
    if o == "isum":
        r = INT(0)
        for i in range(n):
            e = subst_(x.args[2], {kv: INT(i)})
            r = lift2(p_add, r, e)
        return r
    if o == "first":
        r = INT(n)
        for i in reversed(range(n)):
            r = ITE(b_norm(subst_(x.args[2], {kv: INT(i)})), INT(i), r)
        return r
    if o == "flat":
        return cat([subst_(x.args[2], {kv: INT(i)}) for i in range(n)])
    if o == "sum":
        r = ALG0
        for i in range(n):
            r = lift2(lambda a, b: p_add(a, b, "alg"), r, subst_(x.args[2], {kv: INT(i)}))
        return r
    if o == "upd":
        base, b = x.args[1], x.args[3]
        l = length(base)
        return cat([seq([subst_(b, {kv: INT(i)})]) for i in range(n)] + [sl(base, INT(n), l)])
    if o == "mbuild":
        m = x.args[2]
        for i in range(n):
            m = mins(m, subst_(x.args[3], {kv: INT(i)}), subst_(x.args[4], {kv: INT(i)}))
        return m
    return None


def pc_of(pc):
    if pc in (TRUE, FALSE):
        return pc
    pc = b_norm(pc)
    if pc is not FALSE and pc is not UNDEF and linear.contradictory(units(pc)):
        return FALSE
    return pc


def tidy(t, pc):
    return restrict(t, pc) if pc is not TRUE else t


def instance(a, b, pc, N, axioms, limit, want=None):
    """the comparison with its sizes fixed near N; None if they cannot be"""
    fixed = {}
    L = TRUE
    for rnd in range(6):
        for _ in range(40):
            old = (pc, a, b)
            L = settle(L, pc, old, limit)
            pc, a, b = (write_out(tidy(x, L), limit, L) for x in old)
            if old == (pc, a, b):
                break
        pc = pc_of(pc)
        if pc is FALSE or pc is UNDEF:
            return None
        for i in range(min(N + 1, 12)):
            for ax in axioms:
                c = ax(INT(i), pc)
                if c is not None and c is not FALSE:
                    c = b_norm(c)
                    if c not in (TRUE, FALSE, UNDEF) and not any(x.op in BOUND for x in subterms(c)):
                        pc = AND(pc, c)
        pc = pc_of(pc)
        if pc is FALSE:
            return None
        a, b = tidy(a, pc), tidy(b, pc)
        # what is already pinned down
        eqs = {}
        for u, v in units(pc).items():
            if u.op == "eq0" and v:
                for m, c in poly_of(u.args[0], "int").items():
                    if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and m[0][0].op in LEAF:
                        rest = p_sub(m[0][0], p_scale(u.args[0], c))
                        if is_int(rest):
                            eqs[m[0][0]] = rest
        if eqs:
            a, b = subst_term(a, eqs), subst_term(b, eqs)
        at_ = size_atoms(a, b, pc)
        if not at_ and not eqs:
            break
        for x in at_:
            near = (N, N + 1, N - 1, N + 2, 1, 0, 2 * N)
            if want:
                near = (want[x],) if x in want else near + tuple(v + d for v in want.values() for d in (0, 1, 2))
            for v in near:
                if v < 0:
                    continue
                m = {x: INT(v)}
                p2 = pc_of(subst_term(pc, m))
                if p2 is not FALSE and p2 is not UNDEF:
                    pc = p2
                    a, b = subst_term(a, m), subst_term(b, m)
                    fixed[x] = v
                    break
            else:
                return None
    pc = pc_of(AND(pc, L))
    if pc is FALSE or pc is UNDEF:
        return None
    return a, b, pc, fixed


def limits(*ts):
    """(length, size) at which the terms distinguish cases: constants a length is compared with"""
    out, seen = [], set()
    for t in ts:
        for x in subterms(t, seen):
            if x.op in ("le0", "eq0") and type(x.args[0]) is Term and x.args[0].op == "poly":
                ms = [(m, c) for m, c in poly_of(x.args[0], "int").items() if m]
                if len(ms) == 1 and ms[0][1] in (1, -1) and len(ms[0][0]) == 1 and ms[0][0][0][0].op in LEAF:
                    c = poly_of(x.args[0], "int").get((), 0)
                    for v in (abs(c) + 1, abs(c), abs(c) - 1):
                        if 0 <= v <= 320 and (ms[0][0][0][0], v) not in out:
                            out.append((ms[0][0][0][0], v))
            elif x.op in ("min", "max"):
                d = p_sub(x.args[0], x.args[1])
                ms = [(m, c) for m, c in poly_of(d, "int").items() if m]
                if len(ms) == 1 and ms[0][1] in (1, -1) and len(ms[0][0]) == 1 and ms[0][0][0][0].op in LEAF:
                    c = abs(poly_of(d, "int").get((), 0))
                    if 2 <= c <= 318:
                        out += [(ms[0][0][0][0], v) for v in (c + 2, c + 1) if (ms[0][0][0][0], v) not in out]
    return out[:12]


def large(*ts):
    """every integer constant of the terms above the sizes tried"""
    out, seen = set(), set()
    for t in ts:
        for x in subterms(t, seen):
            if x.op == "int":
                out.add(abs(x.args[0]))
            elif x.op == "poly":
                for m, c in poly_of(x, x.args[0]).items():
                    if type(c) is int:
                        out.add(abs(c))
            else:
                out |= {abs(y) for y in x.args if type(y) is int}
    return {c for c in out if c > 24}


def shrunk(*ts):
    """A constant that a length is compared with, and that has no other role, can stand for any
    other: the terms with a small one in its place."""
    def plain(p):
        """a bound is a length and a constant"""
        ms = [(m, c) for m, c in poly_of(p, "int").items() if m] if p.op == "poly" else [] if is_int(p) else [(((p, 1),), 1)]
        return len(ms) <= 1 and all(c in (1, -1) and len(m) == 1 and m[0][1] == 1 for m, c in ms)

    big = large(*ts)
    if not big or max(big) - min(big) > 2 or max(big) > 2 ** 32:
        return None
    C = sorted(big)[(len(big) - 1) // 2]

    def small(c):
        return c if abs(c) <= 24 else (abs(c) - C + 4) * (1 if c > 0 else -1)
    out = []
    for t in ts:
        # the constants of minima and maxima first: what they bound is compared further on
        for _ in range(4):
            m = {}
            for x in subterms(t):
                if x.op in ("min", "max") and any(is_int(y) and large(y) for y in x.args):
                    m[x] = mk(x.op, *[INT(small(y.args[0])) if is_int(y) else y for y in x.args])
            if not m:
                break
            t = subst_term(t, m)
        m = {}
        for x in subterms(t):
            if x.op in ("le0", "eq0") and type(x.args[0]) is Term and large(x.args[0]):
                p = x.args[0]
                if not plain(p) or any(large(y) for mm in poly_of(p, "int") for y, _ in mm):
                    return None
                d = poly_of(p, "int")
                c = d.get((), 0)
                q = p_add(p, INT(small(c) - c))
                m[x] = mk(x.op, q)
            elif x.op in BOUND and is_int(x.args[BOUND[x.op]]) and abs(x.args[BOUND[x.op]].args[0]) > 24:
                new = list(x.args)
                new[BOUND[x.op]] = INT(small(x.args[BOUND[x.op]].args[0]))
                m[x] = mk(x.op, *new)
        for _ in range(4):
            u = subst_term(t, m)
            if u is t:
                break
            t = u
        if large(t):
            return None
        out.append(t)
    return out


def differs(cmpcls, a, b, pc, axioms=(), soft=(), sizes=(1, 2, 3, 5, 0, 12, 20), seconds=6.0):
    """a size instance in which the two sides are different, or None"""
    def on(*_):
        raise Timeout()
    rest, t0 = signal.getitimer(signal.ITIMER_REAL)[0], time.time()
    old = signal.signal(signal.SIGALRM, on)
    lim = T.UNROLL[0]
    def tries():
        for N in sizes:
            yield (a, b, pc), N, None
        s = shrunk(a, b, pc)
        if s is not None:
            for N in (3, 4, 5):
                yield s, N, None
        for x, v in limits(a, b, pc):
            yield (a, b, pc), min(v, 2), {x: v}

    try:
        for (a_, b_, pc_), N, want in tries():
            signal.setitimer(signal.ITIMER_REAL, seconds)
            lim2 = max([64] + [v + 8 for v in (want or {}).values()])
            try:
                T.UNROLL[0] = 3
                r = instance(a_, b_, pc_, N, axioms, lim2, want)
                if r is None:
                    continue
                x, y, p, fixed = r
                if not fixed:
                    return None
                T.UNROLL[0] = lim2
                c = cmpcls(axioms, soft=soft)
                v = c.cmp(x, y, p)
                if v == "NE":
                    return fixed, c.why
            except (Timeout, RecursionError):
                continue
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                T.UNROLL[0] = lim
    finally:
        signal.signal(signal.SIGALRM, old)
        if rest > 0:
            signal.setitimer(signal.ITIMER_REAL, max(rest - (time.time() - t0), 0.05))
    return None


def within(seconds, f):
    """f(), or None if it takes longer"""
    def on(*_):
        raise Timeout()
    rest, t0 = signal.getitimer(signal.ITIMER_REAL)[0], time.time()
    old = signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, min(seconds, rest) if rest > 0 else seconds)
    try:
        return f()
    except (Timeout, RecursionError):
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if rest > 0:
            signal.setitimer(signal.ITIMER_REAL, max(rest - (time.time() - t0), 0.05))

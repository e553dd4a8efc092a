"""Reading back written bytes: slices of concatenated fixed-size encodings are resolved to the elements they
were written from, under linear facts about sizes and indices."""
from .terms import *
from .compare import Cmp, rebuild_binder
from . import linear

LEAF = ("int", "var", "str", "bool", "bv", "k", "phi", "bytes", "undef")


class Layout:
    def __init__(self, pc, axioms=()):
        self.c = Cmp(axioms)
        self.n = 0

    def resolve(self, t, pc):
        return Pass(self, pc).go(t)

    def fresh(self):
        self.n += 1
        return mk("k", ("layout", self.n))


class Pass:
    """one scope: facts fixed"""

    def __init__(self, L, pc):
        self.L, self.pc = L, pc
        self.us = units(pc)
        self.lus = {a: v for a, v in self.us.items() if a.op in ("le0", "eq0")}
        self.memo = {}

    def le(self, p):
        """p <= 0 ?"""
        return linear.entails_le(self.lus, p)

    def eq(self, a, b):
        d = p_sub(a, b)
        return d is INT(0) or (self.le(d) and self.le(p_scale(d, -1)))

    def inner(self, extra):
        q = self.L.c.add(self.pc, extra)
        return None if q is None else Pass(self.L, q)

    def go(self, x):
        if type(x) is not Term:
            if type(x) is tuple:
                return tuple(self.go(y) for y in x)
            return x
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = self.step(x)
        return r

    def open(self, x):
        """binder body under the range of its index"""
        h, n, body = x.args[0], self.go(x.args[1]), x.args[2]
        k = self.L.fresh()
        v = mk("bv", h, "k")
        inn = self.inner(P_lt(k, n))
        if inn is None:
            return h, n, None, k
        return h, n, inn.go(subst(body, {v: k})), k

    def step(self, x):
        o = x.op
        if o in LEAF:
            return x
        if o == "ite":
            a = x.args[0]
            v = self.us.get(a)
            if v is None and a.op in ("le0", "eq0"):
                b = self.go(a)
                c = lit(b) if b.op in ("le0", "eq0") else atom_cond(b)
                if c is TRUE or c is FALSE:
                    v = c is TRUE
                elif linear.entails(self.lus, a, True):
                    v = True
                elif linear.entails(self.lus, a, False):
                    v = False
            if v is not None:
                return self.go(x.args[1] if v else x.args[2])
            b = atom_cond(self.go(a))
            if b in (TRUE, FALSE):
                return self.go(x.args[1] if b is TRUE else x.args[2])
            th, el = self.inner(lit(a)), self.inner(NOT(lit(a)))
            if th is None:
                return el.go(x.args[2]) if el else x
            if el is None:
                return th.go(x.args[1])
            return ITE(b, th.go(x.args[1]), el.go(x.args[2]))
        if o == "flat":
            h, n, body, k = self.open(x)
            if body is None:
                return NIL
            return flat(n, k, body)
        if o == "exists":
            h, n, body, k = self.open(x)
            if body is None:
                return FALSE
            return exists(n, k, b_norm(body))
        if o == "mbuild":
            h, n, m0, key, val = x.args
            n, m0, k = self.go(n), self.go(m0), self.L.fresh()
            inn = self.inner(P_lt(k, n))
            if inn is None:
                return m0
            v = mk("bv", h, "k")
            return bind("mbuild", n, k, m0, inn.go(subst(key, {v: k})), inn.go(subst(val, {v: k})))
        new = tuple(self.go(y) for y in x.args)
        r = x if new == x.args else (rebuild_binder(x, new) if o in BINDERS else rebuild(o, new))
        if r.op == "max0":
            if self.le(r.args[0]):
                return INT(0)
            if self.le(p_scale(r.args[0], -1)):
                return self.go(r.args[0])
        if r.op == "cat":
            return heads(r)
        if r.op == "sl":
            q = self.cut(*r.args)
            if q is not None and q is not r:
                return self.go(q)
        if r.op == "at" and r.args[0].op == "cat":
            q = self.L.c.at_cat(r, self.le)
            if q is not r:
                return self.go(q)
        if r is not x and r.op in ("ite",):
            return self.go(r)
        return r

    def cut(self, s, lo, hi):
        """s[lo..hi] as an element, or None"""
        if not self.le(p_sub(lo, hi)):
            return None
        parts = list(s.args) if s.op == "cat" else [s]
        off = INT(0)
        while parts and len(parts) > 1:
            e = p_add(off, length(parts[0]))
            if not self.le(p_sub(e, lo)):
                break
            off = e
            parts.pop(0)
        # lo lies in (or before) parts[0]
        if not parts or not self.le(p_sub(off, lo)):
            return None
        e = p_add(off, length(parts[0]))
        if self.le(p_sub(hi, e)):
            return self.inside(parts[0], p_sub(lo, off), p_sub(hi, off))
        # whole parts
        if self.eq(lo, off):
            out = []
            for p in parts:
                e = p_add(off, length(p))
                out.append(p)
                if self.eq(e, hi):
                    return cat(out)
                off = e
        if len(parts) < (len(s.args) if s.op == "cat" else 1):
            base = INT(0)
            for p in s.args[:len(s.args) - len(parts)]:
                base = p_add(base, length(p))
            return sl(cat(parts), p_sub(lo, base), p_sub(hi, base))
        return None

    def inside(self, p, lo, hi):
        if self.eq(lo, INT(0)) and self.eq(hi, length(p)):
            return p
        if p.op != "flat":
            return None
        h, n, body = p.args
        s = length(body)
        if mk("bv", h, "k") in s.free or any(f.op == "bv" for f in s.free):
            return None
        size = p_sub(hi, lo)
        qr = divide(lo, s)
        if qr is None:
            return None
        i, rem = qr
        if not (self.le(p_scale(rem, -1)) and self.le(p_sub(p_add(rem, size), s)) and self.le(p_scale(i, -1)) and self.le(p_sub(p_add(i, INT(1)), n))):
            return None
        e = subst(body, {mk("bv", h, "k"): i})
        if rem is INT(0) and self.eq(size, s):
            return e
        return self.cut(e, rem, p_add(rem, size))


def heads(s):
    """a first element followed by the others: one family"""
    out = []
    for p in s.args:
        if p.op == "flat" and out:
            h, n, body = p.args
            if out[-1] is subst(body, {mk("bv", h, "k"): INT(-1)}):
                k = mk("k", ("heads", h))
                p = flat(p_add(n, INT(1)), k, subst(body, {mk("bv", h, "k"): p_sub(k, INT(1))}))
                out.pop()
        out.append(p)
    return s if len(out) == len(s.args) else cat(out)


def divide(p, s):
    """p = q*s + r for a one-term s; the part of p divisible by s becomes q"""
    d = poly_of(s, "int")
    if len(d) != 1:
        return None
    (sm, sc), = d.items()
    sm = dict(sm)
    q = r = INT(0)
    for m, c in poly_of(p, "int").items():
        md = dict(m)
        if not sm and not md:
            q = p_add(q, INT(c // sc))
            r = p_add(r, INT(c % sc))
            continue
        if all(md.get(a, 0) >= e for a, e in sm.items()) and c % sc == 0:
            for a, e in sm.items():
                md[a] -= e
            t = INT(c // sc)
            for a, e in md.items():
                for _ in range(e):
                    t = p_mul(t, a)
            q = p_add(q, t)
        else:
            t = INT(c)
            for a, e in m:
                for _ in range(e):
                    t = p_mul(t, a)
            r = p_add(r, t)
    return q, r

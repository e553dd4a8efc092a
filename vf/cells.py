"""Cells of a two-dimensional array after loops that rewrite it.

A loop that, in iteration k, writes only column (or row) a + k, and reads only what earlier
iterations have not written, gives every cell a closed form: the value written in the one
iteration that reaches it, computed from the cells before the loop.  Both conditions are checked
with linear arithmetic; a loop that does not meet them has no closed form (None is raised)."""
from .terms import *
from . import terms as T
from . import linear


WORK = 20000  # conditions decided for one matrix; more is not pursued


class NoForm(Exception):
    pass


class Grid:
    def __init__(self, token, ncol, nrow, pc):
        self.toks = {token}
        self.ncol, self.nrow = ncol, nrow
        self.pc = pc
        self.n = self.work = 0

    def fresh(self, tag):
        self.n += 1
        return mk("k", ("grid", tag, self.n))

    # ------------------------------------------------------------ shape
    def grid(self, w):
        """an array of the same size as the token"""
        if w in self.toks:
            return True
        if w.op == "ite":
            return self.grid(w.args[1]) and self.grid(w.args[2])
        if w.op == "store":
            return self.grid(w.args[0])
        if w.op == "upd":
            return self.grid(w.args[1])
        if w.op == "rec":
            return self.grid(w.args[2])
        return False

    def column(self, v):
        if v.op == "at":
            return self.grid(v.args[0])
        if v.op == "ite":
            return self.column(v.args[1]) and self.column(v.args[2])
        if v.op == "store":
            return self.column(v.args[0])
        return False

    def kept(self, w, extra=()):
        """an array of the same shape, each of its columns too"""
        if w in self.toks or w in extra:
            return True
        if w.op == "ite":
            return self.kept(w.args[1], extra) and self.kept(w.args[2], extra)
        if w.op == "store":
            return self.kept(w.args[0], extra) and self.column_of(w.args[2], extra)
        if w.op == "upd":
            return self.kept(w.args[1], extra) and self.column_of(w.args[3], extra)
        if w.op == "rec":
            return self.kept(w.args[2], extra) and self.kept(w.args[3], extra + (mk("bv", w.args[0], "p"),))
        return False

    def column_of(self, v, extra):
        if v.op == "at":
            return self.kept(v.args[0], extra)
        if v.op == "ite":
            return self.column_of(v.args[1], extra) and self.column_of(v.args[2], extra)
        return v.op in ("store", "swap") and self.column_of(v.args[0], extra)

    # ------------------------------------------------------------ simplification
    def fix(self, t, pc, memo=None):
        """t with the sizes known and no cell of a changed array left"""
        memo = {} if memo is None else memo
        if type(t) is tuple:
            return tuple(self.fix(x, pc, memo) for x in t)
        if type(t) is not Term:
            return t
        r = memo.get(t)
        if r is not None:
            return r
        o = t.op
        if o in ("int", "var", "str", "bool", "bv", "k", "phi", "loc"):
            return t
        if o == "len" and self.grid(t.args[0]):
            r = self.ncol
        elif o == "len" and self.column(t.args[0]):
            r = self.nrow
        elif o == "at" and self.column(t.args[0]) and not (t.args[0].op == "at" and t.args[0].args[0] in self.toks):
            r = self.row(t.args[0], self.fix(t.args[1], pc, memo), pc)
        elif o == "ite":
            c = self.cond(atom_cond(self.fix(t.args[0], pc, memo)), pc)
            # one condition after the other: what comes first is known in what follows
            if c not in (TRUE, FALSE) and FALSE in t.args[1:]:
                if t.args[2] is FALSE:
                    r = AND(c, self.fix(t.args[1], AND(pc, c)))
                else:
                    r = AND(NOT(c), self.fix(t.args[2], AND(pc, NOT(c))))
                memo[t] = r
                return r
            r = ITE(c, self.fix(t.args[1], pc, memo), self.fix(t.args[2], pc, memo))
        elif o in ("exists", "first"):
            h, n, b = t.args
            n = self.fix(n, pc, memo)
            k = self.fresh("b")
            q = AND(pc, AND(P_lt(k, n), P_le(INT(0), k)))
            b2 = self.under(self.fix(subst(b, {mk("bv", h, "k"): k}), q), q)
            if o == "exists":
                r = exists(n, k, b_norm(b2))
            else:
                h = binder_h(b2)
                r = mk("first", h, n, subst(b2, {k: mk("bv", h, "k")}))
            if t in RANGE:
                RANGE[r] = RANGE[t]
        elif o in BINDERS:
            r = t
        else:
            new = tuple(self.fix(x, pc, memo) for x in t.args)
            r = t if new == t.args else rebuild(o, new)
        memo[t] = r
        return r

    def cond(self, c, pc):
        """a condition under what is known"""
        if c in (TRUE, FALSE, UNDEF):
            return c
        self.work += 1
        if self.work > WORK:
            raise NoForm("too many cases")
        us = units(pc)
        if linear.holds(us, c):
            return TRUE
        if linear.holds(us, NOT(c)):
            return FALSE
        return restrict(c, pc)

    def under(self, t, pc):
        if t.op != "ite":
            return t
        c = self.cond(lit(t.args[0]), pc)
        if c is TRUE:
            return self.under(t.args[1], pc)
        if c is FALSE:
            return self.under(t.args[2], pc)
        return ITE(c, self.under(t.args[1], AND(pc, c)), self.under(t.args[2], AND(pc, NOT(c))))

    def choose(self, c, pc, yes, no):
        c = self.cond(b_norm(c), pc)
        if c is TRUE:
            return yes(pc)
        if c is FALSE:
            return no(pc)
        return ITE(c, yes(AND(pc, c)), no(AND(pc, NOT(c))))

    # ------------------------------------------------------------ cells
    def row(self, v, r, pc):
        if v.op == "at":
            if self.grid(v.args[0]):
                return self.cell(v.args[0], self.fix(v.args[1], pc), r, pc)
        if v.op == "ite":
            return self.choose(self.fix(lit(v.args[0]), pc), pc, lambda p: self.row(v.args[1], r, p), lambda p: self.row(v.args[2], r, p))
        if v.op == "store":
            b, i, x = v.args
            return self.choose(P_eq_int(r, self.fix(i, pc)), pc, lambda p: self.fix(x, p), lambda p: self.row(b, r, p))
        raise NoForm("column " + show(v)[:200])

    def cell(self, w, c, r, pc):
        if w in self.toks:
            return mk("at", mk("at", w, c), r)
        if w.op == "ite":
            return self.choose(self.fix(lit(w.args[0]), pc), pc, lambda p: self.cell(w.args[1], c, r, p), lambda p: self.cell(w.args[2], c, r, p))
        if w.op == "store":
            b, i, x = w.args
            return self.choose(P_eq_int(c, self.fix(i, pc)), pc, lambda p: self.row(x, r, p), lambda p: self.cell(b, c, r, p))
        if w.op == "upd":
            h, base, n, b = w.args
            return self.choose(P_lt(c, self.fix(n, pc)), pc, lambda p: self.row(subst(b, {mk("bv", h, "k"): c}), r, p), lambda p: self.cell(base, c, r, p))
        if w.op == "rec":
            return self.rec(w, c, r, pc)
        raise NoForm("array " + show(w)[:200])

    def rec(self, w, c, r, pc):
        h, n, base, body = w.args
        n = self.under(self.fix(n, pc), pc)
        P, K, C, R = self.fresh("P"), self.fresh("K"), self.fresh("C"), self.fresh("R")
        self.toks.add(P)
        inr = AND(P_le(INT(0), K), P_lt(K, n))
        q = AND(AND(pc, inr), AND(AND(P_le(INT(0), C), P_lt(C, self.ncol)), AND(P_le(INT(0), R), P_lt(R, self.nrow))))
        one = self.cell(subst(body, {mk("bv", h, "p"): P, mk("bv", h, "k"): K}), C, R, q)
        old = mk("at", mk("at", P, C), R)
        if one is old:
            return self.cell(base, c, r, pc)
        # what does not depend on the iteration or the cell is told apart outside the loop
        for y in subterms(one):
            if y.op == "ite" and not any(z in y.args[0].free or y.args[0] is z for z in (P, K, C, R)):
                b = lit(y.args[0])
                d = self.cond(b, pc)
                if d not in (TRUE, FALSE) and self.cond(b, AND(pc, d)) is TRUE and self.cond(b, AND(pc, NOT(d))) is FALSE:
                    return self.choose(b, pc, lambda p: self.rec(w, c, r, p), lambda p: self.rec(w, c, r, p))
        for x in dict.fromkeys(y.args[0] for y in subterms(one) if y.op == "ite" and y.args[0].op == "eq0"):
            d = poly_of(x.args[0], "int")
            for v, g in ((C, c), (R, r)):
                ck, cv = d.get(((K, 1),)), d.get(((v, 1),))
                if ck not in (1, -1) or cv not in (1, -1) or ck == cv:
                    continue
                # the position is v = a + K
                a = p_sub(v, p_add(K, p_scale(x.args[0], cv)))
                if K in a.free or v in a.free:
                    continue
                if self.drop(one, x) is not old:
                    continue
                return self.reached(restrict(one, lit(x)), P, K, (C, R), v, a, n, base, (c, r), g, pc)
        raise NoForm("loop " + show(w)[:200])

    def drop(self, t, x):
        """t where the iteration does not reach the cell"""
        t = restrict(t, NOT(lit(x)))
        ls = leaves(t)
        return ls[0] if len(set(ls)) == 1 else None

    def reached(self, x, P, K, CR, v, a, n, base, at_, g, pc):
        """the iteration that reaches the cell is K = v - a"""
        Ks = p_sub(g, a)
        inside = AND(P_le(INT(0), Ks), P_lt(Ks, n))

        def yes(q):
            val = subst(x, {K: Ks, CR[0]: at_[0], CR[1]: at_[1]})
            # cells read: not written by the iterations before
            m = {}
            for y in subterms(val):
                if y.op == "at" and y.args[0].op == "at" and y.args[0].args[0] is P:
                    ci, ri = y.args[0].args[1], y.args[1]
                    z = ci if v is CR[0] else ri
                    us = units(q)
                    if not (linear.holds(us, P_le(g, z)) or linear.holds(us, P_lt(z, a))):
                        raise NoForm(f"a cell read may have been rewritten: {show(y)[:150]}")
                    m[y] = self.cell(base, ci, ri, q)
            val = subst_term(val, m)
            if any(y is P for y in subterms(val)):
                raise NoForm("the array as a whole is read")
            return val
        return self.choose(inside, pc, yes, lambda q: self.cell(base, at_[0], at_[1], q))

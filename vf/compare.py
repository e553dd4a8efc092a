"""Comparison of two value terms under a condition.

EQ  the normal forms agree in every case of the gating conditions
NE  they provably disagree in a reachable case, in a position made only of understood operations
UNK neither (something in the position is not understood); callers stay quiet on it but count it

No search for concrete inputs takes place: cases are the literals of the gating conditions, pruned
with the linear domain, and disagreement is disagreement of normal forms."""
import os
import re
import time

from .terms import *
from . import terms as T
from . import linear

EQ, NE, UNK = "EQ", "NE", "UNK"
SOFT = {"unk", "phi", "rec", "exitk", "vptr", "load"}
SHAPED = {"sum", "isum", "exists", "first", "rec", "mbuild", "upd", "maxk", "flat"}
SECONDS = 120 if os.environ.get("VERIF_TIER") == "thorough" else 20  # of processor time
BUDGET = 60000 if os.environ.get("VERIF_TIER") == "thorough" else 3000


class Budget(Exception):
    pass


# functions of a text or list whose result is not always what they are given
PART = re.compile(r"(^|[:> ])(trim(_\w+)?|strip_(prefix|suffix)|to_(ascii_)?(lower|upper)case|trim_ascii\w*)$")


def changed(a):
    """the text a is made from by such a function"""
    if a.op == "fld" and a.args[1] == 1:
        a = a.args[0]
    if a.op in ("unk", "call") and type(a.args[0]) is str and PART.search(a.args[0]) and len(a.args) > 1 and type(a.args[1]) is tuple and a.args[1]:
        return a.args[1][0]
    return None


class Cmp:
    def __init__(self, axioms=(), budget=BUDGET, soft=(), seconds=SECONDS):
        self.left = budget
        self.until = time.process_time() + seconds
        self.exhausted = False
        self.axioms = list(axioms)
        self.why = []
        self.n = 0
        self.nk = 0
        self.memo = {}
        self.softcalls = soft
        self.done = set()

    # -------------------------------------------------------------- facts
    def lits(self, pc):
        return units(pc)

    def add(self, pc, c):
        """pc and c; None if contradictory"""
        c = restrict(b_norm(c), pc)
        if c is FALSE or c is UNDEF:
            return None
        if c is not TRUE:
            pc = AND(pc, c)
        if pc is FALSE:
            return None
        if linear.contradictory(units(pc)):
            return None
        return pc

    def instantiate(self, pc, k):
        """universal facts (negated exists) used at index k"""
        for a, v in list(units(pc).items()):
            if a.op == "exists" and v is False:
                h, n, u = a.args
                if linear.entails_le(units(pc), p_sub(p_add(k, INT(1)), n)):
                    i = subst(u, {mk("bv", h, "k"): k})
                    r = self.add(pc, NOT(b_norm(i)))
                    if r is not None:
                        pc = r
        for ax in self.axioms:
            c = ax(k, pc)
            if c is not None:
                r = self.add(pc, c)
                if r is not None:
                    pc = r
        return pc

    def instantiate_all(self, pc, k):
        """universal facts and axioms at index k; None if contradictory"""
        for a, v in list(units(pc).items()):
            if a.op == "exists" and v is False:
                h, n, u = a.args
                if linear.entails_le(units(pc), p_sub(p_add(k, INT(1)), n)):
                    pc = self.add(pc, NOT(b_norm(subst(u, {mk("bv", h, "k"): k}))))
                    if pc is None:
                        return None
        for ax in self.axioms:
            c = ax(k, pc)
            if c is not None:
                pc = self.add(pc, c)
                if pc is None:
                    return None
        return pc

    def refine(self, t, pc):
        us = units(pc)
        if not us:
            return t
        eqs = {}
        for a, v in us.items():
            if a.op == "eq0" and v:
                d = poly_of(a.args[0], "int")
                for m, c in d.items():
                    if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and m[0][0].op in ("fld", "at", "len", "var", "k", "mget", "call", "dec", "load"):
                        x = m[0][0]
                        rest = p_sub(x, p_scale(a.args[0], c))
                        if not contains(rest, lambda y: y is x):
                            eqs[x] = rest
                            break
            elif a.op == "eqz" and v and a.args[0].op != "poly":
                # an element known to be zero
                eqs[a.args[0]] = ALG0
            elif a.op == "eqz" and v:
                d = poly_of(a.args[0], "alg")
                if len(d) == 1 and all(e > 0 for m in d for _, e in m) and len(next(iter(d))) == 1:
                    eqs[next(iter(d))[0][0]] = ALG0
                else:
                    for m, c in d.items():
                        if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and m[0][0].op in ("fld", "at", "var", "mget", "ofint", "load"):
                            x = m[0][0]
                            rest = p_sub(x, p_scale(a.args[0], c, "alg"), "alg")
                            if not contains(rest, lambda y: y is x):
                                eqs[x] = rest
                                break
        if eqs:
            t = subst_term(t, eqs)
        lus = {a: v for a, v in us.items() if a.op in ("le0", "eq0")}
        memo = {}

        def le(p):
            return linear.entails_le(lus, p)

        def go(x):
            if type(x) is not Term:
                if type(x) is tuple:
                    return tuple(go(y) for y in x)
                return x
            r = memo.get(x)
            if r is not None:
                return r
            if x.op in ("int", "var", "str", "bool", "bv", "k", "phi", "bytes", "undef"):
                return x
            if x.op == "ite":
                a = x.args[0]
                v = us.get(a)
                if v is None and a.op in ("le0", "eq0") and lus:
                    if linear.entails(lus, a, True):
                        v = True
                    elif linear.entails(lus, a, False):
                        v = False
                if v is not None:
                    r = go(x.args[1] if v else x.args[2])
                else:
                    b = go(a)
                    c = atom_cond(b)
                    r = ITE(c, go(x.args[1]), go(x.args[2]))
            else:
                new = tuple(go(y) for y in x.args)
                if new != x.args:
                    r = rebuild_binder(x, new) if x.op in BINDERS else rebuild(x.op, new)
                else:
                    r = x
                if r.op == "max0" and lus:
                    if le(r.args[0]):
                        r = INT(0)
                    elif le(p_scale(r.args[0], -1)):
                        r = r.args[0]
                elif r.op in ("min", "max") and lus:
                    a, b = r.args
                    if le(p_sub(a, b)):
                        r = a if r.op == "min" else b
                    elif le(p_sub(b, a)):
                        r = b if r.op == "min" else a
                elif r.op == "at" and r.args[0].op == "cat" and lus:
                    r = self.at_cat(r, le)
                if r.op == "at" and r.args[0].op == "seq" and len(r.args[0].args) == 1 and lus and le(r.args[1]):
                    r = r.args[0].args[0]
            memo[x] = r
            return r

        return go(t)

    def at_cat(self, r, le):
        s, i = r.args
        off = INT(0)
        for p in s.args:
            lp = length(p)
            d = p_sub(i, off)
            if le(p_sub(p_add(d, INT(1)), lp)):      # d < lp
                if le(p_scale(d, -1)):
                    return at(p, d)
                return r
            if not le(p_sub(lp, d)):
                return r
            off = p_add(off, lp)
        return r

    # -------------------------------------------------------------- split candidates
    def splits(self, *ts):
        out = []
        for t in ts:
            if t.op == "ite":
                out.append(lit(t.args[0]))
        if out:
            return out
        seen = set()
        for t in ts:
            for x in subterms(t):
                if x in seen:
                    continue
                seen.add(x)
                c = None
                if any(f.op == "bv" for f in x.free):
                    if x.op == "ite" and not any(f.op == "bv" for f in x.args[0].free):
                        c = lit(x.args[0])
                elif x.op == "ite":
                    c = lit(x.args[0])
                elif x.op == "max0":
                    c = P_le0(x.args[0])
                elif x.op in ("min", "max"):
                    c = P_le(x.args[0], x.args[1])
                elif x.op == "at" and x.args[0].op == "cat":
                    off = INT(0)
                    for p in x.args[0].args:
                        off = p_add(off, length(p))
                        c = P_lt(x.args[1], off)
                        out.append(c)
                    c = None
                if c is not None and c not in (TRUE, FALSE):
                    out.append(c)
        return out

    # -------------------------------------------------------------- compare
    def cmp(self, a, b, pc=TRUE):
        self.left -= 1
        if self.left < 0 or time.process_time() > self.until:
            self.why.append("case budget exhausted")
            self.exhausted = True
            return UNK
        if a is b:
            return EQ
        a, b = restrict(a, pc), restrict(b, pc)
        if a is b:
            return EQ
        a, b = self.refine(a, pc), self.refine(b, pc)
        if a is b:
            return EQ
        key = (a, b, pc)
        r = self.memo.get(key)
        if r is None:
            r = self._cmp(a, b, pc)
            self.memo[key] = r
        return r

    def _cmp(self, a, b, pc):
        isb = lambda x: x in (TRUE, FALSE)
        top = a.op == "ite" or b.op == "ite"
        if top:
            r = self.unify_exists(a, b, pc)
            if r is not None:
                a, b = r
                if a is b:
                    return EQ
        v = None
        if not top:
            nw = len(self.why)
            v = self.struct(a, b, pc)
            if v == EQ:
                return EQ
        us = units(pc)
        for c in self.splits(a, b):
            if c.op != "ite":
                continue
            c = restrict(c, pc)
            if c in (TRUE, FALSE) or linear.decide(us, c) is not None:
                continue
            if v is not None:
                del self.why[nw:]
            res = []
            for val in (c, NOT(c)):
                p2 = self.add(pc, val)
                if p2 is None:
                    continue
                res.append(self.cmp(a, b, p2))
                if res[-1] == NE:
                    return NE
            if UNK in res:
                return UNK
            return EQ
        if v is None:
            v = self.struct(a, b, pc)
        return v

    def unify_exists(self, a, b, pc):
        """identify exists-atoms of the two sides that say the same"""
        ea = [x for x in self.atoms(a) if x.op == "exists"]
        eb = [x for x in self.atoms(b) if x.op == "exists"]
        only_b = [y for y in eb if y not in ea]
        ch = False
        for y in only_b:
            for x in ea:
                if x in eb:
                    continue
                if self.same_exists(x, y, pc):
                    b = self.replace_atom(b, y, x)
                    ch = True
                    break
        return (a, b) if ch else None

    def absent(self, pc, c):
        """c without the exists-atoms that the ones excluded by pc exclude together"""
        no = [x for x in self.atoms(pc) if x.op == "exists" and restrict(pc, lit(x)) is FALSE]
        for y in [x for x in self.atoms(c) if x.op == "exists"] if no else ():
            h, n, u = y.args
            k = self.fresh()
            body = AND(b_norm(subst(u, {mk("bv", h, "k"): k})), P_lt(k, n))
            for x in no:
                if P_le(n, x.args[1]) is TRUE or restrict(P_le(n, x.args[1]), pc) is TRUE:
                    body = AND(body, NOT(b_norm(subst(x.args[2], {mk("bv", x.args[0], "k"): k}))))
            if body is FALSE or restrict(body, pc) is FALSE or self.forbids(AND(pc, body), body) is EQ:
                c = restrict(c, NOT(lit(y)))
        return c

    def atoms(self, t):
        out, seen, st = [], set(), [t]
        while st:
            x = st.pop()
            if x in seen or x.op != "ite":
                continue
            seen.add(x)
            out.append(x.args[0])
            st += [x.args[1], x.args[2]]
        return list(dict.fromkeys(out))

    def replace_atom(self, t, old, new):
        return ITE(lit(new), restrict(t, lit(old)), restrict(t, NOT(lit(old))))

    def same_exists(self, x, y, pc):
        h1, n1, u1 = x.args
        h2, n2, u2 = y.args
        k = self.fresh()
        c1 = AND(b_norm(subst(u1, {mk("bv", h1, "k"): k})), P_lt(k, n1))
        c2 = AND(b_norm(subst(u2, {mk("bv", h2, "k"): k})), P_lt(k, n2))
        sub = Cmp(self.axioms, min(self.left, 400))
        return sub.cmp(c1, c2, pc) == EQ

    def fresh(self):
        self.nk += 1
        return mk("k", ("cmp", id(self) % 1, self.nk))

    def clean(self, t):
        return not contains(t, lambda x: x.op in SOFT or (x.op == "call" and x.args[0] in self.softcalls))

    NARROW = {"u8": 2 ** 8 - 1, "i8": 2 ** 7 - 1, "u16": 2 ** 16 - 1, "i16": 2 ** 15 - 1}

    def cut(self, a, b, pc):
        """a is b reduced to fewer bits, and nothing says that b is small; or a part of the text b"""
        if changed(a) is b:
            base = a.args[0] if a.op == "fld" else a
            stub = mk("k", ("cut",))
            return not any(contains(subst_term(x, {base: stub}), lambda y: y is b) for x in units(pc) if x.op in ("le0", "eq0", "eqz", "exists"))
        if a.op not in ("cast", "remc") or b.op in ("poly", "ite") or a.args[0].op in ("poly", "ite"):
            return False
        us = {x: v for x, v in units(pc).items() if x.op in ("le0", "eq0")}
        if a.args[0] is not b and not linear.holds(us, P_eq_int(a.args[0], b)):
            return False
        if a.op == "cast":
            top = self.NARROW.get(a.args[1])
        else:
            top = a.args[1] - 1
        if top is None or top >= 2 ** 31 or is_int(b) or b.op in ("poly", "ite") or contains(pc, lambda x: x.op in ("unk", "exitk")):
            return False
        r = atom_interval(b) if b.op not in INTLIKE else (0, None)
        if b.op in INTLIKE and b.op not in ("len", "dec", "isum") or r[1] is not None and r[1] <= top:
            return False
        return not linear.holds(us, P_le(b, INT(top)))

    def leafdiff(self, a, b, pc, what):
        if a is UNDEF or b is UNDEF:
            self.why.append(f"undefined value: {what}")
            return UNK
        for x, y in ((a, b), (b, a)):
            if self.cut(x, y, pc):
                self.why.append(f"{what}: {show(x)[:300]} is cut off")
                return NE
        if any(contains(x, lambda y: y.op in SHAPED) for x in (a, b)):
            # loop summaries of different shapes can still agree: decided for fixed sizes only
            self.why.append(f"of different shapes: {what}: {show(a)[:200]} / {show(b)[:200]}")
            return UNK
        if self.clean(a) and self.clean(b) and not contains(pc, lambda x: x.op in ("unk", "phi", "rec", "exitk")):
            self.why.append(f"{what}: {show(a)[:300]} is not {show(b)[:300]}" + (f" when {show(pc)[:200]}" if pc is not TRUE else ""))
            return NE
        self.why.append(f"not understood: {show(a)[:200]} / {show(b)[:200]}")
        return UNK

    def allof(self, pairs, pc):
        out = EQ
        for x, y in pairs:
            r = self.cmp(x, y, pc)
            if r == NE:
                return NE
            if r == UNK:
                out = UNK
        return out

    def struct(self, a, b, pc):
        us = units(pc)
        if a is UNDEF or b is UNDEF:
            return self.leafdiff(a, b, pc, "value")
        if a.op == "bool" or b.op == "bool":
            return self.leafdiff(a, b, pc, "condition")
        if a.op == "agg" and b.op == "agg":
            if a.args[0] != b.args[0] or len(a.args[1]) != len(b.args[1]):
                return self.leafdiff(a, b, pc, "variant")
            return self.allof(zip(a.args[1], b.args[1]), pc)
        if intlike(a) and intlike(b):
            d = p_sub(a, b)
            if d is INT(0) or (linear.entails_le(us, d) and linear.entails_le(us, p_scale(d, -1))):
                return EQ
            if self.int_match(d, pc):
                return EQ
            return self.leafdiff(a, b, pc, "number")
        alg = lambda x: x.op == "poly" and x.args[0] == "alg"
        if alg(a) or alg(b):
            return self.alg(a, b, pc)
        seqish = lambda x: x.op in ("seq", "cat", "flat", "sl", "bytes", "store", "upd")
        if seqish(a) or seqish(b):
            return self.sequence(a, b, pc)
        if a.op == b.op and len(a.args) == len(b.args) and a.op not in BINDERS:
            res = EQ
            ok = True
            pairs = []
            for x, y in zip(a.args, b.args):
                if type(x) is Term and type(y) is Term:
                    pairs.append((x, y))
                elif type(x) is tuple and type(y) is tuple and len(x) == len(y):
                    for p, q in zip(x, y):
                        if type(p) is Term and type(q) is Term:
                            pairs.append((p, q))
                        elif p != q:
                            ok = False
                elif x != y:
                    ok = False
            if ok:
                nw = len(self.why)
                r = self.allof(pairs, pc)
                if r == EQ:
                    return EQ
                if r == UNK:
                    return UNK
                del self.why[nw:]
        elif a.op == b.op and a.op in BINDERS and len(a.args) == 3:
            k = self.fresh()
            r = self.cmp(a.args[1], b.args[1], pc)
            if r == EQ:
                p2 = self.add(pc, P_lt(k, a.args[1]))
                if p2 is None:
                    return EQ
                p2 = self.instantiate(p2, k)
                r = self.cmp(subst(a.args[2], {mk("bv", a.args[0], "k"): k}), subst(b.args[2], {mk("bv", b.args[0], "k"): k}), p2)
                if r == EQ:
                    return EQ
        return self.leafdiff(a, b, pc, "value")

    def int_match(self, d, pc):
        pos = [(m, c) for m, c in poly_of(d, "int").items() if c == 1 and len(m) == 1]
        neg = [(m, c) for m, c in poly_of(d, "int").items() if c == -1 and len(m) == 1]
        if len(poly_of(d, "int")) != len(pos) + len(neg) or len(pos) != len(neg) or not pos or len(pos) > 3:
            return False
        for m, _ in pos:
            hit = None
            for q in neg:
                x, y = m[0][0], q[0][0][0]
                if x.op == y.op and x.op not in ("len", "int", "var", "k"):
                    nw = len(self.why)
                    if m[0][1] == q[0][0][1] and self.struct_child(x, y, pc):
                        hit = q
                        break
                    del self.why[nw:]
            if hit is None:
                return False
            neg.remove(hit)
        return True

    def struct_child(self, x, y, pc):
        if len(x.args) != len(y.args):
            return False
        if x.op in BINDERS:
            if len(x.args) != 3 or self.cmp(x.args[1], y.args[1], pc) != EQ:
                return False
            k = self.fresh()
            p2 = self.add(pc, P_lt(k, x.args[1]))
            if p2 is None:
                return True
            p2 = self.instantiate(p2, k)
            return self.cmp(subst(x.args[2], {mk("bv", x.args[0], "k"): k}), subst(y.args[2], {mk("bv", y.args[0], "k"): k}), p2) == EQ
        for p, q in zip(x.args, y.args):
            if type(p) is Term and type(q) is Term:
                if self.cmp(p, q, pc) != EQ:
                    return False
            elif type(p) is tuple and type(q) is tuple and len(p) == len(q):
                for u, v in zip(p, q):
                    if type(u) is Term and type(v) is Term:
                        if self.cmp(u, v, pc) != EQ:
                            return False
                    elif u != v:
                        return False
            elif p != q:
                return False
        return True

    def alg(self, a, b, pc):
        d = p_sub(a, b, "alg")
        ms = dict(poly_of(d, "alg"))
        if not ms:
            return EQ
        # match monomials pairwise, atom by atom
        pos = [(m, c) for m, c in ms.items()]
        left = []
        nw = len(self.why)
        while pos:
            m, c = pos.pop(0)
            for q in pos:
                if q[1] == -c and self.mono_eq(m, q[0], pc):
                    pos.remove(q)
                    break
            else:
                left.append((m, c))
        del self.why[nw:]
        if not left:
            return EQ
        # peel one term off sums when they can be seen to be non-empty
        peeled = self.peel(from_poly(dict(left), "alg"), pc)
        if peeled is not None:
            return self.cmp(peeled, ALG0, pc) if peeled is not ALG0 else EQ
        v = self.leafdiff(a, b, pc, "group element")
        if v == NE:
            # relations between elements known to hold could make the two agree
            da = {x for m in poly_of(d, "alg") for x, _ in m}
            for u, val in units(pc).items():
                if u.op == "eqz" and val and u.args[0].op == "poly" and any(x in da for m in poly_of(u.args[0], "alg") for x, _ in m):
                    self.why.append("relation between the elements: " + show(u)[:200])
                    return UNK
        if v == NE:
            self.why[-1] = f"group element: {show(a)[:160]} is not {show(b)[:160]}; difference {show(d)[:300]}"
        return v

    def peel(self, d, pc):
        us = units(pc)
        sums = [a for m in poly_of(d, "alg") for a, e in m if a.op == "sum"]
        ns = list(dict.fromkeys(a.args[1] for a in sums))
        if len(ns) < 2 and not (len(sums) == 1):
            return None
        # bring the longer sums down to the shortest bound
        for a in sums:
            for n in ns:
                e = p_sub(a.args[1], n)
                if is_int(e) and 0 < e.args[0] <= 3 and linear.entails_le(us, p_sub(INT(1), a.args[1])):
                    h, N, body = a.args
                    v = mk("bv", h, "k")
                    k = self.fresh()
                    s = p_add(subst(body, {v: INT(0)}), algsum(p_sub(N, INT(1)), k, subst(body, {v: p_add(k, INT(1))})), "alg")
                    r = subst_term(d, {a: s})
                    return None if r is d else r
        return None

    def mono_eq(self, m1, m2, pc):
        if len(m1) != len(m2):
            return False
        rest = list(m2)
        for a, e in m1:
            if (a, e) in rest:
                rest.remove((a, e))
                continue
            for x in rest:
                if x[1] == e and x[0].op == a.op and a.op not in ("var", "gen", "draw") and self.struct_child(a, x[0], pc):
                    rest.remove(x)
                    break
            else:
                return False
        return True

    def parts(self, s):
        if s.op == "cat":
            return list(s.args)
        return [s]

    def sequence(self, a, b, pc):
        if a.op == "flat" and b.op == "flat":
            nw = len(self.why)
            r = self.cmp(a.args[1], b.args[1], pc)
            if r == EQ:
                k = self.fresh()
                p2 = self.add(pc, P_lt(k, a.args[1]))
                if p2 is None:
                    return EQ
                p2 = self.instantiate(p2, k)
                r = self.cmp(subst(a.args[2], {mk("bv", a.args[0], "k"): k}), subst(b.args[2], {mk("bv", b.args[0], "k"): k}), p2)
                if r == EQ:
                    return EQ
                if r == NE:
                    # bodies of fixed equal lengths: a real difference
                    return NE
            del self.why[nw:]
        pa, pb = self.parts(a), self.parts(b)
        us = units(pc)
        # strip equal prefixes / suffixes
        while pa and pb and pa[0] is pb[0]:
            pa.pop(0)
            pb.pop(0)
        while pa and pb and pa[-1] is pb[-1]:
            pa.pop()
            pb.pop()
        if not pa and not pb:
            return EQ
        if len(pa) == len(pb) and len(pa) > 1:
            nw = len(self.why)
            r = self.allof(list(zip(pa, pb)), pc)
            if r == EQ:
                return EQ
            lens = all(self.len_eq(length(x), length(y), pc) for x, y in zip(pa, pb))
            if lens:
                return r
            del self.why[nw:]
        a, b = cat(pa), cat(pb)
        la, lb = length(a), length(b)
        r = self.cmp(la, lb, pc)
        if r != EQ:
            if r == NE:
                self.why.append(f"lengths differ: {show(a)[:200]} / {show(b)[:200]}")
            return r
        if a.op == "seq" and b.op == "seq":
            return self.allof(zip(a.args, b.args), pc)
        if (a.op == "seq" or b.op == "seq") and is_int(la) and is_int(lb) and la.args[0] <= 64:
            return self.allof([(at(a, INT(i)), at(b, INT(i))) for i in range(la.args[0])], pc)
        # element-wise
        k = self.fresh()
        p2 = self.add(pc, P_lt(k, la))
        if p2 is None:
            return EQ
        p2 = self.instantiate(p2, k)
        x, y = at(a, k), at(b, k)
        if x.op == "at" and y.op == "at" and x.args[0] is a and y.args[0] is b and a.op not in ("cat",) and b.op not in ("cat",):
            return self.leafdiff(a, b, pc, "sequence")
        if (x.op == "at" and x.args[0] is a and a.op == "flat") or (y.op == "at" and y.args[0] is b and b.op == "flat"):
            self.why.append(f"sequences of different shapes: {show(a)[:200]} / {show(b)[:200]}")
            return UNK
        nw = len(self.why)
        r = self.cmp(x, y, p2)
        if r == NE and any(z.op == "at" and z.args[0].op == "cat" for z in (x, y)):
            return r
        return r

    def len_eq(self, x, y, pc):
        us = units(pc)
        d = p_sub(x, y)
        return d is INT(0) or (linear.entails_le(us, d) and linear.entails_le(us, p_scale(d, -1)))

    # -------------------------------------------------------------- implications
    def implies(self, pc, c):
        """does the condition pc imply c?  EQ yes / NE definitely not / UNK"""
        c = restrict(b_norm(c), pc)
        if c is TRUE:
            return EQ
        v = self.cmp(c, TRUE, pc)
        if v is not EQ:
            d = self.absent(pc, c)
            if d is not c:
                c, self.why = restrict(d, pc), []
                v = EQ if c is TRUE else self.cmp(c, TRUE, pc)
        if v is NE:
            why, self.why = self.why, []
            if self.forbids(pc, NOT(c)) is EQ:
                return EQ
            self.why = why
        return v

    def forbids(self, ok, bad, k=None, n=None):
        """ok excludes: some k<n has bad(k)   (or plain bad); several indices are given as lists"""
        pc = ok
        ks = [] if k is None else k if isinstance(k, list) else [k]
        for i, m in zip(ks, n if isinstance(n, list) else [n]):
            pc = self.add(pc, P_lt(i, m))
            if pc is None:
                return EQ
        k = ks
        pc = self.add(pc, bad)
        if pc is None:
            return EQ
        # every case of ok that remains possible is a case where the bad condition is let through
        r = self.refuted(pc, k, 0)
        if r is EQ:
            return EQ
        return self.cmp(FALSE, TRUE, r)

    def refuted(self, pc, k, depth):
        """EQ if every case of pc is contradictory, otherwise a possible case"""
        for x in k:
            pc = self.instantiate2(None, pc, x)
            if pc is None:
                return EQ
        self.left -= 1
        p = pc
        while p.op == "ite" and (p.args[1] is FALSE or p.args[2] is FALSE):
            p = p.args[2] if p.args[1] is FALSE else p.args[1]
        if p.op != "ite" or depth > 14 or self.left < 0:
            return pc
        for v in (True, False):
            q = self.add(pc, lit(p.args[0], v))
            if q is None:
                continue
            r = self.refuted(q, k, depth + 1)
            if r is not EQ:
                return r
        return EQ

    def instantiate2(self, ok, pc, k):
        for a, v in list(units(pc).items()):
            if a.op == "exists" and v is False:
                h, n, u = a.args
                if a in self.done:
                    continue
                if linear.entails_le(units(pc), p_sub(p_add(k, INT(1)), n)):
                    i = NOT(b_norm(subst(u, {mk("bv", h, "k"): k})))
                    pc = self.add(pc, i)
                    if pc is None:
                        return None
        return pc


def ok_part(r, okv=0):
    """(condition, payload) of the Ok / given variant of a Result/Option-like value;
    given an analysed call, the condition includes that it returns at all"""
    live = TRUE
    if not isinstance(r, Term):
        live = r.st.pc
        r = r.ret
    if r is UNDEF:
        return FALSE, UNDEF
    c = tag(r, okv, 2)
    c = b_norm(c) if c not in (TRUE, FALSE) else c
    c = AND(live, c)
    return c, restrict(fld(r, okv, 0), c)

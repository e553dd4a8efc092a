"""Linear-inequality domain: is a linear condition implied by a set of linear facts?

Rational simplex (bounded, Bland's rule) over the monomials of the facts, plus products of
facts by non-negative monomials that the goal needs, plus type ranges of the atoms."""
from fractions import Fraction

from .terms import *

USIZE = 2 ** 64 - 1
LENMAX = 2 ** 60 - 1  # no address space holds more


def _div(a, c):
    if c == 1:
        return a
    if c == -1:
        return -a
    r = Fraction(a) / c
    return r.numerator if r.denominator == 1 else r


class Simplex:
    """feasibility of  sum_j a_ij x_j <= b_i"""

    def __init__(self, rows=()):
        self.vars = {}
        self.tab = {}  # basic -> {nonbasic: coef}
        self.ub = {}
        self.val = {}
        self.n = 0
        for mono, b in rows:
            self.add(mono, b)

    def add(self, mono, b):
        s = (1, self.n)
        self.n += 1
        row, val = {}, 0
        for v, c in mono.items():
            x = self.vars.get(v)
            if x is None:
                x = self.vars[v] = (0, len(self.vars))
                self.val[x] = 0
            val += c * self.val[x]
            for m, k in (self.tab[x].items() if x in self.tab else ((x, 1),)):
                z = row.get(m, 0) + c * k
                if z:
                    row[m] = z
                else:
                    row.pop(m, None)
        self.tab[s] = row
        self.ub[s] = b
        self.val[s] = val
        return s

    def tighten(self, s, b):
        self.ub[s] = b
        if s not in self.tab and self.val[s] > b:
            d = b - self.val[s]
            self.val[s] = b
            for x, r in self.tab.items():
                if s in r:
                    self.val[x] += r[s] * d

    def copy(self):
        n = Simplex()
        n.vars = dict(self.vars)
        n.tab = {k: dict(v) for k, v in self.tab.items()}
        n.ub = dict(self.ub)
        n.val = dict(self.val)
        n.n = self.n
        return n

    def feasible(self, limit=3000):
        for _ in range(limit):
            bad = None
            for b in self.tab:
                if b[0] and self.val[b] > self.ub[b] and (bad is None or b < bad):
                    bad = b
            if bad is None:
                return True
            row = self.tab[bad]
            piv = None
            for n in sorted(row):
                c = row[n]
                # decrease bad: move n by sign (no lower bounds)
                if c > 0 or n not in self.ub or self.val[n] < self.ub[n]:
                    piv = n
                    break
            if piv is None:
                return False
            self.pivot(bad, piv, self.ub[bad])
        return True  # gave up: claim feasible (sound: nothing entailed)

    def pivot(self, b, n, v):
        row = self.tab.pop(b)
        c = row.pop(n)
        theta = _div(v - self.val[b], c)
        self.val[b] = v
        self.val[n] += theta
        new = {m: -_div(a, c) for m, a in row.items()}
        new[b] = _div(1, c)
        for x, r in self.tab.items():
            if n in r:
                k = r.pop(n)
                self.val[x] += k * theta
                for m, a in new.items():
                    z = r.get(m, 0) + k * a
                    if z:
                        r[m] = z
                    else:
                        r.pop(m, None)
        self.tab[n] = new


def mono_split(p):
    d = dict(poly_of(p, "int"))
    c = d.pop((), 0)
    return d, -c


def bounds(a):
    """known constraints (polys <= 0) on an atom"""
    out = []
    o = a.op
    if o == "len":
        out += [p_scale(a, -1), p_sub(a, INT(LENMAX))]
    elif o == "k" or (o == "bv" and a.args[1] == "k"):
        out.append(p_scale(a, -1))
    elif o == "max0":
        out += [p_scale(a, -1), p_sub(a.args[0], a)]
    elif o == "min":
        out += [p_sub(a, x) for x in a.args]
        if nonneg(a):
            out.append(p_scale(a, -1))
    elif o == "max":
        out += [p_sub(x, a) for x in a.args]
    elif o == "dec":
        out += [p_scale(a, -1), p_sub(a, INT(256 ** a.args[1] - 1))]
    elif o == "isum":
        ls = leaves(a.args[2])
        if all(is_int(x) for x in ls):
            lo = min(x.args[0] for x in ls)
            hi = max(x.args[0] for x in ls)
            out += [p_sub(p_scale(a.args[1], lo), a), p_sub(a, p_scale(a.args[1], hi))]
    elif o == "first":
        out += [p_scale(a, -1), p_sub(p_add(a, INT(1)), a.args[1])]
    elif o == "divc":
        # a = floor(p / c), c > 0 constant
        p, c = a.args
        out += [p_sub(p_scale(a, c), p), p_sub(p, p_add(p_scale(a, c), INT(c - 1)))]
    elif o == "remc":
        p, c = a.args
        out += [p_scale(a, -1), p_sub(a, INT(c - 1))]
    if a in RANGE:
        lo, hi = RANGE[a]
        out += [p_sub(INT(lo), a), p_sub(a, INT(hi))]
    return out


def has_ite(p):
    return any(a.op == "ite" for m in poly_of(p, "int") for a, _ in m)


_memo = {}


def lin_facts(us):
    """linear polys (<=0) and disequalities from a dict of literals"""
    le, ne = [], []
    for a, v in us.items():
        if a.op == "le0":
            le.append(a.args[0] if v else p_sub(INT(1), a.args[0]))
        elif a.op == "eq0":
            if v:
                le += [a.args[0], p_scale(a.args[0], -1)]
            else:
                ne.append(a.args[0])
    return le, ne


_bounds_memo = {}


def bounds_of(a):
    r = _bounds_memo.get(a)
    if r is None or a in RANGE or r[0] != (a in RANGE):
        r = (a in RANGE, [p for p in bounds(a) if not is_int(p)])
        _bounds_memo[a] = r
    return r[1]


def p_atoms(p):
    return {a for m in poly_of(p, "int") for a, _ in m}


class System:
    """a set of linear facts, closed under the bounds of its atoms"""

    def __init__(self):
        self.S = Simplex()
        self.out = {}
        self.seen = set()
        self.bad = False
        self.best = {}
        self.base = []

    def copy(self):
        n = System()
        n.S = self.S.copy()
        n.out = dict(self.out)
        n.seen = set(self.seen)
        n.bad = self.bad
        n.best = dict(self.best)
        n.base = list(self.base)
        return n

    def row(self, p):
        if p in self.out:
            return []
        self.out[p] = 1
        d, b = mono_split(p)
        if d:
            k = frozenset(d.items())
            o = self.best.get(k)
            if o is None:
                self.best[k] = self.S.add(d, b)
            elif b < self.S.ub[o]:
                self.S.tighten(o, b)
        elif b < 0:
            self.bad = True
        return [a for a in p_atoms(p) if a not in self.seen]

    def assume(self, polys):
        todo = []
        for p in polys:
            if not has_ite(p):
                self.base.append(p)
                todo += self.row(p)
        while todo:
            a = todo.pop()
            if a in self.seen:
                continue
            self.seen.add(a)
            if len(self.out) > 500:
                break
            for b in bounds_of(a):
                todo += self.row(b)
        self.products()

    def products(self):
        monos = {m for p in self.out for m in poly_of(p, "int") if sum(e for _, e in m) >= 2}
        if not monos or len(monos) >= 40:
            return
        extra = []
        for m in sorted(monos, key=lambda m: [(a.id, e) for a, e in m]):
            for a, e in m:
                rest = mono_mul(m, ((a, -1),))
                if not all(e2 > 0 and nn_atom(x) for x, e2 in rest):
                    continue
                rp = from_poly({rest: 1}, "int")
                for p in self.base:
                    pp = poly_of(p, "int")
                    if len(pp) <= 6 and any(len(mm) == 1 and mm[0] == (a, 1) for mm in pp):
                        q = p_mul(p, rp)
                        new = [mm for mm in poly_of(q, "int") if mm not in monos and sum(e3 for _, e3 in mm) >= 2]
                        if not new or (len(pp) <= 3 and len(new) == 1 and len(extra) < 60):
                            extra.append(q)
            if all(nn_atom(a) for a, _ in m):
                extra.append(from_poly({m: -1}, "int"))
        ub = self.upper({a for m in monos for a, _ in m})
        for m in monos:
            if all(nn_atom(a) and ub.get(a) is not None for a, _ in m):
                v = 1
                for a, e in m:
                    v *= ub[a] ** e
                extra.append(p_sub(from_poly({m: 1}, "int"), INT(v)))
        for q in extra:
            if not is_int(q):
                self.row(q)

    def upper(self, atoms):
        """upper bounds of non-negative atoms, by interval propagation"""
        ub = {}
        rows = []
        for p in self.out:
            d = poly_of(p, "int")
            if len(d) <= 4 and all(sum(e for _, e in m) <= 1 for m in d) and all(nn_atom(a) for m in d for a, _ in m):
                rows.append((d.get((), 0), [(m[0][0], c) for m, c in d.items() if m]))
        for _ in range(4):
            ch = False
            for c0, ms in rows:
                # c0 + sum c*a <= 0, a >= 0
                for a, c in ms:
                    if c <= 0:
                        continue
                    v = -c0
                    for b, e in ms:
                        if b is not a and e < 0:
                            v = None if ub.get(b) is None else v - e * ub[b]
                            if v is None:
                                break
                    if v is None:
                        continue
                    v = max(0, v // c)
                    if ub.get(a) is None or v < ub[a]:
                        ub[a] = v
                        ch = True
            if not ch:
                break
        for a in atoms | set(x for _, ms in rows for x, _ in ms):
            if a.op == "max0" and ub.get(a) is None:
                hi = interval(a.args[0])[1]
                if hi is not None and hi < 2 ** 70:
                    ub[a] = max(0, hi)
        return ub

    def infeasible(self):
        return self.bad or not self.S.feasible()


def infeasible(le, ne):
    for p in le:
        if is_int(p) and p.args[0] > 0:
            return True
    for p in ne:
        if is_int(p) and p.args[0] == 0:
            return True
    y = System()
    ne = [p for p in dict.fromkeys(ne) if not is_int(p) and not has_ite(p)]
    pos = [p for p in ne if nonneg(p)]
    ne = [p for p in ne if p not in pos]
    y.assume([p for p in le if not is_int(p)] + [p_sub(INT(1), p) for p in pos])
    if y.infeasible():
        return True
    ds = [[p_add(p, INT(1)), p_sub(INT(1), p)] for p in ne]
    return split(y, ds, set(), 3)


def choices(a):
    """what an atom defined by cases can be: one of these facts (<=0) holds"""
    if a.op == "max0":
        return [p_sub(a, a.args[0]), a]
    if a.op == "min":
        return [p_sub(x, a) for x in a.args]
    if a.op == "max":
        return [p_sub(a, x) for x in a.args]
    return None


def split(y, ds, used, depth):
    """is the system infeasible given that one side of every disjunction holds?"""
    changed = True
    open_ = []
    while changed:
        changed = False
        for a in y.seen - used:
            if a.op in ("max0", "min", "max"):
                used = used | {a}
                c = choices(a)
                if not any(has_ite(p) for p in c):
                    ds = ds + [c]
        open_ = []
        for sides in ds:
            rel = set().union(*map(p_atoms, sides))
            if not rel <= y.seen and not any(nn_atom(a) for a in rel):
                open_.append(sides)
                continue
            left = []
            for q in sides:
                z = y.copy()
                z.assume([q])
                if not z.infeasible():
                    left.append(q)
            if not left:
                return True
            if len(left) == 1:
                y.assume(left)
                if y.infeasible():
                    return True
                changed = True
            else:
                open_.append(left)
        ds = open_
    if depth <= 0:
        return False
    # case analysis on atoms defined by cases
    for n, sides in enumerate(ds):
        if any(a.op in ("max0", "min", "max") for q in sides for a in p_atoms(q)):
            rest = ds[:n] + ds[n + 1:]
            for q in sides:
                z = y.copy()
                z.assume([q])
                if not (z.infeasible() or split(z, list(rest), used, depth - 1)):
                    return False
            return True
    return False


def relevant(le, ne, goal_polys):
    """facts sharing (transitively) an atom with the goal"""
    def ats(p):
        s = set()
        for m in poly_of(p, "int"):
            for a, _ in m:
                s.add(a)
                for b in bounds(a):
                    for m2 in poly_of(b, "int"):
                        s.update(x for x, _ in m2)
        return s

    al = [(p, ats(p)) for p in le]
    an = [(p, ats(p)) for p in ne]
    cur = set()
    for g in goal_polys:
        cur |= ats(g)
    while True:
        n = len(cur)
        for p, s in al + an:
            if s & cur:
                cur |= s
        if len(cur) == n:
            break
    return [p for p, s in al if s & cur], [p for p, s in an if s & cur]


def entails(us, atom, val):
    """do the literals imply atom == val ?  (us: dict atom->bool)"""
    if us.get(atom) == val:
        return True
    if atom.op == "le0":
        g = [p_sub(INT(1), atom.args[0])] if val else [atom.args[0]]
        n = []
    elif atom.op == "eq0":
        if val:
            return entails_le(us, atom.args[0]) and entails_le(us, p_scale(atom.args[0], -1))
        g = [atom.args[0], p_scale(atom.args[0], -1)]
        n = []
    else:
        return False
    le, ne = lin_facts(us)
    le, ne = relevant(le, ne, g)
    key = (frozenset(le), frozenset(ne), tuple(g))
    r = _memo.get(key)
    if r is None:
        r = infeasible(le + g, ne)
        _memo[key] = r
    return r


def entails_le(us, p):
    """p <= 0 ?"""
    c = P_le0(p)
    return holds(us, c)


def holds(us, c):
    """do the literals imply the condition?"""
    if c is TRUE:
        return True
    if c is FALSE:
        return contradictory(us)
    a, h, l = c.args
    if entails(us, a, True):
        return holds(us, h)
    if entails(us, a, False):
        return holds(us, l)
    u1 = dict(us)
    u1[a] = True
    u0 = dict(us)
    u0[a] = False
    return holds(u1, h) and holds(u0, l)


def contradictory(us):
    le, ne = lin_facts(us)
    if not le and not ne:
        return False
    key = (frozenset(le), frozenset(ne), None)
    r = _memo.get(key)
    if r is None:
        r = infeasible(le, ne)
        _memo[key] = r
    return r


def decide(us, c):
    """True / False / None"""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if holds(us, c):
        return True
    if holds(us, NOT(c)):
        return False
    return None

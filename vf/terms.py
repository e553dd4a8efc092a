"""Hash-consed value terms of the value-flow domain, with canonicalising constructors.

A term denotes a runtime value as a function of the analysed function's inputs.  Two
computations that are the same function of the inputs get the same term whatever the
statements that produced it (helper extracted, loop or iterator, reordered, ...).

  int n | var name | fld t variant i | agg (name,variant) f.. | ite atom hi lo
  poly kind ((mono,coef)..)    polynomial over atoms: kind 'int' (machine integers,
                               no wrap) or 'alg' (scalars and group elements)
  seq e.. | cat s.. | flat N body   finite sequences; flat N (seq e) is a map
  sl s a b | at s i | store s i x | len s | enc / dec  big/little endian integers
  ref root path | vref v       references (to a place / to an immutable value)
  call f args site             result of an operation that is not looked into
  k uid                        index of the current iteration of a loop
  phi uid loc                  value of a place at the head of a loop, unsolved
  bv h tag                     bound variable of a binder of height h
"""
import sys

sys.setrecursionlimit(20000)


class Term:
    __slots__ = ("op", "args", "id", "free", "h")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
EMPTY = frozenset()


def _h(x):
    """binder height / free tokens of nested args"""


def mk(op, *args):
    key = (op,) + args
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_tab)
        fv = EMPTY
        h = 0
        st = list(args)
        while st:
            a = st.pop()
            if type(a) is Term:
                if a.free:
                    fv = fv | a.free if fv else a.free
                if a.h > h:
                    h = a.h
            elif type(a) is tuple or type(a) is frozenset:
                st.extend(a)
        if op in ("k", "phi"):
            fv = fv | {t}
        elif op == "bv":
            fv = fv | {t}
        elif op == "loc":
            fv = EMPTY
        if op in BINDERS:
            h = args[0]
            fv = frozenset(x for x in fv if not (x.op == "bv" and x.args[0] == h))
        t.free = fv
        t.h = h
        _tab[key] = t
    return t


# binders: first arg is the binder height h; bound variables are bv(h, tag)
# constant bounds up to this are written out
UNROLL = [8]
BINDERS = {"flat", "sum", "isum", "rec", "mbuild", "upd", "exists", "first", "maxk"}


def INT(n):
    return mk("int", n)


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("agg", ("tuple", 0), ())


def var(name):
    return mk("var", name)


def is_int(t):
    return t.op == "int"


# ---------------------------------------------------------------- polynomials
def poly_of(t, kind):
    """dict mono->coef"""
    if t.op == "int" and kind == "int":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly" and t.args[0] == kind:
        return dict(t.args[1])
    return {((t, 1),): 1}


def from_poly(d, kind):
    d = {m: c for m, c in d.items() if c}
    if kind == "int":
        if not d:
            return INT(0)
        if len(d) == 1 and () in d:
            return INT(d[()])
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    return mk("poly", kind, items)


def p_add(a, b, kind="int"):
    if a.op == "ite" or b.op == "ite":
        return lift2(lambda x, y: p_add(x, y, kind), a, b)
    x = poly_of(a, kind)
    for m, c in poly_of(b, kind).items():
        x[m] = x.get(m, 0) + c
    return from_poly(x, kind)


def p_scale(a, n, kind="int"):
    if a.op == "ite":
        return lift(lambda x: p_scale(x, n, kind), a)
    return from_poly({m: c * n for m, c in poly_of(a, kind).items()}, kind)


def p_sub(a, b, kind="int"):
    return p_add(a, p_scale(b, -1, kind), kind)


def mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


def p_mul(a, b, kind="int"):
    if a.op == "ite" or b.op == "ite":
        return lift2(lambda x, y: p_mul(x, y, kind), a, b)
    x, y = poly_of(a, kind), poly_of(b, kind)
    if len(x) * len(y) > 400:
        return mk("mulop", a, b)
    r = {}
    for m1, c1 in x.items():
        for m2, c2 in y.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return from_poly(r, kind)


ALG0 = from_poly({}, "alg")
ALG1 = from_poly({(): 1}, "alg")


def alg_inv(a):
    if a.op == "ite":
        return lift(alg_inv, a)
    x = poly_of(a, "alg")
    if len(x) == 1:
        (m, c), = x.items()
        if c in (1, -1):
            return from_poly({tuple((t, -e) for t, e in m): c}, "alg")
    return mk("inv", a)


# ---------------------------------------------------------------- gated values
# ite(atom, hi, lo): ordered decision diagram over predicate atoms.  Booleans are the
# diagrams whose leaves are TRUE / FALSE; every gated value is canonical for its function.
UNDEF = mk("undef")


def mkite(atom, hi, lo):
    if hi is lo or lo is UNDEF:
        return hi
    if hi is UNDEF:
        return lo
    return mk("ite", atom, hi, lo)


_ite_memo = {}


def ITE(c, h, l):
    if c is TRUE:
        return h
    if c is FALSE:
        return l
    if h is l:
        return h
    if h is TRUE and l is FALSE:
        return c
    if h is UNDEF:
        return l
    if l is UNDEF:
        return h
    key = (c, h, l)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    if c.op != "ite":
        raise ValueError("not a condition: %s" % show(c))
    a = c.args[0]
    if h.op == "ite" and h.args[0].id < a.id:
        a = h.args[0]
    if l.op == "ite" and l.args[0].id < a.id:
        a = l.args[0]
    c1, c0 = cof(c, a)
    h1, h0 = cof(h, a)
    l1, l0 = cof(l, a)
    r = mkite(a, ITE(c1, h1, l1), ITE(c0, h0, l0))
    _ite_memo[key] = r
    return r


def cof(t, a):
    if t.op == "ite" and t.args[0] is a:
        return t.args[1], t.args[2]
    return t, t


def AND(a, b):
    return ITE(a, b, FALSE)


def OR(a, b):
    return ITE(a, TRUE, b)


def NOT(a):
    return ITE(a, FALSE, TRUE)


neg = NOT


def p_all(ps):
    r = TRUE
    for p in ps:
        r = AND(r, p)
    return r


def p_any(ps):
    r = FALSE
    for p in ps:
        r = OR(r, p)
    return r


_restrict_memo = {}


def restrict(v, care):
    """v simplified knowing that `care` holds"""
    if care is TRUE or v.op != "ite":
        return v
    if care is FALSE:
        return UNDEF
    key = (v, care)
    r = _restrict_memo.get(key)
    if r is not None:
        return r
    a, ca = v.args[0], care.args[0]
    if ca.id < a.id:
        c1, c0 = care.args[1], care.args[2]
        if c1 is FALSE:
            r = restrict(v, c0)
        elif c0 is FALSE:
            r = restrict(v, c1)
        else:
            r = restrict(v, OR(c1, c0))
    else:
        c1, c0 = cof(care, a)
        if c1 is FALSE:
            r = restrict(v.args[2], c0)
        elif c0 is FALSE:
            r = restrict(v.args[1], c1)
        else:
            r = mkite(a, restrict(v.args[1], c1), restrict(v.args[2], c0))
    _restrict_memo[key] = r
    return r


def lift(f, t):
    """apply f to the leaves of a gated value"""
    if t.op != "ite":
        return f(t)
    memo = {}

    def go(x):
        if x.op != "ite":
            return f(x) if x is not UNDEF else x
        r = memo.get(x)
        if r is None:
            h, l = go(x.args[1]), go(x.args[2])
            r = ITE(lit(x.args[0]), h, l)
            memo[x] = r
        return r

    return go(t)


amap = lambda t, f: lift(f, t)


def lift2(f, a, b):
    if a.op == "ite":
        return lift(lambda x: lift2(f, x, b), a)
    if b.op == "ite":
        return lift(lambda y: f(a, y), b)
    return f(a, b)


def leaves(t, acc=None, seen=None):
    if t.op != "ite":
        return [t]
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st.append(x.args[2])
            st.append(x.args[1])
        else:
            out.append(x)
    return out


def cases(t, limit=4096):
    """[(literals, leaf)] : every path of the decision diagram"""
    out = []

    def go(x, ls):
        if len(out) > limit:
            return
        if x.op == "ite":
            go(x.args[1], ls + ((x.args[0], True),))
            go(x.args[2], ls + ((x.args[0], False),))
        else:
            out.append((ls, x))

    go(t, ())
    return out


_units_memo = {}


def units(pc):
    """literals implied by a condition: dict atom -> bool"""
    r = _units_memo.get(pc)
    if r is not None:
        return r
    if pc.op != "ite":
        r = {}
    else:
        a, h, l = pc.args
        if h is FALSE:
            r = dict(units(l))
            r[a] = False
        elif l is FALSE:
            r = dict(units(h))
            r[a] = True
        else:
            uh, ul = units(h), units(l)
            r = {x: v for x, v in uh.items() if ul.get(x) == v}
    _units_memo[pc] = r
    return r


def lit(atom, val=True):
    return mk("ite", atom, TRUE, FALSE) if val else mk("ite", atom, FALSE, TRUE)


def atoms_of(t):
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x.op != "ite" or x in seen:
            continue
        seen.add(x)
        out.append(x.args[0])
        st += [x.args[1], x.args[2]]
    return set(out)


# ---------------------------------------------------------------- predicates
# atoms: le0(p) eq0(p) eq(a,b) eqz(alg) tag(t,variant,n) tt(x) exists(h,n,cond)
def lead(p):
    d = poly_of(p, "int")
    ms = [m for m in d if m]
    if not ms:
        return 0
    m = max(ms, key=lambda m: (len(m), tuple((a.id, e) for a, e in m)))
    return d[m]


def content(p):
    from math import gcd
    g = 0
    for m, c in poly_of(p, "int").items():
        if m:
            g = gcd(g, abs(c))
    return g or 1


def P_le0(p):
    if p.op == "ite":
        return lift(P_le0, p)
    if is_int(p):
        return TRUE if p.args[0] <= 0 else FALSE
    lo, hi = interval(p)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    g = content(p)
    if g > 1:
        d = poly_of(p, "int")
        p = from_poly({m: (c // g if m else -((-c) // g)) for m, c in d.items()}, "int")
    if lead(p) < 0:
        return NOT(lit(mk("le0", p_sub(INT(1), p))))
    return lit(mk("le0", p))


def interval(p):
    """constant bounds evident from the shape of p"""
    lo = hi = 0
    for m, c in poly_of(p, "int").items():
        al = ah = None
        if not m:
            al = ah = 1
        elif len(m) == 1 and m[0][1] == 1:
            al, ah = atom_interval(m[0][0])
        elif all(nn_atom(a) for a, e in m):
            al = 0
        if c < 0:
            al, ah = ah, al
        lo = None if lo is None or al is None else lo + c * al
        hi = None if hi is None or ah is None else hi + c * ah
        if lo is None and hi is None:
            break
    return lo, hi


def atom_interval(a):
    if a.op == "min":
        l0, h0 = interval(a.args[0])
        l1, h1 = interval(a.args[1])
        hs = [h for h in (h0, h1) if h is not None]
        return (None if l0 is None or l1 is None else min(l0, l1)), (min(hs) if hs else None)
    if a.op == "dec":
        return 0, 256 ** a.args[1] - 1
    if a.op == "remc":
        return 0, a.args[1] - 1
    if a.op in ("len", "max0", "k", "first") or (a.op == "bv" and a.args[1] == "k"):
        return 0, None
    return None, None


def P_le(a, b):
    return P_le0(p_sub(a, b))


def P_lt(a, b):
    return P_le0(p_add(p_sub(a, b), INT(1)))


def P_eq_int(a, b):
    return lift(_eq0, p_sub(a, b))


def _eq0(p):
    if is_int(p):
        return TRUE if p.args[0] == 0 else FALSE
    g = content(p)
    d = poly_of(p, "int")
    if g > 1:
        if d.get((), 0) % g:
            return FALSE
        p = from_poly({m: c // g for m, c in d.items()}, "int")
    if lead(p) < 0:
        p = p_scale(p, -1)
    return lit(mk("eq0", p))


INTLIKE = {"int", "len", "dec", "cast", "max0", "min", "max", "isum", "k"}


def intlike(t):
    return t.op in INTLIKE or (t.op == "poly" and t.args[0] == "int") or t in RANGE


RANGE = {}  # term -> (lo, hi): type range of an opaque integer


STRUCTS = set()  # names of the struct types of the program


def P_eq(a, b):
    """equality of two values"""
    if a is b:
        return TRUE
    if a.op == "ite" or b.op == "ite":
        return lift2(P_eq, a, b)
    if a.op == "bool" or b.op == "bool":
        x, y = b_norm(a), b_norm(b)
        return ITE(x, y, NOT(y))
    if intlike(a) or intlike(b):
        return P_eq_int(a, b)
    if a.op == "agg" and b.op == "agg":
        if a.args[0] != b.args[0]:
            return FALSE
        return p_all([P_eq(x, y) for x, y in zip(a.args[1], b.args[1])])
    if a.op == "agg" and a.args[0][0] in STRUCTS and b is not UNDEF:
        return p_all([P_eq(x, fld(b, 0, i)) for i, x in enumerate(a.args[1])])
    if b.op == "agg" and b.args[0][0] in STRUCTS and a is not UNDEF:
        return p_all([P_eq(fld(a, 0, i), x) for i, x in enumerate(b.args[1])])
    if a.op == "str" and b.op == "str":
        return FALSE
    if a.op == "char" and b.op == "char":
        return FALSE
    if (a.op == "poly" and a.args[0] == "alg") or (b.op == "poly" and b.args[0] == "alg"):
        d = p_sub(a, b, "alg")
        n = p_scale(d, -1, "alg")
        d = min(d, n)
        if d is ALG0:
            return TRUE
        x = poly_of(d, "alg")
        if len(x) == 1:
            m, = x
            # nonzero constants; products of generators and of random draws (zero with
            # negligible probability only)
            if all(a.op in ("draw", "gen") for a, _ in m):
                return FALSE
        return lit(mk("eqz", d))
    if a is NIL or b is NIL:
        o = b if a is NIL else a
        if o is NIL:
            return TRUE
        return P_eq_int(length(o), INT(0))
    if b.id < a.id:
        a, b = b, a
    return lit(mk("eq", a, b))


def b_norm(t):
    """a boolean value term as a condition"""
    if t is TRUE or t is FALSE or t is UNDEF:
        return t
    if t.op == "ite":
        if all(x is TRUE or x is FALSE or x is UNDEF for x in leaves(t)):
            return t
        return lift(b_norm, t)
    return lit(mk("tt", t))


def tag(t, v, n=2):
    """condition: enum value t is variant v (of n)"""
    if t.op == "agg":
        return TRUE if t.args[0][1] == v else FALSE
    if t.op == "ite":
        return lift(lambda x: tag(x, v, n), t)
    if t is UNDEF:
        return FALSE
    if n == 1:
        return TRUE
    if n == 2:
        return lit(mk("tag", t, 1, 2), v == 1)
    return lit(mk("tag", t, v, n))


# ---------------------------------------------------------------- aggregates
def agg(tg, fields):
    return mk("agg", tg, tuple(fields))


def fld(t, variant, i):
    op = t.op
    if op == "agg":
        tg, fs = t.args
        if tg[1] != (variant or 0):
            return UNDEF
        if i < len(fs):
            return fs[i]
        return UNDEF
    if op == "ite":
        return lift(lambda x: fld(x, variant, i), t)
    if op == "with":
        b, v, j, x = t.args
        if j == i and v == (variant or 0):
            return x
        return fld(b, variant, i)
    if t is UNDEF:
        return t
    return mk("fld", t, variant or 0, i)


# ---------------------------------------------------------------- sequences
NIL = mk("seq")


def seq(es):
    es = tuple(es)
    if len(es) > 1 and es[0].op == "at":
        b, i = es[0].args
        if all(x.op == "at" and x.args[0] is b and x.args[1] is p_add(i, INT(n)) for n, x in enumerate(es)):
            # consecutive elements of one sequence
            return sl(b, i, p_add(i, INT(len(es))))
    return mk("seq", *es)


def cat(parts):
    parts = list(parts)
    for n, p in enumerate(parts):
        if p.op == "ite":
            return lift(lambda x: cat(parts[:n] + [x] + parts[n + 1:]), p)
        if p is UNDEF:
            return UNDEF
    out = []
    for p in parts:
        if p.op == "cat":
            out.extend(p.args)
        else:
            out.append(p)
    res = []
    for p in out:
        if p is NIL:
            continue
        if p.op == "seq" and res and res[-1].op == "seq":
            res[-1] = mk("seq", *(res[-1].args + p.args))
        elif p.op == "sl" and res and res[-1].op == "sl" and res[-1].args[0] is p.args[0] and res[-1].args[2] is p.args[1]:
            res[-1] = sl(p.args[0], res[-1].args[1], p.args[2])
        else:
            res.append(p)
    if not res:
        return NIL
    if len(res) == 1:
        return res[0]
    return mk("cat", *res)


FREE_LEN = set()  # terms whose length has been taken as unknown: never fixed afterwards
FIXED_LEN = {}  # term -> int term: lengths known from types (arrays)


def same_length(t, p):
    """t is p with elements replaced"""
    if t is p:
        return True
    if t.op in ("store", "swap"):
        return same_length(t.args[0], p)
    if t.op == "upd":
        return same_length(t.args[1], p)
    if t.op == "ite":
        return same_length(t.args[1], p) and same_length(t.args[2], p)
    if t.op == "rec":
        return same_length(t.args[2], p) and same_length(t.args[3], mk("bv", t.args[0], "p"))
    return False


def length(t):
    op = t.op
    if op == "seq":
        return INT(len(t.args))
    if op == "cat":
        r = INT(0)
        for p in t.args:
            r = p_add(r, length(p))
        return r
    if op == "flat":
        h, n, b = t.args
        lb = length(b)
        if not has_bv(lb, h):
            return p_mul(n, lb)
        tok = mk("k", ("len", h, b.id))
        return isum(n, tok, subst1(lb, {mk("bv", h, "k"): tok}))
    if op == "sl":
        return p_sub(t.args[2], t.args[1])
    if op in ("store", "swap"):
        return length(t.args[0])
    if op == "splice":
        return length(t.args[0])
    if op == "upd":
        return length(t.args[1])
    if op == "enc":
        return INT(t.args[1])
    if op == "mem":
        return t.args[1]
    if op == "str":
        return INT(len(t.args[0].encode()))
    if op == "bytes":
        return INT(len(t.args[0]))
    if op == "resize":
        return t.args[1]
    if op == "ite":
        return lift(length, t)
    if t is UNDEF:
        return t
    if op == "xof":
        return t.args[1]
    if t in FIXED_LEN:
        return FIXED_LEN[t]
    if op == "rec" and t not in FREE_LEN and same_length(t.args[3], mk("bv", t.args[0], "p")):
        # a loop that only replaces elements
        return length(t.args[2])
    FREE_LEN.add(t)
    return mk("len", t)


def has_bv(t, h):
    return any(x.op == "bv" and x.args[0] == h for x in t.free)


def flat(n, k, body):
    """concatenation of body(k) for k in 0..n; body mentions the token/variable k"""
    if is_int(n) and n.args[0] <= 0:
        return NIL
    if body is NIL:
        return NIL
    if is_int(n) and n.args[0] <= UNROLL[0]:
        return cat([subst(body, {k: INT(i)}) for i in range(n.args[0])])
    h = binder_h(body, k)
    v = mk("bv", h, "k")
    b = subst(body, {k: v})
    # identity: flat(len s, [s[k]]) = s
    if b.op == "seq" and len(b.args) == 1:
        e = b.args[0]
        if e.op == "at" and e.args[1] is v and not has_bv(e.args[0], h) and length(e.args[0]) is n:
            return e.args[0]
    # fusion: iterating filtered/flattened sequences of one shape by position
    if n.op == "isum":
        Fs = [x.args[0] for x in subterms(b) if x.op == "at" and x.args[1] is v and x.args[0].op == "flat"]
        Fs = [F for F in Fs if length(F) is n and F.args[1] is Fs[0].args[1]]
        Fs = list(dict.fromkeys(Fs))
        if Fs:
            els = {mk("at", F, v): mk("elt", F) for F in Fs}
            bb = subst_term(b, els)
            if v not in bb.free:
                H = max(F.args[0] for F in Fs)
                tok = mk("k", ("fuse", b.id) + tuple(F.id for F in Fs))
                bodies = [subst1(F.args[2], {mk("bv", F.args[0], "k"): tok}) for F in Fs]
                nb = zip_elems(bodies, lambda es: subst_term(bb, {mk("elt", F): e for F, e in zip(Fs, es)}))
                if nb is not None:
                    return flat(Fs[0].args[1], tok, nb)
    # iterating a sequence of singletons nested in flat(flat)
    return mk("flat", h, n, b)


def zip_elems(ss, f):
    """f applied to the corresponding elements of equally shaped sequences"""
    o = ss[0].op
    if any(x.op != o for x in ss):
        return None
    if o == "seq":
        if any(len(x.args) != len(ss[0].args) for x in ss):
            return None
        return cat([f([x.args[i] for x in ss]) for i in range(len(ss[0].args))])
    if o == "ite":
        if any(x.args[0] is not ss[0].args[0] for x in ss):
            return None
        h = zip_elems([x.args[1] for x in ss], f)
        l = zip_elems([x.args[2] for x in ss], f)
        if h is None or l is None:
            return None
        return ITE(lit(ss[0].args[0]), h, l)
    return None


def binder_h(*ts):
    # heights of the binders inside plus any free bound variable
    h = 0
    for t in ts:
        if t.h > h:
            h = t.h
        for x in t.free:
            if x.op == "bv" and x.args[0] > h:
                h = x.args[0]
    return h + 1


def bind(op, n, k, *bodies, extra=()):
    """generic binder term op(h, n, bodies.., extra..)"""
    h = binder_h(*bodies)
    v = mk("bv", h, "k")
    return mk(op, h, n, *[subst(b, {k: v}) for b in bodies], *extra)


def drop_zero_gates(e):
    """gates that only skip a value that is zero anyway"""
    if e.op != "ite":
        return e
    a, h, l = e.args
    h, l = drop_zero_gates(h), drop_zero_gates(l)
    if a.op == "eqz" and a.args[0].op != "poly" and h.op != "ite" and l.op != "ite":
        if subst_term(l, {a.args[0]: ALG0}) is h:
            return l
    return ITE(lit(a), h, l)


def algsum(n, k, e):
    """sum over k<n of e(k) in the algebra; factors independent of k are pulled out"""
    if n.op == "ite":
        return lift(lambda x: algsum(x, k, e), n)
    if n.op == "isum":
        # iterating filtered sequences of one shape by position: iterate their source instead
        Fs = [x.args[0] for x in subterms(e) if x.op == "at" and x.args[1] is k and x.args[0].op == "flat"]
        Fs = [F for F in Fs if length(F) is n]
        Fs = list(dict.fromkeys(F for F in Fs if F.args[1] is Fs[0].args[1]))
        if Fs:
            els = {mk("at", F, k): mk("elt", F) for F in Fs}
            bb = subst_term(e, els)
            if k not in bb.free:
                tok = mk("k", ("fuse", bb.id) + tuple(F.id for F in Fs))
                bodies = [subst1(F.args[2], {mk("bv", F.args[0], "k"): tok}) for F in Fs]

                def zs(ss):
                    o = ss[0].op
                    if any(x.op != o for x in ss):
                        return None
                    if o == "seq":
                        if any(len(x.args) != len(ss[0].args) for x in ss):
                            return None
                        r = ALG0
                        for i in range(len(ss[0].args)):
                            r = p_add(r, subst_term(bb, {mk("elt", F): x.args[i] for F, x in zip(Fs, ss)}), "alg")
                        return r
                    if o == "ite":
                        if any(x.args[0] is not ss[0].args[0] for x in ss):
                            return None
                        h, l = zs([x.args[1] for x in ss]), zs([x.args[2] for x in ss])
                        return None if h is None or l is None else ITE(lit(ss[0].args[0]), h, l)
                    if len(ss) == 1:
                        # elements of a sequence nested in the sequence
                        t2 = mk("k", ("fuse2", bb.id, ss[0].id))
                        return algsum(length(ss[0]), t2, subst_term(bb, {mk("elt", Fs[0]): at(ss[0], t2)}))
                    return None
                nb = zs(bodies)
                if nb is not None:
                    nb = drop_zero_gates(nb)
                    if nb.op != "ite":
                        return algsum(Fs[0].args[1], tok, nb)
    if e.op == "ite":
        e = drop_zero_gates(e)
        if e.op == "ite":
            if e.args[0].op != "bool" and k not in e.args[0].free:
                return ITE(lit(e.args[0]), algsum(n, k, e.args[1]), algsum(n, k, e.args[2]))
            if is_int(n) and n.args[0] <= UNROLL[0]:
                pass
            else:
                return bind("sum", n, k, e)
    if is_int(n) and n.args[0] <= 0:
        return ALG0
    if is_int(n) and n.args[0] <= UNROLL[0]:
        r = ALG0
        for i in range(n.args[0]):
            r = p_add(r, subst(e, {k: INT(i)}), "alg")
        return r
    res = {}
    for m, c in poly_of(e, "alg").items():
        out = tuple(x for x in m if k not in x[0].free)
        inn = tuple(x for x in m if k in x[0].free)
        if not inn:
            key = mono_mul(out, ((mk("ofint", n), 1),))
        else:
            body = from_poly({inn: 1}, "alg")
            s = bind("sum", n, k, body)
            key = mono_mul(out, ((s, 1),))
        res[key] = res.get(key, 0) + c
    return from_poly(res, "alg")


def at(s, i):
    op = s.op
    if op == "seq" and is_int(i):
        if 0 <= i.args[0] < len(s.args):
            return s.args[i.args[0]]
        return mk("undef")
    if op == "seq" and s.args and all(x is s.args[0] for x in s.args):
        return s.args[0]
    if op == "flat":
        h, n, b = s.args
        if b.op == "seq" and len(b.args) == 1:
            return subst(b.args[0], {mk("bv", h, "k"): i})
    if op == "sl":
        return at(s.args[0], p_add(s.args[1], i))
    if op == "cat":
        off = INT(0)
        for p in s.args:
            lp = length(p)
            d = p_sub(i, off)
            if is_int(d) and is_int(lp) and 0 <= d.args[0] < lp.args[0]:
                return at(p, d)
            if is_int(d) and d.args[0] < 0:
                break
            if p.op == "flat" and i.op == "k" and off is INT(0):
                break
            off = p_add(off, lp)
            # the element just after a prefix
            if p_sub(i, off) is INT(0):
                nx = s.args[s.args.index(p) + 1:]
                if nx and nx[0].op == "seq":
                    return nx[0].args[0]
    if op == "store":
        b, j, x = s.args
        if j is i:
            return x
        d = p_sub(i, j)
        if is_int(d):
            return at(b, i)
    if op == "upd":
        # upd(h, base, n, body): first n positions replaced
        h, base, n, b = s.args
        d = p_sub(n, i)
        if is_int(d) and d.args[0] > 0:
            return subst(b, {mk("bv", h, "k"): i})
        if is_int(d) and d.args[0] <= 0:
            return at(base, i)
    if op == "bytes" and is_int(i) and i.args[0] < len(s.args[0]):
        return INT(s.args[0][i.args[0]])
    if op == "ite" or i.op == "ite":
        return lift2(at, s, i)
    if s is UNDEF:
        return s
    return mk("at", s, i)


def sl(s, a, b):
    if a.op == "ite" or b.op == "ite":
        return lift2(lambda x, y: sl(s, x, y), a, b)
    if s is UNDEF:
        return s
    if a is INT(0) and length(s) is b:
        return s
    if a is b:
        return NIL
    op = s.op
    if op == "sl":
        return sl(s.args[0], p_add(s.args[1], a), p_add(s.args[1], b))
    if op == "seq" and is_int(a) and is_int(b) and 0 <= a.args[0] <= b.args[0] <= len(s.args):
        return seq(s.args[a.args[0]:b.args[0]])
    if op == "cat":
        off = INT(0)
        start = None
        bounds = [off]
        for p in s.args:
            off = p_add(off, length(p))
            bounds.append(off)
        if a in bounds and b in bounds:
            i, j = bounds.index(a), bounds.index(b)
            if i <= j:
                return cat(s.args[i:j])
        if a in bounds:
            i = bounds.index(a)
            if i > 0:
                return sl(cat(s.args[i:]), INT(0), p_sub(b, a))
            # prefix reaching inside the first part
            lp = length(s.args[0])
            if is_int(lp) and is_int(b) and b.args[0] < lp.args[0]:
                return sl(s.args[0], a, b)
        if b in bounds:
            j = bounds.index(b)
            if j < len(s.args):
                return sl(cat(s.args[:j]), a, b)
        if is_int(a):
            o = 0
            for n_, p in enumerate(s.args):
                lp = length(p)
                if not is_int(lp):
                    break
                if o <= a.args[0] and is_int(b) and b.args[0] <= o + lp.args[0]:
                    return sl(p, INT(a.args[0] - o), INT(b.args[0] - o))
                o += lp.args[0]
    if op == "store" and is_int(s.args[1]) and is_int(a) and is_int(b):
        j = s.args[1].args[0]
        if not (a.args[0] <= j < b.args[0]):
            return sl(s.args[0], a, b)
        return store(sl(s.args[0], a, b), INT(j - a.args[0]), s.args[2])
    if op == "splice":
        base, sa, sb, new = s.args
        if sa is a and sb is b:
            return new
    if op == "flat":
        # a block of a map over fixed-size pieces
        h, n, body = s.args
        lb = length(body)
        if is_int(lb) and lb.args[0] > 0 and p_sub(b, a) is lb:
            q = p_div_exact(a, lb.args[0])
            if q is not None:
                return subst(body, {mk("bv", h, "k"): q})
        elif not has_bv(lb, h) and p_sub(b, a) is lb:
            q = p_div_term(a, lb)
            if q is not None:
                return subst(body, {mk("bv", h, "k"): q})
    if op == "ite":
        return lift(lambda x: sl(x, a, b), s)
    return mk("sl", s, a, b)


def p_div_exact(p, n):
    d = poly_of(p, "int")
    if all(c % n == 0 for c in d.values()):
        return from_poly({m: c // n for m, c in d.items()}, "int")
    return None


def p_div_term(p, t):
    """p / t when t is a single monomial dividing every monomial of p"""
    td = poly_of(t, "int")
    if len(td) != 1:
        return None
    (tm, tc), = td.items()
    r = {}
    for m, c in poly_of(p, "int").items():
        if c % tc:
            return None
        d = dict(m)
        for a, e in tm:
            if d.get(a, 0) < e:
                return None
            d[a] -= e
        r[tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))] = c // tc
    return from_poly(r, "int")


def store(s, i, x):
    if s.op == "ite" or i.op == "ite":
        return lift2(lambda a, b: store(a, b, x), s, i)
    if s.op == "seq" and is_int(i) and 0 <= i.args[0] < len(s.args):
        l = list(s.args)
        l[i.args[0]] = x
        return seq(l)
    if s.op == "flat" and is_int(s.args[1]) and s.args[1].args[0] <= 64 and is_int(i):
        return store(expand(s), i, x)
    if s.op == "store" and s.args[1] is i:
        return mk("store", s.args[0], i, x)
    if s.op == "cat":
        off = INT(0)
        for j, p in enumerate(s.args):
            d = p_sub(i, off)
            lp = length(p)
            if is_int(d) and is_int(lp) and 0 <= d.args[0] < lp.args[0]:
                return cat(s.args[:j] + (store(p, d, x),) + s.args[j + 1:])
            off = p_add(off, lp)
    return mk("store", s, i, x)


def expand(s):
    if s.op == "flat" and is_int(s.args[1]) and s.args[1].args[0] <= 512:
        v = mk("bv", s.args[0], "k")
        return cat([subst(s.args[2], {v: INT(i)}) for i in range(s.args[1].args[0])])
    return s


def enc(e, w, x):
    if x.op == "ite":
        return lift(lambda y: enc(e, w, y), x)
    if x.op == "dec" and x.args[0] == e and x.args[1] == w:
        return x.args[2]
    if is_int(x) and x.args[0] >= 0:
        return mk("bytes", tuple(x.args[0].to_bytes(w, "big" if e == "be" else "little")))
    return mk("enc", e, w, x)


def dec(e, w, b):
    if b.op == "enc" and b.args[0] == e and b.args[1] == w:
        return b.args[2]
    if b.op == "bytes" and len(b.args[0]) == w:
        return INT(int.from_bytes(bytes(b.args[0]), "big" if e == "be" else "little"))
    if b.op == "ite":
        return lift(lambda x: dec(e, w, x), b)
    if b.op == "seq" and len(b.args) == w and all(is_int(x) for x in b.args):
        return INT(int.from_bytes(bytes(x.args[0] for x in b.args), "big" if e == "be" else "little"))
    return mk("dec", e, w, b)


# ---------------------------------------------------------------- rebuild / substitution
def rebuild(op, args):
    """re-canonicalise a term whose arguments changed"""
    f = REB.get(op)
    if f is None:
        return mk(op, *args)
    return f(args)


def _reb_poly(args):
    kind, items = args
    r = {}
    acc = INT(0) if kind == "int" else ALG0
    for m, c in items:
        t = from_poly({(): c}, kind)
        for a, e in m:
            if e > 0:
                for _ in range(e):
                    t = p_mul(t, a, kind)
            else:
                for _ in range(-e):
                    t = p_mul(t, alg_inv(a), kind)
        acc = p_add(acc, t, kind)
    return acc


def _reb_flat(args):
    h, n, b = args
    tok = mk("k", ("reb", h, b.id))
    return flat(n, tok, subst1(b, {mk("bv", h, "k"): tok}))


def _reb_sum(args):
    h, n, b = args
    tok = mk("k", ("reb", h, b.id))
    return algsum(n, tok, subst1(b, {mk("bv", h, "k"): tok}))


def _reb_pred_ne(f):
    return lambda a: neg(f(a))


def _reb_isum(args):
    h, n, b = args
    tok = mk("k", ("reb", h, b.id))
    return isum(n, tok, subst1(b, {mk("bv", h, "k"): tok}))


def divc(x, c):
    return lift(lambda y: INT(y.args[0] // c) if is_int(y) and y.args[0] >= 0 else (y if c == 1 else mk("divc", y, c)), x)


def remc(x, c):
    return lift(lambda y: INT(y.args[0] % c) if is_int(y) and y.args[0] >= 0 else mk("remc", y, c), x)


REB = {
    "divc": lambda a: divc(*a),
    "remc": lambda a: remc(*a),
    "poly": _reb_poly,
    "fld": lambda a: fld(*a),
    "cat": lambda a: cat(list(a)),
    "len": lambda a: length(a[0]),
    "at": lambda a: at(*a),
    "sl": lambda a: sl(*a),
    "store": lambda a: store(*a),
    "enc": lambda a: enc(*a),
    "dec": lambda a: dec(*a),
    "flat": _reb_flat,
    "sum": _reb_sum,
    "isum": _reb_isum,
    "inv": lambda a: alg_inv(a[0]),
    "max0": lambda a: max0(a[0]),
    "min": lambda a: imin(*a),
    "max": lambda a: imax(*a),
    "mget": lambda a: mget(*a),
    "mhas": lambda a: mhas_raw(*a),
    "ite": lambda a: ITE(atom_cond(a[0]), a[1], a[2]),
}


def atom_cond(a):
    """the condition an atom (possibly with changed arguments) stands for"""
    if a is TRUE or a is FALSE:
        return a
    if a.op == "ite":
        return b_norm(a)
    o, x = a.op, a.args
    if o == "le0":
        return P_le0(x[0])
    if o == "eq0":
        return lift(_eq0, x[0])
    if o == "eq":
        return P_eq(*x)
    if o == "eqz":
        return P_eq(x[0], ALG0)
    if o == "tag":
        return tag(*x)
    if o == "tt":
        return b_norm(x[0])
    if o == "mhas":
        return mhas(*x)
    if o == "exists":
        return exists_n(*x)
    return lit(a)


def exists_n(h, n, c):
    if c is FALSE:
        return FALSE
    if is_int(n) and n.args[0] <= 0:
        return FALSE
    return lit(mk("exists", h, n, c))


def exists(n, k, c):
    """some k<n satisfies the condition c(k)"""
    if c is FALSE or (is_int(n) and n.args[0] <= 0):
        return FALSE
    if k not in c.free:
        return AND(c, P_le(INT(1), n))
    if is_int(n) and n.args[0] <= UNROLL[0]:
        return p_any([subst(c, {k: INT(i)}) for i in range(n.args[0])])
    h = binder_h(c, k)
    return lit(mk("exists", h, n, subst(c, {k: mk("bv", h, "k")})))


def isum(n, k, e):
    """sum of the integers e(k) for k<n"""
    if is_int(n) and n.args[0] <= 0:
        return INT(0)
    if k not in e.free:
        return p_mul(n, e)
    if is_int(n) and n.args[0] <= UNROLL[0]:
        r = INT(0)
        for i in range(n.args[0]):
            r = p_add(r, subst(e, {k: INT(i)}))
        return r
    h = binder_h(e, k)
    return mk("isum", h, n, subst(e, {k: mk("bv", h, "k")}))


# maps: mnil | mins m k v | mbuild h n m0 key val | mrem m k
MNIL = mk("mnil")


def mins(m, k, v):
    return mk("mins", m, k, v)


def mhas(m, k):
    if m is MNIL:
        return FALSE
    if m.op == "ite":
        return lift(lambda x: mhas(x, k), m)
    if m.op == "mbuild":
        h, n, m0, key, val = m.args
        j = mk("k", ("mb", m.id, k.id))
        return OR(mhas(m0, k), exists(n, j, P_eq(subst(key, {mk("bv", h, "k"): j}), k)))
    if m.op == "mins":
        e = P_eq(m.args[1], k)
        return OR(e, mhas(m.args[0], k))
    if m.op == "mrem":
        return AND(NOT(P_eq(m.args[1], k)), mhas(m.args[0], k))
    return lit(mk("mhas", m, k))


def mhas_raw(m, k):
    return mk("mhas", m, k)


def mget(m, k):
    if m.op == "ite":
        return lift(lambda x: mget(x, k), m)
    if m.op == "mins":
        return ITE(P_eq(m.args[1], k), m.args[2], mget(m.args[0], k))
    if m.op == "mrem":
        return mget(m.args[0], k)
    if m is MNIL:
        return UNDEF
    return mk("mget", m, k)


def max0(p):
    if p.op == "ite":
        return lift(max0, p)
    if is_int(p):
        return INT(max(0, p.args[0]))
    if nonneg(p):
        return p
    return mk("max0", p)


def nonneg(p):
    """syntactically non-negative"""
    for m, c in poly_of(p, "int").items():
        if c < 0 or any(not nn_atom(a) for a, e in m):
            return False
    return True


def nn_atom(a):
    if a.op in ("len", "max0", "k", "dec", "first", "remc"):
        return True
    if a.op == "bv" and a.args[1] == "k":
        return True
    if a in RANGE and RANGE[a][0] >= 0:
        return True
    if a.op == "min":
        return nonneg(a.args[0]) and nonneg(a.args[1])
    if a.op == "isum":
        return all(nonneg(x) for x in leaves(a.args[2]))
    return False


def imin(a, b):
    if a is b:
        return a
    if a.op == "ite" or b.op == "ite":
        return lift2(imin, a, b)
    d = p_sub(a, b)
    if is_int(d):
        return a if d.args[0] <= 0 else b
    if b.id < a.id:
        a, b = b, a
    return mk("min", a, b)


def imax(a, b):
    if a is b:
        return a
    if a.op == "ite" or b.op == "ite":
        return lift2(imax, a, b)
    d = p_sub(a, b)
    if is_int(d):
        return b if d.args[0] <= 0 else a
    if b.id < a.id:
        a, b = b, a
    return mk("max", a, b)


def nested_atoms(t):
    """atoms of the decisions found anywhere inside a term (outside binders' variables)"""
    out = set()
    for x in subterms(t):
        if x.op == "ite":
            a = x.args[0]
            if not any(f.op == "bv" for f in a.free):
                out.add(a)
    return out


def assume(t, atom, val):
    """t with the atom decided, wherever it occurs"""
    memo = {}

    def go(x):
        if type(x) is not Term:
            if type(x) is tuple:
                return tuple(go(y) for y in x)
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "ite":
            if x.args[0] is atom:
                r = go(x.args[1] if val else x.args[2])
            else:
                a = go(x.args[0])
                r = ITE(atom_cond(a), go(x.args[1]), go(x.args[2])) if a is not x.args[0] else \
                    ITE(lit(a), go(x.args[1]), go(x.args[2]))
        elif x.op in ("int", "var", "str", "bool", "bv", "k", "phi", "bytes"):
            r = x
        else:
            new = tuple(go(y) for y in x.args)
            if new == x.args:
                r = x
            elif x.op in BINDERS:
                r = rebuild_binder(x, new)
            else:
                r = rebuild(x.op, new)
        memo[x] = r
        return r

    return go(t)


def subst(t, m):
    """m: free token -> term"""
    m = {k: v for k, v in m.items() if k is not v}
    if not m:
        return t
    return _subst(t, m, {})


def subst1(t, m):
    """substitution of bound variables by tokens, without re-canonicalising binders above"""
    return _subst(t, m, {})


def _subst(t, m, memo):
    if not t.free:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        return m[t]
    if not any(x in m for x in t.free):
        return t
    new = tuple(_sub_arg(a, m, memo) for a in t.args)
    if new == t.args:
        r = t
    elif t.op in BINDERS:
        r = rebuild_binder(t, new)
    else:
        r = rebuild(t.op, new)
    carry(t, r)
    memo[t] = r
    return r


def carry(t, r):
    """type facts recorded about t also hold of its instance r"""
    if t is not r and r.op in OPAQUE_OPS:
        if t in RANGE and r not in RANGE:
            RANGE[r] = RANGE[t]
        if t in FIXED_LEN and r not in FIXED_LEN and r not in FREE_LEN:
            FIXED_LEN[r] = FIXED_LEN[t]


OPAQUE_OPS = {"at", "fld", "load", "call", "unk", "mget", "var", "cast", "rec", "phi", "sl", "exitk"}


def rebuild_binder(t, new):
    h = t.args[0]
    # the height may have to grow if deeper binders were substituted in
    bodies = [a for a in new[1:] if type(a) is Term and has_bv(a, h)]
    need = 0
    for b in bodies:
        if b.h > need:
            need = b.h
        for x in b.free:
            if x.op == "bv" and x.args[0] != h and x.args[0] > need:
                need = x.args[0]
    if need >= h or t.op in ("flat", "sum"):
        toks = {}
        for b in bodies:
            for x in b.free:
                if x.op == "bv" and x.args[0] == h:
                    toks[x] = mk("k", ("rb", x.args[1], t.id)) if x.args[1] == "k" else mk("phi", ("rb", x.args[1], t.id), x.args[1])
        nb = [(_subst(a, toks, {}) if type(a) is Term else a) for a in new[1:]]
        kt = toks.get(mk("bv", h, "k"), mk("k", ("rb", "k", t.id)))
        if t.op == "flat":
            return flat(nb[0], kt, nb[1])
        if t.op == "sum":
            return algsum(nb[0], kt, nb[1])
        h2 = need + 1
        back = {tk: mk("bv", h2, x.args[1]) for x, tk in toks.items()}
        return mk(t.op, h2, *[(_subst(a, back, {}) if type(a) is Term else a) for a in nb])
    return mk(t.op, h, *new[1:])


def _sub_arg(a, m, memo):
    if type(a) is Term:
        return _subst(a, m, memo)
    if type(a) is tuple:
        return tuple(_sub_arg(x, m, memo) for x in a)
    if type(a) is frozenset:
        return frozenset(_sub_arg(x, m, memo) for x in a)
    return a


def subst_term(t, m):
    """replace arbitrary subterms"""
    return _subst_term(t, m, {})


def _subst_term(t, m, memo):
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r

    def go(a):
        if type(a) is Term:
            return _subst_term(a, m, memo)
        if type(a) is tuple:
            return tuple(go(x) for x in a)
        if type(a) is frozenset:
            return frozenset(go(x) for x in a)
        return a

    if t.op in ("int", "var", "str", "bool", "bv", "k", "phi", "loc"):
        r = t
    else:
        new = tuple(go(a) for a in t.args)
        if new == t.args:
            r = t
        elif t.op in BINDERS:
            r = rebuild_binder(t, new)
        else:
            r = rebuild(t.op, new)
        carry(t, r)
    memo[t] = r
    return r


def subterms(t, seen=None):
    """all subterms (once each)"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if type(x) is Term:
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.args)
        elif type(x) in (tuple, frozenset):
            st.extend(x)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if type(t) is not Term:
        if type(t) is tuple:
            return "(" + ", ".join(show(x, d) for x in t) + ")"
        return str(t)
    if d > 24:
        return "…"
    op, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if op == "int":
        return str(a[0])
    if op == "bool":
        return str(a[0]).lower()
    if op == "str":
        return repr(a[0])
    if op == "var":
        return a[0] if isinstance(a[0], str) else str(a[0])
    if op == "poly":
        r = []
        for m, c in a[1]:
            f = [s(x) + (f"^{e}" if e != 1 else "") for x, e in m]
            if c != 1 or not f:
                f.insert(0, str(c))
            r.append("*".join(f))
        return ("(" if a[0] == "int" else "‹") + " + ".join(r) + (")" if a[0] == "int" else "›")
    if op == "fld":
        return f"{s(a[0])}.{a[1]}:{a[2]}" if a[1] else f"{s(a[0])}.{a[2]}"
    if op == "agg":
        tg = a[0]
        n = str(tg[0]).rsplit("::", 1)[-1] + (f"#{tg[1]}" if tg[1] else "")
        return f"{n}{{{', '.join(s(x) for x in a[1])}}}"
    if op == "ite":
        if a[1] is TRUE and a[2] is FALSE:
            return s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return "¬" + s(a[0])
        return f"({s(a[0])} ? {s(a[1])} : {s(a[2])})"
    if op == "seq":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if op == "cat":
        return "(" + " ++ ".join(s(x) for x in a) + ")"
    if op == "flat":
        return f"⊕k{a[0]}<{s(a[1])}.{s(a[2])}"
    if op == "sum":
        return f"Σk{a[0]}<{s(a[1])}.{s(a[2])}"
    if op == "bv":
        return f"{a[1]}{a[0]}"
    if op == "at":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "sl":
        return f"{s(a[0])}[{s(a[1])}..{s(a[2])}]"
    if op == "le0":
        return f"{s(a[0])}≤0"
    if op == "eq0":
        return f"{s(a[0])}=0"
    if op == "ne0":
        return f"{s(a[0])}≠0"
    if op == "vref":
        return "&" + s(a[0])
    if op == "ref":
        return f"&@{s(a[0])}{''.join('.' + show(p, d + 1) for p in a[1])}"
    if op == "loc":
        return f"L{a}"
    if op == "call":
        return f"{a[0].rsplit('::', 2)[-1] if '>' not in a[0][-3:] else a[0]}({', '.join(s(x) for x in a[1])}){'@' + show(a[2]) if len(a) > 2 and a[2] else ''}"
    if op == "k":
        return f"k⟨{show(a[0])[-12:]}⟩"
    if op == "phi":
        return f"φ⟨{show(a[0])[-12:]},{show(a[1])}⟩"
    return f"{op}({', '.join(s(x) for x in a)})"

"""The linear solver: one step of the elimination, its end, and the reading of the solution.

The loops are analysed from an arbitrary state, not run.  What is assumed of that state is an
invariant, and each obligation shows that one iteration keeps it:
  the array keeps its size; in the columns before the current one the entries from the current row
  on are zero; the last pivot column is the last one in which a pivot was used.
Every step being multiplication by one invertible matrix, the solutions stay the same, each pivot
column ends as a unit vector, and the solution can be read off the last column."""
from ..ctx import *
from ..cells import Grid, NoForm
from ..safety import prove, definite
from . import scheme as S


def val(e):
    return fld(e, 0, 0)


class Solver:
    """the solver's loops, and obligations about an arbitrary state of them: the values the loops
    carry are variables there"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.state = {}
        xs = [i for i in ctx.find(r"::span_coefs$")]
        if not xs:
            raise Missing("span_coefs")
        self.f = xs[0]
        self.w = self.f["path"]
        # a rectangular matrix: n rows of the access structure, w columns
        self.n, self.wd = var("rows"), var("cols")
        j, k = mk("k", ("spec", "sj")), mk("k", ("spec", "sk"))
        self.r = ctx.run(self.f, {})
        self.arg = self.r.args[0]
        self.nrow = length(at(self.arg, INT(0)))
        self.ncol = p_add(length(self.arg), INT(1))
        self.loops = {}
        for s in self.r.E.steps_seen:
            self.loops[(s["uid"], len(s["outer"]))] = s

    def main(self):
        """the outermost loop that rewrites the matrix"""
        c = [s for s in self.loops.values() if not s["outer"] and any(l[0] == "H" and l[1] is self.arg for l in s["head"])]
        if len(c) != 1:
            raise Missing(f"the elimination loop of {self.w}")
        return c[0]


    def carried(self, t, name):
        v = var(name)
        if intlike(t):
            RANGE.setdefault(v, (0, 2 ** 62))
        self.state[t] = v

    def free(self, *ts):
        return [subst_term(t, self.state) for t in ts]

    def same(self, key, got, want, pc, needed=True):
        n = len(self.ctx.obs)
        self.ctx.same(P + key, self.w, *self.free(got, want, pc))
        self.demote(n, needed)

    def implies(self, key, pc, cond, needed=True):
        n = len(self.ctx.obs)
        self.ctx.implies(P + key, self.w, *self.free(pc, cond))
        self.demote(n, needed)

    def demote(self, n, needed):
        """not every part of the invariant is needed alone: a difference there is not a defect yet"""
        if not needed:
            for o in self.ctx.obs[n:]:
                if o["verdict"] == NE:
                    o["verdict"] = UNK


P = "linear solver: "


def check(ctx):
    s = Solver(ctx)
    n = len(ctx.obs)
    m = None
    try:
        r = steps(ctx, s)
        m = len(ctx.obs)
        reading(ctx, s, *r)
    except NoForm as e:
        ctx.ob(P + "loops have a closed form", UNK, s.w, str(e))
    except Missing as e:
        ctx.ob(P + str(e), UNK, s.w, f"operation or type not found: {e}")
    # the elimination and the reading of its result could both be done differently: one of them is
    # judged where the other is known to do what is described here
    # (whether an operation can fail is judged where the loops have been recognised)
    m = len(ctx.obs) if m is None else m
    a, b = ([o for o in os if "cannot fail" not in o["key"]] for os in (ctx.obs[n:m], ctx.obs[m:]))
    fine = lambda os: bool(os) and all(o["verdict"] == EQ for o in os)
    fa, fb = fine(a), fine(b)
    for os, other in ((a, fb), (b, fa)):
        for o in os:
            if o["verdict"] == NE and not other:
                o["verdict"] = UNK


def pairs(E, L, loc):
    """(value at the head, at entry, after one iteration) of the parts of a place"""
    out = []

    def go(t, e, l):
        if t.op == "phi":
            out.append((t, e, l))
        elif t.op == "agg":
            for i, x in enumerate(t.args[1]):
                go(x, fld(e, t.args[0][1], i), fld(l, t.args[0][1], i))
    go(L["head"][loc], E.get(L["entry"], loc), L["latch"].s.get(loc, UNDEF))
    return out


def steps(ctx, s):
    w, E = s.w, s.r.E
    L = s.main()
    loc = next(l for l in L["head"] if l[0] == "H" and l[1] is s.arg)
    M = L["head"][loc]
    if M.op != "phi":
        raise Missing("the matrix at the head of the elimination loop")
    entry, latch = E.get(L["entry"], loc), L["latch"].s[loc]
    NROW, NCOL = var("rows of the system"), p_add(length(s.arg), INT(1))
    sizes = {length(at(entry, INT(0))): NROW, length(at(s.arg, INT(0))): NROW}

    def sz(t):
        return subst_term(t, sizes)
    base = b_norm(sz(AND(L["entry"].pc, AND(P_le(INT(1), NROW), P_le(INT(1), length(s.arg))))))
    k = mk("k", ("spec", "one"))
    last = at(entry, length(s.arg))
    el = at(last, k)
    s.same("the equations are those of the given rows", sl(entry, INT(0), length(s.arg)), s.arg, base)
    s.same("the target is 1 everywhere", val(el), ALG1, AND(base, P_lt(k, NROW)))
    s.same("one target per equation", sz(length(last)), NROW, base)
    # the counters, by what one iteration does to them
    g = Grid(M, NCOL, NROW, base)
    ints = {}
    for l in L["head"]:
        if l[0] == "L":
            for t, e, x in pairs(E, L, l):
                if intlike(t) and x is not None and x is not UNDEF:
                    ints[t] = (sz(e), x)
    # a counter moves by constants; the one of the rows stays where it is in some step
    def moves(t):
        x = ints[t][1]
        ds = {p_sub(y, t) for y in leaves(x)}
        return {d.args[0] for d in ds} if all(is_int(d) for d in ds) else set()
    cs = [t for t in ints if ints[t][0] is INT(0) and moves(t) and min(moves(t)) >= 0]
    ccs, crs = [t for t in cs if 0 not in moves(t)], [t for t in cs if moves(t) == {0, 1}]
    if len(ccs) != 1 or len(crs) != 1:
        raise Missing("the counters of the elimination loop")
    cc, cr = ccs[0], crs[0]
    s.carried(M, "the matrix in some step")
    s.carried(cc, "the column in some step")
    s.carried(cr, "the row in some step")
    x = ints[cc][1]
    by = [restrict(x, c) for c in (orig_found(ints, cr), NOT(orig_found(ints, cr)))]
    ctx.true(P + "a step moves to the next column", w, all(y is p_add(cc, INT(1)) for y in leaves(x)),
             definite=any(is_int(p_sub(y, cc)) and y is not p_add(cc, INT(1)) for y in by))
    found = orig_found(ints, cr)
    inside = AND(AND(P_le(INT(0), cc), P_lt(cc, NCOL)), base)
    pc = AND(inside, AND(P_le(INT(0), cr), P_lt(cr, NROW)))
    # the last pivot column: kept when there is no pivot, and what the answer depends on
    ok, v = ok_part(s.r)
    none = tag(v, 0, 2)
    lp = None
    for t, (e, x) in ints.items():
        if t not in (cc, cr) and set(leaves(x)) != {t} and boolean(x, t) is not FALSE and contains(none, lambda y: y is t):
            s.carried(t, "the last pivot column in some step")
            s.same("the last pivot column is the one just used", restrict(x, found), cc, AND(pc, found))
            s.same("a column without pivot is not the last pivot column", restrict(x, NOT(found)), t, AND(pc, NOT(found)))
            s.implies("without a pivot the last column is not one", base, NOT(P_eq_int(e, p_sub(NCOL, INT(1)))))
            lp = t
    ctx.true(P + "the matrix keeps its shape", w, g.kept(latch), show(latch)[:300], definite=False)
    panics(ctx, s, g, M, sz, within(base, (solved(cc, L), NCOL), (cr, NROW)), lambda e: of(e, L))
    # iterations happen only within the system
    q0 = AND(AND(P_le(INT(0), cc), P_le(cc, NCOL)), AND(P_le(INT(0), cr), P_le(cr, NROW)))
    lpc = AND(AND(g.fix(sz(L["latch"].pc), base), base), q0)
    s.implies("a step is made inside the matrix only", lpc, P_lt(cc, NCOL))
    for _, x in L["exits"]:
        c = AND(AND(g.fix(sz(x.pc), base), base), q0)
        s.implies("elimination ends after the last column or row", c, OR(P_eq_int(cc, NCOL), P_eq_int(cr, NROW)))
        s.same("the matrix is complete when elimination ends", x.s.get(loc, M), M, c)
    # the pivot
    found = g.fix(sz(found), pc)
    j = mk("k", ("spec", "row"))
    cell = lambda c, r: val(at(at(M, c), r))
    s.same("a pivot is used whenever the column has one", g.under(found, pc),
             exists(p_sub(NROW, cr), j, NOT(lit(mk("eqz", cell(cc, p_add(cr, j)))))), pc)
    nolatch = restrict(sz(latch), NOT(b_norm(sz(orig_found(ints, cr)))))
    s.same("a column without pivot changes nothing", nolatch, M, AND(pc, NOT(found)), needed=False)
    step(ctx, s, g, M, cc, cr, found, restrict(sz(latch), b_norm(sz(orig_found(ints, cr)))), pc, NROW, NCOL)
    return L, M, cc, cr, lp, base, sz, g


def boolean(x, yes):
    """the condition under which x is `yes`"""
    return lift(lambda y: TRUE if y is yes else FALSE, x)


def orig_found(ints, cr):
    return boolean(ints[cr][1], p_add(cr, INT(1)))


def step(ctx, s, g, M, cc, cr, found, latch, pc, NROW, NCOL):
    w = s.w
    # the row of the pivot
    fs = list(dict.fromkeys(x for x in subterms(latch) if x.op == "first" and not any(y.op == "bv" for y in x.free)))
    if len(fs) != 1:
        raise Missing("the pivot row of the elimination step")
    F = g.fix(fs[0], pc)
    latch = subst_term(latch, {fs[0]: F})
    h, n, b = F.args
    p = var("pivot row")
    RANGE.setdefault(p, (0, 2 ** 62))
    for e in list(dict.fromkeys(y.args[1] for y in subterms(latch) if y.op == "at" and contains(y.args[1], lambda z: z is F))):
        break
    else:
        raise Missing("the pivot row of the elimination step")
    m = {F: p_sub(p, p_sub(e, F))}
    d = poly_of(e, "int")
    if d.get(((F, 1),)) != 1:
        raise Missing("the pivot row of the elimination step")
    facts = AND(subst_term(b_norm(subst(b, {mk("bv", h, "k"): F})), m), AND(P_lt(subst_term(F, m), n), P_le(INT(0), subst_term(F, m))))
    latch = subst_term(latch, m)
    q = AND(pc, b_norm(facts))
    s.implies("the pivot is in a row not used yet", q, AND(P_le(cr, p), P_lt(p, NROW)))
    cell = lambda c, r: val(at(at(M, c), r))
    s.implies("the pivot is not zero", q, NOT(lit(mk("eqz", cell(cc, p)))))
    q = AND(AND(q, NOT(lit(mk("eqz", cell(cc, p))))), AND(P_le(cr, p), P_lt(p, NROW)))
    c, r = mk("k", ("spec", "c")), mk("k", ("spec", "r"))
    ranges = AND(AND(P_le(INT(0), c), P_lt(c, NCOL)), AND(P_le(INT(0), r), P_lt(r, NROW)))
    swapped = lambda x: ITE(P_eq_int(r, p), cell(x, cr), cell(x, r))
    piv = alg_inv(cell(cc, p))
    top = lambda x: p_mul(cell(x, p), piv, "alg")
    want = ITE(P_eq_int(r, cr), top(c), lift2(lambda a, b_: p_sub(a, p_mul(b_, top(c), "alg"), "alg"), swapped(c), swapped(cc)))
    # (what, where, needed alone): below and above the pivot, and in the columns of earlier pivots, the entries
    # have to be zero only as far as they are read again
    parts = (("the pivot", AND(P_eq_int(c, cc), P_eq_int(r, cr)), True), ("the rest of the current column", AND(P_eq_int(c, cc), NOT(P_eq_int(r, cr))), False),
             ("the columns after it", P_lt(cc, c), True), ("the columns before it", P_lt(c, cc), False))
    for what, cond, needed in parts:
        for moved in (False, True):
            # the pivot is in the current row, or in a later one
            m = {} if moved else {p: cr}
            qq = b_norm(subst_term(AND(AND(q, ranges), AND(cond, P_lt(cr, p) if moved else TRUE)), m))
            if "before" in what:
                # reduced already
                qq = AND(qq, AND(lit(mk("eqz", subst_term(cell(c, p), m))), lit(mk("eqz", cell(c, cr)))))
            got = val(g.cell(subst_term(latch, m), c, r, qq))
            s.same(f"a step is one row operation on {what}" + (", with an exchange" if moved else ""), g.under(got, qq), g.under(subst_term(want, m), qq), qq, needed)


def reading(ctx, s, L, M, cc, cr, lp, base, sz, g):
    """the solution read off the reduced matrix"""
    w, E = s.w, s.r.E
    NROW, NCOL = g.nrow, g.ncol
    rhs = p_sub(NCOL, INT(1))
    ok, v = ok_part(s.r)
    ok = AND(sz(ok), base)
    if lp is None:
        raise Missing("the last pivot column")
    none = tag(v, 0, 2)
    # with as many pivots as rows used, the last of them in a column passed
    used = AND(OR(P_lt(INT(0), cr), P_eq_int(lp, INT(0))), AND(AND(P_lt(lp, cc), P_le(p_sub(cr, INT(1)), lp)), AND(P_le(INT(0), lp), P_lt(lp, NCOL))))
    used = AND(used, OR(P_lt(INT(0), cr), P_lt(lp, rhs)))
    s.same("no solution exactly when the target needed a pivot", sz(none), P_eq_int(lp, rhs), AND(base, used))
    some = AND(AND(base, used), NOT(P_eq_int(lp, rhs)))
    s.same("one coefficient per row", g.fix(sz(length(fld(v, 1, 0))), some), rhs, some)
    ends = [x for x in leaves(restrict(fld(v, 1, 0), some)) if x.op == "cat" and x.args[-1].op == "flat"]
    for x in ends:
        x = x.args[-1].args[2]
        if x.op == "seq" and len(x.args) == 1 and not x.free:
            s.same("the coefficient of a column never reached is 0", val(x.args[0]), ALG0, base)
    # the loop over the equations and the one over the columns inside it
    X = Y = None
    for x in s.loops.values():
        if x["outer"] or x is L:
            continue
        for l in x["head"]:
            t = x["head"][l]
            if t.op == "phi" and t not in RANGE and x["latch"].s.get(l) is not None and x["latch"].s[l].op == "cat" and x["latch"].s[l].args[0] is t:
                for y in s.loops.values():
                    if y["outer"] == (x["k"],) and l in y["head"]:
                        X, Y, sol = x, y, l
    if X is None:
        raise Missing("the loops reading the solution")
    xs, ys = X["head"][sol], Y["head"][sol]
    for t, name in ((xs, "the solution before an equation"), (ys, "the solution before a column")):
        s.carried(t, name)
    s.same("the solution starts empty", E.get(X["entry"], sol), NIL, X["entry"].pc)
    cur = [l for l in Y["head"] if l[0] == "L" and l in X["head"] and Y["head"][l].op == "phi" and Y["latch"].s.get(l) is p_add(Y["head"][l], INT(1))]
    if len(cur) != 1 or ys.op != "phi":
        raise Missing("the column counter of the reading loops")
    cur = cur[0]
    xc, yc = X["head"][cur], Y["head"][cur]
    for t, name in ((xc, "the column before an equation"), (yc, "the column read")):
        s.carried(t, name)
    passed = p_sub(X["latch"].s[cur], p_add(xc, INT(1)))
    if passed.op == "exitk":
        s.carried(passed, "the columns passed over for an equation")
    s.same("reading starts at the first column", E.get(X["entry"], cur), INT(0), X["entry"].pc)
    # the equation being read: the counter of the outer loop
    eqn = [t for l in X["head"] for t, e, x in pairs(E, X, l) if t is not xc and intlike(t) and e is INT(0) and x is not None]
    facts = AND(base, AND(P_le(INT(0), yc), P_lt(yc, NCOL)))
    yl = g.fix(sz(Y["latch"].s[sol]), facts)
    if yl.op != "cat" or yl.args[0] is not ys or yl.args[1].op != "seq" or len(yl.args) != 2 or len(yl.args[1].args) != 1:
        raise Missing("the coefficient of a column without pivot")
    s.same("the coefficient of a column without pivot is 0", val(yl.args[1].args[0]), ALG0, facts)
    i = None
    for t in eqn:
        if len(eqn) == 1 or any(x.op == "at" and x.args[1] is t for x in subterms(X["latch"].s[sol])):
            i = t
    if i is None:
        raise Missing("the equation being read")
    s.carried(i, "the equation read")
    step_ = next(x for l in X["head"] for t, e, x in pairs(E, X, l) if t is i)
    facts = AND(facts, AND(P_le(INT(0), i), P_lt(i, NROW)))
    xl = g.fix(sz(X["latch"].pc), base)
    s.same("every equation is read once", sz(restrict(step_, X["latch"].pc)), p_add(i, INT(1)), AND(AND(base, P_lt(i, NROW)), P_le(INT(0), i)))
    got = g.fix(sz(X["latch"].s[sol]), AND(facts, AND(P_le(INT(0), xc), P_lt(xc, NCOL))))
    n = p_sub(p_sub(X["latch"].s[cur], xc), INT(1))
    q = AND(xl, AND(facts, AND(P_le(INT(0), xc), P_le(INT(0), n))))
    want = cat([xs, flat(n, mk("k", ("spec", "z")), yl.args[1]), seq([at(at(M, rhs), i)])])
    s.same("the coefficient of a pivot column is its equation's target", got, want, q)
    guards(ctx, s, g, M, X, Y, sol, cur, i, sz, facts, base)
    yc, f = Y["head"][cur], AND(base, P_le(INT(0), Y["head"][cur]))
    s.implies("reading goes to a column of the matrix", AND(g.fix(sz(Y["latch"].pc), base), AND(f, P_lt(yc, g.ncol))), P_lt(Y["latch"].s[cur], g.ncol))
    s.implies("the next equation is read from a column of the matrix", AND(g.fix(sz(X["latch"].pc), base), AND(base, P_le(INT(0), X["head"][cur]))), P_lt(X["latch"].s[cur], g.ncol))
    panics(ctx, s, g, M, sz, within(base, (solved(Y["head"][cur], Y, X), g.ncol), (solved(i, X), g.nrow)), lambda e: not of(e, L))


def guards(ctx, s, g, M, X, Y, sol, cur, i, sz, facts, base):
    """when the reading moves to the next column and when it stops at a pivot"""
    w, E = s.w, s.r.E
    ys, yc = Y["head"][sol], Y["head"][cur]
    NCOL = g.ncol
    # the outer counter as the inner loop sees it
    ks = [x.args[1] for st in [Y["latch"]] + [st for _, st in Y["exits"]] for x in subterms(st.pc)
          if x.op == "at" and x.args[0].op == "at" and x.args[0].args[0] is M and x.args[0].args[1] is yc]
    ks = list(dict.fromkeys(ks))
    if len(ks) != 1:
        raise Missing("the entry the reading loop tests")
    z = lit(mk("eqz", val(at(at(M, yc), ks[0]))))
    ctx.true(P + "the entries tested are those of the equation being read", w, ks[0] is i or ks[0] is X["k"], definite=False)
    f = AND(base, AND(P_le(INT(0), yc), P_lt(yc, NCOL)))
    f = AND(f, AND(P_le(INT(0), ks[0]), P_lt(ks[0], g.nrow)))
    pc = AND(g.fix(sz(Y["latch"].pc), f), f)
    s.implies("a column is passed over only where the equation has no entry", pc, z)
    for _, st in Y["exits"]:
        pc = AND(g.fix(sz(st.pc), f), f)
        for cond, n in ((z, 1), (NOT(z), 0)):
            q = AND(pc, cond)
            if q is FALSE or linear.contradictory(units(q)):
                continue
            c = st.s.get(cur, yc)
            if n:
                s.implies("reading ends early only after the last column", AND(q, P_eq_int(c, yc)) if c is yc else q, P_le(p_sub(NCOL, INT(1)), yc))
            else:
                s.same("reading stops at the pivot", c, yc, q)
                s.same("nothing is added before the pivot is read", st.s.get(sol, ys), ys, q)


def solved(t, *loops):
    for x in loops:
        t = subst(t, x["sols"])
    return t


def within(pc, *bounds):
    for t, hi in bounds:
        pc = AND(pc, AND(P_le(INT(0), t), P_lt(t, hi)))
    return pc


def of(e, L):
    """is the operation inside the loop?"""
    return any(x is L["k"] for t in (e["pc"], e["cond"]) for x in t.free)


def panics(ctx, s, g, M, sz, inv, only):
    """no operation of the loops can fail in a state that satisfies the invariant"""
    for e in s.r.ev("oblig"):
        if e["proved"] or not only(e):
            continue
        pc, cond = AND(g.fix(sz(e["pc"]), inv), inv), sz(e["cond"])
        # the first entry of an equation is one
        for x in list(subterms(pc)):
            if x.op == "eqz" and x.args[0].op == "poly":
                y = p_add(x.args[0], ALG1, "alg")
                if y.op == "fld" and any(z is M for z in subterms(y)):
                    pc = AND(pc, OR(lit(mk("eqz", y)), lit(x)))
        cond = g.fix(cond, pc)
        v, why = EQ, ""
        for q, c in chosen(pc, cond):
            q, c = s.free(q, c)
            v1, rest = prove(q, b_norm(c), ())
            if v1 != EQ:
                v1, why = definite(ctx, q, b_norm(c), rest, ())
                v, why = (v1 if v != NE else v), why + show(rest)[-300:]
        ctx.ob(f"{P}{e['what']} cannot fail", v, s.w, "" if v == EQ else f"{show(cond)[:300]} is not ensured; {why} {show(rest)[-300:]}", sample=f"{s.w}: {e['what']}: {show(cond)[:200]}")


def chosen(pc, cond):
    """the cases of the first element that passes a test, where there is one: at the start or later"""
    out = [(pc, cond)]
    for a, v in units(pc).items():
        if a.op == "exists" and v:
            h, n, b = a.args
            F = mk("first", h, n, b)
            if any(x is F for x in list(subterms(pc)) + list(subterms(cond))):
                new = []
                for q, c in out:
                    for m, f in (({F: INT(0)}, TRUE), ({}, P_lt(INT(0), F))):
                        x = m.get(F, F)
                        k = AND(AND(f, P_lt(x, n)), b_norm(subst(b, {mk("bv", h, "k"): x})))
                        new.append((AND(b_norm(subst_term(q, m)), k), subst_term(c, m)))
                out = new
    return out

"""C34 - a formula text is parsed into the tree it denotes, and every other text is refused."""
import re

from ..ctx import *
from ..terms import RANGE, binder_h
from ..models import IT, OK, ERR, SOME, NONE, opt_if, is_it, remaining
from .. import instance, models
from ..compare import Cmp
from . import scheme as S

RULE = ("The result of the parser, as a term over the characters of the text (value-flow through all callees; loops over the characters become first-position, existence and "
        "prefix-sum terms for every length; the parser's own calls on parts of the text are left uninterpreted), is compared with the defining equations of the documented "
        "grammar: digits, then the end or one operator and a formula; or a parenthesis, the formula up to the parenthesis that closes it, then the end or one operator and a formula.")
ASSUME = ["the regular expression ^\\d+ matches the leading digits of an ASCII text", "a text has fewer than 2^30 characters", "parsing digits as u32 fails or gives their value"]
TRUST = ["regex", "core: str methods on ASCII text"]

LIMIT = 2 ** 30
OPEN, CLOSE, AMP, BAR, ZERO, NINE, SPACE = (ord(c) for c in "()&|09 ")
ALPHABET = " ()&|0123456789"


def digit(c):
    return AND(P_le(INT(ZERO), c), P_le(c, INT(NINE)))


def first_of(n, f):
    """(is there a position below n, the first one) with the condition"""
    k = mk("k", ("spec", "p", n.id))
    c = f(k)
    h = binder_h(c, k)
    i = mk("first", h, n, subst(c, {k: mk("bv", h, "k")}))
    RANGE[i] = (0, 2 ** 63)
    return exists(n, k, c), i


def digits(t):
    """number of leading digits"""
    c, i = first_of(length(t), lambda k: NOT(digit(at(t, k))))
    return ITE(c, i, length(t))


def upto(t, d):
    return lift(lambda k: sl(t, INT(0), k), d)


def is_number(ty, x):
    return lit(mk("tt", mk("call", "is number: " + ty, (x,))))


def number_of(ty, x):
    return mk("call", "number: " + ty, (x,))


# ---------------------------------------------------------------- text operations on ASCII
DIGITS = (r"^\d+", r"^[0-9]+", r"\A\d+", r"^\d\d*")


def extra(ctx, u):
    parse = ctx.fn(r"::Node::parse$")["path"]
    deref = models.deref_arg

    def ascii_text(E, st, a, info):
        return IT(deref(E, st, a[0], info, 0))

    def replace(E, st, a, info):
        if len(a) == 3 and char_of(a[1]) == SPACE and a[2].op == "str" and a[2].args[0] == "" and (a[0] is S_TEXT or a[0] is u):
            return u
        old = chr(char_of(a[1])) if char_of(a[1]) is not None else a[1].args[0] if a[1].op == "str" else None
        if len(a) == 3 and old is not None and a[2].op == "str":
            return mk("replaced", a[0], old, a[2].args[0])
        return mk("unk", info.path, tuple(a))

    def trim(E, st, a, info):
        return mk("replaced", a[0], None, info.path.split("::")[-1])

    def matches(E, st, a, info):
        c = char_of(a[1])
        if c is None:
            return E.opaque(st, info.path, a, info)
        k = mk("k", ("matches", a[0].id))
        return IT(flat(length(a[0]), k, ITE(P_eq_int(at(a[0], k), INT(c)), seq([INT(c)]), seq([]))))

    def regex(E, st, a, info):
        return OK(agg(("regex", 0), (a[0],))) if a[0].op == "str" else E.opaque(st, info.path, a, info)

    def re_(f):
        def g(E, st, a, info):
            x = deref(E, st, a[0], info, 0)
            if x.op != "agg" or x.args[0][0] != "regex" or len(a) > 2 and a[2] is not INT(0):
                return E.opaque(st, info.path, a, info)
            return f(x.args[1][0].args[0], *a[1:])
        return g

    def span(p, t):
        """(found, start, end) of the first match"""
        if p in DIGITS:
            d = digits(t)
            return P_lt(INT(0), d), INT(0), d
        i, j = mk("rx", p, 0, t), mk("rx", p, 1, t)
        for x in (i, j):
            RANGE[x] = (-1, LIMIT)
        return P_le(INT(0), i), i, j

    def found(p, t, at_=None):
        c, i, j = span(p, t)
        return opt_if(c, agg(("match", 0), (t, i, j)))

    def m(f):
        def g(E, st, a, info):
            x = deref(E, st, a[0], info, 0)
            return lift(lambda y: f(y) if y.op == "agg" and y.args[0][0] == "match" else mk("unk", info.path, (y,)), x)
        return g

    def number(E, st, a, info):
        t = E.types[info.dty]["s"]
        return lift(lambda x: ITE(is_number(t, x), OK(number_of(t, x)), ERR(mk("call", "no number: " + t, (x,)))), a[0])

    def itself(E, st, a, info):
        return lift(lambda x: ITE(P_le(length(x), INT(0)), ERR(mk("call", "empty", ())), mk("call", "parse", (x,))), a[0])

    def find(E, st, a, info):
        c = char_of(a[1])
        if c is None:
            return E.opaque(st, info.path, a, info)
        e, i = first_of(length(a[0]), lambda k: P_eq_int(at(a[0], k), INT(c)))
        return opt_if(e, i)

    def has(E, st, a, info):
        c = char_of(a[1])
        if c is None:
            return E.opaque(st, info.path, a, info)
        return first_of(length(a[0]), lambda k: P_eq_int(at(a[0], k), INT(c)))[0]

    def starts(E, st, a, info):
        c = char_of(a[1])
        if c is None:
            return E.opaque(st, info.path, a, info)
        return AND(P_lt(INT(0), length(a[0])), P_eq_int(at(a[0], INT(0)), INT(c)))

    def strip(E, st, a, info):
        c = char_of(a[1])
        if c is None:
            return E.opaque(st, info.path, a, info)
        ok = AND(P_lt(INT(0), length(a[0])), P_eq_int(at(a[0], INT(0)), INT(c)))
        return opt_if(ok, sl(a[0], INT(1), length(a[0])))

    def is_digit(E, st, a, info):
        return digit(deref(E, st, a[0], info, 0))

    def enumerated(E, st, a, info):
        t = a[0]
        k = mk("k", ("ci", t.id))
        return IT(flat(length(t), k, seq([agg(("tuple", 0), (k, at(t, k)))])))
    s = "core::str::<impl str>::"
    return {
        parse: itself, s + "chars": ascii_text, s + "char_indices": enumerated, s + "matches": matches, s + "trim": trim, s + "trim_start": trim, s + "trim_end": trim, "std::str::<impl str>::replace": replace, s + "parse": number,
        s + "find": find, s + "contains": has, s + "starts_with": starts, s + "strip_prefix": strip, **{c + "::char::methods::<impl char>::is_ascii_digit": is_digit for c in ("core", "std")},
        "regex::Regex::new": regex, "regex::Regex::is_match": re_(lambda p, t: span(p, t)[0]), "regex::Regex::captures_len": re_(lambda p: INT(1 + p.count("("))),
        "regex::Regex::find": re_(found), "regex::Regex::find_at": re_(found),
        "regex::Match::<'h>::as_str": m(lambda y: upto(y.args[1][0], y.args[1][2]) if y.args[1][1] is INT(0) else sl(*y.args[1])),
        "regex::Match::<'h>::end": m(lambda y: y.args[1][2]), "regex::Match::<'h>::start": m(lambda y: y.args[1][1]),
        "regex::Match::<'h>::len": m(lambda y: p_sub(y.args[1][2], y.args[1][1])),
    }


def char_of(x):
    if x.op == "int":
        return x.args[0]
    if x.op == "str" and len(x.args[0]) == 1:
        return ord(x.args[0])
    return None


S_TEXT = var("text")


# ---------------------------------------------------------------- the grammar
def formula(ctx, t, NODE):
    """(accepted, tree, lemma) for a text without spaces"""
    AND_, OR_, LEAF = NODE
    n = length(t)

    def sub(x):
        """the formula a part of the text denotes"""
        p = mk("call", "parse", (x,))
        return AND(P_lt(INT(0), length(x)), b_norm(tag(p, 0, 2))), fld(p, 0, 0)

    def tail(ok, tree, k):
        """what follows the first operand"""
        c = at(t, k)
        rok, rest = sub(sl(t, p_add(k, INT(1)), n))
        end = P_le(n, k)
        amp, bar = P_eq_int(c, INT(AMP)), P_eq_int(c, INT(BAR))
        acc = AND(ok, OR(end, AND(rok, OR(amp, bar))))
        return acc, ITE(end, tree, ITE(amp, agg(AND_, (tree, rest)), agg(OR_, (tree, rest))))
    d = digits(t)
    num = upto(t, d)
    ty = "std::result::Result<u32, std::num::ParseIntError>"
    okn, val = b_norm(lift(lambda x: is_number(ty, x), num)), lift(lambda x: number_of(ty, x), num)
    a = tail(okn, agg(LEAF, (val,)), d)
    # the parenthesis that closes the first one
    r = sl(t, INT(1), n)
    k1 = mk("k", ("spec", "d"))

    def delta(c):
        return ITE(P_eq_int(c, INT(OPEN)), INT(1), ITE(P_eq_int(c, INT(CLOSE)), INT(-1), INT(0)))

    def closes(k):
        before, c = isum(k, k1, delta(at(r, k1))), at(r, k)
        low = lambda v: P_le(p_add(before, INT(v + 1)), INT(0))
        return OR(AND(P_eq_int(c, INT(OPEN)), low(1)), AND(NOT(P_eq_int(c, INT(OPEN))), OR(AND(P_eq_int(c, INT(CLOSE)), low(-1)), AND(NOT(P_eq_int(c, INT(CLOSE))), low(0)))))
    found, i = first_of(length(r), closes)
    some = first_of(length(r), lambda k: P_eq_int(at(r, k), INT(CLOSE)))[0]
    oki, inner = sub(sl(t, INT(1), p_add(i, INT(1))))
    b = tail(AND(found, oki), inner, p_add(i, INT(2)))
    lead, par = P_lt(INT(0), d), AND(P_lt(INT(0), n), P_eq_int(at(t, INT(0)), INT(OPEN)))
    ok = OR(AND(lead, a[0]), AND(NOT(lead), AND(par, b[0])))
    # a prefix with more closing than opening parentheses has a closing one; there are leading digits when the first character is one
    starts = AND(P_lt(INT(0), n), digit(at(t, INT(0))))
    return ok, ITE(lead, a[1], b[1]), AND(OR(NOT(found), some), AND(OR(NOT(lead), starts), OR(NOT(starts), lead)))


def check(ctx):
    S.init(ctx)
    ctx.guard("parser", parser, ctx)


def parser(ctx):
    f = ctx.fn(r"::Node::parse$")
    ty = next((t for t in ctx.P.types if t["k"] == "adt" and t["adt"].split("::")[-1] == "Node" and t.get("local")), None)
    if ty is None:
        raise Missing("Node")
    names = [v["name"] for v in ty["variants"]]
    NODE = [(ty["adt"], names.index(x)) for x in ("And", "Or", "Leaf")]
    u = var("text without spaces")
    few = AND(P_le(length(u), INT(LIMIT)), P_le(length(S_TEXT), INT(LIMIT)))
    r = ctx.run(f, {0: S_TEXT}, extra=extra(ctx, u), pc=few)
    w = f["path"]
    ok, tree = ok_part(r)
    g, t, lemma = formula(ctx, u, NODE)
    # the check of the characters, as what it requires of one character
    c = var("character")
    checks = [x for x in dict.fromkeys(subterms(ok)) if x.op == "exists" and x.args[1] is length(S_TEXT) and u not in subterms(x)]
    passed, bad = AND(few, P_lt(INT(0), length(S_TEXT))), FALSE
    for x in checks:
        passed = AND(passed, NOT(lit(x)))
        b = one(x, c)
        bad = OR(bad, b)
    if S_TEXT in subterms(bad):
        ctx.ob("the check of the characters", UNK, w, show(bad)[:300])
        return
    alpha = p_any([P_eq_int(c, INT(ord(a))) for a in ALPHABET])
    ctx.implies("a character of the grammar is not refused", w, AND(alpha, P_le(INT(0), c)), NOT(bad))
    ctx.implies("an empty text is refused", w, AND(few, P_le(length(S_TEXT), INT(0))), NOT(ok))
    # a count is zero when nothing counts
    for x in dict.fromkeys(subterms(ok)):
        if x.op == "isum" and x.args[2].op == "ite" and not any(v.op == "bv" for v in x.free):
            b = x.args[2]
            if {b.args[1], b.args[2]} == {INT(0), INT(1)}:
                k = mk("k", ("count", x.id))
                some = exists(x.args[1], k, subst(lit(b.args[0], b.args[1] is INT(1)), {mk("bv", x.args[0], "k"): k}))
                none = P_le(x, INT(0))
                lemma = AND(lemma, AND(OR(some, P_eq_int(x, INT(0))), OR(NOT(some), NOT(P_eq_int(x, INT(0))))))
                lemma = AND(lemma, AND(OR(some, none), OR(NOT(some), NOT(none))))
    # texts that pass the check
    q = AND(passed, lemma)
    got, tree = restrict(ok, q), restrict(tree, q)
    equal(ctx, "accepted exactly when it is a formula", w, got, restrict(g, q), q, u)
    q2 = AND(q, AND(g, got))
    equal(ctx, "the tree is the one the text denotes", w, restrict(tree, q2), restrict(t, q2), q2, u)
    for e in r.ev("oblig"):
        if not e["proved"]:
            key, pc = f"{e.get('what', 'operation')} cannot fail", AND(AND(few, lemma), e["pc"])
            s = None if Cmp((), seconds=3).implies(pc, e["cond"]) is EQ else fails_at(pc, e["cond"], u)
            if s is not None:
                ctx.ob(key, NE, w, f"fails at the text {s!r}; {show(e['cond'])[:200]}")
            else:
                ctx.implies(key, w, pc, e["cond"])
    # cuts of the text are between characters: all characters that pass the check have one byte
    wide = NOT(P_le(c, INT(127)))
    ascii_ = restrict(bad, wide) is TRUE or EQ in (Cmp(()).implies(wide, bad), Cmp(()).implies(NOT(bad), P_le(c, INT(127))))
    for e in r.ev("oblig"):
        if e.get("what") != "slice":
            continue
        for k in (e["lo"], e["hi"]):
            x, k = whole(e["base"], k)
            if x is not u or k is length(u) or k is INT(0) or k.op == "ite":
                continue
            key = "the text is cut between characters"
            if ascii_:
                ctx.ob(key, EQ, w, sample=f"{w}: {key}: the characters that pass the check are ASCII; cut at {show(k)[:200]}")
                continue
            if S_TEXT in subterms(subst_term(ok, {**{x: mk("understood", i) for i, x in enumerate(checks)}, length(S_TEXT): var("length")})):
                ctx.ob(key, UNK, w, f"what the check of the characters lets through is not understood; cut at {show(k)[:200]}")
                continue
            ctx.forbids(key, w, AND(AND(e["pc"], few), AND(P_le(INT(1), k), P_lt(k, length(u)))), NOT(P_le(at(u, p_sub(k, INT(1))), INT(127))))


# shapes of texts at which a difference that is not decided in general may show
TEXTS = ["1", "12", "(1)", "1&2", "1|2", "1 & 2", "1  |  2", " 1 2 ", "(1)&2", "(1)|2", "(1&2)", "(1|2)&3", "((1))|2", "(1)&(2)", "((1)&2)|(3)", "1&(2)", "()", "(1", "1)", "(1)2", "(1)&", "(1)&&",
         "&", "|1", ")1(", "(1))", "((1)", "(1)(2)", "1&", "12|", "1(2)", ")1)", ")1)&2", "1&2|3", "1234567890", "(" + "9" * 300 + ")&1", "(" * 140 + "7" + ")" * 140 + "|1", "(" * 300 + "7" + ")" * 300, ""]


def point(u, s):
    return {u: seq([INT(ord(c)) for c in s if c != " "]), S_TEXT: seq([INT(ord(c)) for c in s])}


def short(s):
    return s if len(s) < 30 else f"{s[:10]}... ({len(s)} characters)"


def fails_at(pc, cond, u):
    """a text (and an iteration) at which an operation that must not fail does"""
    bad = AND(pc, NOT(cond))
    ks = [x for x in bad.free if x.op == "k"]
    if len(ks) > 1:
        return None

    def at_text(s):
        b, sums = subst_term(bad, point(u, s)), {}
        return any(written(subst(b, {k: INT(i) for k in ks}), sums) is TRUE for i in (sorted({0, 1, 2, 3, *(p + d for p in (128, 256) for d in (-2, -1, 0, 1)), len(s) - 1} & set(range(len(s)))) if ks else (0,)))
    return next((short(s) for s in TEXTS if instance.within(4.0, lambda: at_text(s))), None)


def equal(ctx, key, w, got, want, pc, u):
    v = Cmp((), seconds=3).cmp(got, want, pc)
    if v != EQ:
        for s in TEXTS:
            at_ = point(u, s)
            c = instance.within(6.0, lambda: differ(*(subst_term(x, at_) for x in (got, want, pc))))
            if c is not None:
                ctx.ob(key, NE, w, f"differs at the text {short(s)!r}: " + (c.why[-1] if c.why else "")[:200])
                return
        if v == NE:
            v = UNK
    ctx.ob(key, v, w, "" if v == EQ else "not equal in general, no difference at the texts tried", sample=f"{w}: {key}: {show(got)[:400]}")


def differ(got, want, pc):
    p = b_norm(written(pc))
    if p is FALSE or p is UNDEF:
        return None
    c = Cmp((), seconds=3)
    got, want = written(got), written(want)
    if contains((p, got, want), lambda x: x.op in ("replaced", "rx", "isum", "exists", "first", "flat", "rec", "unk")):
        return None
    return c if c.cmp(got, want, p) == NE else None


def folded(x):
    if x.op == "rx":
        m = re.search(x.args[0], "".join(chr(v.args[0]) for v in x.args[2].args), re.ASCII)
        return INT(m.span()[x.args[1]] if m else -1)
    t = "".join(chr(v.args[0]) for v in x.args[0].args)
    t = t.replace(x.args[1], x.args[2]) if x.args[1] is not None else {"trim": t.strip, "trim_start": t.lstrip, "trim_end": t.rstrip}[x.args[2]](" ")
    return seq([INT(ord(c)) for c in t])


def constant(x):
    return x.op == "seq" and all(is_int(v) for v in x.args)


def written(t, sums=None):
    """the term, at a constant text"""
    sums, memo = {} if sums is None else sums, {}

    def prefix(x):
        """a sum over the first n characters, from the sums over fewer"""
        key, n = (x.args[0], x.args[2]), x.args[1].args[0]
        p = sums.setdefault(key, [INT(0)])
        while len(p) <= n:
            v = go(subst(x.args[2], {mk("bv", x.args[0], "k"): INT(len(p) - 1)}))
            if not is_int(v):
                return None
            p.append(p_add(p[-1], v))
        return p[max(n, 0)]

    def value(x):
        if x.op in ("replaced", "rx") and constant(x.args[0 if x.op == "replaced" else 2]):
            return folded(x)
        if x.op == "isum" and is_int(x.args[1]):
            return prefix(x)
        if x.op in ("exists", "first") and is_int(x.args[1]):
            for i in range(max(x.args[1].args[0], 0)):
                c = b_norm(go(subst(x.args[2], {mk("bv", x.args[0], "k"): INT(i)})))
                if c not in (TRUE, FALSE):
                    return None
                if c is TRUE:
                    return TRUE if x.op == "exists" else INT(i)
            return FALSE if x.op == "exists" else x.args[1]
        if x.op == "rec" and is_int(x.args[1]):
            v = x.args[2]
            for i in range(max(x.args[1].args[0], 0)):
                v = go(subst(x.args[3], {mk("bv", x.args[0], "p"): v, mk("bv", x.args[0], "k"): INT(i)}))
            return v
        return None

    def go(t):
        for _ in range(20):
            m = {}
            for x in dict.fromkeys(subterms(t)):
                if x.op in ("replaced", "rx", "isum", "exists", "first", "rec") and not any(f.op == "bv" for f in x.free):
                    if x not in memo:
                        memo[x] = value(x)
                    if memo[x] is not None:
                        m[x] = memo[x]
            if not m:
                break
            t = replaced(t, m)
        return t
    return go(t)


def replaced(t, m):
    c = {x: v for x, v in m.items() if v in (TRUE, FALSE)}
    t = subst_term(t, {x: v for x, v in m.items() if x not in c})
    while True:
        # conditions are decided where they are asked, outermost first
        d = {}
        st, seen = [t], set()
        while st:
            x = st.pop()
            if type(x) in (tuple, frozenset):
                st.extend(x)
            elif type(x) is Term and x not in seen:
                seen.add(x)
                if x.op == "ite" and x.args[0] in c:
                    d[x] = x.args[1] if c[x.args[0]] is TRUE else x.args[2]
                else:
                    st.extend(x.args)
        if not d:
            return t
        t = subst_term(t, d)


def whole(x, k):
    """a position of a part of a text as a position of the text"""
    while x.op == "sl":
        x, k = x.args[0], p_add(k, x.args[1])
    return x, k


def one(x, c):
    """the body of an existence over the characters of the text, for one character"""
    h, n, b = x.args
    k = mk("k", ("one",))
    return unroll(subst_term(subst(b, {mk("bv", h, "k"): k}), {at(S_TEXT, k): c}))


def unroll(t):
    m = {}
    for x in subterms(t):
        if x.op == "exists" and x.args[1].op == "int":
            h, n, b = x.args
            m[x] = p_any([subst(b, {mk("bv", h, "k"): INT(i)}) for i in range(n.args[0])])
    if not m:
        return t

    def go(v):
        if v in (TRUE, FALSE):
            return v
        a = v.args[0]
        a = m[a] if a in m else lit(a)
        return OR(AND(a, go(v.args[1])), AND(NOT(a), go(v.args[2])))
    return go(t)

"""C07: no attribute on two rows of an access structure."""
from ..ctx import *
from . import scheme as S

RULE = ("every function that constructs a MonotoneSpanProgram is found in the crate's MIR; for each, the condition under which it returns one is "
        "shown to exclude equal attributes on different rows, and its attribute-to-row table to be the inverse of its row attributes "
        "(functions deriving a structure from another one copy both)")
ASSUME = ["attribute-to-row tables are built in row order"]


def makers(ctx):
    """instances whose own code constructs the structure"""
    adt = ctx.adt("MonotoneSpanProgram")["adt"]
    out = []
    for i in ctx.P.inst:
        if i is None:
            continue
        hit = False
        for b in i["blocks"]:
            for s in b["s"]:
                r = s.get("r") or s.get("rv") or {}
                if isinstance(r, dict) and r.get("k") == "agg" and r.get("a") == "adt" and ctx.P.types[r["ty"]].get("adt") == adt:
                    hit = True
        if hit:
            out.append(i)
    return out


def check(ctx):
    ctx.guard("functions making access structures", inner, ctx)


ENTRY = ((r"::Node::to_msp$", "from a formula"),
         (r"::MonotoneSpanProgram<.*> as .*AsBytes>::try_from_bytes$", "from bytes"),
         (r"::MonotoneSpanProgram<.*> as std::convert::From<&?.*MonotoneSpanProgram<i32>>>::from$", "into scalars"))


def inner(ctx):
    made = makers(ctx)
    seen = set()
    for rx, what in ENTRY:
        for f in ctx.find(rx):
            if f["path"].endswith("}"):
                continue
            seen |= set(ctx.P.reach(f)[0])
            obligations(ctx, f, what)
    ctx.fn(ENTRY[0][0])
    ctx.fn(ENTRY[1][0])
    for f in made:
        if f["id"] in seen:
            continue
        callers = [i for i in ctx.P.inst if i is not None and i is not f and f["id"] in ctx.P.refs(i)[0]]
        obligations(ctx, f, "other")


def plain(ctx, r):
    """the structure returned, and when"""
    t = ctx.P.types[r.inst["locals"][0]]
    if t["k"] == "adt" and t["adt"] == ctx.adt("MonotoneSpanProgram")["adt"]:
        return r.st.pc, r.ret
    if t["k"] == "adt" and t["adt"] == "std::result::Result":
        ok, v = ok_part(r)
        return AND(ok, r.st.pc), v
    return None


def source(ctx, r):
    """the argument that is an access structure itself"""
    adt = ctx.adt("MonotoneSpanProgram")["adt"]
    out = []
    for n, a in enumerate(r.args):
        t = ctx.P.types[r.inst["locals"][n + 1]]
        while t["k"] in ("ref", "ptr"):
            t = ctx.P.types[t["elem"]]
        if t["k"] == "adt" and t["adt"] == adt:
            out.append(r.E.load(r.st, a) if a.op == "ref" else a)
    return out[0] if len(out) == 1 else None


def obligations(ctx, f, what):
    r = ctx.run(f)
    w = f["path"]
    x = plain(ctx, r)
    if x is None:
        ctx.ob(f"{what}: the access structure made", UNK, w, "makes one without returning it")
        return
    ok, v = x
    g = lambda n: ctx.get(v, "MonotoneSpanProgram", n)
    r2a, a2r, m = g("row_to_attr"), g("attr_to_row"), g("matrix")
    s = source(ctx, r)
    if s is not None:
        h = lambda n: ctx.get(s, "MonotoneSpanProgram", n)
        for n in ("nb_row", "nb_col", "attr_to_row", "row_to_attr"):
            ctx.same(f"{what}: {n.replace('_', ' ')} is that of the structure it is made from", w, g(n), h(n), ok)
        n0 = length(h("matrix"))
        ctx.same(f"{what}: as many rows", w, length(m), n0, ok)
        k = mk("k", "c07")
        ctx.same(f"{what}: rows as long", w, length(at(m, k)), length(at(h("matrix"), k)), AND(ok, P_lt(k, n0)))
        return
    n = length(r2a)
    i, j = mk("k", "c07i"), mk("k", "c07j")
    key = f"{what}: no attribute on two rows"
    free = blind(ctx, r, r2a)
    if free:
        # rows computed without looking at the attributes: any attributes may be on them
        ok, r2a, a2r, m, v = (subst(x, free) for x in (ok, r2a, a2r, m, v))
        n = length(r2a)
        same = P_eq(at(r2a, i), at(r2a, j))
    same = P_eq(at(r2a, i), at(r2a, j))
    c = Cmp()
    if c.forbids(ok, same, [j, i], [n, j]) == EQ:
        ctx.ob(key, EQ, w, sample=f"{w}: {key}: refused when {show(same)[:300]}")
    else:
        ctx.implies(key, w, ok, NOT(exists(n, j, exists(j, i, same))))
    k = mk("k", "c07")
    hb = binder_h(at(r2a, k), k)
    b = mk("bv", hb, "k")
    inv = mk("mbuild", hb, n, MNIL, subst(at(r2a, k), {k: b}), b)
    ctx.same(f"{what}: the table from attributes to rows is the inverse of the attributes of the rows", w, a2r, inv, ok)
    ctx.same(f"{what}: one row per attribute", w, length(m), n, ok)
    ctx.same(f"{what}: the number of rows", w, g("nb_row"), n, ok)
    for c, row, pc in rows(m, ok):
        ctx.same(f"{what}: every row has the number of columns{c}", w, length(row), g("nb_col"), pc)


def blind(ctx, r, r2a):
    """the unknown states of loops that move the attributes of leaves without comparing them, as variables"""
    t = next((t for t in ctx.P.types if t["k"] == "adt" and t["adt"].split("::")[-1] == "Node" and t.get("local")), None)
    if t is None or len(t["variants"]) != 3:
        return {}
    leaf = next((i for i, v in enumerate(t["variants"]) if len(v["fields"]) == 1), None)
    phis = [x for x in r2a.free if x.op == "phi"]
    loops = [e for e in r.ev("loop") if any(x.args[0] == e["uid"] for x in phis)]
    if not phis or len(loops) != 1:
        return {}
    e = loops[0]
    attribute = lambda x: x.op == "fld" and x.args[1] == leaf and x.args[2] == 0
    for t in [e["pc"]] + e["exits"] + [v for s in e["state"] for v in s[2:]]:
        for x in subterms(t):
            if x.op == "ite" and contains(x.args[0], attribute) or x.op in ("mhas", "mget", "mins", "exists", "first") and contains(x, attribute):
                return {}
    K = {x for t in (r.ret, r.st.pc) for x in subterms(t) if x.op == "exitk" and x.args[0] == e["uid"]}
    ps = {x for t in (r.ret, r.st.pc) for x in subterms(t) if x.op == "phi" and x.args[0] == e["uid"]}
    return {x: var(f"state{n} after {show(mk('k', e['uid']))}") for n, x in enumerate(sorted(ps | K, key=lambda x: x.id))}


def rows(m, pc):
    """the elements of a sequence, by the parts it is made of"""
    parts = m.args if m.op == "cat" else (m,)
    out = []
    for n, p in enumerate(parts):
        if p.op == "seq":
            out += [("", x, pc) for x in p.args]
        elif p.op == "flat":
            h, cnt, body = p.args
            k = mk("k", ("c07row", n))
            out += rows(subst(body, {mk("bv", h, "k"): k}), AND(pc, P_lt(k, cnt)))
        elif p.op == "ite":
            c = mk("ite", p.args[0], TRUE, FALSE)
            out += rows(p.args[1], AND(pc, c)) + rows(p.args[2], AND(pc, NOT(c)))
        else:
            k = mk("k", ("c07row", n))
            out.append(("", at(p, k), AND(pc, P_lt(k, length(p)))))
    return out

"""C06: formulas of user keys.

A formula is read in the commutative semiring of alternatives (Or is +, And is *, a leaf is a
generator), so neither the order nor the nesting of the connectives matters; a repeated leaf does."""
from ..ctx import *
from ..models import OK

RULE = ("policy_to_formula is evaluated for each shape of an access policy (structural induction: the translations of the operands are "
        "opaque); Node constructors are read as a commutative semiring, and the resulting element and the condition under which it is "
        "returned are compared with the specification; policy_to_msp and the two key operations of Engine are checked to use it")
ASSUME = ["abe_policy's own containers (its BinaryHeap iterates over every value)"]

NODE, ACC = "Node", "abe_policy::AccessPolicy"


def leaf(v):
    return mk("call", "leaf", (v,))


def aggs(ctx):
    t = ctx.adt(NODE)
    names = [v["name"] for v in t["variants"]]
    if sorted(names) != ["And", "Leaf", "Or"]:
        raise Missing("Node::{And, Or, Leaf}")

    def f(i, ops):
        n = names[i]
        if n == "Leaf":
            return leaf(ops[0])
        g = p_mul if n == "And" else p_add
        return lift2(lambda a, b: g(a, b, "alg"), ops[0], ops[1])
    return {"agg:" + t["adt"]: f}


def shapes(ctx):
    t = [x for x in ctx.P.types if x["k"] == "adt" and x["adt"] == ACC][0]
    return [v["name"] for v in t["variants"]], t


def pfield(ctx, name):
    t = [x for x in ctx.P.types if x["k"] == "adt" and x["adt"] == "abe_policy::Policy"][0]
    return [f["name"] for f in t["variants"][0]["fields"]].index(name)


def attribute(x, n):
    return agg(("abe_policy::Attribute", 0), (x, n))


def alternatives(vals, tok):
    k = mk("k", ("alt", tok))
    return algsum(length(vals), k, leaf(at(vals, k)))


def check(ctx):
    ctx.guard("translation of one attribute", attr_shape, ctx)
    ctx.guard("translation of connectives", connectives, ctx)
    ctx.guard("granting everything", everything, ctx)
    ctx.guard("access structure of a formula", span, ctx)
    ctx.guard("keys are generated for the translated policy", engine, ctx)


def stop(rx, name):
    """the callee as an opaque, fallible function of the values of its arguments"""
    r = re.compile(rx)

    def h(E, st, a, info):
        vals = tuple(E.load(st, x) if x.op == "ref" else x for x in a)
        return mk("call", name, vals)
    return (lambda fn: bool(r.search(fn["path"]))), h


def result(name, *a):
    return mk("call", name, a)


F = stop(r"::policy_to_formula$", "formula")


def translator(ctx):
    """the translation of an access policy to a formula: private, so known by its signature"""
    xs = ctx.find(r"::policy_to_formula$")
    if not xs:
        ts = ctx.P.types
        xs = [f for f in ctx.P.inst if f is not None and f["argc"] == 2 and "{closure" not in f["path"] and f["path"].split("::")[-1] != "policy_to_msp"
              and ts[f["locals"][2]]["s"].endswith("AccessPolicy") and re.search(r"Policy$", ts[f["locals"][1]]["s"])
              and re.search(r"^std::result::Result<(\w+::)*Node,", ts[f["locals"][0]]["s"])]
        if len(xs) != 1:
            raise Missing("translation of an access policy to a formula")
    return xs[0]


def formula_stop(ctx):
    p = "::" + translator(ctx)["path"].split("::")[-1]
    return (lambda fn: fn["path"].endswith(p)), F[1]

M = stop(r"::Node::to_msp$", "to_msp")
POL = stop(r"::policy_to_msp$", "policy_to_msp")


def formula(ctx, axis, stops=()):
    f = translator(ctx)
    return f, ctx.run(f, {"axis": axis, 1: axis}, stops=stops, extra=aggs(ctx))


def attr_shape(ctx):
    names, _ = shapes(ctx)
    a = attribute(var("axis"), var("name"))
    f, r = formula(ctx, agg((ACC, names.index("Attr")), (a,)))
    w = f["path"]
    pol = r.args[0]
    axes, ints = fld(pol, 0, pfield(ctx, "axes")), fld(pol, 0, pfield(ctx, "attribute_to_int"))
    ax = mget(axes, var("axis"))
    lst, hier = fld(ax, 0, 0), fld(ax, 0, 1)
    hier = P_bool(hier)
    n = length(lst)
    k = mk("k", "c06")
    same_name = P_eq(var("name"), at(lst, k))
    h = binder_h(same_name, k)
    pos = mk("first", h, n, subst(same_name, {k: mk("bv", h, "k")}))
    vals = lambda nm: mget(ints, attribute(var("axis"), nm))
    has = lambda nm: AND(mhas(ints, attribute(var("axis"), nm)), P_lt(INT(0), length(vals(nm))))
    ok, v = ok_part(r)
    lower = at(lst, k)
    known = p_all([mhas(axes, var("axis")), exists(n, k, same_name), has(var("name"))])
    want = AND(known, OR(NOT(hier), NOT(exists(pos, k, NOT(has(lower))))))
    ctx.same("an attribute is accepted exactly when its axis, its name and the values it needs are known", w, ok, want)
    own = alternatives(vals(var("name")), "own")
    low = algsum(pos, k, alternatives(vals(lower), "low"))
    ctx.same("an attribute means all its values, and those of the lower ones in a hierarchical axis only", w, v,
             ITE(hier, p_add(own, low, "alg"), own), ok)


def P_bool(t):
    return b_norm(t)


def connectives(ctx):
    names, _ = shapes(ctx)
    for n in ("And", "Or"):
        f, r = formula(ctx, agg((ACC, names.index(n)), (var("left"), var("right"))), stops=[formula_stop(ctx)])
        w = f["path"]
        ok, v = ok_part(r)
        a, b = (result("formula", r.args[0], var(x)) for x in ("left", "right"))
        both = AND(tag(a, 0, 2), tag(b, 0, 2))
        ctx.same(f"{n}: accepted exactly when both operands are", w, ok, both)
        a, b = fld(a, 0, 0), fld(b, 0, 0)
        ctx.same(f"{n}: the operands joined by the same connective", w, v, (p_mul if n == "And" else p_add)(a, b, "alg"), both)
    f, r = formula(ctx, agg((ACC, names.index("All")), ()))
    ctx.same("granting everything is refused inside a formula", f["path"], ok_part(r)[0], FALSE)


def everything(ctx):
    names, t = shapes(ctx)
    f = ctx.fn(r"::policy_to_msp$")
    w = f["path"]
    for n, v in zip(names, t["variants"]):
        axis = agg((ACC, names.index(n)), tuple(var(f"operand{i}") for i in range(len(v["fields"]))))
        r = ctx.run(f, {1: axis, "axis": axis}, stops=[formula_stop(ctx), M], extra=aggs(ctx))
        if n == "All":
            ints = fld(r.args[0], 0, pfield(ctx, "attribute_to_int"))
            vs = mk("mvalues", ints)
            k = mk("k", "c06all")
            node = algsum(length(vs), k, alternatives(at(vs, k), "all"))
            some = P_lt(INT(0), isum(length(vs), k, length(at(vs, k))))
            got = [x for x in subterms(r.ret) if x.op == "call" and x.args[0] == "to_msp"]
            ok = AND(some, tag(result("to_msp", node), 0, 2))
            for g in got:
                ctx.same("granting everything means every value of every attribute", w, g.args[1][0], node, some)
            ctx.true("granting everything builds one access structure", w, len(got) == 1, f"{len(got)}", definite=False)
        else:
            fo = result("formula", r.args[0], axis)
            m = result("to_msp", fld(fo, 0, 0))
            both = AND(tag(fo, 0, 2), tag(m, 0, 2))
            ok, val = ok_part(r)
            ctx.same(f"{n}: an access structure is built exactly when the formula is accepted", w, ok, both)
            ctx.same(f"{n}: the access structure is that of the formula", w, val, fld(m, 0, 0), both)


def op_stop(name):
    return stop(r"AbeScheme>?::" + name + "$", name)


def engine(ctx):
    ops = [op_stop("key_generation"), op_stop("key_delegation"), POL]
    f = ctx.fn(r"::Engine::<S>::generate_user_key$")
    r = ctx.run(f, stops=ops)
    pol, acc, prv = (r.args[argn(ctx, f, rx)] for rx in (r"abe_policy::Policy$", r"AccessPolicy", r"MasterPrivateKey"))
    m = result("policy_to_msp", pol, acc)
    keys(ctx, "user key", f, r, m, lambda c: c.args[1][1] is fld(m, 0, 0) and c.args[1][2] is prv, "key_generation")
    # delegation: the restriction is the translated policy, none when everything is granted
    f = ctx.fn(r"::Engine::<S>::delegate_user_key$")
    names, t = shapes(ctx)
    for n, v in zip(names, t["variants"]):
        axis = agg((ACC, names.index(n)), tuple(var(f"operand{i}") for i in range(len(v["fields"]))))
        r = ctx.run(f, {argn(ctx, f, r"AccessPolicy"): axis}, stops=ops)
        pol, dk, uk = (r.args[argn(ctx, f, rx)] for rx in (r"abe_policy::Policy$", r"DelegationKey", r"GpswDecryptionKey|UserDecryptionKey"))
        m = result("policy_to_msp", pol, axis)

        def right(c):
            o, k, d = c.args[1][1:4]
            if k is not uk or d is not dk:
                return False
            if n == "All":
                return tag(o, 1, 2) is FALSE
            return restrict(tag(o, 1, 2), tag(m, 0, 2)) is TRUE and restrict(fld(o, 1, 0), tag(m, 0, 2)) is fld(m, 0, 0)
        keys(ctx, f"delegation ({n})", f, r, m if n != "All" else None, right, "key_delegation")


def keys(ctx, what, f, r, m, right, op):
    """the operation succeeds exactly when the translation and the scheme do, and returns the scheme's result"""
    w = f["path"]
    got = list(dict.fromkeys(x for x in subterms(r.ret) if x.op == "call" and x.args[0] == op))
    pc = tag(m, 0, 2) if m is not None else TRUE
    clean = not contains(r.ret, lambda x: x.op == "unk")
    ctx.true(f"{what}: made for the translation of the policy given, with the keys given", w, len(got) == 1 and bool(right(got[0])),
             "; ".join(show(g)[:300] for g in got), definite=clean)
    if len(got) == 1:
        ok, v = ok_part(r)
        both = AND(pc, tag(got[0], 0, 2))
        ctx.same(f"{what}: succeeds exactly when the policy is accepted and the scheme accepts it", w, ok, both)
        ctx.same(f"{what}: the key made by the scheme", w, v, fld(got[0], 0, 0), both)


def span(ctx):
    """the loop of to_msp, one step at a time: its state is a list of pending (node, vector) pairs, the number of
    columns so far, and the rows already made; a step takes one pair and must keep the invariant of the construction"""
    f = ctx.fn(r"::Node::to_msp$")
    w = f["path"]
    nt = ctx.adt(NODE)
    names = [v["name"] for v in nt["variants"]]
    r = ctx.run(f)
    me = r.args[0]
    loops = []
    for e in r.ev("loop"):
        st = {}
        for loc, i, h, l in e["state"]:
            if h.op != "phi":
                continue
            if i.op == "seq" and len(i.args) == 1 and contains(i, lambda x: x is me):
                st["queue"] = (i, h, l)
            elif i is NIL:
                st["rows"] = (i, h, l)
            elif is_int(i):
                st["cols"] = (i, h, l)
        if set(st) == {"queue", "rows", "cols"}:
            loops.append((e, st))
    if len(loops) != 1:
        ctx.ob("one step of the construction", UNK, w, f"{len(loops)} loops over pending nodes, columns and rows")
        return
    e, st = loops[0]
    C, rest, rows, vec = var("cols"), var("rest"), var("rows"), var("vector")
    T.RANGE[C] = (1, 2 ** 62)
    q0 = st["queue"][0].args[0]
    if not (q0.op == "agg" and len(q0.args[1]) == 2 and me in q0.args[1]):
        ctx.ob("one step of the construction", UNK, w, "pending nodes are not (node, vector) pairs")
        return
    ni = q0.args[1].index(me)
    ctx.same("construction starts with one column", w, st["cols"][0], INT(1))
    ctx.same("the root has the vector 1", w, q0.args[1][1 - ni], seq([INT(1)]))
    pair = lambda n, v: agg(q0.args[0], (n, v) if ni == 0 else (v, n))
    fits = AND(P_le(length(vec), C), P_le(INT(1), length(vec)))
    k = mk("k", "c06m")

    def step(node, what):
        """the state after the step that takes (node, vector), whichever end it is taken from"""
        head = pair(node, vec)
        for q in (cat([seq([head]), rest]), cat([rest, seq([head])])):
            m = {st["queue"][1]: q, st["cols"][1]: C, st["rows"][1]: rows}
            pc = b_norm(subst(e["pc"], m))
            pc = pc if pc in (TRUE, FALSE) else restrict(pc, fits)
            if pc is FALSE:
                continue
            vals = {n: restrict(subst(st[n][2], m), AND(pc, fits)) for n in st}
            new, old = pieces(vals["queue"])
            if rest in old and not contains(cat(new), lambda x: x is rest):
                return vals, [y for x in new for y in x.args], pc
        return None

    def pieces(s):
        ps = list(s.args) if s.op == "cat" else [s]
        return [x for x in ps if x.op == "seq"], [x for x in ps if x.op != "seq"]

    padded = lambda v: ITE(P_lt(k, length(v)), at(v, k), INT(0))
    l, rr, a = var("left"), var("right"), var("value")
    for n in ("And", "Or"):
        x = step(agg((nt["adt"], names.index(n)), (l, rr)), n)
        if x is None:
            ctx.ob(f"{n}: both operands become pending", UNK, w, "the step is not understood")
            continue
        vals, new, pc = x
        pc = AND(pc, fits)
        ok = all(y.op == "agg" and len(y.args[1]) == 2 for y in new)
        nodes = [y.args[1][ni] for y in new] if ok else []
        clean = ok and all(y in (l, rr) for y in nodes)
        ctx.true(f"{n}: both operands become pending, each once", w, clean and sorted(map(id, nodes)) == sorted(map(id, (l, rr))),
                 "; ".join(show(y)[:200] for y in new), definite=clean)
        if not (clean and len(nodes) == 2):
            continue
        v1, v2 = (y.args[1][1 - ni] for y in new)
        ctx.same(f"{n}: no row is made yet", w, vals["rows"], rows, pc)
        if n == "Or":
            ctx.same("Or: no column is added", w, vals["cols"], C, pc)
            for v in (v1, v2):
                ctx.implies("Or: the vectors of the operands have no more columns", w, pc, P_le(length(v), C))
                ctx.same("Or: both operands get the vector of the node", w, padded(v), padded(vec), AND(pc, P_lt(k, C)))
        else:
            ctx.same("And: one column is added", w, vals["cols"], p_add(C, INT(1)), pc)
            for v in (v1, v2):
                ctx.implies("And: the vectors of the operands have no more columns than there are", w, pc, P_le(length(v), p_add(C, INT(1))))
            tot = lambda: p_add(padded(v1), padded(v2))
            ctx.same("And: the vectors of the operands add up to the vector of the node", w, lift2(p_add, padded(v1), padded(v2)), padded(vec), AND(pc, P_lt(k, C)))
            last = [at(v, C) for v in (v1, v2)]
            last = [restrict(ITE(P_lt(C, length(v)), x, INT(0)), pc) for x, v in zip(last, (v1, v2))]
            ctx.same("And: the new column cancels between the operands", w, lift2(p_add, *last), INT(0), pc)
            good = OR(P_eq_int(last[0], INT(1)), P_eq_int(last[0], INT(-1)))
            ctx.same("And: the new column ties the operands together", w, good if good in (TRUE, FALSE) else restrict(good, pc), TRUE, pc)
    lf = agg((nt["adt"], names.index("Leaf")), (a,))
    x = step(lf, "Leaf")
    if x is None:
        # nothing becomes pending: the queue after the step is what remained
        vals = None
        for q in (cat([seq([pair(lf, vec)]), rest]), cat([rest, seq([pair(lf, vec)])])):
            m = {st["queue"][1]: q, st["cols"][1]: C, st["rows"][1]: rows}
            pc = subst(e["pc"], m)
            vals = {n: restrict(subst(st[n][2], m), AND(pc, fits)) for n in st}
            if vals["queue"] is rest:
                break
        if vals is None or vals["queue"] is not rest:
            ctx.ob("Leaf: nothing becomes pending", UNK, w, show(vals["queue"])[:300] if vals else "")
            return
    else:
        vals, new, pc = x
        ctx.true("Leaf: nothing becomes pending", w, not new, definite=True)
    pc = AND(pc, fits)
    ctx.same("Leaf: no column is added", w, vals["cols"], C, pc)
    new, old = pieces(vals["rows"])
    new = [y for x in new for y in x.args]
    ctx.true("Leaf: exactly one row is made", w, len(new) == 1 and old == [rows], show(vals["rows"])[:300],
             definite=not contains(vals["rows"], lambda x: x.op in ("unk", "phi")))
    if len(new) != 1:
        return
    # the access structure: rows over the basis in which the target vector is (1, .., 1)
    ok, v = ok_part(r)
    m = {st["rows"][1]: rows, st["cols"][1]: C}
    ctx.implies("the construction ends when nothing is pending", w, subst(ok, {st["queue"][1]: rest}), P_le(length(rest), INT(0)))
    v = subst(v, m)
    g = lambda n: ctx.get(v, "MonotoneSpanProgram", n)
    i = mk("k", "c06row")
    ent = {at(rows, i): new[0]}
    ctx.same("as many rows as leaves", w, g("nb_row"), length(rows))
    ctx.same("as many columns as were made", w, g("nb_col"), C)
    ctx.same("row attributes: one per leaf", w, length(g("row_to_attr")), length(rows))
    ctx.same("row attributes: the value of the leaf", w, subst_term(at(g("row_to_attr"), i), ent), a, AND(fits, P_lt(i, length(rows))))
    row = subst_term(at(g("matrix"), i), ent)
    pv = lambda j: ITE(P_lt(j, length(vec)), at(vec, j), INT(0))
    spec = flat(C, k, seq([lift2(p_add, pv(k), ITE(P_lt(INT(0), k), pv(INT(0)), INT(0)))]))
    ctx.same("rows: the vector of the leaf in the basis of the all-ones target", w, row, spec, AND(fits, P_lt(i, length(rows))))

"""C29 - no interface call deadlocks on, or poisons, the shared cache tables."""
from ..ctx import *
from ..safety import prove, definite
from .. import guards as G
from . import scheme as S
from . import hybrid as H
from . import ffi as F

RULE = ("Forward dataflow over the MIR of every body of the crate computes the lock guards alive at each call (created by a call result or a move, ended by a "
        "drop, a move out or the end of storage; guards inside Result, Option, tuples, closures and structures of the crate included). At a call with a live "
        "guard nothing reachable from the callee (closures included) may request a lock; with a live write guard every panicking operation executed on the "
        "way, in the function or in what it calls, is an obligation proved from the path condition, and nothing reachable from the callee contains an "
        "explicit panic. No guard is leaked.")
TECHNIQUE = 'static analysis: lock-guard dataflow over the MIR with call-graph reachability; panic obligations under a write lock by abstract interpretation'
LEVEL = 'sound may-analysis of guard liveness; relative to the assumptions listed'
ASSUME = ["operations of the standard library's maps, of atomics and of the allocator do not panic and request no lock of this crate",
          "functions of other crates request no lock of this crate"]
LEAK = r"(mem::forget|ManuallyDrop::<.*>::new|Box::<.*>::leak|Box::<.*>::into_raw|Rc::<.*>::new|Arc::<.*>::into_raw)$"
PANIC = r"(panicking::(panic|panic_fmt|panic_display|panic_explicit|panic_str\w*|begin_panic|assert_failed\w*|unreachable_display)|rt::begin_panic|rt::panic_fmt)(::<.*>)?$"


def check(ctx):
    S.init(ctx)
    P = ctx.P
    tables = requests = 0
    for i in P.inst:
        if i is None or i["crate"] != P.crate:
            continue
        tables += sum(1 for p in P.refs(i)[1] if re.search(r"(RwLock|Mutex)(::<.*?>)?::new$", p))
        requests += sum(1 for p in P.refs(i)[1] if G.ASK.search(p) or G.TRY.search(p))
        own, at = G.live(P, i)
        if own and any(at.values()):
            ctx.guard(i["path"], body, ctx, i, own, at)
    ctx.true("lock requests of the crate were found", "src/interfaces", requests > 0 or tables == 0, f"{requests} requests, {tables} locks", definite=False)
    ctx.notes.append(f"{tables} locks, {requests} request sites")


def requested(P, fn):
    """locks requested by what a call reaches"""
    out = set()
    todo = []
    if fn.get("id") is not None:
        todo.append(fn["id"])
    elif G.ASK.search(fn["path"]) or G.TRY.search(fn["path"]):
        out.add(fn["path"])
    todo += closures(P, fn)
    for k in todo:
        if P.inst[k] is None:
            continue
        ids, ext = P.reach(P.inst[k])
        out |= {p for p in ext if G.ASK.search(p) or G.TRY.search(p)}
    return out


def closures(P, fn):
    out = []
    for a in fn.get("args", []):
        if type(a) is int:
            t = P.types[a]
            if t["k"] == "closure" and t.get("body") is not None:
                out.append(t["body"])
            elif t["k"] == "fndef" and t.get("fn") and t["fn"].get("id") is not None:
                out.append(t["fn"]["id"])
    return out


def panics(P, fn):
    """bodies of the crate reachable from a call that panic explicitly"""
    out = set()
    todo = ([fn["id"]] if fn.get("id") is not None else []) + closures(P, fn)
    for k in todo:
        if P.inst[k] is None:
            continue
        for j in P.reach(P.inst[k])[0]:
            g = P.inst[j]
            if g and g["crate"] == P.crate and explicit(P, g):
                out.add(g["path"])
    return out


def explicit(P, g):
    if "_explicit" not in g:
        g["_explicit"] = any(b and b["t"] and b["t"]["k"] == "call" and not b.get("cleanup") and
                             (lambda f: f and re.search(PANIC, f["path"]))(G.callee(P, b["t"])) for b in g["blocks"])
    return g["_explicit"]


def body(ctx, i, own, at):
    P = ctx.P
    w = i["path"]
    writing = set()
    for b, gs in at.items():
        t = i["blocks"][b]["t"]
        if not gs:
            continue
        passed = {m[0] for m in map(G.moved, t["args"]) if m} if t["k"] == "call" else set()
        if "w" in {own[g] for g in gs - passed}:
            writing.add((i["id"], b))
        if t["k"] != "call":
            continue
        fn = G.callee(P, t)
        if fn is None:
            ctx.true("a call through a pointer under a lock is understood", w, False, str(t.get("sp")), definite=False)
            continue
        held = gs - passed
        if gs & passed and re.search(LEAK, fn["path"]):
            ctx.true("no guard is leaked", w, False, f"{fn['path']} at {t.get('sp')}")
        if fn.get("id") is None and not re.match(r"<?&?(mut )?(std|core|alloc)::", fn["path"]) and "lazy_static" not in fn["path"]:
            ctx.notes.append(f"{w}: call of {fn['path'][:120]} under a lock")
        if held or (gs and fn.get("id") is not None):
            r = requested(P, fn)
            ctx.true("no lock is requested while a lock is held", w, not r, f"{fn['name'][:120]} at {t.get('sp')} requests {', '.join(sorted(r))[:200]}")
        if "w" in {own[g] for g in held}:
            p = panics(P, fn)
            ctx.true("nothing that panics runs under a write lock", w, not p, f"{fn['name'][:120]} at {t.get('sp')} reaches the panic of {', '.join(sorted(p))[:200]}")
    if writing:
        r = ctx.run(i, {}, stops=H.STOPS)
        n = 0
        for e in r.ev("oblig"):
            if "deref" in e["what"] or not any(fb in writing for fb in e["chain"]):
                continue
            if re.search("poison", show(e["cond"])):
                continue
            n += 1
            key = f"under a write lock: {e['what']} cannot fail"
            if e["proved"]:
                ctx.ob(key, EQ, w)
                continue
            v, rest = prove(e["pc"], e["cond"])
            why = ""
            if v != EQ:
                v, why = definite(ctx, e["pc"], e["cond"], rest, ())
            ctx.ob(key, v, w, f"{show(e['cond'])[:200]} is not ensured; {why}")
        ctx.true("operations under a write lock were followed", w, True, f"{n} checked operations")

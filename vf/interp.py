"""Forward value-flow analysis over typed, monomorphic MIR.

State = (condition under which the program point is reached, store place -> value term).
States are joined at every control-flow merge; loops are summarised by closed forms of the
values they carry (no unrolling, no path enumeration); calls to functions of the crate are
analysed in their calling context, other calls through models (models.py) or as opaque
operations of their arguments."""
import hashlib
import heapq
import json

from .terms import *
from . import linear
from . import terms as T

TRANSPARENT = {
    "std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull", "std::mem::MaybeUninit",
    "std::mem::ManuallyDrop", "core::ptr::Unique", "std::mem::MaybeDangling",
}


class St:
    __slots__ = ("pc", "s")

    def __init__(self, pc, s):
        self.pc = pc
        self.s = s

    def copy(self):
        return St(self.pc, dict(self.s))


class Frame:
    __slots__ = ("inst", "fid", "chain", "cfg")

    def __init__(self, inst, fid, chain, cfg):
        self.inst = inst
        self.fid = fid
        self.chain = chain
        self.cfg = cfg


class Cfg:
    def __init__(self, inst):
        bl = inst["blocks"]
        n = len(bl)
        self.succ = [succs(b["t"]) for b in bl]
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                preds[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                p = [x for x in preds[b] if x in idom]
                if not p:
                    continue
                d = p[0]
                for q in p[1:]:
                    d = self._meet(idom, d, q)
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if self.dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(preds[x])
        self.all = frozenset(order)

    def _meet(self, idom, a, b):
        while a != b:
            while self.rpo[a] > self.rpo[b]:
                a = idom[a]
            while self.rpo[b] > self.rpo[a]:
                b = idom[b]
        return a

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def child(self, b, region, header):
        """innermost-enclosing child loop of the region headed by b"""
        if b != header and b in self.loops and self.loops[b] <= region:
            return self.loops[b]
        return None


def succs(t):
    k = t["k"]
    if k in ("goto", "drop", "assert", "call"):
        return [] if t.get("t") is None else [t["t"]]
    if k == "switch":
        return [x[1] for x in t["br"]] + ([t["else"]] if t["else"] is not None else [])
    return []


class Stop(Exception):
    pass


def nonneg_in(us, p):
    return nonneg(p) or linear.entails_le(us, p_scale(p, -1))


class Exec:
    def __init__(self, P, models, stops=()):
        self.P = P
        self.types = P.types
        self.models = models
        self.stops = stops
        self.rec = True
        self.events = []
        self.nfid = 0
        self.stack = []
        T.STRUCTS.update(t["adt"] for t in P.types if t["k"] == "adt" and t["kind"] == "Struct")
        self.cfgs = P.__dict__.setdefault("_cfgs", {})
        self.unknown = {}
        self.steps = 0
        self.kstack = []
        self.steps_seen = []
        self.stats = {"functions": {}, "calls": 0, "loops": 0, "blocks": 0, "opaque": {}}

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.types[i]

    def is_transparent(self, t):
        return t["k"] == "adt" and t["adt"] in TRANSPARENT

    def int_range(self, t):
        k = t["k"]
        if k == "int":
            b = t["bits"]
            return (-(2 ** (b - 1)), 2 ** (b - 1) - 1) if t["signed"] else (0, 2 ** b - 1)
        if k == "char":
            return (0, 0x10FFFF)
        return None

    def note(self, v, ti):
        """record what the type says about an opaque value"""
        t = self.types[ti]
        k = t["k"]
        while k == "ref" or (k == "adt" and t["adt"] == "std::boxed::Box"):
            t = self.types[t["elem"] if k == "ref" else t["args"][0]]
            k = t["k"]
        if k == "int" or k == "char":
            for x in leaves(v):
                if x not in RANGE and x.op not in ("int", "poly", "k", "bv", "len", "undef", "max0", "ref"):
                    RANGE[x] = self.int_range(t)
        elif k == "array" and t.get("len") is not None:
            for x in leaves(v):
                if x.op not in ("seq", "cat", "flat", "sl", "bytes", "enc", "ref", "undef", "store") and x not in FIXED_LEN and x not in FREE_LEN:
                    FIXED_LEN[x] = INT(t["len"])
        elif k == "adt" and t["adt"] in LEN_ADT:
            n = LEN_ADT[t["adt"]](self, t)
            if n is not None:
                for x in leaves(v):
                    if x not in FIXED_LEN and x not in FREE_LEN:
                        FIXED_LEN[x] = INT(n)
        return v

    def place_ty(self, fr, p):
        t = fr.inst["locals"][p[0]]
        for e in p[1:]:
            t = self.step_ty(t, e)
        return t

    def step_ty(self, t, e):
        tt = self.types[t]
        if e == "*":
            if tt["k"] in ("ref", "ptr"):
                return tt["elem"]
            return tt["args"][0]
        if "f" in e:
            return e["ty"]
        if "v" in e:
            return t
        if "ix" in e or "ci" in e:
            return tt["elem"]
        return t

    # ------------------------------------------------------------ store
    def default(self, loc):
        """value of a place not written yet"""
        if loc[0] == "H":
            return loc[1]
        if loc[0] == "P":
            return mk("load", loc[1])
        if loc[0] == "G":
            return mk("shared", loc[1])
        return UNDEF

    def get(self, st, loc):
        v = st.s.get(loc)
        if v is None:
            v = self.default(loc)
        return v

    def path_get(self, v, path):
        for e in path:
            if e[0] == "f":
                v = fld(v, e[1], e[2])
            elif e[0] == "ix":
                v = at(v, e[1])
            elif e[0] == "sl":
                v = sl(v, e[1], e[2])
            elif e[0] == "mk":
                v = mget(v, e[1])
        return v

    def path_set(self, v, path, x):
        if not path:
            return x
        if v.op == "ite":
            return lift(lambda y: self.path_set(y, path, x), v)
        e, rest = path[0], path[1:]
        if e[0] == "f":
            return self.set_fld(v, e[1] or 0, e[2], self.path_set(fld(v, e[1], e[2]), rest, x))
        if e[0] == "ix":
            return store(v, e[1], self.path_set(at(v, e[1]), rest, x))
        if e[0] == "mk":
            return mins(v, e[1], self.path_set(mget(v, e[1]), rest, x))
        a, b = e[1], e[2]
        new = self.path_set(sl(v, a, b), rest, x)
        return cat([sl(v, INT(0), a), new, sl(v, b, length(v))])

    def set_fld(self, v, variant, i, x):
        if v.op == "agg":
            tg, fs = v.args
            if tg[1] == variant and i < len(fs):
                l = list(fs)
                l[i] = x
                return mk("agg", tg, tuple(l))
        if v.op == "with" and v.args[1] == variant and v.args[2] == i:
            v = v.args[0]
        return mk("with", v, variant, i, x)

    def ref_target(self, r):
        """(loc, path) of a reference/pointer term"""
        if r.op == "ref":
            return r.args
        return (("H", r), ())

    def load(self, st, r, raw=False):
        """value behind a &mut reference or raw pointer"""
        if r.op == "ite":
            return lift(lambda x: self.load(st, x, raw), r)
        if r is UNDEF:
            return r
        if r.op == "vptr":
            return r.args[0]
        if r.op != "ref":
            loc = ("P" if raw else "H", r)
            return self.rs(st, self.get(st, loc))
        loc, path = r.args
        return self.rs(st, self.path_get(self.get(st, loc), path))

    def rs(self, st, v):
        if v.op == "ite":
            return restrict(v, st.pc)
        return v

    def put(self, st, r, x, raw=False):
        if r.op == "ite":
            r = restrict(r, st.pc)
        if r.op == "ite":
            ls = leaves(r)
            for l in ls:
                c = lift(lambda y: TRUE if y is l else FALSE, r)
                old = self.load(st, l, raw)
                self.put(st, l, ITE(c, x, old), raw)
            return
        if r is UNDEF or r.op == "vptr":
            return
        if r.op == "ref":
            loc, path = r.args
        else:
            loc, path = ("P" if raw else "H", r), ()
        if loc[0] != "L":
            self.event(st, "write", target=loc, path=path, value=x)
        st.s[loc] = self.path_set(self.get(st, loc), path, x)

    # ------------------------------------------------------------ places
    def lval(self, st, fr, p):
        """(root-term, path) where root is ("loc", loc) or ("val", term): resolves a place"""
        loc = ("L", fr.fid, p[0])
        path = ()
        val = None  # not None: rvalue mode
        t = fr.inst["locals"][p[0]]
        var = None
        for e in p[1:]:
            tt = self.types[t]
            if e == "*":
                cur = self.path_get(self.get(st, loc), path) if val is None else val
                cur = self.rs(st, cur)
                if tt["k"] == "ref" and not tt["mut"]:
                    if val is None and cur.op == "ref":
                        loc, path = cur.args
                    else:
                        val = cur
                elif tt["k"] in ("ref", "ptr"):
                    raw = tt["k"] == "ptr"
                    if cur.op == "ref":
                        loc, path = cur.args
                        val = None
                    elif cur.op in ("ite", "vptr") or cur is UNDEF:
                        val = self.load(st, cur, raw)
                        loc = ("X", cur, raw)
                        path = ()
                    else:
                        loc, path = ("P" if raw else "H", cur), ()
                        val = None
                        if raw:
                            self.event(st, "deref", ptr=cur, fr=fr)
                # else Box: transparent
                var = None
            elif "v" in e:
                var = e["v"]
            elif "f" in e:
                if not self.is_transparent(tt):
                    pe = ("f", var or 0, e["f"])
                    if val is None:
                        path = path + (pe,)
                    else:
                        val = self.rs(st, fld(val, var, e["f"]))
                        loc = loc + (pe,) if loc and loc[0] == "X" else None
                var = None
            elif "ix" in e:
                i = self.rs(st, self.get(st, ("L", fr.fid, e["ix"])))
                if val is None:
                    path = path + (("ix", i),)
                else:
                    val = at(val, i)
            elif "ci" in e:
                base = self.path_get(self.get(st, loc), path) if val is None else val
                i = INT(e["ci"]) if not e.get("end") else p_sub(length(base), INT(e["ci"]))
                if val is None:
                    path = path + (("ix", i),)
                else:
                    val = at(val, i)
            elif "sub" in e:
                base = self.path_get(self.get(st, loc), path) if val is None else val
                a, b = e["sub"][0], e["sub"][1]
                fe = e["sub"][2] if len(e["sub"]) > 2 else e.get("end")
                bb = p_sub(length(base), INT(b)) if fe else INT(b)
                if val is None:
                    path = path + (("sl", INT(a), bb),)
                else:
                    val = sl(val, INT(a), bb)
            t = self.step_ty(t, e)
        return loc, path, val, t

    def read(self, st, fr, p):
        loc, path, val, t = self.lval(st, fr, p)
        if val is None:
            val = self.path_get(self.get(st, loc), path)
        val = self.rs(st, val)
        self.note(val, t)
        return val

    def write(self, st, fr, p, x):
        if len(p) == 1:
            st.s[("L", fr.fid, p[0])] = x
            return
        loc, path, val, t = self.lval(st, fr, p)
        if val is not None:
            if loc is not None and loc[0] == "X":
                # gated pointer: write through each
                r, raw = loc[1], loc[2]
                extra = loc[3:]
                for l in leaves(r):
                    if l is UNDEF:
                        continue
                    c = lift(lambda y: TRUE if y is l else FALSE, r)
                    old = self.load(st, l, raw)
                    self.put(st, l, ITE(c, self.path_set(old, extra, x), old), raw)
                return
            self.unk("write through shared reference", fr)
            return
        if loc[0] != "L":
            self.event(st, "write", target=loc, path=path, value=x)
        st.s[loc] = self.path_set(self.get(st, loc), path, x)

    def unk(self, what, fr=None):
        self.unknown[what] = self.unknown.get(what, 0) + 1

    # ------------------------------------------------------------ events
    def event(self, st, kind, **kw):
        if not self.rec:
            return
        kw["kind"] = kind
        kw["pc"] = st.pc
        kw["site"] = self.site()
        self.events.append(kw)

    def site(self):
        if self.stack:
            fr, bb = self.stack[-1]
            return (fr.inst["name"], bb)
        return ("?", 0)

    def chain(self):
        return tuple((f.inst["id"], b) for f, b in self.stack)

    # ------------------------------------------------------------ conditions
    def simp(self, st, c):
        """condition simplified by what is known here"""
        c = b_norm(c)
        if c is TRUE or c is FALSE or c is UNDEF:
            return c
        c = restrict(c, st.pc)
        if c is TRUE or c is FALSE or c is UNDEF:
            return c
        us = units(st.pc)
        memo = {}

        def go(x):
            if x.op != "ite":
                return x
            r = memo.get(x)
            if r is None:
                a = x.args[0]
                if a.op in ("le0", "eq0"):
                    if linear.entails(us, a, True):
                        r = go(x.args[1])
                    elif linear.entails(us, a, False):
                        r = go(x.args[2])
                if r is None:
                    r = mkite(a, go(x.args[1]), go(x.args[2]))
                memo[x] = r
            return r

        return go(c)

    def assume(self, st, c):
        """st with the condition added; None when impossible"""
        c = self.simp(st, c)
        if c is FALSE or c is UNDEF:
            return None
        if c is not TRUE:
            st.pc = AND(st.pc, c)
            if st.pc is FALSE:
                return None
        return st

    def require(self, st, c, what, **kw):
        """the operation panics unless c: records the obligation, then assumes it"""
        s = self.simp(st, c)
        if s is UNDEF:
            s = FALSE
        proved = s is TRUE
        if not proved and s is not FALSE:
            pr = linear.decide(units(st.pc), s)
            if pr:
                proved = True
                s = TRUE
        self.event(st, "oblig", what=what, cond=s, proved=proved, chain=self.chain(), **kw)
        if s is TRUE:
            return True
        if s is FALSE:
            return False
        st.pc = AND(st.pc, s)
        return st.pc is not FALSE

    # ------------------------------------------------------------ joins
    def join(self, states):
        states = [s for s in states if s is not None and s.pc is not FALSE]
        if not states:
            return None
        a = states[0]
        for b in states[1:]:
            a = self.join2(a, b)
        return a

    def join2(self, a, b):
        pc = OR(a.pc, b.pc)
        c = restrict(a.pc, pc)
        if c is TRUE:
            # not disjoint / same condition: keep the weaker gating on b
            c2 = restrict(b.pc, pc)
            c = NOT(c2) if c2 is not TRUE else TRUE
        s = {}
        sa, sb = a.s, b.s
        for loc, v in sa.items():
            w = sb.get(loc)
            if w is None:
                w = self.default(loc)
            s[loc] = v if v is w else self.jv(c, v, w)
        for loc, w in sb.items():
            if loc not in sa:
                v = self.default(loc)
                s[loc] = w if v is UNDEF else self.jv(c, v, w)
        return St(pc, s)

    def jv(self, c, v, w):
        """gate two values; aggregates of one shape are gated field by field"""
        if v is w:
            return v
        if v.op == "agg" and w.op == "agg" and v.args[0] == w.args[0] and len(v.args[1]) == len(w.args[1]):
            return mk("agg", v.args[0], tuple(self.jv(c, x, y) for x, y in zip(v.args[1], w.args[1])))
        return ITE(c, v, w)

    # ------------------------------------------------------------ regions
    def cfg(self, inst):
        c = self.cfgs.get(inst["id"])
        if c is None:
            c = self.cfgs[inst["id"]] = Cfg(inst)
        return c

    def region(self, fr, entry, blocks, st, header):
        """evaluate blocks from entry; returns (latch state, [(target, state)])"""
        cfg = fr.cfg
        pend = {entry: [st]}
        heap = [(cfg.rpo[entry], entry)]
        latch, exits = [], []
        while heap:
            _, b = heapq.heappop(heap)
            if b not in pend:
                continue
            s = self.join(pend.pop(b))
            if s is None:
                continue
            lp = cfg.child(b, blocks, header)
            if lp is not None:
                outs = self.mir_loop(fr, b, lp, s)
            else:
                outs = self.block(fr, b, s)
            for t, x in outs:
                if x is None or x.pc is FALSE:
                    continue
                if t == header and header is not None:
                    latch.append(x)
                elif t == "ret" or t not in blocks:
                    exits.append((t, x))
                else:
                    if t not in pend:
                        pend[t] = []
                        heapq.heappush(heap, (cfg.rpo[t], t))
                    pend[t].append(x)
        return self.join(latch), exits

    def block(self, fr, b, st):
        self.steps += 1
        bl = fr.inst["blocks"][b]
        self.stack.append((fr, b))
        try:
            for s in bl["s"]:
                k = s["k"]
                if k == "=":
                    v = self.rvalue(st, fr, s["r"])
                    self.write(st, fr, s["p"], v)
                elif k == "dead":
                    st.s.pop(("L", fr.fid, s.get("l", s.get("p", [None])[0] if isinstance(s.get("p"), list) else s.get("p"))), None)
                elif k == "setdiscr":
                    self.unk("set discriminant", fr)
            return self.term(fr, b, bl["t"], st)
        finally:
            self.stack.pop()

    def term(self, fr, b, t, st):
        k = t["k"]
        if k == "goto":
            return [(t["t"], st)]
        if k == "return":
            return [("ret", st)]
        if k == "drop":
            self.event(st, "drop", ty=t["ty"], value=None, fr=fr, place=t["p"])
            return [(t["t"], st)]
        if k == "switch":
            d = self.operand(st, fr, t["d"])
            outs = []
            rest = TRUE
            tot = [x for x in t["br"]]
            for val, tgt in tot:
                c = self.switch_cond(d, val)
                s2 = st.copy()
                s2 = self.assume(s2, AND(rest, c))
                rest = AND(rest, NOT(c))
                if s2 is not None:
                    outs.append((tgt, s2))
            if t["else"] is not None:
                s2 = self.assume(st.copy(), rest)
                if s2 is not None:
                    outs.append((t["else"], s2))
            return outs
        if k == "assert":
            c = b_norm(self.operand(st, fr, t["c"]))
            if not t["exp"]:
                c = NOT(c)
            if not self.require(st, c, "assert " + str(t["m"]).split(" ")[0], fr=fr):
                return []
            return [(t["t"], st)]
        if k == "call":
            return self.call(fr, b, t, st)
        return []

    def switch_cond(self, d, val):
        if d.op == "ite":
            return lift(lambda x: self.switch_cond(x, val), d)
        if d is UNDEF:
            return UNDEF
        if d.op == "discr":
            v, tyid = d.args
            t = self.types[tyid]
            for n, x in enumerate(t["variants"]):
                if x["discr"] == val:
                    return self.variant_cond(v, n, len(t["variants"]))
            return FALSE
        if d is TRUE or d is FALSE:
            return TRUE if (d is TRUE) == bool(val) else FALSE
        if d.op == "bool":
            return FALSE
        if intlike(d) or d.op in ("char",):
            return P_eq_int(d, INT(val))
        # boolean atoms
        if d in RANGE:
            return P_eq_int(d, INT(val))
        c = b_norm(d)
        return c if val else NOT(c)

    def variant_cond(self, v, n, tot):
        if v.op == "ite":
            return lift(lambda x: self.variant_cond(x, n, tot), v)
        if v.op == "agg" or v is UNDEF or tot <= 2:
            return tag(v, n, tot)
        c = TRUE
        for i in range(tot):
            if i != n:
                c = AND(c, NOT(tag(v, i, tot)))
        return AND(c, tag(v, n, tot))

    # ------------------------------------------------------------ rvalues
    def operand(self, st, fr, o):
        if "copy" in o:
            return self.read(st, fr, o["copy"])
        if "move" in o:
            return self.read(st, fr, o["move"])
        return self.const(st, o["const"])

    def operand_ty(self, fr, o):
        if "const" in o:
            return o["const"]["ty"]
        return self.place_ty(fr, o.get("copy") or o.get("move"))

    def const(self, st, c):
        t = self.types[c["ty"]]
        if "v" in c:
            if t["k"] == "bool":
                return TRUE if c["v"] else FALSE
            if t["k"] in ("int", "char"):
                return INT(c["v"])
            if t["k"] == "adt" and t["kind"] == "Enum":
                for n, v in enumerate(t["variants"]):
                    if v["discr"] == c["v"] and not v["fields"]:
                        return agg((t["adt"], n), ())
            return mk("const", t["s"], c.get("path", ""), c["v"])
        if "mem" in c:
            v = self.constmem(c["ty"], c["mem"])
            return v if v is not None else mk("const", t["s"], c.get("path", ""), tuple(c["mem"]))
        if "str" in c:
            return mk("str", c["str"])
        if "bytes" in c:
            if t["k"] == "ref" and self.types[t["elem"]]["k"] in ("adt", "int", "bool", "char"):
                v = self.constmem(t["elem"], c["bytes"])
                return v if v is not None else mk("const", t["s"], c.get("path", ""), tuple(c["bytes"]))
            return mk("bytes", tuple(c["bytes"]))
        if "static" in c:
            return mk("var", "static:" + str(c["static"]))
        if t["k"] == "fndef":
            return mk("fn", c["ty"])
        if t["k"] == "tuple" and not t["args"]:
            return UNIT
        if t["k"] == "adt" and len(t["variants"]) == 1 and not t["variants"][0]["fields"]:
            return agg((t["adt"], 0), ())
        if t["k"] == "closure":
            return mk("agg", ("closure", 0, t["body"]), ())
        if t["k"] == "array" and t.get("len") == 0:
            return NIL
        if t["k"] == "adt" and len(t["variants"]) == 1:
            z = self.zst(c["ty"])
            if z is not None:
                return z
        if "ralloc" in c:
            v = self.strings(t, c["ralloc"])
            if v is not None:
                return v
        ident = c.get("path", "") or (alloc_name(c["ralloc"]) if "ralloc" in c else "")
        return self.note(mk("const", t["s"], ident), c["ty"])

    def strings(self, t, a):
        """a constant &[&str; N]"""
        if t["k"] != "ref":
            return None
        e = self.types[t["elem"]]
        if e["k"] != "array" or self.types[e["elem"]]["s"] not in ("&str", "&'static str") or len(a["p"]) != 1 or "m" not in a["p"][0][1]:
            return None
        m = a["p"][0][1]["m"]
        out = []
        tg = {o: x for o, x in m["p"]}
        for n in range(e["len"]):
            ln = int.from_bytes(bytes(m["b"][16 * n + 8:16 * n + 16]), "little")
            x = tg.get(16 * n)
            if ln and (x is None or "m" not in x):
                return None
            out.append(mk("str", bytes(x["m"]["b"][:ln]).decode("utf-8", "replace") if ln else ""))
        return seq(out)

    SCALAR_Q = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001

    def constmem(self, ti, mem):
        """decode the memory of a constant"""
        t = self.types[ti]
        n = int.from_bytes(bytes(mem), "little")
        if t["k"] == "int":
            if t["signed"] and n >> (t["bits"] - 1):
                n -= 1 << t["bits"]
            return INT(n)
        if t["k"] == "bool":
            return TRUE if n else FALSE
        if t["k"] == "char":
            return INT(n)
        if t["k"] == "adt" and t["adt"] == "cosmian_bls12_381::Scalar":
            q = self.SCALAR_Q
            v = n * pow(2 ** 256, -1, q) % q  # Montgomery form
            if v > q // 2:
                v -= q
            return from_poly({(): v} if v else {}, "alg")
        if t["k"] == "adt" and t["adt"] == "std::option::Option" and n == 0 and t["args"] and self.types[t["args"][0]]["k"] in ("ref", "ptr"):
            return agg((t["adt"], 0), ())
        if t["k"] == "adt" and t["kind"] == "Enum" and len(mem) == 1:
            for i, v in enumerate(t["variants"]):
                if v["discr"] == n and not v["fields"]:
                    return agg((t["adt"], i), ())
        if t["k"] == "adt" and len(t["variants"]) == 1:
            fs = [f for f in t["variants"][0]["fields"]]
            if len(fs) == 1 and fs[0].get("ty") is not None:
                x = self.constmem(fs[0]["ty"], mem)
                if x is not None:
                    return x if t["adt"] in TRANSPARENT else agg((t["adt"], 0), (x,))
        if t["k"] == "array" and t.get("len"):
            m = len(mem) // t["len"]
            xs = [self.constmem(t["elem"], mem[i * m:i * m + m]) for i in range(t["len"])]
            if all(x is not None for x in xs):
                return seq(xs)
        return None

    def zst(self, ti, d=0):
        t = self.types[ti]
        if t["k"] == "tuple" and not t["args"]:
            return UNIT
        if t["k"] == "adt" and len(t["variants"]) == 1 and d < 4:
            fs = [self.zst(f["ty"], d + 1) if f.get("ty") is not None else None for f in t["variants"][0]["fields"]]
            if all(f is not None for f in fs):
                return agg((t["adt"], 0), fs)
        return None

    def rvalue(self, st, fr, r):
        k = r["k"]
        if k == "use":
            return self.operand(st, fr, r["op"])
        if k == "ref":
            if not r["mut"]:
                # a pointer to unsized/opaque memory: snapshot of the value
                return self.read(st, fr, r["p"])
            return self.mkref(st, fr, r["p"])
        if k == "addr":
            return self.mkref(st, fr, r["p"], True)
        if k == "len":
            return length(self.read(st, fr, r["p"]))
        if k == "discr":
            t = self.place_ty(fr, r["p"])
            v = self.read(st, fr, r["p"])
            return lift(lambda x: mk("discr", x, t) if x is not UNDEF else x, v)
        if k == "cast":
            return self.cast(st, fr, r)
        if k == "bin":
            return self.binop(st, fr, r["op"], r["l"], r["r"])
        if k == "cbin":
            v = self.arith(st, r["op"], self.operand(st, fr, r["l"]), self.operand(st, fr, r["r"]), self.operand_ty(fr, r["l"]))
            rg = self.int_range(self.types[self.operand_ty(fr, r["l"])])
            ov = OR(P_lt(v, INT(rg[0])), P_lt(INT(rg[1]), v)) if v.op != "unk" else lit(mk("tt", mk("unk", "overflow", (v,))))
            return agg(("tuple", 0), (v, ov))
        if k == "un":
            v = self.operand(st, fr, r["o"])
            t = self.types[self.operand_ty(fr, r["o"])]
            if r["op"] == "Not":
                if t["k"] == "bool":
                    return NOT(b_norm(v))
                return mk("unk", "not", (v,))
            if r["op"] == "Neg":
                return p_scale(v, -1)
            if r["op"] == "PtrMetadata":
                pt = self.types[self.operand_ty(fr, r["o"])]
                if (pt["k"] == "ref" and pt["mut"]) or (pt["k"] == "ptr" and v.op == "ref"):
                    v = self.load(st, v, pt["k"] == "ptr")
                return lift(length, v)
            return mk("unk", r["op"], (v,))
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r["ops"]]
            a = r["a"]
            if a == "tuple":
                return agg(("tuple", 0), ops)
            if a == "array":
                return seq(ops)
            if a == "closure":
                return agg(("closure", 0, self.types[r["ty"]]["body"]), ops)
            if a == "adt":
                t = self.types[r["ty"]]
                if t["adt"] in TRANSPARENT:
                    return ops[0]
                if t["kind"] == "Union":
                    return ops[0]
                f = self.models.extra.get("agg:" + t["adt"])
                if f is not None:
                    return f(r.get("variant") or 0, ops)
                return agg((t["adt"], r.get("variant") or 0), ops)
            return ops[0] if ops else UNIT
        if k == "repeat":
            v = self.operand(st, fr, r["op"])
            n = r["n"]
            if n is None:
                return mk("unk", "repeat", (v,))
            if n <= 64:
                return seq([v] * n)
            return flat(INT(n), mk("k", "rep"), seq([v]))
        if k == "tls":
            return mk("var", "tls:" + str(r.get("def", r)))
        return mk("unk", k, ())

    def mkref(self, st, fr, p, raw=False):
        loc, path, val, t = self.lval(st, fr, p)
        if val is None:
            # (a raw pointer made from a reference still designates what the reference does)
            if loc[0] in ("H", "P") and not path and not (raw and loc[0] == "H"):
                return loc[1]
            return mk("ref", loc, path)
        if loc is not None and loc[0] == "X" and not loc[3:]:
            return loc[1]
        return mk("vptr", val)

    def cast(self, st, fr, r):
        ck = r["ck"]
        if ck == "BoxDerefTransmute":
            p = r["op"].get("copy") or r["op"].get("move")
            loc, path, val, t = self.lval(st, fr, p)
            if val is None and loc[0] == "L":
                return mk("ref", loc, path)
            return mk("vptr", val if val is not None else self.path_get(self.get(st, loc), path))
        v = self.operand(st, fr, r["op"])
        if ck == "IntToInt":
            src = self.types[self.operand_ty(fr, r["op"])]
            dst = self.types[r["ty"]]
            return self.intcast(st, v, src, dst)
        return v

    def intcast(self, st, v, src, dst):
        if v.op == "ite":
            return lift(lambda x: self.intcast(st, x, src, dst), v)
        if v is TRUE:
            return INT(1)
        if v is FALSE:
            return INT(0)
        if src["k"] == "bool":
            return ITE(b_norm(v), INT(1), INT(0))
        if v.op == "discr":
            v = self.undiscr(v)
            if v.op == "ite":
                return lift(lambda x: self.intcast(st, x, src, dst), v)
        a, b = self.int_range(src), self.int_range(dst)
        if b is None or a is None:
            return mk("unk", "cast", (v,))
        if a[0] >= b[0] and a[1] <= b[1]:
            return v
        if is_int(v):
            if b[0] <= v.args[0] <= b[1]:
                return v
            n = v.args[0] & ((1 << dst["bits"]) - 1)
            if dst["signed"] and n >= 1 << (dst["bits"] - 1):
                n -= 1 << dst["bits"]
            return INT(n)
        us = units(st.pc)
        if linear.holds(us, P_le(INT(b[0]), v)) and linear.holds(us, P_le(v, INT(b[1]))):
            return v
        self.event(st, "cast", value=v, frm=src["s"], to=dst["s"])
        r = mk("cast", v, dst["s"])
        RANGE[r] = b
        return r

    def undiscr(self, d):
        """discr(v) as an integer value"""
        v, tyid = d.args
        if v.op == "ite":
            return lift(lambda x: self.undiscr(mk("discr", x, tyid)), v)
        vs = self.types[tyid]["variants"]
        if v.op == "agg":
            return INT(vs[v.args[0][1]]["discr"])
        r = INT(vs[-1]["discr"])
        for n in range(len(vs) - 2, -1, -1):
            r = ITE(self.variant_cond(v, n, len(vs)), INT(vs[n]["discr"]), r)
        return r

    def binop(self, st, fr, op, l, r):
        a, b = self.operand(st, fr, l), self.operand(st, fr, r)
        ti = self.operand_ty(fr, l)
        t = self.types[ti]
        return self.binval(st, op, a, b, ti, t)

    def binval(self, st, op, a, b, ti, t):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if a.op == "discr" or b.op == "discr" or any(x.op == "discr" for x in leaves(a) + leaves(b)):
                ud = lambda x: self.undiscr(x) if x.op == "discr" else x
                c = P_eq_int(lift(ud, a), lift(ud, b))
                return c if op == "Eq" else NOT(c)
            if t["k"] in ("int", "char"):
                f = {"Eq": P_eq_int, "Ne": lambda x, y: NOT(P_eq_int(x, y)), "Lt": P_lt, "Le": P_le,
                     "Gt": lambda x, y: P_lt(y, x), "Ge": lambda x, y: P_le(y, x)}[op]
                return self.simp_val(st, f(a, b))
            if op == "Eq":
                return P_eq(a, b)
            if op == "Ne":
                return NOT(P_eq(a, b))
            return lit(mk("tt", mk("unk", op, (a, b))))
        if t["k"] == "bool":
            x, y = b_norm(a), b_norm(b)
            if op == "BitAnd":
                return AND(x, y)
            if op == "BitOr":
                return OR(x, y)
            if op == "BitXor":
                return ITE(x, NOT(y), y)
        return self.arith(st, op, a, b, ti)

    def simp_val(self, st, c):
        return c

    def arith(self, st, op, a, b, ti):
        if op in ("Add", "AddUnchecked"):
            return p_add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return p_sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return p_mul(a, b)
        if op == "Shl" and is_int(b):
            return p_scale(a, 1 << b.args[0])
        if op in ("Div", "Shr") and is_int(b):
            c = b.args[0] if op == "Div" else 1 << b.args[0]
            if c > 0:
                return lift(lambda x: INT(x.args[0] // c) if is_int(x) and x.args[0] >= 0 else (x if c == 1 else mk("divc", x, c)), a)
        if op in ("Rem",) and is_int(b) and b.args[0] > 0:
            c = b.args[0]
            return lift(lambda x: INT(x.args[0] % c) if is_int(x) and x.args[0] >= 0 else mk("remc", x, c), a)
        if op == "BitAnd" and is_int(a):
            a, b = b, a
        if op == "BitAnd" and is_int(b) and (b.args[0] & (b.args[0] + 1)) == 0:
            return lift(lambda x: mk("remc", x, b.args[0] + 1), a)
        if op in ("BitAnd", "BitOr", "BitXor") and b.id < a.id:
            a, b = b, a
        r = mk("unk", op, (a, b))
        self.note(r, ti)
        return r

    # ------------------------------------------------------------ calls
    def call(self, fr, b, t, st):
        f = t["f"]
        args = [self.operand(st, fr, a) for a in t["args"]]
        atys = [self.operand_ty(fr, a) for a in t["args"]]
        dty = self.place_ty(fr, t["dest"])
        fn = None
        if "const" in f:
            ft = self.types[f["const"]["ty"]]
            fn = ft.get("fn")
        info = Info(fn, atys, dty, fr, b, t)
        v = self.invoke(st, fn, args, info, None if fn else self.operand(st, fr, f))
        if v is None or t["t"] is None:
            return []
        self.note(v, dty)
        self.write(st, fr, t["dest"], v)
        return [(t["t"], st)]

    def invoke(self, st, fn, args, info, fval=None):
        self.stats["calls"] += 1
        if fn is None:
            if fval is not None:
                return self.apply(st, fval, args, info)
            return self.opaque(st, "indirect", args, info)
        path = fn["path"]
        info.path = path
        for pred, handler in self.stops:
            if pred(fn):
                return handler(self, st, args, info)
        # rust-call ABI on closure values
        via = fn.get("via") or ""
        if via in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call") and args:
            n = args[1]
            un = [fld(n, None, i) for i in range(len(n.args[1]))] if n.op == "agg" else None
            if un is not None:
                return self.apply(st, args[0], un, info)
        m = self.models.get(self, fn)
        if m is not None:
            return m(self, st, args, info)
        if fn.get("id") is not None and not fn.get("virtual"):
            inst = self.P.inst[fn["id"]]
            return self.inline(st, inst, args, info)
        return self.opaque(st, path, args, info)

    def inline(self, st, inst, args, info=None):
        if any(f.inst["id"] == inst["id"] for f, _ in self.stack) and sum(f.inst["id"] == inst["id"] for f, _ in self.stack) > 1 or len(self.stack) > 60:
            return self.opaque(st, inst["path"], args, info)
        if any(f.inst["id"] == inst["id"] for f, _ in self.stack):
            return self.opaque(st, inst["path"], args, info)
        if inst["captures"] is not None and len(args) == 2 and inst["argc"] != 2 and args[1].op == "agg":
            args = [args[0]] + list(args[1].args[1])
        if inst["argc"] != len(args):
            self.unk("arity " + inst["name"])
            return self.opaque(st, inst["path"], args, info)
        self.nfid += 1
        fr = Frame(inst, self.nfid, None, self.cfg(inst))
        self.stats["functions"][inst["name"]] = len(inst["blocks"])
        for i, a in enumerate(args):
            st.s[("L", fr.fid, i + 1)] = a
        _, exits = self.region(fr, 0, fr.cfg.all, St(st.pc, st.s), None)
        out = self.join([s for t, s in exits if t == "ret"])
        if out is None:
            st.pc = FALSE
            return None
        v = self.rs(out, out.s.get(("L", fr.fid, 0), UNIT))
        fid = fr.fid
        st.pc = out.pc
        st.s = {l: x for l, x in out.s.items() if not (l[0] == "L" and l[1] == fid)}
        return v

    def apply(self, st, f, args, info=None):
        """call a closure / function value"""
        if f.op == "ite":
            # gated callee: evaluate each and gate results
            res = UNDEF
            for l in leaves(f):
                if l is UNDEF:
                    continue
                c = lift(lambda y: TRUE if y is l else FALSE, f)
                s2 = self.assume(st.copy(), c)
                if s2 is None:
                    continue
                r = self.apply(s2, l, args, info)
                if r is not None:
                    res = ITE(c, r, res)
            return res
        if f.op == "ref":
            g = self.load(st, f)
            if g.op == "agg" and g.args[0][0] == "closure":
                inst = self.P.inst[g.args[0][2]]
                t = self.types[inst["locals"][1]]
                if t["k"] == "ref" and t["mut"]:
                    return self.inline(st, inst, [f] + list(args), info)
                return self.inline(st, inst, [g] + list(args), info)
            f = g
        if f.op == "agg" and f.args[0][0] == "closure":
            if f.args[0][2] is None:
                return self.opaque(st, "closure", [f] + list(args), info)
            inst = self.P.inst[f.args[0][2]]
            t = self.types[inst["locals"][1]]
            if t["k"] == "ref" and t["mut"]:
                self.nfid += 1
                loc = ("L", self.nfid, -1)
                st.s[loc] = f
                r = self.inline(st, inst, [mk("ref", loc, ())] + list(args), info)
                st.s.pop(loc, None)
                return r
            return self.inline(st, inst, [f] + list(args), info)
        if f.op == "fn":
            fn = self.types[f.args[0]].get("fn")
            if fn:
                i2 = Info(fn, None, info.dty if info else None, info.fr if info else None, info.b if info else None, info.t if info else None)
                ft = self.types[f.args[0]]
                i2.ctor = True
                return self.invoke(st, fn, list(args), i2)
        if f.op == "fnv":
            return self.models.special(self, st, f, list(args), info)
        return self.opaque(st, "indirect", [f] + list(args), info)

    IMPURE = ("fetch_add", "::now")

    def opaque(self, st, path, args, info, impure=False):
        """an operation that is not looked into: a function of its arguments; memory
        reachable through &mut arguments becomes another function of the same arguments"""
        self.stats["opaque"][path] = self.stats["opaque"].get(path, 0) + 1
        vals = []
        muts = []
        tys = info.atys if info is not None and info.atys else [None] * len(args)
        for i, (a, ti) in enumerate(zip(args, tys)):
            t = self.types[ti] if ti is not None else None
            if (t is not None and t["k"] == "ref" and t["mut"]) or (t is None and a.op == "ref"):
                v = self.load(st, a)
                if v.op == "agg" and v.args[0][0] == "rng":
                    seed, n = v.args[1]
                    vals.append(mk("draw", path, seed, n))
                    self.event(st, "draw", of=path, seed=seed, value=vals[-1], ks=tuple(self.kstack), chain=self.chain())
                    self.put(st, a, agg(("rng", 0), (seed, p_add(n, INT(1)))))
                    continue
                muts.append((i, a, v))
                vals.append(v)
            else:
                vals.append(a)
                if a.op == "agg" and a.args[0][0] == "closure":
                    # what the closure may change
                    for j, x in enumerate(a.args[1]):
                        if x.op == "ref":
                            muts.append((f"{i}.{j}", x, self.load(st, x)))
        std = path.startswith(("std::", "core::", "alloc::", "<std::", "<core::", "<alloc::", "<&", "<I as std", "<T as std"))
        op = "unk" if std and path not in self.models.pure_ok else "call"
        site = ()
        if impure or any(x in path for x in self.IMPURE):
            site = (mk("site", self.chain(), tuple(self.kstack)),)
        r = mk(op, path, tuple(vals), *site)
        for i, a, v in muts:
            self.put(st, a, mk(op, path + f"!mut{i}", tuple(vals), *site))
        if info is not None and info.dty is not None:
            t = self.types[info.dty]
            if t["k"] == "tuple" and not t["args"]:
                r2 = UNIT
            elif t["k"] == "never":
                return None
            else:
                r2 = r
                self.note(r, info.dty)
        else:
            r2 = r
        self.event(st, "call", path=path, args=tuple(vals), raw=tuple(args), result=r, info=info)
        return r2

    # ------------------------------------------------------------ loops
    def mir_loop(self, fr, h, blocks, st0):
        self.stack.append((fr, h))
        uid = ("L", self.chain())
        self.stack.pop()

        def run(st, k):
            latch, exits = self.region(fr, h, blocks, st, h)
            return latch, exits

        # first evaluate the header as entry: region(entry=h, header=h) treats jumps to h as latch
        return self.loop(run, st0, uid)

    def loop(self, run, st0, uid, n=None):
        """summarise a loop.  run(state, k) -> (latch state, [(tag, state)]) evaluates one
        iteration.  With n given, the loop is known to run for k = 0..n (synthetic loops):
        run gets only those iterations and a ("done", state) exit is added."""
        self.stats["loops"] += 1
        if self.kstack:
            # what an inner loop leaves behind differs from one outer iteration to the next
            uid = uid + (tuple(self.kstack),)
        k = mk("k", uid)
        saved = self.rec
        self.rec = False
        self.kstack.append(k)
        tmpl = {}  # loc -> template with phi leaves
        try:
            for _ in range(12):
                st = St(st0.pc, dict(st0.s))
                for loc, v in tmpl.items():
                    st.s[loc] = v
                if n is not None:
                    st = self.assume(st, P_lt(k, n))
                    if st is None:
                        break
                latch, exits = run(st, k)
                if latch is None:
                    break
                changed = False
                for loc, lv in latch.s.items():
                    if loc[0] == "L" and loc not in st0.s:
                        continue
                    cur = tmpl.get(loc)
                    base = cur if cur is not None else self.get(st0, loc)
                    nw = self.phi_merge(uid, loc, (), base, lv)
                    if nw is not base:
                        tmpl[loc] = nw
                        changed = True
                if not changed:
                    break
            else:
                self.unk("loop does not stabilise")
            sols = {}
            if latch is not None:
                # one iteration from an arbitrary state
                self.steps_seen.append({"uid": uid, "k": k, "outer": tuple(self.kstack[:-1]), "entry": st0, "head": dict(tmpl), "latch": latch, "exits": exits, "site": self.site()})
            if latch is not None and tmpl:
                sols = self.steps_seen[-1]["sols"] = self.solve(uid, k, tmpl, st0, latch, n)
        finally:
            self.rec = saved
        # recording pass with the solved values
        st = St(st0.pc, dict(st0.s))
        for loc, v in tmpl.items():
            st.s[loc] = subst(v, sols)
        first_facts = st.pc
        if n is not None:
            st = self.assume(st, P_lt(k, n))
        latch, exits = (None, [])
        if st is not None:
            latch, exits = run(st, k)
        self.kstack.pop()
        if self.rec and latch is not None and any(set(self.phis(v, uid)) - set(sols) for v in tmpl.values()):
            self.events.append({"kind": "loop", "uid": uid, "k": k, "pc": latch.pc, "site": self.site(), "entry": st0.pc, "exits": [s.pc for _, s in exits],
                                "state": [(loc, self.get(st0, loc), subst(v, sols), latch.s.get(loc, self.default(loc))) for loc, v in tmpl.items()]})
        return self.close(uid, k, tmpl, sols, st0, exits, n, latch)

    def phis(self, v, uid):
        return [x for x in v.free if x.op == "phi" and x.args[0] == uid]

    def phi_merge(self, uid, loc, path, base, lv):
        if base is lv:
            return base
        if base.op == "phi" and base.args[0] == uid:
            return base
        if base.op == "agg" and lv.op == "agg" and base.args[0] == lv.args[0] and len(base.args[1]) == len(lv.args[1]):
            fs = tuple(self.phi_merge(uid, loc, path + (i,), x, y) for i, (x, y) in enumerate(zip(base.args[1], lv.args[1])))
            if fs == base.args[1]:
                return base
            return mk("agg", base.args[0], fs)
        # already a template with phis deeper but shape lost: collapse
        lo = tuple(x if not isinstance(x, Term) else x for x in loc)
        if loc[0] == "L":
            lo = ("L", tuple(self.chain_of_fid(loc[1])), loc[2])
        p = mk("phi", uid, lo, path)
        for src in (base, lv):
            for x in leaves(src):
                if x in RANGE:
                    RANGE[p] = RANGE[x]
                elif intlike(x):
                    RANGE.setdefault(p, (-(2 ** 64), 2 ** 64))
        return p

    def chain_of_fid(self, fid):
        for i, (f, b) in enumerate(self.stack):
            if f.fid == fid:
                return (i,)
        return (fid,)

    def solve(self, uid, k, tmpl, st0, latch, n):
        """closed forms in k of the loop-carried values"""
        init, step = {}, {}

        def coll(t, e, l):
            if t.op == "phi" and t.args[0] == uid:
                init[t] = e
                step[t] = l
            elif t.op == "agg":
                for i, x in enumerate(t.args[1]):
                    if x.free and any(y.op == "phi" and y.args[0] == uid for y in x.free):
                        coll(x, fld(e, t.args[0][1], i), fld(l, t.args[0][1], i))

        for loc, t in tmpl.items():
            coll(t, self.get(st0, loc), latch.s.get(loc, self.default(loc)))
        sols = {}
        mine = set(init)
        cond = latch.pc
        for _ in range(len(init) + 1):
            prog = False
            for p in list(init):
                if p in sols:
                    continue
                l = restrict(step[p], cond)
                l = subst(l, sols) if sols else l
                s = self.closed(k, p, init[p], l, mine - set(sols))
                if s is not None:
                    sols[p] = s
                    for q in list(sols):
                        if q is not p and p in sols[q].free:
                            sols[q] = subst(sols[q], {p: s})
                    prog = True
            if not prog:
                break
        # self-recursive leftovers
        for p in list(init):
            if p in sols:
                continue
            l = subst(restrict(step[p], cond), sols)
            if not any(q in l.free for q in mine if q is not p and q not in sols):
                h = binder_h(l)
                body = subst(l, {p: mk("bv", h, "p"), k: mk("bv", h, "k")})
                r = mk("rec", h, k, init[p], body)
                if p in RANGE:
                    RANGE[r] = RANGE[p]
                sols[p] = r
                for q in list(sols):
                    if q is not p and p in sols[q].free:
                        sols[q] = subst(sols[q], {p: r})
        return sols

    def closed(self, k, p, e, l, phis):
        """value at the head of iteration k, given first value e and step p -> l"""
        if l is UNDEF:
            return None
        others = lambda x: any(q in x.free for q in phis)
        if l is p:
            return e
        if not others(l):
            # last value written
            prev = subst(l, {k: p_sub(k, INT(1))}) if k in l.free else l
            if prev is e:
                return e
            return ITE(P_le0(k), e, prev)
        ls = leaves(l)
        if p in RANGE or all(intlike(x) for x in ls if x is not UNDEF):
            d = p_sub(l, p)
            if not others(d):
                if k not in d.free:
                    return p_add(e, p_mul(k, d))
                tok = mk("k", ("j", k.args[0]))
                return p_add(e, isum(k, tok, subst(d, {k: tok})))
        if l.op == "ite":
            # a flag: kept, or set to one value
            l0 = l
            if p in subterms(l.args[0]) and restrict(l, lit(p)) in (TRUE, p):
                l0 = restrict(l, lit(p, False))
            vs = [y for y in dict.fromkeys(leaves(l0)) if y is not p and y is not UNDEF and not (l0 is not l and y is FALSE)]
            if len(vs) == 1 and k not in vs[0].free and not others(vs[0]):
                c = lift(lambda y: TRUE if y is vs[0] else y if y is UNDEF else FALSE, l0)
                if not others(c):
                    tok = mk("k", ("j", k.args[0]))
                    return ITE(exists(k, tok, subst(c, {k: tok})), vs[0], e)
        x = self.appended(l, p)
        if x is not None and not others(x):
            tok = mk("k", ("j", k.args[0]))
            return cat([e, flat(k, tok, subst(x, {k: tok}))])
        if all(self.alg_step(y, p) for y in ls):
            d = lift(lambda y: p_sub(y, p, "alg"), l)
            if not others(d):
                tok = mk("k", ("j", k.args[0]))
                if d.op != "ite" and subst(d, {k: INT(-1)}) is e:
                    return algsum(p_add(k, INT(1)), tok, subst(d, {k: p_sub(tok, INT(1))}))
                return p_add(e, algsum(k, tok, subst(d, {k: tok})), "alg")
        if l.op == "store" and l.args[0] is p and l.args[1] is k and not others(l.args[2]):
            h = binder_h(l.args[2])
            body = subst(l.args[2], {k: mk("bv", h, "k")})
            return mk("upd", h, e, k, body)
        if l.op == "store" and l.args[0] is p and l.args[1] is k:
            # element-wise update reading the old element at the same position
            old = mk("at", p, k)
            nb = subst_term(l.args[2], {old: at(e, k)})
            if not others(nb):
                h = binder_h(nb)
                return mk("upd", h, e, k, subst(nb, {k: mk("bv", h, "k")}))
        if l.op == "store" and l.args[0] is p:
            c = p_sub(l.args[1], k)
            if is_int(c) and c.args[0] >= 0:
                # position k + c becomes a function of its old content and of positions below c
                sub = {}
                for x in subterms(l.args[2]):
                    if x.op == "at" and x.args[0] is p:
                        if x.args[1] is l.args[1] or (is_int(x.args[1]) and 0 <= x.args[1].args[0] < c.args[0]):
                            sub[x] = at(e, x.args[1])
                nb = subst_term(l.args[2], sub)
                if not others(nb):
                    j = mk("k", ("off", l.id))
                    return flat(length(e), j, seq([ITE(AND(P_le(c, j), P_lt(j, p_add(k, c))), subst(nb, {k: p_sub(j, c)}), at(e, j))]))
        if l.op == "mins" and l.args[0] is p and not others(l.args[1]) and not others(l.args[2]):
            h = binder_h(l.args[1], l.args[2])
            v = mk("bv", h, "k")
            return mk("mbuild", h, k, e, subst(l.args[1], {k: v}), subst(l.args[2], {k: v}))
        return None

    def appended(self, l, p):
        """x such that l = p ++ x (per leaf)"""
        if l.op == "ite":
            r = lift(lambda y: self.appended(y, p) or mk("bad"), l)
            return None if any(y.op == "bad" for y in leaves(r)) else r
        if l is p:
            return NIL
        if l.op == "cat" and l.args[0] is p:
            return cat(l.args[1:])
        if l is UNDEF:
            return l
        return None

    def alg_step(self, y, p):
        if y is UNDEF:
            return True
        if y is p:
            return False
        d = poly_of(y, "alg")
        return y.op == "poly" and y.args[0] == "alg" and d.get(((p, 1),)) == 1 and all(
            all(a is not p for a, _ in m) for m in d if m != ((p, 1),))

    def close(self, uid, k, tmpl, sols, st0, exits, n, latch):
        """states after the loop"""
        pc0 = st0.pc
        ex = []
        for t, s in exits:
            ex.append((t, s, restrict(s.pc, pc0)))
        N = n
        nat = None
        outs = []
        if n is None:
            for i, (t, s, c) in enumerate(ex):
                g = self.counted_exit(c, k)
                if g is not None:
                    N = g
                    nat = i
                    break
        if N is None:
            K = mk("exitk", uid)
            RANGE[K] = (0, 2 ** 62)
            for t, s, c in ex:
                m = {k: K}
                outs.append((t, self.sub_state(s, m, subst(s.pc, m))))
            return outs
        early = [(t, s, c) for i, (t, s, c) in enumerate(ex) if i != nat]
        # an exit taken exactly when a second counter bound is reached: the loop runs to the smaller one
        brk, Nb = None, None
        inb = P_lt(k, N)
        if early:
            for i, (t, s, c) in enumerate(early):
                g = self.counted_exit(restrict(restrict(c, inb), pc0), k)
                if g is not None and nonneg_in(units(pc0), g):
                    brk, Nb = early.pop(i), g
                    break
        N0 = N
        if brk is not None:
            us = units(pc0)
            if linear.entails_le(us, p_sub(Nb, N)):
                N = Nb
            elif linear.entails_le(us, p_sub(N, Nb)):
                brk = None
            else:
                N = ITE(P_le(Nb, N), Nb, N)
        kn = max0(N)
        U = FALSE
        inb = AND(P_lt(k, N), inb)
        for t, s, c in early:
            U = OR(U, restrict(c, inb))
        U = restrict(U, inb)
        E = exists(N, k, U) if U is not FALSE else FALSE
        if E is not FALSE:
            # what holds at entry decides?
            E = restrict(E, pc0)
            if k in U.free:
                h = binder_h(U, k)
                kf = mk("first", h, N, subst(U, {k: mk("bv", h, "k")}))
                RANGE[kf] = (0, 2 ** 63)
            else:
                kf = INT(0)
            for t, s, c in early:
                m = {k: kf}
                pc = AND(pc0, E)
                if len(early) > 1:
                    pc = AND(pc, subst(restrict(restrict(c, inb), U), m))
                outs.append((t, self.sub_state(s, m, pc)))
        # natural exit: every iteration was completed
        m = {k: kn}
        pc = AND(pc0, NOT(E))
        if latch is not None and pc is not FALSE:
            Q = restrict(restrict(restrict(NOT(latch.pc), pc0), inb), NOT(U))
            if Q is not FALSE and Q is not UNDEF and self.known_before(Q, st0):
                Q = exists(N, k, Q)
                if Q is not FALSE:
                    pc = AND(pc, NOT(Q))
        if brk is not None:
            t, s, c = brk
            q = pc if linear.entails_le(units(pc), p_sub(p_add(Nb, INT(1)), N0)) else AND(pc, P_lt(Nb, N0))
            if q is not FALSE and not linear.contradictory(units(q)):
                outs.append((t, self.sub_state(s, {k: Nb}, q)))
            if linear.entails_le(units(pc), p_sub(p_add(Nb, INT(1)), N0)):
                return outs
            pc = AND(pc, P_le(N0, Nb))
            if pc is FALSE or linear.contradictory(units(pc)):
                return outs
        if n is None:
            t, s, c = ex[nat]
            outs.append((t, self.sub_state(s, m, pc)))
        else:
            s = St(pc0, dict(st0.s))
            for loc, v in tmpl.items():
                s.s[loc] = subst(v, sols)
            # places first written in the loop body and visible outside
            if latch is not None:
                for loc, v in latch.s.items():
                    if loc[0] != "L" and loc not in s.s:
                        s.s[loc] = v
            outs.append(("done", self.sub_state(s, m, pc)))
        return outs

    def known_before(self, Q, st0):
        """the unknown states of loops in Q are those of loops finished before this one started"""
        unk = {x for x in subterms(Q) if x.op in ("phi", "exitk")}
        if unk:
            old, seen = set(), set()
            for t in [st0.pc] + [v for v in st0.s.values() if type(v) is Term]:
                old |= {x for x in subterms(t, seen) if x.op in ("phi", "exitk")}
            unk -= old
        return not unk

    def sub_state(self, s, m, pc):
        return St(pc, {l: subst(v, m) for l, v in s.s.items()})

    @staticmethod
    def inner(t, k):
        """t has a value carried by this loop, or by one inside it"""
        return any(x.op in ("phi", "exitk") and (x.args[0] == k.args[0] or any(type(y) is tuple and k in y for y in x.args[0])) for x in t.free) or any(
            x.op == "exitk" and any(type(y) is tuple and k in y for y in x.args[0]) for x in subterms(t))

    def counted_exit(self, c, k):
        """N such that the condition is exactly k >= N, N independent of k"""
        if c.op != "ite":
            return None
        a, h, l = c.args
        if k not in a.free and not self.inner(a, k):
            # one bound or the other, decided before the loop
            nh, nl = (INT(0) if x is TRUE else self.counted_exit(x, k) for x in (h, l))
            return ITE(mkite(a, TRUE, FALSE), nh, nl) if nh is not None and nl is not None else None
        if a.op == "le0" and {h, l} <= {TRUE, FALSE}:
            p = a.args[0] if h is TRUE else p_sub(INT(1), a.args[0])  # p <= 0
            d = poly_of(p, "int")
            ck = d.get(((k, 1),))
            if ck == -1:
                N = p_add(p, k)
                if k not in N.free and not any(x.op == "phi" and x.args[0] == k.args[0] for x in N.free):
                    return N
            elif ck is not None and ck < -1:
                # step s: s*k >= M  <=>  k >= ceil(M/s)
                M = p_sub(p, from_poly({((k, 1),): ck}, "int"))
                if k not in M.free and not any(x.op == "phi" for x in M.free):
                    return mk("divc", p_add(M, INT(-ck - 1)), -ck)
        if a.op == "eq0" and h is TRUE and l is FALSE:
            # k == N with N >= 0: reached exactly at N
            p = a.args[0]
            d = poly_of(p, "int")
            ck = d.get(((k, 1),))
            if ck in (1, -1):
                N = p_sub(k, p) if ck == 1 else p_add(p, k)
                if k not in N.free and nonneg(N) and not any(x.op == "phi" for x in N.free):
                    return N
        return None

    # synthetic loops used by iterator models
    def foreach(self, st, sq, body, tagname, n=None):
        """body(st, element, k) -> contribution (sequence) or None (diverges);
        returns the concatenated contributions"""
        N = length(sq) if n is None else n
        if is_int(N) and N.args[0] <= 8:
            parts = []
            for i in range(max(0, N.args[0])):
                r = body(st, at(sq, INT(i)) if sq is not None else INT(i), INT(i))
                if r is None:
                    return None
                parts.append(r)
            return cat(parts)
        uid = ("S", self.chain(), tagname)
        self.nfid += 1
        acc = ("L", self.nfid, -2)
        st.s[acc] = NIL

        def run(s, k):
            r = body(s, at(sq, k) if sq is not None else k, k)
            if r is None or s.pc is FALSE:
                return None, []
            s.s[acc] = cat([s.s[acc], r])
            return s, []

        outs = self.loop(run, st, uid, n=N)
        done = [s for t, s in outs if t == "done"]
        if not done:
            return None
        s = done[0]
        st.pc = s.pc
        st.s = s.s
        return st.s.pop(acc)

    def foldloop(self, st, sq, init, body, tagname):
        """acc = body(st, acc, elem, k)"""
        N = length(sq)
        if is_int(N) and N.args[0] <= 8:
            acc = init
            for i in range(max(0, N.args[0])):
                acc = body(st, acc, at(sq, INT(i)), INT(i))
                if acc is None:
                    return None
            return acc
        uid = ("F", self.chain(), tagname)
        self.nfid += 1
        loc = ("L", self.nfid, -3)
        st.s[loc] = init

        def run(s, k):
            r = body(s, s.s[loc], at(sq, k), k)
            if r is None or s.pc is FALSE:
                return None, []
            s.s[loc] = r
            return s, []

        outs = self.loop(run, st, uid, n=N)
        done = [s for t, s in outs if t == "done"]
        if not done:
            return None
        st.pc = done[0].pc
        st.s = done[0].s
        return st.s.pop(loc)

    def earlyloop(self, st, sq, init, body, tagname):
        """body(st, acc, elem, k) -> (stop condition, result when stopping, acc when going on);
        returns (result or last acc, condition that it stopped)"""
        N = length(sq)
        self.nfid += 1
        loc, res = ("L", self.nfid, -3), ("L", self.nfid, -4)
        uid = ("Y", self.chain(), tagname)
        outs = []

        def split(s, r):
            """(stopping state, continuing state)"""
            c, stop, nxt = r
            c = self.simp(s, b_norm(c))
            if c is FALSE:
                s.s[loc] = nxt
                return None, s
            e = self.assume(s.copy(), c) if c is not TRUE else s
            if e is not None:
                e.s[res] = stop
                e.s.pop(loc, None)
            if c is TRUE:
                return e, None
            s = self.assume(s, NOT(c))
            if s is not None:
                s.s[loc] = nxt
            return e, s

        st.s[loc] = init
        if is_int(N) and N.args[0] <= 8:
            s = st
            for i in range(max(0, N.args[0])):
                r = body(s, s.s[loc], at(sq, INT(i)), INT(i))
                if r is None or s.pc is FALSE:
                    s = None
                    break
                e, s = split(s, r)
                outs.append(e)
                if s is None:
                    break
            done = s
        else:
            def run(s, k):
                r = body(s, s.s[loc], at(sq, k), k)
                if r is None or s.pc is FALSE:
                    return None, []
                e, s = split(s, r)
                return s, [("stop", e)] if e is not None else []

            os_ = self.loop(run, st, uid, n=N)
            outs = [s for t, s in os_ if t == "stop"]
            done = self.join([s for t, s in os_ if t == "done"])
        outs = [s for s in outs if s is not None and s.pc is not FALSE]
        if done is not None and done.pc is not FALSE:
            done.s[res] = done.s.pop(loc)
        else:
            done = None
        stopped = FALSE
        for s in outs:
            stopped = OR(stopped, s.pc)
        s = self.join(outs + [done])
        if s is None:
            return None
        st.pc, st.s = s.pc, s.s
        return st.s.pop(res), restrict(stopped, st.pc)


def alloc_name(a):
    """identity of a constant allocation: the functions it points to and a digest of all of it"""
    fns = []

    def walk(x):
        for _, p in x["p"]:
            if isinstance(p, dict):
                if "fn" in p:
                    fns.append(p["fn"])
                elif "m" in p:
                    walk(p["m"])
    walk(a)
    return ",".join(fns) + "#" + hashlib.sha256(json.dumps(a, sort_keys=True).encode()).hexdigest()[:12]


class Info:
    __slots__ = ("fn", "atys", "dty", "fr", "b", "t", "path", "ctor")

    def __init__(self, fn, atys, dty, fr=None, b=None, t=None):
        self.fn = fn
        self.atys = atys
        self.dty = dty
        self.fr = fr
        self.b = b
        self.t = t
        self.path = fn["path"] if fn else ""
        self.ctor = False


LEN_ADT = {}

"""Obligation bookkeeping shared by the property checks."""
import re
import sys

from .terms import *
from .interp import Exec, St, Info
from . import models, linear, instance
from .compare import Cmp, changed, EQ, NE, UNK, ok_part
from . import terms as T

sys.setrecursionlimit(20000)


class Missing(Exception):
    """an operation, type or field the property is stated about is not found: nothing is decided"""


# private fields by position
FIELDS = {"MonotoneSpanProgram": ["nb_row", "nb_col", "matrix", "attr_to_row", "row_to_attr"], "GpswMasterPrivateKey": ["t_i", "y"],
          "GpswMasterPublicKey": ["t_i", "y"], "GpswMasterPublicDelegationKey": ["inv_t_i"], "Engine": ["sch"], "Gpsw": ["group"],
          "GpswDecryptionKey": ["raw_d_i", "d_i", "msp"], "EncryptionCache": ["policy", "public_key"], "EncryptedHeader": ["symmetric_key", "encrypted_header_bytes"],
          "DecryptionCache": ["user_decryption_key"], "ClearTextHeader": ["symmetric_key", "meta_data"], "GpswMasterKey": ["priv_key", "pub_key", "del_key"],
          "GpswCipherText": ["gamma", "e_prime", "e_i"]}


class Res:
    def __init__(self, E, st, ret, args, inst):
        self.E, self.st, self.ret, self.args, self.inst = E, st, ret, args, inst
        self.events = E.events

    def ev(self, kind):
        return [e for e in self.events if e["kind"] == kind]


VAR_TYPE = {}


def typed_var(name, ty):
    """the variable of that name; facts are recorded about variables, so one name denotes values of one type"""
    n = name
    while VAR_TYPE.setdefault(n, ty) != ty:
        n += "'"
    return var(n)


class Ctx:
    def __init__(self, P, prop):
        self.P = P
        self.prop = prop
        self.partial = False
        self.obs = []
        self.functions = {}
        self.calls = 0
        self.blocks = 0
        self.notes = []
        self.samples = []
        self.assumptions = []
        self.unmodelled = {}

    # ---------------------------------------------------------- program
    def find(self, rx, pred=None):
        r = re.compile(rx)
        return [i for i in self.P.inst if i is not None and r.search(i["path"]) and (pred is None or pred(i))]

    def fn(self, rx, pred=None):
        xs = self.find(rx, pred)
        if not xs:
            raise Missing(rx)
        return xs[0]

    def adt(self, name):
        for t in self.P.types:
            if t["k"] == "adt" and t["adt"].split("::")[-1] == name and t.get("local"):
                return t
        raise Missing("type " + name)

    def field(self, adt, name, default=None):
        t = self.adt(adt)
        for i, f in enumerate(t["variants"][0]["fields"]):
            if f["name"] == name:
                return i
        if default is not None:
            return default
        known = FIELDS.get(adt, [])
        fs = t["variants"][0]["fields"]
        if name in known and len(fs) == len(known) and fs[known.index(name)]["name"] not in known:
            return known.index(name)  # under another name
        raise Missing(f"field {adt}.{name}")

    def get(self, t, adt, name, default=None):
        return fld(t, 0, self.field(adt, name, default))

    def struct(self, adt, **kw):
        t = self.adt(adt)
        fs = [None] * len(t["variants"][0]["fields"])
        for n, v in kw.items():
            fs[self.field(adt, n)] = v
        if None in fs:
            raise Missing(f"a field more in {adt}")
        return agg((t["adt"], 0), fs)

    # ---------------------------------------------------------- analysis
    def run(self, inst, args=None, stops=(), extra=None, pc=TRUE, store=None, prefix=""):
        M = models.Models(extra=extra) if extra else models.Models()
        E = Exec(self.P, M, stops)
        st = St(pc, dict(store or {}))
        names = {}
        for x in inst["names"]:
            if len(x["p"]) == 1:
                names.setdefault(x["p"][0], x["name"])
        vals = []
        for n in range(inst["argc"]):
            v = (args or {}).get(n)
            if v is None:
                v = (args or {}).get(names.get(n + 1))
            if v is None:
                v = typed_var(prefix + names.get(n + 1, f"arg{n}"), self.P.types[inst["locals"][n + 1]]["s"])
            E.note(v, inst["locals"][n + 1])
            vals.append(v)
        ret = E.inline(st, inst, vals)
        if ret is None:
            ret = UNDEF
        for k, b in E.stats["functions"].items():
            self.functions[k] = b
        self.calls += E.stats["calls"]
        self.blocks += E.steps
        for k, n in E.unknown.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + n
        return Res(E, st, ret, vals, inst)

    # ---------------------------------------------------------- obligations
    def ob(self, key, verdict, where, detail="", sample=None):
        self.obs.append({"key": key, "verdict": verdict, "where": where, "detail": detail})
        if sample and len(self.samples) < 12:
            self.samples.append(sample)
        return verdict

    def same(self, key, where, got, want, pc=TRUE, axioms=(), soft=()):
        """obligation: the value computed by the code is the specified one"""
        c = Cmp(axioms, soft=soft, seconds=3)
        v = c.cmp(got, want, pc)
        if c.exhausted and v == UNK and self.by_size(got, want, pc, axioms, soft)[0] == UNK:
            # no difference at small sizes: take the time
            c = Cmp(axioms, soft=soft)
            v = c.cmp(got, want, pc)
        d = ""
        v, c.why = self.settled(v, c.why, got, want, pc, axioms, soft)
        if v != EQ:
            d = " | ".join(c.why[-3:])
        self.ob(key, v, where, d, sample=f"{where}: {key}: {show(got)[:400]}")
        return v

    def settled(self, v, why, got, want, pc, axioms=(), soft=()):
        """a verdict other than equality on conditions with loop summaries in them has to show at some size"""
        if v == UNK or v == NE and instance.size_atoms(got, want, pc):
            u, w = self.by_size(got, want, pc, axioms, soft)
            why = why + ["not found at any of the sizes tried"] if v == NE and u != NE else w or why
            v = u
        return v, why

    def by_size(self, got, want, pc, axioms=(), soft=()):
        """undecided in general: look for a size at which the two differ"""
        r = instance.differs(Cmp, got, want, pc, axioms, soft)
        if r is None:
            return UNK, []
        fixed, why = r
        return NE, [next((w for w in reversed(why) if ' is not ' in w), ''), "at sizes " + ", ".join(f"{show(k)[:40]}={v}" for k, v in list(fixed.items())[:6])]

    def implies(self, key, where, pc, cond, axioms=(), detail=""):
        c = Cmp(axioms)
        v = EQ if pc is FALSE else c.implies(pc, cond)
        v, c.why = self.settled(v, c.why, b_norm(cond), TRUE, pc, axioms)
        self.ob(key, v, where, detail if v == EQ else (detail + " " + " | ".join(c.why[-2:])), sample=f"{where}: {key}: {show(cond)[:300]}")
        return v

    def forbids(self, key, where, ok, bad, k=None, n=None, axioms=()):
        c = Cmp(axioms)
        v = c.forbids(ok, bad, k, n)
        if v != EQ:
            pc = AND(ok, bad)
            for i, m in zip([] if k is None else k if isinstance(k, list) else [k], n if isinstance(n, list) else [n]):
                pc = AND(pc, P_lt(i, m))
            v, c.why = self.settled(v, c.why, FALSE, TRUE, pc, axioms)
        self.ob(key, v, where, "" if v == EQ else "accepted although " + show(bad)[:200] + " | ".join(c.why[-2:]),
                sample=f"{where}: {key}: refused when {show(bad)[:300]}")
        return v

    def true(self, key, where, cond, detail="", definite=True):
        return self.ob(key, EQ if cond else (NE if definite else UNK), where, detail, sample=f"{where}: {key}")

    def guard(self, key, f, *a):
        """run one group of obligations; without what they are about they are undecided"""
        try:
            f(*a)
        except Missing as e:
            if not self.partial:
                self.ob(key, UNK, str(e), f"operation or type not found: {e}")


def entropies(t):
    return list(dict.fromkeys(x for x in subterms(t) if x.op == "entropy"))


def draws(t):
    return list(dict.fromkeys(x for x in subterms(t) if x.op == "draw"))


def argn(ctx, inst, rx, not_rx=None):
    """index of the argument whose type matches rx"""
    r = re.compile(rx)
    n_ = re.compile(not_rx) if not_rx else None
    xs = [n for n in range(inst["argc"]) if r.search(ctx.P.types[inst["locals"][n + 1]]["s"])
          and not (n_ and n_.search(ctx.P.types[inst["locals"][n + 1]]["s"]))]
    if len(xs) != 1:
        raise Missing(f"argument {rx} of {inst['path']}")
    return xs[0]


def families(t):
    """the families of draws in a term: draws with their bound index abstracted (index -> draw)"""
    J = mk("k", ("family",))
    out = []
    for d in draws(t):
        bs = [x for x in subterms(d) if x.op in ("bv", "k") and not (x.op == "k" and x.args[0] == ("family",))]
        g = subst(d, {b: J for b in bs}) if bs else d
        if g not in out:
            out.append(g)
    return [(lambda j, g=g: subst(g, {J: j})) for g in out]

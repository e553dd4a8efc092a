"""C02 - randomness."""
import re

from ..ctx import *
from . import scheme as S

RULE = ("Every draw of randomness evaluated in the value-flow analysis of each function of the crate that can reach a random generator: the state of the "
        "generator is (seed, number of earlier draws); the seed must be operating-system entropy obtained by a call inside the analysed operation (or be "
        "the caller's own generator), two draws must never be the same (seed, number), a draw inside a loop must differ in every iteration, and the "
        "random components of each named operation must be present.")
TRUST = ["rand_hc::Hc128Rng, cosmian_crypto_base::entropy::CsRng and rand::rngs::OsRng are cryptographic generators; from_entropy / new seed them from the OS"]

RNG = re.compile(r"(?i)rng|::random$|nonce.*::new$|entropy")

# operation -> (what must be drawn in it: kind, how many distinct families)
NEED = [
    ("generate_master_key", S.TRAIT + "generate_master_key$", "Scalar", 2),
    ("key_generation", S.TRAIT + "key_generation$", "Scalar", 1),
    ("key_delegation", S.TRAIT + "key_delegation$", "Scalar", 1),
    ("encrypt", S.TRAIT + "encrypt$", "Scalar", 1),
    ("generate_random_plaintext", S.TRAIT + "generate_random_plaintext$", "Gt", 1),
]


def site_name(ctx, e):
    return re.sub(r"<.*?>", "", e["site"][0])


def check(ctx):
    S.init(ctx)
    seen = set()
    n = 0
    for i in sorted(ctx.find("."), key=lambda x: x["path"]):
        if "{closure" in i["path"] or i["crate"] != ctx.P.crate:
            continue
        _, ext = ctx.P.reach(i)
        if not any(RNG.search(x) for x in ext):
            continue
        if re.search(r"::tests?::|decrypt", i["path"]) and not re.search("delegat", i["path"]) and not any(re.search(r"::random$|from_entropy|CsRng", x) for x in ext):
            continue
        n += 1
        one(ctx, i)
    ctx.true("operations drawing randomness are found", "crate", n >= 20, f"only {n}")
    for name, rx, kind, want in NEED:
        f = ctx.fn(rx, lambda i: "scheme" in i["path"])
        r = ctx.run(f, {}, stops=S.STOPS)
        ok, v = ok_part(r)
        j = mk("k", ("spec", "fam"))
        fs = [g(j) for g in families(v) if g(j).args[0] == kind]
        ctx.true(f"{name} draws what it needs", f["path"], len(fs) >= want, f"{kind} draws in its result: {[show(x) for x in fs]}"[:300])


def is_own_generator(ctx, r, seed):
    """the seed is the state of a generator passed in by the caller"""
    x = seed
    while x.op in ("load", "fld"):
        x = x.args[0]
    return x.op == "var" and any(x is a for a in r.args)


def one(ctx, i):
    r = ctx.run(i, {}, stops=S.STOPS)
    first = {}
    for e in r.ev("draw"):
        w = i["path"]
        d = e["value"]
        seed, cnt = d.args[1], d.args[2]
        where = site_name(ctx, e)
        if seed.op == "entropy":
            v = EQ
        elif seed.op == "seed":
            src = draws(seed)
            v = UNK if src and all(x.args[1].op == "entropy" for x in src) and seed.args[1:] == () else NE
        elif is_own_generator(ctx, r, seed):
            v = EQ if not i_exported(ctx, i) else NE
        else:
            v = NE
        ctx.ob(f"the generator used in {where} is seeded from OS entropy in the operation", v, w, show(seed)[:300])
        if any(x.op in ("phi", "unk") for x in subterms(d)):
            ctx.ob(f"the draw in {where} is distinct", UNK, w, show(d)[:200])
            continue
        key = (seed, cnt)
        # the same (seed, count) reached at another place of the program is the same random value
        o = first.setdefault(key, e)
        same = o["chain"] != e["chain"] and linear_possible(o, e)
        ctx.true(f"the draw in {where} is distinct from every other draw", w, not same, f"{show(d)[:200]} is also drawn in {site_name(ctx, o)}")
        lost = [k for k in e["ks"] if not contains(d, lambda x: x is k)]
        ctx.true(f"the draw in {where} differs in every iteration", w, not lost, f"{show(d)[:200]} does not depend on the iteration of the enclosing loop")


def linear_possible(a, b):
    """both draws can happen in one execution"""
    return AND(a["pc"], b["pc"]) is not FALSE and not linear.contradictory(units(AND(a["pc"], b["pc"])))


def i_exported(ctx, i):
    return any(x.get("export") and i["path"].endswith("::" + x["path"]) for x in ctx.P.items)

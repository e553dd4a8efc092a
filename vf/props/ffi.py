"""The C interface: entry points, argument roles by C type and position, accesses to caller memory."""
from ..ctx import *
from . import scheme as S
from . import hybrid as H

# inputs and outputs documented as optional: (function, kind, ordinals of that kind)
OPTIONAL = [
    (r"h_aes_encrypt_header(_using_cache)?$", "in", (-2, -1)),
    (r"h_aes_decrypt_header(_using_cache)?$", "out", (1, 2)),
    (r"h_aes_(en|de)crypt_block$", "in", (1,)),
]
NOT_STATUS = r"(h_get_encrypted_header_size|h_aes_symmetric_encryption_overhead)$"
EXPECTED = ["set_error", "get_last_error", "h_generate_master_keys", "h_generate_user_private_key", "h_rotate_attributes",
            "h_aes_create_encryption_cache", "h_aes_destroy_encryption_cache", "h_aes_encrypt_header_using_cache", "h_aes_encrypt_header",
            "h_aes_create_decryption_cache", "h_aes_destroy_decryption_cache", "h_aes_decrypt_header_using_cache",
            "h_get_encrypted_header_size", "h_aes_decrypt_header", "h_aes_symmetric_encryption_overhead", "h_aes_encrypt_block", "h_aes_decrypt_block"]


class Arg:
    def __init__(self, kind, n, name, ptr=None, len=None):
        self.kind, self.n, self.name, self.ptr, self.len = kind, n, name, ptr, len
        self.optional = False

    def cap(self):
        return mk("load", self.len)


def entry_points(ctx):
    """instances of the functions exported to C"""
    out = []
    for i in ctx.P.items:
        if i["kind"] == "Fn" and i.get("export") and 'extern "C" fn' in (i.get("sig") or ""):
            nm = i["path"].rsplit("::", 1)[-1]
            if nm.startswith("PyInit") or "::_::" in i["path"]:
                continue
            xs = ctx.find(re.escape(i["path"]) + "$")
            if xs:
                out.append((nm, xs[0]))
    return out


def entry(ctx, name):
    for nm, f in entry_points(ctx):
        if nm == name:
            return f
    raise Missing("C function " + name)


def args(ctx, nm, f):
    ty = [ctx.P.types[f["locals"][n + 1]]["s"] for n in range(f["argc"])]
    names = {}
    for x in f["names"]:
        if len(x["p"]) == 1:
            names.setdefault(x["p"][0], x["name"])
    v = [typed_var(names.get(n + 1, f"arg{n}"), ctx.P.types[f["locals"][n + 1]]["s"]) for n in range(f["argc"])]
    nn = lambda n: f"argument {n + 1}"
    out = []
    n = 0
    while n < len(ty):
        t, nx = ty[n], (ty[n + 1] if n + 1 < len(ty) else "")
        if re.match(r"\*mut (i8|u8)$", t) and re.match(r"\*mut i32$", nx):
            out.append(Arg("out", n, nn(n), v[n], v[n + 1]))
            n += 1
        elif re.match(r"\*const (i8|u8)$", t) and nx == "i32":
            out.append(Arg("in", n, nn(n), v[n], v[n + 1]))
            n += 1
        elif t.startswith("*const"):
            out.append(Arg("str", n, nn(n), v[n]))
        elif t.startswith("*mut"):
            out.append(Arg("outint", n, nn(n), v[n]))
        else:
            out.append(Arg("int", n, nn(n), None, v[n]))
        n += 1
    for rx_, kind, ords in OPTIONAL:
        if re.search(rx_, nm):
            ks = [a for a in out if a.kind == kind]
            for o in ords:
                if -len(ks) <= o < len(ks):
                    ks[o].optional = True
    return out


RUNS = {}


def run(ctx, nm, f):
    if nm not in RUNS:
        RUNS[nm] = ctx.run(f, {}, stops=H.STOPS)
    return RUNS[nm]


def ok_of(nm, r):
    if nm == "h_get_encrypted_header_size":
        return AND(r.st.pc, NOT(P_eq_int(r.ret, INT(1))))
    return AND(r.st.pc, P_eq_int(r.ret, INT(0)))


def failed(nm, r):
    """the function returned, with an error status"""
    if nm == "h_get_encrypted_header_size":
        a = r.args[0]
        return AND(r.st.pc, OR(null(a), P_le(r.args[1], INT(0))))
    return AND(r.st.pc, NOT(P_eq_int(r.ret, INT(0))))


def base(p):
    while p.op in ("ptradd", "cast"):
        p = p.args[0]
    return p


def accesses(r):
    """(pointer, condition, what) of every access through a raw pointer"""
    out = []
    for e in r.events:
        k = e["kind"]
        if k in ("deref", "rawslice", "cstr"):
            ps = [(e["ptr"], k)]
        elif k == "rawcopy":
            ps = [(e["src"], "copy from"), (e["dst"], "copy to")]
        elif k == "write" and e["target"][0] == "P":
            ps = [(e["target"][1], "write")]
        else:
            continue
        for p, w in ps:
            for c, l in split(p):
                out.append((l, AND(e["pc"], c), w, e))
    return out


def split(p):
    if p.op != "ite":
        return [(TRUE, p)]
    return [(lift(lambda y: TRUE if y is l else FALSE, p), l) for l in leaves(p)]


def null(p):
    return lit(mk("null", p))


def mem_writes(r):
    """writes to memory behind a pointer: (pointer, length, value, condition); memory written in
    pieces counts as one write of what it holds in the end"""
    out = []
    ws = [e for e in r.events if e["kind"] == "write" and e["target"][0] == "H"]
    pieces = {e["target"] for e in ws if e.get("path")}
    for e in ws:
        m = e["target"][1]
        if e["target"] in pieces:
            if m.op != "mem":
                out.append((m, None, e["value"], e["pc"], e))
            elif not any(x is e["target"][1] for x in pieces_done(out)):
                pc = FALSE
                for x in ws:
                    if x["target"] == e["target"]:
                        pc = OR(pc, x["pc"])
                out.append((m.args[0], m.args[1], restrict(final(r, e["target"]), pc), pc, dict(e, path=())))
        elif m.op == "mem":
            out.append((m.args[0], m.args[1], e["value"], e["pc"], e))
        else:
            out.append((m, None, e["value"], e["pc"], e))
    return out


def pieces_done(out):
    return [e["target"][1] for _, _, _, _, e in out if "target" in e]


def final(r, loc):
    return r.E.get(r.st, loc)

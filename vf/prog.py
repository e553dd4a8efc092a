"""The resolved program: typed, monomorphised MIR exported by driver/ (mirdump)."""
import json


class Prog:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.raw = d
        self.types = d["types"]
        self.inst = d["instances"]
        self.items = d["items"]
        self.unsafe_blocks = d["unsafe_blocks"]
        self.missing = d["missing"]
        self.crate = d["crate"]
        self.by_path = {}
        for i in self.inst:
            if i is None:
                continue
            i["name"] = norm(i["name"])
            i["path"] = norm(i["path"])
            self.by_path.setdefault(i["path"], []).append(i)
        self._loops = {}

    def refs(self, i):
        """functions referenced by an instance: (instance ids, external paths)"""
        c = self.__dict__.setdefault("_refs", {})
        if i["id"] in c:
            return c[i["id"]]
        tys = set(i["locals"])

        def walk(x):
            if isinstance(x, dict):
                if "const" in x and isinstance(x["const"], dict) and "ty" in x["const"]:
                    tys.add(x["const"]["ty"])
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(i["blocks"])
        ids, ext = set(), set()
        todo, seen = list(tys), set()
        while todo:
            k = todo.pop()
            if k in seen or k is None:
                continue
            seen.add(k)
            t = self.types[k]
            if t["k"] == "fndef" and t.get("fn"):
                f = t["fn"]
                if f.get("id") is not None:
                    ids.add(f["id"])
                else:
                    ext.add(f["path"])
                todo += [a for a in f.get("args", []) if type(a) is int and self.types[a]["k"] in ("fndef", "closure")]
            elif t["k"] == "closure" and t.get("body") is not None:
                ids.add(t["body"])
        c[i["id"]] = (ids, ext)
        return c[i["id"]]

    def reach(self, i):
        """ids of instances and paths of external functions reachable from i"""
        ids, ext, todo = {i["id"]}, set(), [i["id"]]
        while todo:
            j = self.inst[todo.pop()]
            if j is None:
                continue
            a, b = self.refs(j)
            ext |= b
            for x in a - ids:
                ids.add(x)
                todo.append(x)
        return ids, ext

    def tystr(self, t):
        return self.types[t]["s"]

    def find(self, suffix, pred=None):
        """Instances whose path ends with `suffix` (on a :: boundary)."""
        out = []
        for i in self.inst:
            if i is None:
                continue
            p = i["path"]
            if p == suffix or p.endswith("::" + suffix):
                if pred is None or pred(i):
                    out.append(i)
        return out


def norm(p):
    for a, b in (("std::", ""), ("core::", ""), ("alloc::", "")):
        pass
    return p


def place(p):
    s = f"_{p[0]}"
    for e in p[1:]:
        if e == "*":
            s = f"(*{s})"
        elif "f" in e:
            s += f".{e['f']}"
        elif "v" in e:
            s += f" as v{e['v']}"
        elif "ix" in e:
            s += f"[_{e['ix']}]"
        else:
            s += str(e)
    return s


def op(P, o):
    if "copy" in o:
        return place(o["copy"])
    if "move" in o:
        return "mv " + place(o["move"])
    if "const" in o:
        c = o["const"]
        t = P.types[c["ty"]]
        if "v" in c:
            return f"{c['v']}" + (f"<{c['path']}>" if "path" in c else "")
        if "str" in c:
            return repr(c["str"])
        if t.get("k") == "fndef":
            return t["fn"]["name"] if "fn" in t else t["def"]
        return "const:" + t["s"][:60] + str({k: v for k, v in c.items() if k != "ty"})[:80]
    return str(o)


def rv(P, r):
    k = r["k"]
    if k == "use":
        return op(P, r["op"])
    if k in ("ref", "addr"):
        return ("&mut " if r["mut"] else "&") + place(r["p"])
    if k in ("len", "discr"):
        return f"{k}({place(r['p'])})"
    if k == "cast":
        return f"{op(P, r['op'])} as[{r['ck']}] {P.tystr(r['ty'])}"
    if k in ("bin", "cbin"):
        return f"{k} {r['op']}({op(P, r['l'])}, {op(P, r['r'])})"
    if k == "un":
        return f"{r['op']}({op(P, r['o'])})"
    if k == "agg":
        n = r["a"] + (":" + P.tystr(r["ty"])[:80] + "#" + str(r.get("variant")) if "ty" in r else "")
        return f"{n} [{', '.join(op(P, x) for x in r['ops'])}]"
    return str(r)


def show(P, i, cleanup=False):
    print(f"fn {i['name']}  id={i['id']} {i['sp']} argc={i['argc']} caps={i['captures']}")
    for n, t in enumerate(i["locals"]):
        nm = [x["name"] + ":" + place(x["p"]) for x in i["names"] if x["p"][0] == n]
        print(f"  _{n}: {P.tystr(t)[:110]} {nm if nm else ''}")
    for b, bb in enumerate(i["blocks"]):
        print(f" bb{b}:")
        for s in bb["s"]:
            if s["k"] == "=":
                print(f"   {place(s['p'])} = {rv(P, s['r'])}")
            elif s["k"] != "dead":
                print("  ", s)
        t = bb["t"]
        k = t["k"]
        if k == "call":
            print(f"   {place(t['dest'])} = CALL {op(P, t['f'])}({', '.join(op(P, a) for a in t['args'])}) -> {t['t']}")
        elif k == "switch":
            print(f"   switch {op(P, t['d'])} {t['br']} else {t['else']}")
        elif k == "assert":
            print(f"   assert {op(P, t['c'])}=={t['exp']} {t['m']} {[op(P, x) for x in t['mops']]} -> {t['t']}")
        elif k == "drop":
            print(f"   drop {place(t['p'])} -> {t['t']}")
        else:
            print("  ", {a: v for a, v in t.items() if a != 'sp'})


if __name__ == "__main__":
    import sys

    P = Prog("/verif/build/dump.json")
    for i in P.find(sys.argv[1]):
        show(P, i)
        break

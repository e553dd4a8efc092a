"""Which lock guards are alive where: a forward may-analysis over MIR (normal edges only)."""
import re

GUARD = re.compile(r"(^|[^:\w])(std|core|parking_lot|lock_api|spin)::[\w:]*?(RwLockReadGuard|RwLockWriteGuard|MutexGuard|MappedRwLock\w+Guard|MappedMutexGuard|ReentrantLockGuard)<")
WRITE = re.compile(r"(RwLockWriteGuard|MutexGuard)<")
REQUEST = re.compile(r"(RwLock|Mutex|ReentrantLock)(::<.*?>)?::(read|write|lock|try_read|try_write|try_lock|get_mut|into_inner)$")
ASK = re.compile(r"(RwLock|Mutex|ReentrantLock)(::<.*?>)?::(read|write|lock)$")
TRY = re.compile(r"(RwLock|Mutex|ReentrantLock)(::<.*?>)?::try_(read|write|lock)$")


def kind(P, ty, seen=()):
    """'w', 'r' or None: does a value of the type own a guard, and does it allow writing?"""
    memo = P.__dict__.setdefault("_guardkind", {})
    if ty in memo:
        return memo[ty]
    t = P.types[ty]
    s = t["s"]
    r = None
    if not s.startswith("&") and not s.startswith("*") and "PoisonError" not in s.split("<")[0] and t["k"] not in ("fndef", "fnptr"):
        # a Result<Guard, PoisonError<Guard>> owns a guard too
        if t["k"] in ("adt", "tuple", "closure", "array", "dyn") or s.startswith("("):
            if GUARD.search(" " + s):
                r = "w" if WRITE.search(s) else "r"
            elif t.get("local") and ty not in seen:
                for v in t.get("variants", ()):
                    for f in v["fields"]:
                        if isinstance(f.get("ty"), int):
                            k = kind(P, f["ty"], seen + (ty,))
                            r = k if k == "w" or r is None else r
    if not seen:
        memo[ty] = r
    return r


def callee(P, t):
    """(fndef type record or None) of a call terminator"""
    f = t.get("f", {})
    if "const" in f:
        ty = P.types[f["const"]["ty"]]
        if ty["k"] == "fndef" and ty.get("fn"):
            return ty["fn"]
    return None


def moved(o):
    """(local, whole) moved by an operand"""
    if isinstance(o, dict) and "move" in o:
        return o["move"][0], len(o["move"]) == 1
    return None


def operands(r):
    out = []

    def walk(x):
        if isinstance(x, dict):
            if "move" in x or "copy" in x or "const" in x:
                out.append(x)
                return
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(r)
    return out


def succ(t):
    k = t["k"]
    if k == "switch":
        out = [b[-1] if isinstance(b, list) else b for b in t["br"]]
        return out + ([t["else"]] if t.get("else") is not None else [])
    return [t["t"]] if t.get("t") is not None else []


def live(P, inst):
    """per block: the guards alive when its terminator runs; and those alive after it"""
    own = {n: kind(P, ty) for n, ty in enumerate(inst["locals"])}
    own = {n: k for n, k in own.items() if k}
    if not own:
        return own, {}
    entry = {0: frozenset(n for n in own if 1 <= n <= inst["argc"])}
    at_term = {}
    todo = [0]
    while todo:
        b = todo.pop()
        bb = inst["blocks"][b]
        s = set(entry[b])

        def consume(ops):
            for o in ops:
                m = moved(o)
                if m and m[0] in own:
                    # moving a part that owns the guard empties the whole
                    s.discard(m[0])
        for x in bb["s"]:
            if x["k"] == "=":
                ops = operands(x["r"])
                consume(ops)
                d = x["p"]
                if d[0] in own:
                    src = [o for o in ops if "move" in o or "copy" in o]
                    if not (len(d) == 1 and x["r"]["k"] in ("agg",) and not owns_any(P, inst, x["r"])):
                        s.add(d[0])
            elif x["k"] == "dead":
                s.discard(x["l"])
        t = bb["t"]
        if t is None:
            continue
        at_term[b] = frozenset(s)
        if t["k"] == "call":
            consume(t["args"])
            # guards passed by value are the callee's now
            after = set(s)
            if t["dest"][0] in own:
                after.add(t["dest"][0])
            s = after
        elif t["k"] == "drop":
            if t["p"][0] in own:
                s.discard(t["p"][0])
        for n in succ(t):
            if n is None or n >= len(inst["blocks"]) or inst["blocks"][n] is None:
                continue
            new = entry.get(n, frozenset()) | s
            if n not in entry or new != entry[n]:
                entry[n] = frozenset(new)
                todo.append(n)
    return own, at_term


def owns_any(P, inst, r):
    for o in operands(r):
        if "move" in o and kind(P, inst["locals"][o["move"][0]]):
            return True
    return False

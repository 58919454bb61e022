"""Seeded plans: base(property, seed, family) without faults, variant(base, ...) with faults placed by what the base run measured."""
import copy, random
import model

NV = len(model.VERSIONS)
UNKNOWN = ["Xx", "", "lu", "LU", "Lu ", " Lu", "L&", "LC", "Luu", "N0", "Uppercase_Letter", "Ll\u0000", "\u2603", "Cs,Cc", "lL", "xn", "Lu\n"]
EXC_NAMES = ["Own", "OwnValue", "KeyError", "RuntimeError", "KeyboardInterrupt", "SystemExit", "MemoryError", "TypeError", "GeneratorExit",
             "Interrupt", "UnicodeError", "OSError", "AttributeError", "OverflowError", "RecursionError", "LookupError"]
PLAIN = ["list", "list", "list", "tuple", "set", "frozenset", "dict", "keys", "values", "deque", "listiter", "gen", "map", "iter"]
CALLBACK = ["gen", "iter", "map", "fresh", "sized", "seq", "abc", "old", "hint", "listsub", "tuplesub", "dictsub"]
MARKS = [0, 1, 31, 32, 47, 48, 57, 64, 65, 90, 97, 122, 126, 127, 128, 159, 160, 191, 192, 255, 256, 257, 0x2FF, 0x377, 0x378, 0x3000, 0x4DFF, 0x9FFF,
         0xD7FF, 0xD800, 0xDB7F, 0xDFFF, 0xE000, 0xF8FF, 0xFFFF, 0x10000, 0x1F600, 0xE0FFF, 0xF0000, 0xFFFFD, 0xFFFFE, 0x10FFFD, 0x10FFFE, 0x10FFFF]


def rng(*k):
    return random.Random("/".join(map(str, k)))


def ver(r, focus=None):
    if r.random() < 0.25:
        return None
    i = r.choice(focus) if focus and r.random() < 0.7 else r.randrange(NV)
    return [i, r.randrange(4)]


def cats(r, classes=False):
    n = r.choice([0, 1, 1, 1, 2, 2, 3, 5, 8, 15, 29, 30])
    pool = model.CATS + (list(model.CLASSES) * 2 if classes else [])
    l = [r.choice(pool) for _ in range(n)] if r.random() < 0.3 else r.sample(pool, min(n, len(pool)))
    return l


def chars(r, small=False):
    k = r.choice([0, 1, 1, 2, 3, 6, 12]) if r.random() < 0.98 else r.randrange(30, 1500)
    out = []
    c = 0
    for i in range(k):
        x = r.random()
        if i and x < 0.3:
            c = min(c + r.choice([0, 1, 1, 2]), model.MAX)
        elif small or x < 0.55:
            c = r.randrange(256 if x < 0.4 else 128)
        elif x < 0.7:
            c = r.choice(MARKS)
        elif x < 0.85:
            d = model.DATA[r.randrange(NV)]
            c = r.choice([r.choice(d.starts), r.choice(d.ends)])
        else:
            c = r.randrange(model.MAX + 1)
        if 0xD800 <= c <= 0xDFFF:
            c = 0xD7FF
        out.append(chr(c))
    return "".join(out)


def bound(r, v):
    x = r.random()
    if x < 0.3:
        return r.choice(MARKS)
    if x < 0.5:
        return r.randrange(256)
    if x < 0.75:
        d = model.DATA[v]
        return max(0, min(model.MAX, r.choice([r.choice(d.starts), r.choice(d.ends)]) + r.choice([-1, 0, 0, 1])))
    if x < 0.78:
        return r.choice([model.MAX + 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF])
    return r.randrange(model.MAX + 1)


def plain_iter(r, items):
    return {"t": r.choice(PLAIN), "items": items}


def query(r, focus=None, simple=False):
    op = {"k": "query"}
    v = ver(r, focus)
    if v is not None:
        op["v"] = v
    i = model.LATEST if v is None else v[0]
    if r.random() < 0.6:
        op["inc"] = plain_iter(r, cats(r))
    if r.random() < 0.35:
        op["exc"] = plain_iter(r, cats(r))
    for key in ("inc", "exc"):
        if key in op and r.random() < 0.04:
            op[key] = {"t": "none"}
        elif key in op and r.random() < 0.06:
            op[key]["items"] = op[key]["items"] + [r.choice(UNKNOWN)]
    small = r.random() < 0.3
    if small:
        op["hi"] = r.randrange(256)
        if r.random() < 0.5:
            op["lo"] = r.randrange(op["hi"] + 2)
    else:
        if r.random() < 0.5:
            op["lo"] = bound(r, i)
        if r.random() < 0.5:
            op["hi"] = bound(r, i)
        if "lo" in op and "hi" in op and op["lo"] > op["hi"] and r.random() < 0.85:
            op["lo"], op["hi"] = op["hi"], op["lo"]
    if r.random() < 0.4:
        op["ic"] = chars(r, small and r.random() < 0.7)
    if r.random() < 0.4:
        op["ec"] = chars(r, small and r.random() < 0.7)
        if "ic" in op and r.random() < 0.3:
            op["ec"] += op["ic"][:2]
    if not simple and r.random() < 0.15:
        op["odd"] = odd(r)
    return op


def odd(r):
    """Unusual values for the scalar arguments."""
    out = {}
    for key in r.sample(["lo", "hi", "ic", "ec"], r.choice([1, 1, 1, 2])):
        if key in ("lo", "hi"):
            x = r.random()
            if x < 0.35:
                n = r.choice([1 << 32, 1 << 33, 1 << 40, 1 << 63, 1 << 64, 1 << 65, 1 << 100])
                n = r.choice([n, n - 1, n + r.randrange(0x110000), n + 65, -n, -1, -2, -65, n + (n >> 1)])
                out[key] = ["int", n if n > 0xFFFFFFFF or n < 0 else 1 << 32]
            elif x < 0.8:
                out[key] = ["index", []]
            else:
                out[key] = [r.choice(["sub", "none", "bool"])]
        else:
            x = r.random()
            out[key] = ["sur", chr(r.choice([0xD800, 0xDBFF, 0xDC00, 0xDFFF]))] if x < 0.4 else ["sub"]
    return out


def expand(r, focus=None):
    op = {"k": "exp", "inc": plain_iter(r, cats(r, True))}
    v = ver(r, focus)
    if v is not None:
        op["v"] = v
    if r.random() < 0.1:
        op["inc"]["items"] = op["inc"]["items"] + [r.choice(UNKNOWN)]
    if r.random() < 0.3:
        op["kw"] = 1
    if r.random() < 0.5:
        op["pos"] = 1
    return op


def cat(r, focus=None):
    op = {"k": "cat"}
    v = ver(r, focus)
    if v is not None:
        op["v"] = v
    if r.random() < 0.4:
        op["pos"] = 1
    if r.random() < 0.3:
        op["none"] = 1
    return op


def version_op(r):
    if r.random() < 0.5:
        s = r.choice(model.VERSIONS)
        if r.random() < 0.2:
            s = r.choice(["", "9", "16.0", "16.0.0.0", "99.0.0", "V16_0_0", "16.0.0 ", "1.1.0", "12.1", "010.0.0", "\u0669.0.0", "17.0.1"])
        return {"k": "ver", "s": s}
    return {"k": "look", "v": [r.randrange(NV), r.randrange(4)], "latest": int(r.random() < 0.2)}


def any_op(r, focus=None):
    x = r.random()
    if x < 0.45:
        return query(r, focus)
    if x < 0.7:
        return expand(r, focus)
    if x < 0.85:
        return cat(r, focus)
    return version_op(r)


def related(r, old, focus):
    """The same call with one thing different: what a wrong cache key would confuse."""
    op = copy.deepcopy(old)
    op.pop("odd", None)
    for key in ("pre", "rep"):
        op.pop(key, None)
    for _ in range(r.choice([1, 1, 1, 2])):
        x = r.random()
        key = r.choice(["inc", "exc"])
        if x < 0.35:
            v = ver(r, focus)
            op.pop("v", None) if v is None and op["k"] != "look" else op.__setitem__("v", v or [0, 0])
        elif x < 0.6 and op.get(key, {}).get("items"):
            items = op[key]["items"]
            y = r.random()
            if y < 0.3:
                r.shuffle(items)
            elif y < 0.5:
                items.pop(r.randrange(len(items)))
            elif y < 0.8:
                items[r.randrange(len(items))] = r.choice(model.CATS)
            else:
                items.append(r.choice(items))
        elif x < 0.7 and op["k"] == "query":
            a, b = op.pop("inc", None), op.pop("exc", None)
            if a:
                op["exc"] = a
            if b:
                op["inc"] = b
        elif x < 0.8 and op["k"] == "query":
            a, b = op.pop("ic", None), op.pop("ec", None)
            if a is not None:
                op["ec"] = a
            if b is not None:
                op["ic"] = b
        elif op["k"] == "query":
            y = r.choice(["lo", "hi", "ic", "ec"])
            if y in op and r.random() < 0.5:
                op.pop(y)
            elif y in ("ic", "ec"):
                op[y] = op.get(y, "") + chars(r, True)
            else:
                op[y] = max(0, min(0xFFFFFFFF, op[y] + r.choice([-1, 1, -256, 256]))) if y in op else bound(r, version_of(op))
    return op


def tiny(r, what):
    """One of many calls."""
    if what == "cat" or r.random() < 0.1:
        return cat(r)
    if r.random() < 0.3:
        op = expand(r)
        op["inc"]["t"] = r.choice(["list", "tuple"])
        return op
    lo = r.choice([r.randrange(256), r.randrange(256), r.randrange(0x3000), bound(r, model.LATEST)])
    op = {"k": "query", "lo": lo, "hi": min(lo + r.choice([0, 1, 40, 200]), 0xFFFFFFFF)}
    for key, p in (("inc", 0.8), ("exc", 0.2)):
        if r.random() < p:
            op[key] = {"t": "list", "items": cats(r)}
    for key in ("ic", "ec"):
        if r.random() < 0.2:
            op[key] = chars(r, True)
    if r.random() < 0.1:
        op.pop("lo")
    v = ver(r)
    if v is not None:
        op["v"] = v
    return op


def version_of(op):
    return op["v"][0] if "v" in op else model.LATEST


# ---------------------------------------------------------------------- actions
def actions(r, prop, ntasks, me, depth=0, callback=False):
    """What happens inside a callback, collection or finaliser."""
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        x = r.random()
        if x < 0.45 and ntasks > 1:
            out.append(["sw", r.randrange(ntasks)])
        elif x < 0.55:
            out.append(["gc"])
        elif x < 0.65 and depth == 0:
            out.append(["fin", actions(r, prop, ntasks, me, 1)])
        elif x < 0.95 or depth:
            o = cat(r) if prop in ("C09", "C10") and r.random() < 0.8 else any_op(r)
            out.append(["op", o])
        elif ntasks > 1:
            out.append(["sw", r.randrange(ntasks)])
    return out


def faulty_iter(r, ntasks, me, classes):
    """C12: an iterable with callbacks, faults and lies."""
    x = r.random()
    if x < 0.06:
        return r.choice([{"t": "str", "s": r.choice(["Lu", "LuLl", "", "N"])}, {"t": "substr", "s": r.choice(["Lu", "N", ""])}, {"t": "num"},
                         {"t": "baditer"}, {"t": "noniter"}])
    if x < 0.16:
        return {"t": r.choice(["shared", "shared", "shared", "sharedlist"]), "l": r.randrange(3),
                "act": {str(p): actions12(r, ntasks, me, False) for p in r.sample(range(8), r.choice([1, 2, 3]))}}
    items = cats(r, classes)
    if r.random() < 0.15:
        items = items * r.choice([2, 5, 20])
    s = {"t": r.choice(CALLBACK) if r.random() < 0.7 else r.choice(PLAIN), "items": items}
    n = len(items)
    if r.random() < 0.25:
        pos = r.randrange(n + 1)
        kind = r.choice(["sub", "sub", "int", "bytes", "none", "odd", "list", "float", "tuple", "barr"])
        if s["t"] in ("set", "frozenset", "dict", "keys") and kind in ("list", "barr", "none", "odd", "bytes", "tuple", "float"):
            kind = "int"
        items.insert(pos, [kind, r.choice(model.CATS)])
    if r.random() < 0.12:
        items.insert(r.randrange(len(items) + 1), r.choice(UNKNOWN))
    n = len(items)
    act = {}
    if r.random() < 0.6:
        for _ in range(r.choice([1, 1, 2, 4])):
            p = r.choice([-1, 0, n, r.randrange(n + 1)])
            act[str(p)] = actions12(r, ntasks, me, True)
    if act:
        s["act"] = act
    if s["t"] in ("sized", "seq", "abc", "hint", "listsub") and r.random() < 0.7:
        s["len"] = r.choice([0, 0, 1, n - 1, n + 1, n + 7, 1000, 1 << 20, (1 << 31) - 1, 1 << 31, 1 << 40, 1 << 59, 1 << 62, (1 << 63) - 1, -1, "Own",
                             "KeyboardInterrupt", "MemoryError", "TypeError", "OverflowError"])
    return s


def actions12(r, ntasks, me, may_raise):
    out = []
    for _ in range(r.choice([1, 1, 2])):
        x = r.random()
        if x < 0.3 and may_raise:
            out.append(["raise", r.choice(EXC_NAMES)])
            break
        if x < 0.55 and ntasks > 1:
            out.append(["sw", r.randrange(ntasks)])
        elif x < 0.7:
            out.append(["mut", r.randrange(3), r.choice(["clear", "pop", "add", "ins", "rev"]), r.choice(model.CATS)])
        elif x < 0.75:
            out.append(["gc"])
        else:
            out.append(["op", any_op(r)])
    return out


def base(prop, seed, f):
    r = rng("base", prop, seed, f)
    focus = r.sample(range(NV), r.choice([1, 1, 2, 3, 5]))
    nt = {"C09": r.choice([1, 2, 2, 3, 3, 4, 6]), "C10": r.choice([1, 2, 2, 3, 4]), "C11": r.choice([1, 2, 2, 3, 4]),
          "C12": r.choice([1, 1, 2, 2, 3]), "C13": r.choice([1, 1, 1, 2])}[prop]
    p = {"property": prop, "seed": seed, "family": f, "sched_seed": r.getrandbits(63), "interval": r.choice([0.005, 0.005, 1e-3, 1e-4, 1e-5, 1e-6]), "tasks": []}
    if prop in ("C12", "C13"):
        p["lists"] = [cats(r, False) for _ in range(3)]
    hist = []
    for t in range(nt):
        ops = []
        for k in range(r.choice([1, 2, 3, 4, 6] if prop != "C13" else [1, 1, 2, 3])):
            if prop in ("C09", "C10"):
                op = cat(r, focus) if r.random() < 0.85 else any_op(r, focus)
            elif prop == "C11":
                op = any_op(r, focus)
            elif prop == "C12":
                op = query(r, focus) if r.random() < 0.6 else expand(r, focus)
            else:
                op = any_op(r, focus)
            if hist and r.random() < 0.35:
                op = related(r, r.choice(hist), focus)
            if op["k"] != "ver":
                hist.append(op)
            if r.random() < 0.03 and prop != "C13":
                op["rep"] = r.choice([2, 3, 10, 70, 130, 260])
            for o in op.get("odd", {}).values():
                if o[0] == "index" and r.random() < 0.7:
                    o[1] = actions(r, prop, nt, t) if prop != "C13" else []
            if nt > 1 and r.random() < 0.5:
                op["pre"] = [["sw", r.randrange(nt)]]
            ops.append(op)
        p["tasks"].append(ops)
    if r.random() < 0.012 and prop in ("C09", "C10", "C11", "C12"):  # a long history
        for ops in p["tasks"]:
            ops.insert(r.randrange(len(ops) + 1), {"k": "many", "what": "cat" if prop in ("C09", "C10") else "any", "s": r.getrandbits(40),
                                                   "n": r.randrange(200, r.choice([300, 700, 2000]))})
    if prop in ("C11", "C13") and r.random() < 0.12:
        ops = r.choice(p["tasks"])
        ops.insert(r.randrange(len(ops) + 1), {"k": "bad", "n": r.randrange(BAD), "v": [r.randrange(NV), r.randrange(4)]})
    return p


def variant(b, seed, f, k, measures):
    """Adds faults to a copy of the base plan."""
    prop = b["property"]
    r = rng("variant", prop, seed, f, k)
    p = copy.deepcopy(b)
    p["tasks_measured"] = 1
    p["variant"] = k
    if r.random() < 0.7:
        p["sched_seed"] = r.getrandbits(63)
    nt = len(p["tasks"])
    ops = [(t, i, op) for t, l in enumerate(p["tasks"]) for i, op in enumerate(l)]
    m = lambda t, i: measures.get(f"{t}/{i}", [0, 0, 0, 0, []])

    def collections(op, t, i, n, forks):
        g = m(t, i)[1]
        g = max(g, r.choice([1, 1, 1, 3])) if prop in ("C09", "C10") and op["k"] == "cat" else g  # the first call may be another one this time
        if not g:
            return
        op.setdefault("gc", [])
        for _ in range(n):
            at = r.choice([0, 0, g - 1, r.randrange(g)])
            if any(x[0] == at for x in op["gc"]):
                continue
            a = actions(r, prop, nt, t)
            if forks and r.random() < 0.35:
                a.insert(r.randrange(len(a) + 1), ["fork"])
            op["gc"].append([at, a])

    def failure(op, t, i):
        a = m(t, i)[2]
        if m(t, i)[3] and prop != "C13":  # the known finding abort-while-raising
            return
        if a < 1:
            a = 8
        for key in ("inc", "exc"):  # CPython itself turns a failure while it pushes a frame into SystemError
            if key in op and op[key]["t"] in ("gen", "map", "iter", "fresh", "sized", "seq", "abc", "old", "hint", "listsub"):
                op[key] = {"t": "list", "items": op[key]["items"]}
        op["fail"] = [r.randrange(a + 2) if r.random() < 0.9 else 0, r.choice([1, 1, 1, 2, 3, 1000]) if prop == "C13" else 1]

    def preempt(t, i, n):
        s, fi = m(t, i)[0], m(t, i)[4]
        if s < 1:
            return
        for _ in range(n):
            step = r.choice(fi) if fi and r.random() < 0.6 else 1 + r.randrange(s)
            p.setdefault("events", []).append([t, i, step, r.choice([1, 1, 1, 1, 3, 4]), r.choice([-1, r.randrange(nt)])])
            if p["events"][-1][3] != 1:
                iv = int(p["interval"] * 1e9)  # a pause holds the GIL: the others time out every interval
                p["events"][-1][4] = r.choice([1000, iv, iv * 3, iv * 50]) if p["events"][-1][3] == 3 else r.choice([1000, 10_000_000, 10 ** 10, 10 ** 14])

    if prop == "C13":
        if k % 3 == 1:  # conservation
            t, i, op = r.choice(ops)
            for l in p["tasks"]:
                for o in l:
                    o.pop("pre", None)
            inner = op
            if r.random() < 0.35:
                inner = faulty(r, inner, 1, 0)
            elif r.random() < 0.7:
                failure(inner, t, i)
            p["tasks"] = [[{"k": "leak", "op": inner}]]
            without_mutations(inner)
            return p
        for t, i, op in ops:
            if r.random() < 0.8:
                failure(op, t, i)
            if r.random() < 0.15:
                collections(op, t, i, 1, False)
        return p
    if prop in ("C09", "C10"):
        for t, i, op in r.sample(ops, min(len(ops), r.choice([1, 1, 2, 3]))):
            collections(op, t, i, r.choice([1, 1, 2, 4]), prop == "C10")
        for t, i, op in ops:
            if r.random() < 0.15:
                failure(op, t, i)
            if r.random() < 0.2:
                preempt(t, i, r.choice([1, 2]))
        return p
    if prop == "C11":
        for t, i, op in ops:
            if "inc" in op and op["inc"]["t"] != "none" and r.random() < 0.5:
                n = len(op["inc"]["items"])
                op["inc"] = {"t": r.choice(CALLBACK), "items": op["inc"]["items"],
                             "act": {str(x): [["sw", r.randrange(nt)]] if r.random() < 0.7 else [["op", any_op(r)]] for x in {0, r.randrange(n + 1)}}}
            if r.random() < 0.4:
                collections(op, t, i, r.choice([1, 2]), False)
            if r.random() < 0.4:
                preempt(t, i, r.choice([1, 2]))
        return p
    if prop == "C12":
        for l in p["tasks"]:
            for i, op in enumerate(l):
                l[i] = faulty(r, op, nt, 0)
        for t, i, op in ops:
            if r.random() < 0.1:
                collections(p["tasks"][t][i], t, i, 1, False)
        return p
    raise AssertionError(prop)


def without_mutations(op):
    """Every round the same."""
    def strip(acts):
        acts[:] = [a for a in acts if a[0] != "mut"]
        for a in acts:
            if a[0] == "op":
                without_mutations(a[1])
            elif a[0] == "fin":
                strip(a[1])
    for key in ("inc", "exc"):
        for acts in (op.get(key) or {}).get("act", {}).values():
            strip(acts)
    for g in op.get("gc", []):
        strip(g[1])


def faulty(r, op, nt, me):
    if op["k"] == "exp":
        op["inc"] = faulty_iter(r, nt, me, True)
    elif op["k"] == "query":
        x = r.random()
        if x < 0.8:
            op["inc"] = faulty_iter(r, nt, me, False)
        if x > 0.55:
            op["exc"] = faulty_iter(r, nt, me, False)
    return op


BAD = 23
VARIANTS = {"C09": 7, "C10": 8, "C11": 5, "C12": 5, "C13": 9}

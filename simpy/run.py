"""Executes one plan in this (forked) process under the simulator, and judges what happens."""
import _thread, collections, collections.abc, ctypes as C, gc, hashlib, json, os, sys, warnings
import rt, model, gen
import unicode_intervals as U

NATIVE = all(type(getattr(U, n)).__name__ == "builtin_function_or_method" for n in ("query", "categories", "as_general_categories"))
PACKAGE = os.path.dirname(os.path.abspath(U.__file__))
COUNTS = ("calls callbacks switches_in_callbacks collections finaliser_calls reentrant_calls forks alloc_failures iterable_raises "
          "bad_items wrong_lengths mutations calls_that_raised gc_points package_opcodes odd_arguments").split()


class Violation(BaseException):
    def __init__(self, cls, text):
        BaseException.__init__(self, text)
        self.cls, self.text = cls, text


class Interrupt(BaseException):
    pass


class Own(Exception):
    pass


class OwnValue(ValueError):
    pass


class State:
    pass


class It:
    def __init__(s, st):
        s.st, s.i = st, 0

    def __iter__(s):
        return s

    def __next__(s):
        i, st = s.i, s.st
        st.visit(i)
        if i >= len(st.vals):
            raise StopIteration
        s.i = i + 1
        return st.vals[i]


def length(s):
    st = s.st
    with rt.paused():
        st.run.counts["wrong_lengths"] += 1
    if isinstance(st.lie, str):
        e = EXCS[st.lie]("length")
        st.info["maybe"].append(e)
        raise e
    if st.lie is None:
        return len(st.vals)
    if st.lie < 0 or st.lie >= 1 << 31:
        st.info["huge"] = True
    return st.lie


class HintIt(It):
    __length_hint__ = length


class Fresh:
    def __init__(s, st):
        s.st = st

    def __iter__(s):
        s.st.visit(-1)
        return It(s.st)


class Sized(Fresh):
    __len__ = length


class Item:
    def __getitem__(s, i):
        s.st.visit(i)
        if not 0 <= i < len(s.st.vals):
            raise IndexError(i)
        return s.st.vals[i]


class OldSeq(Item):
    def __init__(s, st):
        s.st = st


class Seq(Item, Sized):
    def __contains__(s, x):
        return x in s.st.vals


class Abc(Item, Sized, collections.abc.Sequence):
    pass


class ListSub(list):
    """What it iterates over is not what it stores."""
    def __init__(s, st):
        list.__init__(s, st.vals[1:] + ["Zs"] if len(st.vals) % 3 else st.vals[:-1])
        s.st = st

    __len__ = length
    __iter__ = Fresh.__iter__


class TupleSub(tuple):
    def __new__(c, st):
        return tuple.__new__(c, st.vals[1:] + ["Zl"])

    def __init__(s, st):
        s.st = st

    __iter__ = Fresh.__iter__


class DictSub(dict):
    def __init__(s, st):
        dict.__init__(s, {"Zp": 1})
        s.st = st

    __iter__ = Fresh.__iter__


class BadIter:
    def __init__(s, st):
        pass

    def __iter__(s):
        return 7


class NonIter:
    def __init__(s, st):
        pass


class Cycle:
    def __init__(s, run, acts):
        s.run, s.acts, s.c = run, acts, s

    def __del__(s):
        s.run.act(s.acts)


VNAMES = [sys.intern("V" + v.replace(".", "_")) for v in model.VERSIONS]
OPS = {k: sys.intern("op_" + k) for k in ("query", "exp", "cat", "ver", "look", "leak", "many", "bad")}
ARRAYS = [rt.L * max(1, n) for n in range(16)]
OUT4 = rt.L * 4
EXCS = {"Own": Own, "OwnValue": OwnValue, "KeyError": KeyError, "RuntimeError": RuntimeError, "KeyboardInterrupt": KeyboardInterrupt,
        "SystemExit": SystemExit, "MemoryError": MemoryError, "TypeError": TypeError, "GeneratorExit": GeneratorExit,
        "Interrupt": Interrupt, "UnicodeError": UnicodeError, "OSError": OSError, "AttributeError": AttributeError, "IndexError": IndexError,
        "OverflowError": OverflowError, "RecursionError": RecursionError, "LookupError": LookupError}


class Str(str):
    pass


class Int(int):
    pass


class Index:
    """A number that runs code when it is asked for."""
    def __init__(self, run, value, acts):
        self.run, self.value, self.acts = run, value, acts

    def __index__(self):
        if self.acts:
            with rt.paused():
                self.run.counts["callbacks"] += 1
                self.run.act(self.acts)
        return self.value


class Odd:
    def __str__(self):
        return "Lu"

    def __index__(self):
        return 65


def item(x):
    if isinstance(x, str):
        return x
    k, s = x
    return {"sub": lambda: Str(s), "int": lambda: 5, "bytes": lambda: s.encode(), "none": lambda: None, "odd": Odd,
            "list": lambda: [s], "float": lambda: 1.5, "tuple": lambda: (s,), "barr": lambda: bytearray(s.encode())}[k]()


def is_text(x):
    return isinstance(x, str) or x[0] == "sub"


def text_of(x):
    return x if isinstance(x, str) else x[1]


class Run:
    def __init__(self, plan, out, out_map):
        self.plan, self.out_map = plan, out_map
        self.counts = dict.fromkeys(COUNTS, 0)
        self.digest = hashlib.blake2b(digest_size=8)
        self.seen = {}
        self.child = False
        self.measures = {}
        self.tls = {}       # thread id -> (task, depth)
        self.pool = {}
        self.violation = None
        self.pending_shared = None
        globals()["CURRENT"] = self
        self.made = 0
        self.known = []
        self.shared_lists = [list(x) for x in plan.get("lists", [])]

    # ---------------------------------------------------------------- results
    def finish(self, code, cls=None, text=None):
        d = {"counts": self.counts, "digest": self.digest.hexdigest(), "measures": self.measures, "known": self.known}
        if cls:
            d["class"], d["text"] = cls, text
        b = json.dumps(d).encode()
        self.out_map[0:8] = len(b).to_bytes(8, "little")
        self.out_map[8:8 + len(b)] = b
        os._exit(code)

    def fail(self, cls, text):
        self.finish(1, cls, text)

    # ---------------------------------------------------------------- actions inside callbacks
    def act(self, actions):
        """Returns an exception to raise, or None."""
        out = None
        for a in actions:
            k = a[0]
            if k == "sw":
                self.counts["switches_in_callbacks"] += 1
                rt.hlp.simpy_switch(a[1])
            elif k == "gc":
                self.counts["collections"] += 1
                gc.collect()
            elif k == "fin":
                self.counts["finaliser_calls"] += 1
                c = Cycle(self, a[1])
                del c
                gc.collect()
            elif k == "op":
                self.counts["reentrant_calls"] += 1
                self.op(a[1], -1)
            elif k == "raise":
                out = EXCS[a[1]]("planned")
            elif k == "fork":
                self.fork()
            elif k == "mut":
                self.counts["mutations"] += 1
                l = self.shared_lists[a[1] % len(self.shared_lists)]
                {"clear": l.clear, "pop": lambda: l and l.pop(), "add": lambda: l.append(a[3]), "ins": lambda: l.insert(0, a[3]),
                 "rev": l.reverse}[a[2]]()
        return out

    def fork(self):
        if self.child:
            return
        self.counts["forks"] += 1
        pid = rt.hlp.simpy_fork()
        if pid == 0:
            self.child = True
            return
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            self.fail("fork-child-killed", f"the forked child died of signal {os.WTERMSIG(st)}")
        c = os.WEXITSTATUS(st)
        if c == 77:
            os._exit(77)
        if c == 1:
            os._exit(1)
        if c:
            self.fail("fork-child-killed", f"the forked child exited with status {c}")

    def gc_hook(self, k):
        me = self.tls.get(_thread.get_ident())
        if me is None:
            return
        acts = me["gc"].get(k)
        if acts:
            self.counts["gc_points"] += 1
            try:
                self.act(acts)
            except Violation as v:
                self.fail(v.cls, v.text)

    # ---------------------------------------------------------------- arguments
    def version(self, spec):
        """[index, form]: the same version reached in different ways."""
        i, form = spec
        if form == 0:
            return U.available_versions[i]
        if form == 1:
            return getattr(U.UnicodeVersion, VNAMES[i])
        if form == 2:
            self.made += 1
            return U.UnicodeVersion(model.VERSIONS[i])
        v = self.pool.get(i)
        if v is None:
            self.made += 1
            v = self.pool[i] = U.UnicodeVersion(model.VERSIONS[i])
        return v

    def iterable(self, spec):
        """Builds (object, info). info: names/ok, acceptable exceptions."""
        t, items = spec["t"], spec.get("items", [])
        acts = {int(k): v for k, v in spec.get("act", {}).items()}
        info = {"items": items, "exact": True, "raised": [], "maybe": [], "delivered": None, "huge": False}
        run = self

        def visit(pos):
            a = acts.get(pos)
            if a:
                with rt.paused():
                    run.counts["callbacks"] += 1
                    e = run.act(a)
                if e is not None:
                    run.counts["iterable_raises"] += 1
                    info["raised"].append((pos, e))
                    raise e
        vals = [item(x) for x in items]
        if t == "none":
            return None, info
        if t == "str":
            return spec["s"], dict(info, type_error=True)
        if t == "substr":
            return Str(spec["s"]), dict(info, type_error=True)
        if t == "num":
            return 5, dict(info, type_error=True)
        if t == "list":
            return vals, info
        if t == "tuple":
            return tuple(vals), info
        if t == "set":
            return set(vals), info
        if t == "frozenset":
            return frozenset(vals), info
        if t == "dict":
            return dict.fromkeys(vals), info
        if t == "keys":
            return dict.fromkeys(vals).keys(), info
        if t == "values":
            return dict(enumerate(vals)).values(), info
        if t == "deque":
            return collections.deque(vals), info
        if t == "listiter":
            return iter(vals), info
        if t == "map":
            return map(lambda i: (visit(i), vals[i])[1], range(len(vals))), info
        if t == "gen":
            def g():
                for i, v in enumerate(vals):
                    visit(i)
                    yield v
                visit(len(vals))
            return g(), info
        if t == "shared":  # a generator over a list that others change
            l = run.shared_lists[spec["l"] % len(run.shared_lists)]
            info["delivered"] = got = []

            def g():
                for v in l:
                    visit(len(got))
                    if len(got) >= 60:
                        return
                    got.append(v)
                    yield v
                visit(len(got))
            info["limit"] = True
            return g(), info
        if t == "sharedlist":  # the list itself; nobody knows what is delivered
            info["free"] = True
            return run.shared_lists[spec["l"] % len(run.shared_lists)], info
        st = State()
        st.vals, st.visit, st.info, st.run, st.lie = vals, visit, info, run, spec.get("len")
        return {"hint": HintIt, "iter": It, "old": OldSeq, "sized": Sized, "fresh": Fresh, "seq": Seq, "abc": Abc, "listsub": ListSub, "tuplesub": TupleSub, "dictsub": DictSub,
                "baditer": BadIter, "noniter": NonIter}[t](st), dict(info, type_error=True) if t in ("baditer", "noniter") else info

    def acceptable(self, spec, obj, info, classes):
        """(names or None, [acceptable exceptions]) of an argument, judged after the call."""
        if info.get("type_error"):
            return None, [TypeError]
        items = info["items"] if info["delivered"] is None else info["delivered"]
        if spec["t"] in ("set", "frozenset", "dict", "keys"):
            items = list(obj)
            items = [x if type(x) is str else ("sub" if isinstance(x, str) else "int", str(x)) for x in items]
        exc, stop = [], None
        if info["raised"]:
            stop, e = info["raised"][0]
            exc += [x for _, x in info["raised"]]
        for i, x in enumerate(items):
            if stop is not None and i >= stop:
                break
            if not is_text(x):
                exc.append(TypeError)
                self.counts["bad_items"] += 1
                break
            s = text_of(x)
            if s not in model.INDEX and not (classes and len(s) == 1 and s in model.CLASSES):
                exc.append(ValueError)
        return (None if exc else [text_of(x) for x in items]), exc

    # ---------------------------------------------------------------- one call
    def call(self, f, args, kw, opno, op, task):
        me = self.tls.get(_thread.get_ident())
        gcs = sorted(op.get("gc", []), key=lambda g: g[0])
        at = ARRAYS[len(gcs)](*[g[0] for g in gcs])
        out = OUT4()
        fr, n = op.get("fail", [1 << 40, 0])
        saved = me["gc"]
        me["gc"] = {g[0]: g[1] for g in gcs}
        self.counts["calls"] += 1
        try:
            r = ("ok", rt.hlp.simpy_call(f, args, kw, opno, at, len(gcs), fr, n, out))
        except Violation:
            raise
        except BaseException as e:
            e.__traceback__ = None
            self.counts["calls_that_raised"] += 1
            r = ("exc", e)
        me["gc"] = saved
        self.counts["alloc_failures"] += out[3]
        return r[0], r[1], out

    def judge(self, what, kind, val, out, expected, exc, huge=False, extra=()):
        """expected: the exact answer, or None if it must raise one of exc."""
        failed = out[3] > 0
        if kind == "ok":
            if expected is None:
                raise Violation("should-have-raised", f"{what} returned {short(val)} instead of raising {names(exc)}")
            if type(val) is not type(expected) or val != expected:
                raise Violation("wrong-answer", f"{what} returned {short(val)} instead of {short(expected)}")
            return
        if failed:
            if isinstance(val, SystemError):
                raise Violation("wrong-exception", f"{what} raised {val!r}")
            return
        if any(val is e for e in extra):
            return
        if huge and isinstance(val, (MemoryError, OverflowError, ValueError)):
            return
        if expected is not None:
            raise Violation("unexpected-exception", f"{what} raised {type(val).__name__}({short(val)}) instead of returning {short(expected)}")
        for e in exc:
            if isinstance(e, type) and isinstance(val, e) or val is e:
                return
        raise Violation("wrong-exception", f"{what} raised {type(val).__name__}({short(val)}) instead of {names(exc)}")

    def op(self, op, opno, task=None):
        """Runs one operation; raises Violation."""
        k = op["k"]
        rep = op.get("rep", 1)
        for r in range(rep):
            kind, val, out = getattr(self, OPS[k])(op, opno if r == 0 else -1, task)
            self.digest.update(f"{task}/{opno}/{k}/{kind}/{hash(val) if kind == 'ok' else type(val).__name__}".encode())
            if r == 0 and opno >= 0 and task is not None:
                self.measures[f"{task}/{opno}"] = [out[0], out[1], out[2], int(kind == 'exc')] + ([self.firsts()] if not self.plan.get("tasks_measured") else [])
            val = None
        if self.child:
            self.aftermath()
            self.finish(0)

    def firsts(self):
        buf = (C.c_uint32 * rt.FIRSTS)()
        n = rt.sim.sim_op_firsts(buf)
        return list(buf[:n])

    def check_shared(self, i, val):
        old = self.seen.setdefault(i, val)
        if old is not val:
            raise Violation("two-tuples", f"categories({model.VERSIONS[i]}) returned a second tuple object")
        for j, o in self.seen.items():
            if j != i and o is val:
                raise Violation("shared-between-versions", f"{model.VERSIONS[i]} and {model.VERSIONS[j]} have the same tuple object")

    def op_cat(self, op, opno, task):
        v = op.get("v")
        i = model.LATEST if v is None else v[0]
        if op.get("pos") and v is not None:
            args, kw = (self.version(v),), {}
        elif v is None:
            args, kw = ((), {"version": None}) if op.get("none") else ((), {})
        else:
            args, kw = (), {"version": self.version(v)}
        kind, val, out = self.call(U.categories, args, kw, opno, op, task)
        self.judge(f"categories({model.VERSIONS[i]})", kind, val, out, model.DATA[i].order, [])
        if kind == "ok":
            self.check_shared(i, val)
        return kind, val, out

    def op_query(self, op, opno, task):
        kw, info = {}, {}
        for name, key in (("categories", "inc"), ("exclude_categories", "exc")):
            s = op.get(key)
            if s is not None:
                kw[name], info[key] = self.iterable(s)
        for name, key in (("min_codepoint", "lo"), ("max_codepoint", "hi"), ("include_characters", "ic"), ("exclude_characters", "ec")):
            if key in op:
                kw[name] = op[key]
        v = op.get("v")
        i = model.LATEST if v is None else v[0]
        if v is not None:
            kw["version"] = self.version(v)
        op, also = self.odd(op, kw) if "odd" in op else (op, [])
        kind, val, out = self.call(U.query, (), kw, opno, op, task)
        names_of, exc, free, huge, extra = {"inc": None, "exc": []}, [], False, False, []
        for n, key in (("categories", "inc"), ("exclude_categories", "exc")):
            if key not in info or kw[n] is None:
                continue
            nm, ex = self.acceptable(op[key], kw[n], info[key], False)
            exc += ex
            names_of[key] = nm
            free |= bool(info[key].get("free"))
            huge |= info[key]["huge"]
            extra += info[key]["maybe"]
        exp = None
        if not exc:
            exp = model.query(i, None if names_of["inc"] is None else model.mask_of(names_of["inc"]), model.mask_of(names_of["exc"]),
                              op.get("lo"), op.get("hi"), op.get("ic", ""), op.get("ec", ""))
            if exp is None:
                exc = [ValueError]
        else:
            lo, hi = op.get("lo") or 0, op.get("hi")
            hi = model.MAX if hi is None else hi
            if lo > model.MAX or hi > model.MAX or lo > hi:
                exc.append(ValueError)
        if also:
            exc, exp = exc + also, exp if all(e is UnicodeError for e in also) else None
            if kind == "exc" and any(isinstance(val, e) for e in exc):
                return kind, val, out
        if free:
            if kind == "ok" and type(val) is not tuple:
                raise Violation("wrong-answer", "query returned no tuple")
            return kind, None, out
        self.judge(describe("query", op), kind, val, out, exp, exc, huge, extra)
        if out[3] == 0:
            self.like_list(op, kind, val, U.query, kw, info)
        if kind == "exc":
            val.__traceback__ = val.__context__ = None
        return kind, val, out

    def odd(self, op, kw):
        """Unusual scalar arguments: (the operation they amount to, what they may raise)."""
        self.counts["odd_arguments"] += 1
        op, also = dict(op), []
        for key, o in op["odd"].items():
            name = {"lo": "min_codepoint", "hi": "max_codepoint", "ic": "include_characters", "ec": "exclude_characters"}[key]
            if o[0] == "int":
                op[key] = kw[name] = o[1]
                also += [ValueError, OverflowError]
            elif o[0] == "none":
                kw[name] = None
                op.pop(key, None)
            elif o[0] == "bool":
                kw[name] = bool(op.get(key, 0) & 1)
                op[key] = int(kw[name])
            elif o[0] == "index":
                kw[name] = Index(self, op.setdefault(key, 65), o[1])
            elif o[0] == "sur":
                op[key] = kw[name] = op.get(key, "")[:3] + o[1] + op.get(key, "")[3:]
                also.append(UnicodeError)
            else:
                kw[name] = Int(op.setdefault(key, 97)) if key in ("lo", "hi") else Str(op.setdefault(key, "a"))
        return op, also

    def like_list(self, op, kind, val, f, kw, info):
        """An error of a name: the same as when given a list."""
        if kind != "exc" or not isinstance(val, ValueError) or len(info) != 1:
            return
        (key, inf), = info.items()
        s = op[key]
        if inf["raised"] or s["t"] in ("list", "none", "shared", "sharedlist", "set", "frozenset") or not all(is_text(x) for x in inf["items"]) or inf["maybe"]:
            return
        items = [text_of(x) for x in inf["items"]]
        if s["t"] in ("dict", "keys"):
            items = list(dict.fromkeys(items))
        kw = dict(kw)
        kw[{"inc": "categories", "exc": "exclude_categories"}[key]] = items
        try:
            f(**kw)
        except ValueError as e:
            if str(e) != str(val) or type(e) is not type(val):
                raise Violation("differs-from-list", f"{describe('call', op)} raised {val!r}; given a list it raises {e!r}")
        else:
            raise Violation("differs-from-list", f"{describe('call', op)} raised {val!r}; given a list it returns")

    def op_exp(self, op, opno, task):
        obj, info = self.iterable(op["inc"])
        v = op.get("v")
        i = model.LATEST if v is None else v[0]
        args, kw = (obj,), {}
        if op.get("kw"):
            args, kw = (), {"categories": obj}
        if v is not None:
            if op.get("pos") and not kw:
                args = (obj, self.version(v))
            else:
                kw["version"] = self.version(v)
        kind, val, out = self.call(U.as_general_categories, args, kw, opno, op, task)
        if op["inc"]["t"] == "none":
            info["type_error"] = True
        nm, exc = self.acceptable(op["inc"], obj, info, True)
        if info.get("free"):
            return kind, None, out
        exp = None if nm is None else model.expand(i, nm)
        self.judge(describe("as_general_categories", op), kind, val, out, exp, exc, info["huge"], info["maybe"])
        if out[3] == 0 and op["inc"]["t"] != "none":
            self.like_list(op, kind, val, U.as_general_categories, {"categories": obj, **({"version": self.version(v)} if v else {})}, {"inc": info})
        if kind == "exc":
            val.__traceback__ = val.__context__ = None
        return kind, val, out

    def op_ver(self, op, opno, task):
        """Parse a version and look at it."""
        s = op["s"]
        kind, val, out = self.call(U.UnicodeVersion, (s,), {}, opno, op, task)
        what = f"UnicodeVersion({s!r})"
        if s not in model.VERSIONS:
            self.judge(what, kind, val if kind == "exc" else str(val), out, None, [ValueError])
            return kind, val, out
        if kind == "exc":
            self.judge(what, kind, val, out, s, [])
            return kind, val, out
        self.made += 1
        self.look(what, val, s)
        return kind, s, out

    def look(self, what, v, s):
        if str(v) != s or s not in repr(v):
            raise Violation("wrong-version", f"{what} prints {str(v)!r}, {v!r}")
        if not (v == v) or v != v:
            raise Violation("wrong-version", f"{what} is not equal to itself")
        for i, o in enumerate(U.available_versions):
            if (v == o) is not (model.VERSIONS[i] == s) or (v != o) is not (model.VERSIONS[i] != s) or (o == v) is not (model.VERSIONS[i] == s):
                raise Violation("wrong-version", f"{what} compares wrongly with {model.VERSIONS[i]}")

    def op_many(self, op, opno, task):
        """A long history of small calls."""
        out = OUT4()
        for j in range(op["n"]):
            r = gen.rng("many", op["s"], j if j < 20 or j % 10 else j - 1 - op["s"] % 19)
            o = gen.tiny(r, op["what"])
            kind, val, out = getattr(self, OPS[o["k"]])(o, -1, task)
            self.digest.update(f"{kind}/{hash(val) if kind == 'ok' else type(val).__name__}".encode())
            val = None
        return "ok", None, out

    def op_bad(self, op, opno, task):
        """A call that cannot be made."""
        v = self.version(op["v"])
        f, args, kw, exc = [
            (U.query, ("Lu",), {}, TypeError), (U.query, (["Lu"],), {}, TypeError), (U.query, (), {"unknown": 1}, TypeError),
            (U.query, (), {"version": "16.0.0"}, TypeError), (U.query, (), {"version": 16, "categories": ["Lu"]}, TypeError),
            (U.query, (), {"min_codepoint": "a"}, TypeError), (U.query, (), {"max_codepoint": 1.5, "categories": ["Lu"]}, TypeError),
            (U.query, (), {"include_characters": b"a"}, TypeError), (U.query, (), {"exclude_characters": 5, "categories": ["Lu"]}, TypeError),
            (U.query, (), {"categories": ["Lu", "\ud800"]}, ValueError), (U.query, (), {"categories": 5}, TypeError),
            (U.categories, ("16.0.0",), {}, TypeError), (U.categories, (v,), {"version": v}, TypeError), (U.categories, (v, v), {}, TypeError),
            (U.categories, (), {"versions": v}, TypeError), (U.as_general_categories, (), {}, TypeError),
            (U.as_general_categories, (["Lu"], v, v), {}, TypeError), (U.as_general_categories, (["\udfff"],), {}, ValueError),
            (U.as_general_categories, (["Lu"],), {"version": 5}, TypeError), (U.UnicodeVersion, (), {}, TypeError), (U.UnicodeVersion, (16,), {}, TypeError),
            (U.UnicodeVersion, ("\ud800",), {}, ValueError), (U.UnicodeVersion, (None,), {}, TypeError)][op["n"]]
        kind, val, out = self.call(f, args, kw, opno, op, task)
        self.judge(f"malformed call {op['n']}", kind, val, out, None, [exc])
        if kind == "exc":
            val.__traceback__ = val.__context__ = None
        return kind, val, out

    def op_look(self, op, opno, task):
        """A version reached in some way (possibly made by another thread)."""
        i = op["v"][0]
        v = self.version(op["v"])
        kind, val, out = self.call(str, (v,), {}, opno, op, task)
        if out[3] and kind == "exc":
            return kind, val, out
        self.judge("str(version)", kind, val, out, model.VERSIONS[i], [])
        self.look(f"version {model.VERSIONS[i]} (form {op['v'][1]})", v, model.VERSIONS[i])
        if i == model.LATEST or op.get("latest"):
            self.look("UnicodeVersion.latest()", U.UnicodeVersion.latest(), model.VERSIONS[model.LATEST])
        return kind, val, out

    def op_leak(self, op, opno, task):
        """The inner call again and again: live allocations and reference counts must settle."""
        inner = op["op"]
        one = getattr(self, OPS[inner["k"]])  # a name built per call would be interned and kept
        kind, val, out = one(inner, opno, task)
        watch = [U.UnicodeVersion] + list(U.available_versions) + [getattr(U.UnicodeVersion, n) for n in VNAMES] + list(self.pool.values())
        watch += list(self.seen.values()) + [U.query, U.categories, U.as_general_categories] + strings([inner, val if kind == "ok" else None, list(self.seen.values())])
        val = None
        for _ in range(10):
            one(inner, -1, task)
        n, rounds = 4, 4
        size = 3 + len(watch)
        table = (rt.L * (rounds * size))()  # nothing is allocated and kept between two levels
        live_py, live_native, refs = rt.hlp.simpy_live_py, rt.hlp.simpy_live_native, sys.getrefcount

        def level(at):
            gc.collect()
            for x in watch:
                at += 1
                table[at + 1] = refs(x)
            at -= len(watch)
            table[at] = live_py()
            table[at + 1] = live_native()
            table[at + size - 1] = self.made
        level(0)
        for j in range(1, rounds):
            for _ in range(n):
                one(inner, -1, task)
            level(j * size)
        for i in range(size - 1):
            g = [table[j * size + size + i] - table[j * size + i] for j in range(rounds - 1)]
            what = ("the number of live interpreter allocations", "the number of live native allocations")[i] if i < 2 else "a reference count"
            if i == 2:  # the known finding: one for every object constructed
                made = [table[j * size + 2 * size - 1] - table[j * size + size - 1] for j in range(rounds - 1)]
                if made == g and made[0]:
                    self.known.append("constructor-class-reference")
                    continue
            if min(g) >= n or (i > 1 and max(g) <= -n):
                raise Violation("leak", f"{describe(inner['k'], inner)}: {what} changed by {g} over {n} calls each")
        return kind, None, out

    # ---------------------------------------------------------------- after the tasks
    def aftermath(self):
        """Everything still works and agrees."""
        me = {"task": -1, "gc": {}}
        self.tls[_thread.get_ident()] = me
        for i in ((3, 10, 0) if self.plan["property"] not in ("C09", "C10") else range(len(model.VERSIONS))):
            self.op_cat({"v": [i, 0]}, -1, None)
        self.op_query({"k": "query", "inc": {"t": "list", "items": ["Lu", "Nd"]}, "lo": 30, "hi": 1000, "ic": "\u2603"}, -1, None)
        self.op_exp({"k": "exp", "inc": {"t": "list", "items": ["N", "Zs"]}}, -1, None)
        for i, v in self.pool.items():
            self.look("a pooled version", v, model.VERSIONS[i])

    # ---------------------------------------------------------------- threads
    def task(self, t, ops, lock):
        self.tls[_thread.get_ident()] = {"task": t, "gc": {}}
        rt.sim.sim_task_begin(t)
        if not NATIVE:
            sys.settrace(self.tracer)
        try:
            for k, op in enumerate(ops):
                self.act(op.get("pre", ()))
                self.op(op, k, t)
        except Violation as v:
            self.fail(v.cls, v.text)
        except BaseException as e:
            import traceback
            self.finish(3, "harness", "".join(traceback.format_exception(e))[-1500:])
        finally:
            sys.settrace(None)
        lock.release()

    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PACKAGE):
            frame.f_trace_opcodes = True
            return self.opcode
        return None

    def opcode(self, frame, event, arg):
        if event == "opcode":
            self.counts["package_opcodes"] += 1
            rt.hlp.simpy_point()
        return self.opcode

    def body(self, report_addr, trace=False):
        p = self.plan
        ev = sorted(p.get("events", []))
        events = (rt.Event * max(1, len(ev)))()
        for i, (t, o, s, k, a) in enumerate(ev):
            events[i] = rt.Event(t, o, s, k, 0, a)
        cfg = rt.Config(sched_seed=p["sched_seed"], env_seed=0, entropy=p["sched_seed"] ^ 0x1234, mono0=1 << 40, real0=1 << 60, switch_pct=0,
                        stall_strict=0, op_cap=80_000_000, quantum=2_000_000, events=events, n_events=len(ev), trace=int(trace), wake_any=1)
        rt.sim.sim_start(C.byref(cfg), report_addr)
        sys.setswitchinterval(p.get("interval", 0.005))
        locks = []
        for t, ops in enumerate(p["tasks"]):
            l = _thread.allocate_lock()
            l.acquire()
            locks.append(l)
            _thread.start_new_thread(self.task, (t, ops, l))
        for l in locks:
            l.acquire()
        try:
            self.aftermath()
        except Violation as v:
            self.fail(v.cls, "after the run: " + v.text)
        rt.sim.sim_stop()
        self.finish(0)


def strings(x):
    """The strings anywhere inside."""
    if type(x) is str:
        return [x]
    if isinstance(x, dict):
        x = x.values()
    elif not isinstance(x, (list, tuple)):
        return []
    out = []
    for y in x:
        out += [z for z in strings(y) if not any(z is o for o in out)] if type(y) is not int else []
        if len(out) > 100:
            break
    return out[:100]


def short(x):
    s = repr(x) if not isinstance(x, BaseException) else str(x)
    return s if len(s) <= 160 else s[:120] + f"...({len(s)} chars)"


def names(exc):
    return " or ".join(sorted({e.__name__ if isinstance(e, type) else f"the planned {type(e).__name__}" for e in exc}))


def describe(f, op):
    return f"{f}({short({k: v for k, v in op.items() if k not in ('k', 'pre', 'gc', 'fail')})})"

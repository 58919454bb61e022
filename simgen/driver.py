"""C14: the real generate_tables.py under simulated network, tool, disk, interrupts, crashes and interleavings. Started by tools/simgen.sh."""
import argparse, atexit, ctypes as C, email.message, errno, functools, gc, hashlib, http.client, io, json, mmap, operator, os, random, re, resource, select, shutil, signal
import subprocess, sys, tempfile, time, traceback, urllib.error, urllib.request, zipfile, pathlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "simpy"))
import model

BUILD = os.environ["SIM_BUILD"]
SCRIPT = os.path.join(os.path.dirname(os.path.dirname(HERE)), "repo", "generate_tables.py")
FULL = model.FULL
# steps and faults of simfs.c
OPS = " open-read open-write read write close rename unlink mkdir sync truncate link attr".split(" ")
KINDS = ["", "errno", "short", "crash-before", "crash-after", "torn", "full"]
LOG = 2048
HASHES = 8  # values of PYTHONHASHSEED


class Fault(C.Structure):
    _fields_ = [("op", C.c_int32), ("kind", C.c_int32), ("arg", C.c_int64)]


class Report(C.Structure):
    _fields_ = [("ops", C.c_uint64), ("hash", C.c_uint64), ("injected", C.c_uint64 * 8), ("refused", C.c_uint64), ("log", C.c_uint8 * LOG),
                ("opcodes", C.c_uint64), ("raised", C.c_uint64), ("slept", C.c_double)]


class Violation(Exception):
    def __init__(self, cls, text):
        Exception.__init__(self, text)
        self.cls, self.text = cls, text


class Harness(Exception):
    pass


# ---------------------------------------------------------------------- the data
def intervals(version, size):
    if size == "large":
        return model.DATA[model.VERSIONS.index(version)].table
    r = random.Random(f"{version}/{size}")
    return [[(a, a + r.randrange(9)) for a in sorted(r.sample(range(0, 0x10FFFF, 16), r.randrange(1, 4)))] for _ in FULL]


def generated(version, size, omit=None):
    keep = [i for i in range(len(FULL)) if i != omit]
    out = ["pub const BY_NAME: &'static [(&'static str, &'static [(u32, u32)])] = &["]
    out += [f'    ("{FULL[i]}", {FULL[i].upper()}),' for i in keep] + ["];", ""]
    t = intervals(version, size)
    for i in keep:
        out.append(f"pub const {FULL[i].upper()}: &'static [(u32, u32)] = &[")
        out += [f"    ({a}, {b})," for a, b in t[i]] + ["];", ""]
    return "\n".join(out).encode()


def bare(content):
    return re.sub(rb"//[^\n]*|\s+", b"", content)


def complete(version, size):
    """The complete table, without comments and white space."""
    by_name = "pub const BY_NAME: &'static [&'static [(u32, u32)]] = &[" + "".join(f"{n.upper()}," for n in FULL) + "];"
    full = generated(version, size)
    return bare(by_name.encode() + full[full.index(b"];") + 2:])


def database(version):
    """(the zip served for a version)"""
    body = "".join(f"{i * 37 % 0x10FFFF:04X}..{i * 37 % 0x10FFFF + i % 9:04X} ; {model.CATS[i % 30]}\n" for i in range(400)).encode()
    h = 0
    for c in body:
        h = ((h ^ c) * 0x100000001B3) & (1 << 64) - 1
    files = {"DerivedGeneralCategory.txt": f"# {version} {h:x}:{len(body)}\n".encode() + body, "UnicodeData.txt": body[::-1][:3000],
             "extracted/DerivedName.txt": body[:700], "PropList.txt": b""}
    out = {}
    for how in (zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED):
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w", how) as z:
            for n, c in files.items():
                z.writestr(zipfile.ZipInfo(n), c, how)
        out[how] = b.getvalue()
    return out


class World:
    """One worker's directories and cached data."""

    def __init__(self):
        shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.root = tempfile.mkdtemp(prefix="simgen.", dir=shm)
        self.gen = os.path.join(self.root, "gen")
        self.tmp = os.path.join(self.root, "w")
        self.zips, self.done, self.wanted, self.verdicts = {}, set(), {}, {}
        m = mmap.mmap(-1, 4 * C.sizeof(Report))
        self.reports = (Report * 4).from_buffer(m)
        for size in ("small", "large"):
            os.makedirs(os.path.join(self.gen, size))
        self.code = compile(open(SCRIPT, "rb").read(), SCRIPT, "exec")

    def table(self, version, size, omit):
        p = os.path.join(self.gen, size, version + ("" if omit is None else f"-{omit}"))
        if p not in self.done:
            with open(p, "wb") as f:
                f.write(generated(version, size, omit))
            self.done.add(p)

    def zip(self, version, how):
        if version not in self.zips:
            self.zips[version] = database(version)
        return self.zips[version][how]

    def is_complete(self, version, size, content):
        k = (version, size, hash(content))
        if k not in self.verdicts:
            if (version, size) not in self.wanted:
                self.wanted[version, size] = complete(version, size)
            self.verdicts[k] = bare(content) == self.wanted[version, size]
        return self.verdicts[k]

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


# ---------------------------------------------------------------------- inside a run
class Body(io.RawIOBase):
    def __init__(self, data, length, error):
        self.data, self.at, self.length, self.error = data, 0, length, error

    def readable(self):
        return True

    def read(self, n=-1):
        rest = self.data[self.at:]
        if n is None or n < 0:
            self.at = len(self.data)
            if self.error:
                raise self.error("simulated")
            if self.length is not None and self.length > len(self.data):
                raise http.client.IncompleteRead(rest, self.length - len(self.data))
            return rest
        if not rest and self.error:
            raise self.error("simulated")
        self.at += n
        return rest[:n]

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


class Net(urllib.request.BaseHandler):
    """Stands in for urllib's HTTPHandler and HTTPSHandler."""
    world = dl = None

    def __init__(self, *_, **__):
        pass

    def https_open(self, req):
        dl = self.dl
        k = dl["k"]
        m = re.search(r"/(\d+\.\d+\.\d+)/ucd/UCD\.zip$", req.full_url)
        if k == "urlerror":
            raise urllib.error.URLError(OSError(dl["errno"], "simulated"))
        if k == "timeout":
            raise TimeoutError("timed out")
        data, code, length, error = b"", 200, True, None
        if k == "http" or not m or m[1] not in model.VERSIONS:
            k, data, code = "http", b"<html>error</html>", dl.get("code", 404)
        else:
            data = self.world.zip(m[1], dl["how"])
        full = len(data)
        if k in ("cut", "readerr"):
            data = data[:dl["at"] % (full + 1)]
            length = dl.get("length", True)
            error = {"reset": ConnectionResetError, "timeout": TimeoutError, "ssl": OSError}[dl["exc"]] if k == "readerr" else None
        elif k == "flip":
            i = dl["at"] % full
            data = data[:i] + bytes([data[i] ^ 1 << dl["bit"]]) + data[i + 1:]
        elif k == "html":
            data = b"<html>busy</html>"
            full = len(data)
        h = email.message.Message()
        h["Content-Type"] = "application/zip"
        if length:
            h["Content-Length"] = str(full)
        r = urllib.request.addinfourl(Body(data, full if length else None, error), h, req.full_url, code)
        r.msg = {200: "OK"}.get(code, "error")
        return r

    http_open = https_open


def run_process(world, plan, run, index, w, r):
    """Never returns."""
    code = 1
    try:
        rep = world.reports[index]
        os.chdir(world.tmp)
        d = os.path.join(world.tmp, "tmp")
        os.environ.update(TMPDIR=d, SIM_DIR=os.path.join(world.gen, plan["size"]), SIM_SUFFIX="" if run["gen"].get("omit") is None else f"-{run['gen']['omit']}",
                          SIM_MODE=run["gen"].get("mode", "ok"), HOME=world.tmp, LC_ALL="C",
                          PATH=("" if run["gen"].get("missing") else os.path.join(BUILD, "fake") + ":") + "/usr/bin:/bin")
        os.environ.pop("LD_PRELOAD", None)
        tempfile.tempdir = None
        tempfile._name_sequence = None
        Net.world, Net.dl = world, run["dl"]
        urllib.request.HTTPSHandler = urllib.request.HTTPHandler = Net
        urllib.request._opener = None
        time.sleep = lambda s: setattr(rep, "slept", rep.slept + s)
        null = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(null, fd)
        resource.setrlimit(resource.RLIMIT_CPU, (20, 25))
        signal.alarm(200)
        sys.argv = [SCRIPT, *run.get("args", [run["v"]])]
        os.getpid = lambda: 1000 + index  # as in a container: later runs have the same pid again
        exc = run.get("exc")
        files = {SCRIPT, pathlib.__file__}

        def opcode(frame, event, arg):
            if event == "opcode":
                n = rep.opcodes
                rep.opcodes = n + 1
                if exc and n == exc[0]:
                    rep.raised += 1
                    raise {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[exc[1]]
            return opcode

        def call(frame, event, arg):
            if frame.f_code.co_filename in files:
                frame.f_trace_opcodes = True
                return opcode
            return None
        faults = (Fault * max(1, len(run["faults"])))(*[Fault(*f) for f in run["faults"]])
        g = {"__name__": "__main__", "__file__": SCRIPT, "__builtins__": __builtins__}
        lib = C.CDLL(None)
        lib.simfs_begin.argtypes = [C.c_char_p, C.c_uint64, C.c_void_p, C.c_int, C.c_int, C.c_int, C.c_void_p]
        lib.simfs_begin(world.tmp.encode(), run["seed"], faults, len(run["faults"]), w, r, C.byref(rep))
        if exc or plan.get("count"):
            sys._getframe().f_trace_opcodes = True  # CPython 3.12 looks at this when tracing starts
            sys.settrace(call)
        try:
            exec(world.code, g)
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except BaseException:
            code = 1
        sys.settrace(None)
        # what interpreter exit would do
        g.clear()
        gc.collect()
        atexit._run_exitfuncs()
        code &= 255
        if code in (86, 97, 99):
            code = 1
    except BaseException:
        traceback.print_exc()
        code = 97
    os._exit(code)


# ---------------------------------------------------------------------- one plan
def table_path(world, v):
    return os.path.join(world.tmp, "src", "tables", f"v{v.replace('.', '_')}.rs")


def execute(world, plan):
    """-> dict(class, text, hash, measures, counts)"""
    shutil.rmtree(world.tmp, ignore_errors=True)
    os.makedirs(os.path.join(world.tmp, "tmp"))
    size = plan["size"]
    good = {}
    for v in sorted({run["v"] for ph in plan["phases"] for run in ph} | set(plan["old"])):
        good[v] = None
        if v in plan["old"]:
            good[v] = f"// the table of {v} as it was\npub const BY_NAME: &'static [&'static [(u32, u32)]] = &[];\n".encode() * plan["old"][v]
            os.makedirs(os.path.dirname(table_path(world, v)), exist_ok=True)
            with open(table_path(world, v), "wb") as f:
                f.write(good[v])
    seen = {}

    def look(where):
        for v in good:
            p = table_path(world, v)
            try:
                st = os.lstat(p)
                key = (st.st_ino, st.st_size, st.st_mtime_ns, st.st_ctime_ns)
            except (FileNotFoundError, NotADirectoryError):
                key = None
            if seen.get(v, 0) == key:
                continue
            seen[v] = key
            if key is None:
                c = None
            else:
                with open(p, "rb") as f:
                    c = f.read()
            if c == good[v]:
                continue
            if c is None:
                raise Violation("table-gone", f"the table of {v} is gone {where}")
            if not world.is_complete(v, size, c):
                raise Violation("broken-table", f"the table of {v} is neither the old one nor the complete new one {where}: {len(c)} bytes, {text(c)}")
            good[v] = c
            tables[v] += 1
    tables = dict.fromkeys(good, 0)
    counts = dict.fromkeys([f"fault_{k}" for k in KINDS[1:]] + ["processes", "steps", "switches", "interrupts", "crashes", "failed_runs", "successful_runs",
                           "refused_outside", "download_faults", "tool_faults", "concurrent_phases"], 0)
    r = random.Random(plan["sched"])
    h = hashlib.blake2b(digest_size=8)
    measures, live = [], []
    try:
        look("at the start")
        for pi, phase in enumerate(plan["phases"]):
            live = []
            counts["concurrent_phases"] += len(phase) > 1
            for ri, run in enumerate(phase):
                world.table(run["v"], size, run["gen"].get("omit"))
                C.memset(C.byref(world.reports[ri]), 0, C.sizeof(Report))
                sr, sw = os.pipe()
                gr, gw = os.pipe()
                counts["processes"] += 1
                counts["download_faults"] += run["dl"]["k"] != "ok"
                counts["tool_faults"] += bool(run["gen"])
                pid = os.fork()
                if pid == 0:
                    for o in live:
                        os.close(o["r"])
                        os.close(o["w"])
                    os.close(sr)
                    os.close(gw)
                    run_process(world, plan, run, ri, sw, gr)
                os.close(sw)
                os.close(gr)
                live.append({"pid": pid, "r": sr, "w": gw, "run": run, "i": ri, "n": 0})
            fresh = list(live)
            cur = None
            while live:
                if fresh:
                    o = fresh.pop(0)
                else:
                    o = cur if cur in live and r.random() >= plan["switch"] else r.choice(live)
                    counts["switches"] += o is not cur
                    cur = o
                    os.write(o["w"], b"g")
                if not select.select([o["r"]], [], [], 300)[0]:
                    raise Harness("a run neither ends nor makes a step")
                b = os.read(o["r"], 1)
                h.update(bytes([o["i"]]) + b)
                where = f"(run {o['i']} of phase {pi}, after its step {o['n']})"
                counts["steps"] += 1
                if b:
                    o["n"] += 1
                    look(where)
                    if o["n"] > 20000:
                        raise Violation("no-end", f"a run of {o['run']['v']} goes on for ever {where}")
                    continue
                st = os.waitpid(o["pid"], 0)[1]
                os.close(o["r"])
                os.close(o["w"])
                live.remove(o)
                look(where)
                ended(world, plan, o, st, good, counts, measures, h, where)
        cls = txt = None
    except Violation as e:
        cls, txt = e.cls, e.text
    finally:
        for o in live:
            os.kill(o["pid"], signal.SIGKILL)
            os.waitpid(o["pid"], 0)
            os.close(o["r"])
            os.close(o["w"])
    for v in sorted(tables):
        h.update(f"{v}{tables[v]}{cls}".encode())
    return {"class": cls, "text": txt, "hash": h.hexdigest(), "measures": measures, "counts": counts}


def text(c):
    return repr(bytes(c[-60:]).decode(errors="replace"))


def ended(world, plan, o, st, good, counts, measures, h, where):
    run, rep = o["run"], world.reports[o["i"]]
    v = run["v"]
    for i, k in enumerate(KINDS[1:], 1):
        counts["fault_" + k] += rep.injected[i]
    counts["refused_outside"] += rep.refused
    counts["interrupts"] += rep.raised
    h.update(f"{rep.hash}/{st}".encode())
    measures.append([rep.ops, rep.opcodes, list(rep.log[:min(rep.ops, LOG)])])
    if os.WIFSIGNALED(st):
        if os.WTERMSIG(st) == signal.SIGXCPU:
            raise Violation("no-end", f"a run of {v} never ends {where}")
        raise Harness(f"a run was killed by signal {os.WTERMSIG(st)}")
    code = os.WEXITSTATUS(st)
    if code in (97, 99):
        raise Harness(f"a run ended with {code}")
    if code == 86:
        counts["crashes"] += 1
        return
    counts["failed_runs" if code else "successful_runs"] += 1
    now = good[v]
    if code == 0 and (now is None or not world.is_complete(v, plan["size"], now)):
        raise Violation("silent-failure", f"a run of {v} exited with 0 without writing the table {where}")
    if "args" in run:
        return
    if code and not (run["faults"] or run.get("exc") or run["gen"] or run["dl"]["k"] != "ok"):
        raise Violation("fails-without-fault", f"a run of {v} without any fault exited with {code} {where}")


# ---------------------------------------------------------------------- plans
def clean_run(r, v):
    return {"v": v, "dl": {"k": "ok", "how": r.choice([0, 8])}, "gen": {}, "faults": [], "seed": r.getrandbits(60)}


def base(seed, f):
    r = random.Random(f"base/C14/{seed}/{f}")
    vs = r.sample(model.VERSIONS, r.choice([1, 1, 1, 2]))
    old = {v: r.choice([1, 1, 30, 900]) for v in vs if r.random() < 0.7}
    if r.random() < 0.3:
        old[r.choice(model.VERSIONS)] = 2
    phases = [[clean_run(r, r.choice(vs)) for _ in range(r.choice([1, 1, 1, 1, 2, 2, 3]))] for _ in range(r.choice([1, 1, 1, 2, 3]))]
    return {"property": "C14", "seed": seed, "family": f, "hashseed": f % HASHES, "size": r.choice(["small", "small", "large"]), "old": old,
            "phases": phases, "sched": r.getrandbits(60), "switch": r.choice([0.02, 0.2, 0.5, 1.0])}


ERRNOS = {"open-read": "EIO EACCES EMFILE ENFILE EINTR", "open-write": "ENOSPC EIO EACCES EMFILE EROFS EDQUOT EINTR", "read": "EIO EINTR", "write": "ENOSPC EIO EDQUOT EINTR EFBIG",
          "close": "EIO ENOSPC EDQUOT", "rename": "EIO EACCES ENOSPC EROFS EXDEV", "unlink": "EIO EACCES EROFS", "mkdir": "ENOSPC EIO EACCES EROFS",
          "sync": "EIO ENOSPC", "truncate": "EIO", "link": "EIO ENOSPC", "attr": "EIO EPERM"}


def fs_fault(r, log):
    if not log:
        return [0, 3, 0]
    out = [i for i, x in enumerate(log) if x & 128]
    n = r.choice(out) if out and r.random() < 0.65 else r.randrange(len(log))
    op = OPS[log[n] & 127]
    x = r.random()
    if x < 0.4:
        return [n, 1, getattr(errno, r.choice(ERRNOS[op].split()))]
    if x < 0.55:
        return [n, 3, 0]
    if x < 0.65:
        return [n, 4, 0]
    if x < 0.85:
        return [n, 6, r.choice([0, 0, 1, r.randrange(100), r.randrange(5000), r.randrange(100000)])]
    return [n, r.choice([2, 5]) if op == "write" else 2 if op == "read" else 1 if op == "rename" else 3, r.choice([0, 5, r.randrange(100), r.randrange(100000)])]


def variant(b, k, measures):
    r = random.Random(f"variant/C14/{b['seed']}/{b['family']}/{k}")
    p = json.loads(json.dumps(b))
    p["variant"] = k
    p.pop("count", None)
    p["sched"] = r.getrandbits(60)
    ms = iter(measures)
    runs = [run for ph in p["phases"] for run in ph]
    ms = {i: measures[i % len(measures)] for i in range(len(runs))}
    for i in r.sample(range(len(runs)), r.choice([1, 1, min(2, len(runs)), len(runs)])):
        run, m = runs[i], ms[i]
        for _ in range(r.choice([1, 1, 1, 2])):
            x = r.random()
            if x < 0.5:
                run["faults"].append(fs_fault(r, m[2]))
                if r.random() < 0.4:  # what the code does about it fails, too
                    n = run["faults"][-1][0] + r.choice([1, 1, 2, 3, 4])
                    run["faults"].append([n, r.choice([1, 1, 1, 3, 4]), errno.EIO])
            elif x < 0.65:
                run["dl"] = dict(run["dl"], **r.choice([
                    {"k": "urlerror", "errno": r.choice([errno.ECONNREFUSED, errno.ENETUNREACH, errno.EHOSTUNREACH])}, {"k": "timeout"},
                    {"k": "http", "code": r.choice([404, 403, 500, 503])}, {"k": "html"},
                    {"k": "cut", "at": r.choice([0, 1, r.randrange(100000)]), "length": r.random() < 0.5},
                    {"k": "cut", "at": -r.randrange(1, 400), "length": False},
                    {"k": "readerr", "at": r.randrange(100000), "exc": r.choice(["reset", "timeout", "ssl"]), "length": r.random() < 0.5},
                    {"k": "flip", "at": r.randrange(100000), "bit": r.randrange(8)}]))
            elif x < 0.82:
                n = r.choice([0, 10, 100, r.randrange(2000), r.randrange(20000), 1 << 30])
                run["gen"] = r.choice([{"omit": r.randrange(30)}, {"omit": r.randrange(30)}, {"mode": f"exit:{r.choice([1, 2, 101, 127])}:{n}"},
                                       {"mode": f"exit:{r.choice([1, 2, 101, 127])}:{n}"}, {"mode": f"kill:{r.choice([9, 11, 15, 6])}:{n}"}, {"missing": 1}])
            else:
                run["exc"] = [r.randrange(max(1, m[1])) if r.random() < 0.5 else max(0, m[1] - 1 - r.randrange(250)), r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])]
    if r.random() < 0.03:  # called the wrong way: no success without a table
        run = r.choice(runs)
        run["args"] = r.choice([[], [run["v"], "x"], [run["v"], r.choice(model.VERSIONS)]])
    if r.random() < 0.35:  # once the faults stop, it works again
        p["phases"].append([clean_run(r, r.choice(runs)["v"])])
    return p


VARIANTS = 12


def family(world, seed, f, each):
    b = dict(base(seed, f), count=1)
    res = execute(world, b)
    if each(0, b, res) or res["class"]:
        return
    for k in range(1, VARIANTS + 1):
        p = variant(b, k, res["measures"])
        if each(k, p, execute(world, p)):
            return


def shrinks(p):
    def edit(fn):
        q = json.loads(json.dumps(p))
        fn(q)
        return q
    for i, ph in enumerate(p["phases"]):
        if len(p["phases"]) > 1:
            yield edit(lambda q: q["phases"].pop(i))
        for j, run in enumerate(ph):
            if len(ph) > 1:
                yield edit(lambda q: q["phases"][i].pop(j))
    for v in p["old"]:
        yield edit(lambda q: q["old"].pop(v))
        if p["old"][v] > 1:
            yield edit(lambda q: q["old"].__setitem__(v, 1))
    if p["size"] != "small":
        yield edit(lambda q: q.update(size="small"))
    if p["switch"] > 0.02 and any(len(ph) > 1 for ph in p["phases"]):
        yield edit(lambda q: q.update(switch=0.02))
    for i, ph in enumerate(p["phases"]):
        for j, run in enumerate(ph):
            for n in range(len(run["faults"])):
                yield edit(lambda q: q["phases"][i][j]["faults"].pop(n))
            if "exc" in run:
                yield edit(lambda q: q["phases"][i][j].pop("exc"))
            if "args" in run:
                yield edit(lambda q: q["phases"][i][j].pop("args"))
            if run["gen"]:
                yield edit(lambda q: q["phases"][i][j].update(gen={}))
            if run["dl"]["k"] != "ok":
                yield edit(lambda q: q["phases"][i][j].update(dl={"k": "ok", "how": 0}))
            if run["dl"]["how"]:
                yield edit(lambda q: q["phases"][i][j]["dl"].update(how=0))


def minimise(world, plan, cls, limit=40, runs=400):
    t0, n, again = time.time(), 0, True
    while again and n < runs and time.time() - t0 < limit:
        again = False
        for q in shrinks(plan):
            n += 1
            if execute(world, q)["class"] == cls:
                plan, again = q, True
                break
            if n >= runs or time.time() - t0 > limit:
                break
    return plan, n


# ---------------------------------------------------------------------- processes
def worker(a):
    """One hash seed: families f with f % HASHES == a.slot. Prints one JSON line at the end (and on a failure)."""
    C.CDLL(None).prctl(1, 9)
    cpus = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {cpus[a.slot % len(cpus)]})
    world = World()
    gc.disable()
    gc.collect()
    gc.freeze()
    out = {"runs": 0, "families": 0, "counts": {}, "hashes": [], "sites": [], "samples": [], "found": None}
    hashes, sites, t0 = set(), set(), time.time()
    try:
        for f in range(a.slot, a.families, HASHES):
            if time.time() - t0 > a.wall or os.path.exists(a.stop):
                break

            def each(k, p, res):
                out["runs"] += 1
                for n, x in res["counts"].items():
                    out["counts"][n] = out["counts"].get(n, 0) + x
                if k:
                    hashes.add(res["hash"])
                if a.log:
                    os.write(2, f"{f} {k} {res['class']} {res['hash']}\n".encode())
                for run, m in zip([run for ph in p["phases"] for run in ph], res["measures"]):
                    for n, kind, _ in run["faults"]:
                        if n < len(m[2]):
                            sites.add(f"{KINDS[kind]}@{OPS[m[2][n] & 127]}{'/output' if m[2][n] & 128 else ''}")
                if len(out["samples"]) < 2 and k == 3:
                    out["samples"].append({"family": f, "variant": k, "outcome": res["class"] or "held", "schedule_hash": res["hash"], "plan": p})
                if res["class"]:
                    open(a.stop, "w").close()
                    small, tries = minimise(world, p, res["class"])
                    again = execute(world, small)
                    out["found"] = {"family": f, "variant": k, "class": again["class"], "violation": again["text"], "schedule_hash": again["hash"],
                                    "minimiser_runs": tries, "plan": small}
                    return True
            family(world, a.seed, f, each)
            out["families"] += 1
            if out["found"]:
                break
    finally:
        world.close()
    out["hashes"], out["sites"] = sorted(hashes), sorted(sites)
    print("RESULT " + json.dumps(out), flush=True)


def spawn(args, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    return subprocess.Popen([sys.executable, "-S", "-s", "-B", os.path.abspath(__file__), *map(str, args)], stdout=subprocess.PIPE, env=env, text=True)


def check(a):
    t0 = time.time()
    stop = tempfile.mktemp(prefix="simgen.stop.")
    print(f"VERIF_SEED={a.seed} property=C14 families={a.families} workers={HASHES}", flush=True)
    ps = [spawn(["worker", "--seed", a.seed, "--families", a.families, "--wall", a.wall, "--slot", s, "--stop", stop, "--log", a.log], s) for s in range(HASHES)]
    res, bad = [], 0
    for s, p in enumerate(ps):
        o = p.communicate()[0]
        line = [l for l in o.splitlines() if l.startswith("RESULT ")]
        if p.returncode or not line:
            print(f"HARNESS ERROR in worker {s}: {o[-2000:]}")
            bad = 1
        else:
            res.append(json.loads(line[0][7:]))
    if os.path.exists(stop):
        os.unlink(stop)
    search = time.time() - t0
    runs = sum(r["runs"] for r in res)
    counts = {}
    for r in res:
        for n, x in r["counts"].items():
            counts[n] = counts.get(n, 0) + x
    distinct = {h for r in res for h in r["hashes"]}
    digest = functools.reduce(operator.xor, (int(h, 16) if isinstance(h, str) else h for h in distinct), 0)
    distinct = len(distinct)
    fams = sum(r["families"] for r in res)
    cover = {
        "evaluations": runs, "distinct_nontrivial": distinct, "digest_of_schedules_and_answers": f"{digest:016x}",
        "rule": "One case is one simulated run: a history of one or more regenerations (sequential or concurrent) derived from (seed, family, variant), each the real "
                "generate_tables.py in its own forked CPython, stepped at every file operation by a seeded scheduler; at each step every table file is compared. "
                "Variant 0 has no faults; the others have at least one. Distinct: by hash of all steps, faults, exits and outcomes of runs with faults.",
        "samples": [s for r in res for s in r["samples"]][:2], "families": fams, "runs_per_hour": int(runs / search * 3600), "seeds_per_hour": int(fams / search * 3600),
        "simulated_seconds": 0, "simulated_time_note": "the generator has no timers; order is the only time there is", "injected_and_observed": counts,
        "fault_sites": sorted({x for r in res for x in r["sites"]}), "hash_seeds": HASHES, "search_s": round(search, 2),
        "real": "generate_tables.py, CPython 3.12 with urllib, zipfile, tempfile, pathlib and subprocess, /bin/sh, the kernel's file system (tmpfs)",
        "stub": "the network below urllib (simulated server), the ucd-generate tool (a small program that checks the extracted database, honours --exclude and prints a table), entropy, sleep",
    }
    viol, rc = 0, 2 if bad else 0
    found = sorted((r["found"] for r in res if r["found"]), key=lambda x: (x["family"], x["variant"]))
    if found:
        x = found[0]
        if x["class"] is None:
            print(f"HARNESS ERROR: family {x['family']} variant {x['variant']} did not fail again")
            rc = 2
        else:
            os.makedirs(a.replays, exist_ok=True)
            path = os.path.join(a.replays, f"C14-{a.seed}-{x['family']}-{x['variant']}.json")
            json.dump(dict(x, kind="generator", property="C14", seed=a.seed), open(path, "w"), indent=1)
            print(f"{x['class']}: {x['violation']}\nseed {a.seed}, family {x['family']}, variant {x['variant']}; minimised in {x['minimiser_runs']} runs")
            print(f"VIOLATION property=C14 replay={path}")
            viol, rc = 1, 1
    if a.evidence:
        os.makedirs(os.path.dirname(a.evidence) or ".", exist_ok=True)
        json.dump({"property": "C14", "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cover, "violations": viol,
                   "assumptions": ["processes die, the kernel does not: what was written before a crash stays", "the tool prints nothing incomplete with exit status 0, "
                                   "except that it may leave out a category"], "wall_s": round(time.time() - t0, 2)}, open(a.evidence, "w"), indent=1)
    print(f"{runs} runs, {distinct} distinct, {search:.1f} s, harness errors: {bad}")
    return rc


def replay(a):
    d = json.load(open(a.file))
    if a.inner:
        world = World()
        try:
            res = execute(world, d["plan"])
        finally:
            world.close()
        print("RESULT " + json.dumps(res))
        return 0
    p = spawn(["replay", a.file, "--inner", 1], d["plan"]["hashseed"])
    o = p.communicate()[0]
    line = [l for l in o.splitlines() if l.startswith("RESULT ")]
    if p.returncode or not line:
        print("HARNESS ERROR", o)
        return 2
    res = json.loads(line[0][7:])
    print(json.dumps({"class": res["class"], "violation": res["text"], "schedule_hash": res["hash"]}, indent=1))
    if res["class"] is None:
        print("the violation does not occur")
        return 0
    print("same schedule as recorded" if res["hash"] == d["schedule_hash"] else "NOT the recorded schedule")
    print(f"VIOLATION property=C14 replay={a.file}")
    return 1


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd", required=True)
    for n in ("check", "worker"):
        c = sp.add_parser(n)
        c.add_argument("--seed", type=int, default=1)
        c.add_argument("--families", type=int, default=800)
        c.add_argument("--wall", type=float, default=150)
        c.add_argument("--tier", default="quick")
        c.add_argument("--evidence")
        c.add_argument("--replays", default="replays")
        c.add_argument("--log", type=int, default=0)
        c.add_argument("--slot", type=int, default=0)
        c.add_argument("--stop", default="")
    r = sp.add_parser("replay")
    r.add_argument("file")
    r.add_argument("--inner", type=int, default=0)
    a = ap.parse_args()
    return {"check": check, "worker": worker, "replay": replay}[a.cmd](a)


if __name__ == "__main__":
    sys.exit(main() or 0)

"""Seeded search, replay and minimising for the Python properties. Started by tools/simpy.sh (LD_PRELOAD, PYTHONHASHSEED=0)."""
import argparse, copy, ctypes as C, functools, gc, json, operator, os, resource, signal, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rt
PROFILE = os.environ.get("SIMPY_PROFILE", "debug")  # as built for development, or for release
sys.path.insert(0, os.path.join(rt.BUILD, "pkg" if PROFILE == "debug" else "pkg-rel"))
import gen, model, run

OUT = 1 << 18
PLAN = 1 << 20


WORKERS = 8
SLOTS = []


class Slot:
    """Memory and pipes shared with one zygote."""

    def __init__(self):
        self.rep_map, self.rep_addr = rt.shared(C.sizeof(rt.Report))
        self.out_map, _ = rt.shared(OUT)
        self.plan_map, _ = rt.shared(PLAN)
        self.req, self.resp = os.pipe(), os.pipe()
        self.err = os.memfd_create("stderr")


def zygotes():
    SLOTS.extend(Slot() for _ in range(WORKERS + 1))
    n = len(SLOTS)
    ints = C.c_int * n
    i = rt.hlp.simpy_zygotes(n, ints(*[s.req[0] for s in SLOTS]), ints(*[s.resp[1] for s in SLOTS]))
    if i >= 0:
        one_run(SLOTS[i])


def one_run(slot):
    """In a process of its own, from the zygote's state."""
    out = slot.out_map
    try:
        n = int.from_bytes(slot.plan_map[0:8], "little")
        trace, plan = json.loads(slot.plan_map[8:8 + n])
        resource.setrlimit(resource.RLIMIT_CPU, (60, 70))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not trace:
            os.dup2(slot.err, 2)
        sys.unraisablehook = lambda *a: None
        run.Run(plan, None, out).body(slot.rep_addr, trace)
    except BaseException as e:
        import traceback
        b = json.dumps({"class": "harness", "text": "".join(traceback.format_exception(e))[-2000:]}).encode()
        out[0:8] = len(b).to_bytes(8, "little")
        out[8:8 + len(b)] = b
    os._exit(3)


class Runner:
    def __init__(self, i=WORKERS):
        self.slot = SLOTS[i]
        self.out_map = self.slot.out_map
        self.report = rt.Report.from_buffer(self.slot.rep_map)

    def run(self, plan, trace=False):
        """-> (class or None, text, data); class 'harness' for an error of the harness."""
        C.memset(self.slot.rep_addr, 0, C.sizeof(rt.Report))
        self.out_map[0:8] = bytes(8)
        b = json.dumps([bool(trace), plan]).encode()
        self.slot.plan_map[0:8] = len(b).to_bytes(8, "little")
        self.slot.plan_map[8:8 + len(b)] = b
        os.ftruncate(self.slot.err, 0)
        os.lseek(self.slot.err, 0, 0)
        os.write(self.slot.req[1], b"r")
        st = int.from_bytes(os.read(self.slot.resp[0], 4), "little")
        n = int.from_bytes(self.out_map[0:8], "little")
        data = json.loads(self.out_map[8:8 + n]) if n else {}
        if os.WIFSIGNALED(st):
            s = os.WTERMSIG(st)
            if s in (signal.SIGXCPU, signal.SIGKILL):
                return ("hang" if s == signal.SIGXCPU else "harness"), f"no end after 60 s of processor time (signal {s})", data
            text = f"the process was killed by signal {s} ({signal.Signals(s).name})"
            if s == signal.SIGABRT and ABORT in KNOWN and abort_while_raising(os.pread(self.slot.err, 1 << 16, 0).decode(errors="replace")):
                return None, text, {"known": [ABORT]}
            return "killed", text, data
        c = os.WEXITSTATUS(st)
        if c == 0:
            return None, "", data
        if c == 1:
            return data["class"], data["text"], data
        if c == 77:
            r = self.report
            cls = rt.VERDICTS.get(r.verdict, "harness")
            return cls, f"{cls} in task {r.task} operation {r.op} after {r.step} steps: {r.text.decode()}", data
        if c == 3:
            return "harness", data.get("text", "?"), data
        return "killed", f"the process ended with status {c}", data


ABORT, CLASSREF = "abort-while-raising", "constructor-class-reference"
KNOWN = {}
for line in open(os.path.join(os.path.dirname(rt.BUILD), "known_findings.txt")):
    w = line.split(maxsplit=3)
    if w[:2] == ["known:", "property=C13"]:
        KNOWN[w[2].removeprefix("id=")] = w[3].strip()


def abort_while_raising(err):
    """pyo3's abort because of a panic while it created an exception outside catch_unwind: nothing of the binding is running then."""
    at = [l.split(" panicked at ", 1)[1] for l in err.splitlines() if " panicked at " in l]
    return (len(at) >= 2 and "/pyo3-0.28.3/src/impl_/panic.rs:25:" in at[-2]
            and ("/pyo3-0.28.3/src/instance.rs:349:" in at[0] or "/alloc/src/fmt.rs:" in at[0]))


def family(runner, prop, seed, f, each):
    b = gen.base(prop, seed, f)
    res = runner.run(b)
    if each(0, b, res) or res[0]:
        return
    meas = res[2].get("measures", {})
    for k in range(1, gen.VARIANTS[prop] + 1):
        p = gen.variant(b, seed, f, k, meas)
        if each(k, p, runner.run(p)):
            return


# ---------------------------------------------------------------------- minimising
def shrinks(p):
    def edit(fn):
        q = copy.deepcopy(p)
        if fn(q) is not False:
            return q
    ts = p["tasks"]
    for t in range(len(ts)):
        if len(ts) > 1:
            def f(q, t=t):
                del q["tasks"][t]
                q["events"] = [e for e in q.get("events", []) if e[0] != t]
                for e in q["events"]:
                    if e[0] > t:
                        e[0] -= 1
            yield edit(f)
    for t in range(len(ts)):
        for i in range(len(ts[t])):
            if len(ts[t]) > 1:
                def f(q, t=t, i=i):
                    del q["tasks"][t][i]
                    q["events"] = [e for e in q.get("events", []) if (e[0], e[1]) != (t, i)]
                    for e in q["events"]:
                        if e[0] == t and e[1] > i:
                            e[1] -= 1
                yield edit(f)
    for i in range(len(p.get("events", []))):
        yield edit(lambda q, i=i: q["events"].pop(i) and None)
    if p.get("interval") != 0.005:
        yield edit(lambda q: q.update(interval=0.005))

    def ops_in(q):
        """Paths to all operations, nested ones included."""
        out = []

        def in_actions(acts, path):
            for i, a in enumerate(acts):
                if a[0] == "op":
                    in_op(a[1], path + [i, 1])
                elif a[0] == "fin":
                    in_actions(a[1], path + [i, 1])

        def in_op(op, path):
            out.append(path)
            if "op" in op:
                in_op(op["op"], path + ["op"])
            in_actions(op.get("pre", []), path + ["pre"])
            for i, g in enumerate(op.get("gc", [])):
                in_actions(g[1], path + ["gc", i, 1])
            for key in ("inc", "exc"):
                for pos, a in (op.get(key) or {}).get("act", {}).items():
                    in_actions(a, path + [key, "act", pos])
        for t, l in enumerate(q["tasks"]):
            for i, op in enumerate(l):
                in_op(op, ["tasks", t, i])
        return out

    def at(q, path):
        for x in path:
            q = q[x]
        return q
    for path in ops_in(p):
        op = at(p, path)
        for key in ("gc", "fail", "pre", "rep", "inc", "exc", "lo", "hi", "ic", "ec", "v"):
            if key in op and not (key == "inc" and op["k"] == "exp") and not (key == "v" and op["k"] in ("look", "bad")):
                yield edit(lambda q: at(q, path).pop(key) and None)
        for i in range(len(op.get("gc", []))):
            if len(op["gc"]) > 1:
                yield edit(lambda q: at(q, path)["gc"].pop(i) and None)
            for j in range(len(op["gc"][i][1])):
                yield edit(lambda q: at(q, path)["gc"][i][1].pop(j) and None)
        if op.get("fail") and op["fail"][1] > 1:
            yield edit(lambda q: at(q, path)["fail"].__setitem__(1, 1))
        for key in ("inc", "exc"):
            s = op.get(key)
            if not s:
                continue
            for pos in list(s.get("act", {})):
                yield edit(lambda q: at(q, path)[key]["act"].pop(pos) and None)
                for j in range(len(s["act"][pos])):
                    if len(s["act"][pos]) > 1:
                        yield edit(lambda q: at(q, path)[key]["act"][pos].pop(j) and None)
            if "len" in s:
                yield edit(lambda q: at(q, path)[key].pop("len") is None and None)
            n = len(s.get("items", []))
            if n > 3:
                yield edit(lambda q: at(q, path)[key].update(items=s["items"][: n // 2]))
                yield edit(lambda q: at(q, path)[key].update(items=s["items"][n // 2:]))
            for j in range(min(n, 12)):
                yield edit(lambda q: at(q, path)[key]["items"].pop(j) and None)
        if op["k"] == "many" and op["n"] > 1:
            yield edit(lambda q: at(q, path).__setitem__("n", op["n"] // 2))
            yield edit(lambda q: at(q, path).__setitem__("n", op["n"] * 7 // 8))
        for key in ("ic", "ec"):
            s = op.get(key, "")
            if len(s) > 1:
                yield edit(lambda q: at(q, path).__setitem__(key, s[: len(s) // 2]))
                yield edit(lambda q: at(q, path).__setitem__(key, s[len(s) // 2:]))


def minimise(runner, plan, cls, limit=40.0, runs=600):
    t0, n = time.time(), 0
    again = True
    while again and n < runs and time.time() - t0 < limit:
        again = False
        for q in shrinks(plan):
            if q is None:
                continue
            n += 1
            if runner.run(q)[0] == cls:
                plan, again = q, True
                break
            if n >= runs or time.time() - t0 > limit:
                break
    return plan, n


# ---------------------------------------------------------------------- search
def worker(w, nw, a, tally, sums, hashes):
    C.CDLL(None).prctl(1, 9)
    cpus = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {cpus[w % len(cpus)]})
    runner = Runner(w)
    mine = tally[w]
    f, t0 = a.first + w, time.time()
    while f < a.first + a.families and time.time() - t0 < a.wall:
        if any(tally[i].broken or (tally[i].found and (tally[i].found - 1) // 100 < f) for i in range(nw)):
            return
        stop = []

        def each(k, plan, res):
            cls, text, data = res
            rep = runner.report
            mine.runs += 1
            mine.steps += rep.steps
            mine.sim_ns += max(rep.sim_ns, 0)
            mine.threads += rep.n_threads
            for i, n in enumerate(rt.SUMS):
                sums[w][i] += getattr(rep, n)
            for x in data.get("known", ()):
                mine.known |= 1 << list(KNOWN).index(x)
            c = data.get("counts", {})
            for i, n in enumerate(run.COUNTS):
                sums[w][len(rt.SUMS) + i] += c.get(n, 0)
            if rep.preempts + rep.sleeps + rep.clock_jumps or any(c.get(n) for n in run.COUNTS if n not in ("calls", "calls_that_raised", "package_opcodes", "callbacks")):
                if mine.nhash < HASHES:
                    hashes[w][mine.nhash] = (rep.hash * 31 + int(data.get("digest") or "0", 16)) & (1 << 64) - 1
                    mine.nhash += 1
            if a.log:
                os.write(1, f"{f} {k} {cls} hash={rep.hash:x} digest={data.get('digest')} steps={rep.steps} sim={rep.sim_ns}\n".encode())
            if cls == "harness":
                print(f"HARNESS ERROR family {f} variant {k}: {text}", flush=True)
                mine.broken = 1
                stop.append(1)
                return True
            if cls:
                mine.found = 1 + f * 100 + k
                stop.append(1)
                return True
            return False
        family(runner, a.property, a.seed, f, each)
        mine.families += 1
        if stop:
            return
        f += nw


class Tally(C.Structure):
    _fields_ = [(n, C.c_int64) for n in ("runs", "families", "steps", "sim_ns", "threads", "found", "broken", "nhash", "known")]


HASHES = 1 << 20
RULE = ("One case is one simulated run: a plan of threads and calls derived from (seed, family, variant), executed by the real extension module in a "
        "forked CPython 3.12 whose threads, GIL hand-overs, clock, collections, failing allocations, callbacks and forks the simulator decides. Variant 0 "
        "has no faults. Non-trivial: at least one fault, callback action, collection or thread switch took effect inside a call. Distinct: by hash of all "
        "scheduling decisions and all outcomes.")


def check(a):
    t0 = time.time()
    nw = min(a.workers, WORKERS)
    tm, _ = rt.shared(C.sizeof(Tally) * nw)
    tally = (Tally * nw).from_buffer(tm)
    ncol = len(rt.SUMS) + len(run.COUNTS)
    sm, _ = rt.shared(8 * ncol * nw)
    sums = ((C.c_uint64 * ncol) * nw).from_buffer(sm)
    hm = [rt.shared(8 * HASHES)[0] for _ in range(nw)]
    hashes = [(C.c_uint64 * HASHES).from_buffer(m) for m in hm]
    print(f"VERIF_SEED={a.seed} property={a.property} families={a.families} workers={nw} build={PROFILE}", flush=True)
    pids = []
    for w in range(nw):
        p = os.fork()
        if p == 0:
            code = 3
            try:
                worker(w, nw, a, tally, sums, hashes)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            sys.stdout.flush()
            os._exit(code)
        pids.append(p)
    bad = any(os.waitpid(p, 0)[1] for p in pids) or any(t.broken for t in tally)
    search = time.time() - t0
    guards, cm = GUARDS, COV
    runs = sum(t.runs for t in tally)
    distinct = {h[i] for h, t in zip(hashes, tally) for i in range(t.nhash)}
    digest = functools.reduce(operator.xor, distinct, 0)
    distinct = len(distinct)
    found = min((t.found - 1 for t in tally if t.found), default=None)
    cols = list(rt.SUMS) + run.COUNTS
    total = {n: sum(sums[w][i] for w in range(nw)) for i, n in enumerate(cols)}
    runner = Runner()
    samples = []
    for f in (a.first, a.first + 1):
        last = []
        family(runner, a.property, a.seed, f, lambda k, p, res: last.append({"family": f, "variant": k, "outcome": res[0] or "held",
               "schedule_hash": f"{runner.report.hash:016x}", "plan": p}) or k == 2)
        samples.append(last[-1])
    cover = {
        "evaluations": runs, "distinct_nontrivial": distinct, "digest_of_schedules_and_answers": f"{digest:016x}", "rule": RULE, "samples": samples, "families": sum(t.families for t in tally),
        "runs_per_hour": int(runs / search * 3600) if search else 0, "seeds_per_hour": int(sum(t.families for t in tally) / search * 3600) if search else 0,
        "simulated_seconds": sum(t.sim_ns for t in tally) / 1e9, "steps_in_library_code": sum(t.steps for t in tally),
        "injected_and_observed": total, "threads_started": sum(t.threads for t in tally),
        "code_sites_reached": sum(1 for b in cm[:rt.SITES] if b), "code_sites_instrumented": guards, "search_s": round(search, 2),
        "gc_allocation_entry_points_hooked": PATCHED,
        "real": "CPython 3.12 (interpreter, GIL, collector, object allocator, threads), pyo3, the extension module and the library under test (instrumented)",
        "stub": "thread scheduling, clocks, sleeps, entropy (simulated); collections inside allocations and failing allocations (injected); the table data's oracle is a Python model",
    }
    for i, x in enumerate(KNOWN):
        if any(t.known >> i & 1 for t in tally) and a.property == "C13":
            print(f"KNOWN-FINDING: property=C13 {x}: {KNOWN[x]}")
    viol = 0
    rc = 2 if bad else 0
    if found is not None:
        rc = 2
        f, k = divmod(found, 100)
        hit = []
        family(runner, a.property, a.seed, f, lambda kk, p, res: hit.append((p, res)) or kk == k)
        plan, res = hit[-1]
        if not res[0] or res[0] == "harness":
            print(f"HARNESS ERROR: family {f} variant {k} did not fail again")
        else:
            small, tries = minimise(runner, plan, res[0])
            res = runner.run(small)
            h = f"{runner.report.hash:016x}"
            os.makedirs(a.replays, exist_ok=True)
            path = os.path.join(a.replays, f"{a.property}-{a.seed}-{f}-{k}{'' if PROFILE == 'debug' else '-rel'}.json")
            json.dump({"kind": "python", "property": a.property, "seed": a.seed, "build": PROFILE, "family": f, "variant": k, "class": res[0], "violation": res[1],
                       "schedule_hash": h, "minimiser_runs": tries, "plan": small}, open(path, "w"), indent=1)
            print(f"{res[0]}: {res[1]}\nseed {a.seed}, family {f}, variant {k}; minimised in {tries} runs")
            print(f"VIOLATION property={a.property} replay={path}")
            viol, rc = 1, 1
    ev = {"property": a.property, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cover, "violations": viol,
          "assumptions": ["sequentially consistent memory", "CPython 3.12 with injected collections stands for CPython 3.10 and later with the GIL",
                          "code of CPython and pyo3 is not preempted except where it blocks or hands over the GIL"],
          "wall_s": round(time.time() - t0, 2)}
    if a.evidence:
        os.makedirs(os.path.dirname(a.evidence) or ".", exist_ok=True)
        json.dump(ev, open(a.evidence, "w"), indent=1)
    print(f"{runs} runs, {distinct} distinct, {search:.1f} s, harness errors: {int(bad)}")
    return rc


def replay(a):
    d = json.load(open(a.file))
    if d.get("build", PROFILE) != PROFILE:
        sh = os.path.join(os.path.dirname(rt.BUILD), "tools", "simpy.sh")
        sys.stdout.flush()
        os.execve("/bin/bash", ["bash", sh] + sys.argv[1:], dict(os.environ, SIMPY_PROFILE=d["build"], LD_PRELOAD=""))
    runner = Runner()
    res = runner.run(d["plan"], a.trace)
    h = f"{runner.report.hash:016x}"
    print(json.dumps({"class": res[0], "violation": res[1], "schedule_hash": h, "known": res[2].get("known", [])}, indent=1))
    if res[0] is None:
        print("the violation does not occur")
        return 0
    if res[0] == "harness":
        return 2
    print("same schedule as recorded" if h == d["schedule_hash"] else "NOT the recorded schedule")
    print(f"VIOLATION property={d['property']} replay={a.file}")
    return 1


def main():
    global GUARDS, COV
    COV, cov = rt.shared(rt.SITES)
    GUARDS = rt.sim.sim_cov_buffer(cov)
    # the zygotes: warm, collected once, then left alone
    import warnings, traceback, collections.abc, hashlib
    warnings.simplefilter("ignore")
    gc.disable()
    gc.collect()
    gc.freeze()
    zygotes()
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd", required=True)
    c = sp.add_parser("check")
    c.add_argument("--property", required=True)
    c.add_argument("--seed", type=int, default=1)
    c.add_argument("--first", type=int, default=0)
    c.add_argument("--families", type=int, default=1000)
    c.add_argument("--workers", type=int, default=8)
    c.add_argument("--wall", type=float, default=150)
    c.add_argument("--tier", default="quick")
    c.add_argument("--evidence")
    c.add_argument("--replays", default="replays")
    c.add_argument("--log", type=int, default=0)
    r = sp.add_parser("replay")
    r.add_argument("file")
    r.add_argument("--trace", type=int, default=0)
    s = sp.add_parser("one")
    for n in ("seed", "family", "variant"):
        s.add_argument("--" + n, type=int, default=1)
    s.add_argument("--property", required=True)
    s.add_argument("--trace", type=int, default=0)
    a = ap.parse_args()
    if a.cmd == "check":
        return check(a)
    if a.cmd == "replay":
        return replay(a)
    runner = Runner()
    hit = []
    family(runner, a.property, a.seed, a.family, lambda k, p, res: hit.append((p, res)) or k == a.variant)
    p, res = hit[-1]
    print(json.dumps(p))
    print(runner.run(p, bool(a.trace)))


class GcHook:
    current = None


def hook(k):
    r = run_current()
    if r is not None:
        r.gc_hook(k)


def run_current():
    return run.CURRENT


run.CURRENT = None
PATCHED = rt.hlp.simpy_init(b"unicode_intervals.abi3", hook)
if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc or 0)

//! Deterministic simulation of the unicode-intervals library. See ../../DESIGN.md.
#![feature(alloc_error_hook)]
mod alloc;
mod exec;
mod ffi;
mod gen;
mod minimise;
mod model;
mod plan;
mod rng;

use exec::{Shared, COUNTERS, MAX_OPS, N_COUNT};
use plan::Plan;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::time::Instant;

#[global_allocator]
static ALLOC: alloc::Sim = alloc::Sim;

fn map_shared<T>(n: usize) -> *mut T {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<T>() * n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p.cast()
    }
}
fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|x| *x == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Fine,
    Violation { class: String, text: String },
    Broken(String),
}
pub struct Runner {
    pub sh: *mut Shared,
}
impl Runner {
    fn new() -> Runner {
        Runner { sh: map_shared(1) }
    }
    pub fn shared(&self) -> &'static mut Shared {
        unsafe { &mut *self.sh }
    }
    fn once(&self, plan: &Plan, trace: bool) -> Outcome {
        unsafe {
            std::ptr::write_bytes(self.sh.cast::<u8>(), 0, exec::CLEARED);
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let lim = libc::rlimit { rlim_cur: 120, rlim_max: 130 };
                libc::setrlimit(libc::RLIMIT_CPU, &lim);
                let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &core);
                libc::alarm(400);
                if !trace {
                    // what a dying process prints is noise
                    let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                    libc::dup2(null, 2);
                }
                exec::run_child(plan.clone(), self.sh, trace);
            }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) != pid {}
            let s = self.shared();
            let text = cstr(&s.msg);
            let place = format!("task {}, operation {}, step {}: {}", s.sim.task, s.sim.op, s.sim.step, cstr(&s.sim.text));
            let v = |class: &str, text: String| Outcome::Violation { class: class.to_string(), text };
            if libc::WIFEXITED(st) {
                match (libc::WEXITSTATUS(st), s.status, s.sim.verdict) {
                    (0, 1, _) => Outcome::Fine,
                    (78, 2, _) => Outcome::Violation { class: cstr(&s.class), text },
                    (77, _, 1) => v("deadlock", place),
                    (77, _, 2) => v("step-bound", place),
                    (77, _, 3) => v("blocked-by-stalled", place),
                    (77, _, 4) => v("livelock", place),
                    (c, _, _) => Outcome::Broken(format!("exit {c}: {text} {place}")),
                }
            } else {
                match libc::WTERMSIG(st) {
                    libc::SIGXCPU => v("hang", "the process used up its processor time".into()),
                    libc::SIGALRM => v("hang", "the process stopped".into()),
                    libc::SIGKILL => Outcome::Broken("killed".into()),
                    n => v(&format!("crash-signal-{n}"), format!("the process died of signal {n}")),
                }
            }
        }
    }
    /// One simulated run (two, in two worlds, if the plan has two).
    pub fn run(&self, plan: &Plan, trace: bool) -> Outcome {
        let a = self.once(plan, trace);
        let Some(w) = &plan.other else { return a };
        if a != Outcome::Fine {
            return a;
        }
        let d = self.shared().digest;
        let mut p = plan.clone();
        p.world = w.clone();
        let b = self.once(&p, trace);
        if b == Outcome::Fine && self.shared().digest != d {
            return Outcome::Violation {
                class: "world-dependent".into(),
                text: format!("the answers differ between two environments ({d:#x} and {:#x})", self.shared().digest),
            };
        }
        b
    }
}

#[repr(C)]
struct Tally {
    runs: u64,
    families: u64,
    calls_steps: u64,
    sim_ns: u64,
    sums: [u64; 20],
    counts: [u64; N_COUNT],
    max_step: u64,
    found: u64, // 1 + run number of a violation
    broken: u64,
    hashes_overflow: u64,
}
const SUMS: [&str; 17] = [
    "switches", "preemptions", "stalls", "long_pauses", "clock_jumps", "blocks", "timeouts", "forced_rotations", "futex_waits", "mutex_waits",
    "cond_waits", "sem_waits", "clock_reads_in_calls", "entropy_reads_in_calls", "env_reads_in_calls", "distinct_preemption_sites_summed", "threads",
];
const HASHES: usize = 1 << 22;

fn variants(p: &str, plan: &Plan) -> u64 {
    let n: usize = plan.tasks.iter().map(Vec::len).sum();
    match p {
        "C02" => 8,
        _ if n > 25 => 4,
        _ => 6,
    }
}

struct Args(BTreeMap<String, String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(String::as_str)
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map_or(d, |x| x.parse().expect("number"))
    }
}

/// Runs a family: the plan without faults, then its variants.
fn family(r: &Runner, prop: &str, seed: u64, f: u64, mut each: impl FnMut(u64, &Plan, &Outcome, &Shared) -> bool) {
    let base = gen::base(prop, seed, f);
    let o = r.run(&base, false);
    let s = r.shared();
    let mut m: gen::Measures = vec![];
    for (t, ops) in base.tasks.iter().enumerate() {
        let b = s.op_base[t] as usize;
        let one = |i: usize| gen::Measure { steps: s.op_steps[i], allocs: s.op_allocs[i], hot: s.op_hot[i][..s.op_hot_n[i] as usize].to_vec(), firsts: s.op_first[i][..s.op_first_n[i] as usize].to_vec() };
        m.push((0..ops.len()).map(|i| one((b + i).min(MAX_OPS - 1))).collect());
    }
    if each(0, &base, &o, s) || o != Outcome::Fine {
        return;
    }
    for k in 1..=variants(prop, &base) {
        let p = gen::variant(&base, seed, f, k, &m);
        let o = r.run(&p, false);
        if each(k, &p, &o, r.shared()) {
            return;
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn worker(w: u64, nw: u64, prop: &str, seed: u64, first: u64, families: u64, wall: f64, tally: *mut Tally, all: *const Tally, cov: *mut u8, hashes: *mut u64, log: bool) {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
        let cpus: Vec<usize> = (0..1024).filter(|&c| libc::CPU_ISSET(c, &set)).collect();
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[w as usize % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
        ffi::sim_cov_buffer(cov);
    }
    let t = unsafe { &mut *tally };
    let r = Runner::new();
    let start = Instant::now();
    let mut f = first + w;
    while f < first + families && start.elapsed().as_secs_f64() < wall {
        // a violation elsewhere, at an earlier family, ends the search here
        for i in 0..nw as usize {
            let o = unsafe { &*all.add(i) };
            if (o.found != 0 && (o.found - 1) / 1000 < f) || o.broken != 0 {
                return;
            }
        }
        let mut stop = false;
        family(&r, prop, seed, f, |k, _plan, o, s| {
            t.runs += 1;
            t.calls_steps += s.sim.steps;
            t.sim_ns += s.sim.sim_ns.max(0) as u64;
            let q = &s.sim;
            let v = [
                q.switches, q.preempts, q.stalls, q.sleeps, q.clock_jumps, q.blocks, q.timeouts, q.forced_rotations, q.futex_waits, q.mutex_waits,
                q.cond_waits, q.sem_waits, q.clock_reads, q.entropy_reads, q.env_reads, q.preempt_sites, q.n_threads as u64,
            ];
            for (a, b) in t.sums.iter_mut().zip(v) {
                *a += b;
            }
            for (a, b) in t.counts.iter_mut().zip(s.counts) {
                *a += b;
            }
            t.max_step = t.max_step.max(s.op_steps.iter().copied().max().unwrap_or(0));
            // non-trivial: a switch, stall, pause or fault took effect inside a call
            let c = &s.counts;
            let nontrivial = q.preempts + q.stalls + q.sleeps + q.clock_jumps + q.forced_rotations > 0 || c[0] + c[2] + c[3] + c[4] + c[5] + c[7] + c[8] + c[10] + c[11] + c[12] > 0;
            if nontrivial {
                let n = unsafe { &mut *hashes };
                if (*n as usize) < HASHES - 1 {
                    *n += 1;
                    unsafe { *hashes.add(*n as usize) = rng::mix(q.hash ^ s.digest.rotate_left(17) ^ c[0].wrapping_mul(0x9e37)) };
                } else {
                    t.hashes_overflow += 1;
                }
            }
            if log {
                println!("{f} {k} {:?} hash={:x} digest={:x} steps={} sim={}", o, q.hash, s.digest, q.steps, q.sim_ns);
            }
            match o {
                Outcome::Fine => false,
                Outcome::Violation { .. } => {
                    t.found = 1 + f * 1000 + k;
                    stop = true;
                    true
                }
                Outcome::Broken(m) => {
                    eprintln!("HARNESS ERROR family {f} variant {k}: {m}");
                    t.broken += 1;
                    stop = true;
                    true
                }
            }
        });
        t.families += 1;
        if stop {
            return;
        }
        f += nw;
    }
}

fn replay_json(prop: &str, seed: u64, fam: u64, k: u64, class: &str, text: &str, plan: &Plan, tries: u64) -> Value {
    json!({"kind": "rust", "property": prop, "seed": seed, "build": PROFILE, "family": fam, "variant": k, "class": class, "violation": text,
           "minimiser_runs": tries, "plan": plan})
}

fn check(a: &Args) -> i32 {
    let t0 = Instant::now();
    let prop = a.get("property").expect("--property").to_string();
    let seed = a.num("seed", 1);
    let first = a.num("first", 0);
    let families = a.num("families", 1000);
    let nw = a.num("workers", 8);
    let wall = a.num("wall", 300) as f64;
    let log = a.get("log").is_some();
    model::data();
    let tallies: *mut Tally = map_shared(nw as usize);
    let cov: *mut u8 = map_shared(ffi::SITES);
    let hashes: Vec<*mut u64> = (0..nw).map(|_| map_shared(HASHES)).collect();
    println!("VERIF_SEED={seed} property={prop} families={families} workers={nw} build={PROFILE}");
    let mut pids = vec![];
    for w in 0..nw {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            worker(w, nw, &prop, seed, first, families, wall, unsafe { tallies.add(w as usize) }, tallies, cov, hashes[w as usize], log);
            use std::io::Write;
            let _ = std::io::stdout().flush();
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    let mut harness = false;
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
        harness |= st != 0;
    }
    let ts: Vec<&Tally> = (0..nw as usize).map(|i| unsafe { &*tallies.add(i) }).collect();
    harness |= ts.iter().any(|t| t.broken > 0);
    let search_s = t0.elapsed().as_secs_f64();
    let sum = |f: &dyn Fn(&Tally) -> u64| ts.iter().map(|t| f(t)).sum::<u64>();
    let runs = sum(&|t| t.runs);
    let mut distinct: HashSet<u64> = HashSet::new();
    for h in &hashes {
        let n = unsafe { **h } as usize;
        for i in 1..=n {
            distinct.insert(unsafe { *h.add(i) });
        }
    }
    let sites = unsafe { ffi::sim_cov_buffer(cov) };
    let reached = (0..ffi::SITES).filter(|&i| unsafe { *cov.add(i) } != 0).count();
    let found = ts.iter().filter(|t| t.found > 0).map(|t| t.found - 1).min();
    let mut faults = serde_json::Map::new();
    for (i, n) in SUMS.iter().enumerate() {
        faults.insert((*n).into(), sum(&|t| t.sums[i]).into());
    }
    for (i, n) in COUNTERS.iter().enumerate() {
        if *n != "unused" {
            faults.insert((*n).into(), sum(&|t| t.counts[i]).into());
        }
    }
    let mut samples = vec![];
    let runner = Runner::new();
    for f in [first, first + 1] {
        let mut last = None;
        family(&runner, &prop, seed, f, |k, p, o, s| {
            last = Some(json!({"family": f, "variant": k, "outcome": format!("{o:?}"), "schedule_hash": format!("{:016x}", s.sim.hash), "plan": p}));
            k == 2 || *o != Outcome::Fine
        });
        samples.extend(last);
    }
    let mut code = 0;
    let mut violation = Value::Null;
    if let Some(x) = found {
        let (f, k) = (x / 1000, x % 1000);
        let mut bad: Option<(Plan, String, String)> = None;
        family(&runner, &prop, seed, f, |kk, p, o, _| {
            if let Outcome::Violation { class, text } = o {
                if kk == k {
                    bad = Some((p.clone(), class.clone(), text.clone()));
                }
            }
            bad.is_some()
        });
        match bad {
            None => {
                eprintln!("HARNESS ERROR: the violation of family {f} variant {k} did not come back");
                harness = true;
            }
            Some((p, class, text)) => {
                let (p, text, tries) = minimise::minimise(&runner, p, &class, text);
                let dir = a.get("replays").unwrap_or("replays");
                std::fs::create_dir_all(dir).ok();
                let path = format!("{dir}/{prop}-seed{seed}-f{f}-v{k}{}.json", if PROFILE == "debug" { "" } else { "-rel" });
                let v = replay_json(&prop, seed, f, k, &class, &text, &p, tries);
                std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
                let st = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", &path]).output().expect("replay");
                if st.status.code() == Some(1) {
                    println!("{class}: {text}");
                    println!("found in family {f}, variant {k}; minimised in {tries} runs; reproduced from the file in a fresh process");
                    println!("VIOLATION property={prop} replay={path}");
                    code = 1;
                    violation = v;
                } else {
                    eprintln!("HARNESS ERROR: {path} does not reproduce");
                    harness = true;
                }
            }
        }
    }
    let wall_s = t0.elapsed().as_secs_f64();
    let per_hour = (runs as f64 / search_s * 3600.0) as u64;
    let ev = json!({
        "property": prop, "tier": a.get("tier").unwrap_or("quick"), "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": distinct.len(),
            "digest_of_schedules_and_answers": format!("{:016x}", distinct.iter().fold(0, |a, h| a ^ h)),
            "rule": "One evaluation is one simulated run: a forked process with a fresh library state executing one generated plan (tasks of calls, schedule events, faults) under the simulator. A plan family is run once without faults, which measures every call's steps and allocations, then again with schedule events and faults placed inside the measured extent. Non-trivial: at least one switch, stall, pause, clock jump or fault took effect inside a call. Distinct: by hash of the sequence of scheduling decisions (task, call, step, next task) and of all answers.",
            "samples": samples,
            "plan_families": sum(&|t| t.families),
            "runs_per_hour": per_hour, "plans_seeds_per_hour": (sum(&|t| t.families) as f64 / search_s * 3600.0) as u64,
            "simulated_seconds": sum(&|t| t.sim_ns) as f64 / 1e9,
            "steps_in_calls": sum(&|t| t.calls_steps),
            "longest_call_steps": ts.iter().map(|t| t.max_step).max(),
            "fired": faults,
            "code_sites_reached": reached, "code_sites_total": sites,
            "real": ["unicode-intervals (all of it, built from /repo)", "the Rust standard library", "OS threads, one running at a time"],
            "simulated": ["thread scheduling", "futex/mutex/condition blocking", "clocks and sleeps", "entropy", "environment variables inside calls", "allocation failures", "caller-side streams, sinks and consumers"],
            "violation": violation,
        },
        "assumptions": ["sequentially consistent memory: switches happen between instrumented loads, stores and basic blocks of the library, one thread at a time", "code inside the precompiled standard library is not preempted"],
        "wall_s": wall_s, "violations": i32::from(found.is_some()),
    });
    if let Some(p) = a.get("evidence") {
        std::fs::write(p, serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    }
    println!(
        "{prop}: {runs} runs in {search_s:.1}s ({per_hour}/h), {} distinct non-trivial, {reached}/{sites} sites, {} preemptions, {} stalls",
        distinct.len(),
        sum(&|t| t.sums[1]),
        sum(&|t| t.sums[2])
    );
    if harness && code == 0 {
        return 2;
    }
    code
}

/// The library is run as built for development and as built for release.
const PROFILE: &str = if cfg!(debug_assertions) { "debug" } else { "release" };

/// The address of the driver with the other build.
fn sibling() -> std::path::PathBuf {
    let me = std::env::current_exe().expect("path");
    let target = me.parent().and_then(|p| p.parent()).expect("path");
    target.join(if PROFILE == "debug" { "rel" } else { "debug" }).join("simdrv")
}

/// The same addresses of code, constants and stacks each time, where the system allows it.
fn fixed_addresses(argv: &[String]) {
    const NO_RANDOMIZE: libc::c_ulong = 0x004_0000;
    unsafe {
        let now = libc::personality(0xffff_ffff);
        if now < 0 || now as libc::c_ulong & NO_RANDOMIZE != 0 || libc::personality(now as libc::c_ulong | NO_RANDOMIZE) < 0 {
            return;
        }
        let args: Vec<_> = argv.iter().map(|a| std::ffi::CString::new(a.as_str()).expect("argument")).collect();
        let mut p: Vec<_> = args.iter().map(|a| a.as_ptr()).collect();
        p.push(std::ptr::null());
        libc::execv(c"/proc/self/exe".as_ptr(), p.as_ptr());
    }
}
fn main() {
    let argv: Vec<String> = std::env::args().collect();
    fixed_addresses(&argv);
    let cmd = argv.get(1).map_or("", String::as_str);
    let mut a = Args(BTreeMap::new());
    let mut i = 2;
    let mut pos = vec![];
    while i < argv.len() {
        if let Some(k) = argv[i].strip_prefix("--") {
            a.0.insert(k.to_string(), argv.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            pos.push(argv[i].clone());
            i += 1;
        }
    }
    let code = match cmd {
        "check" => check(&a),
        "replay" => {
            model::data();
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&pos[0]).expect("read")).expect("json");
            if v["build"].as_str().is_some_and(|b| b != PROFILE) {
                let st = std::process::Command::new(sibling()).args(&argv[1..]).status().expect("the driver with the other build");
                std::process::exit(st.code().unwrap_or(2));
            }
            let plan: Plan = serde_json::from_value(v["plan"].clone()).expect("plan");
            let r = Runner::new();
            let o = r.run(&plan, a.get("trace").is_some());
            println!("schedule hash {:016x}", r.shared().sim.hash);
            match o {
                Outcome::Fine => {
                    println!("the property held");
                    0
                }
                Outcome::Violation { class, text } => {
                    println!("{class}: {text}");
                    i32::from(Some(class.as_str()) == v["class"].as_str()) // 1: as recorded
                }
                Outcome::Broken(m) => {
                    println!("harness error: {m}");
                    2
                }
            }
        }
        "show" => {
            let p = gen::base(a.get("property").unwrap(), a.num("seed", 1), a.num("family", 0));
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            0
        }
        _ => {
            eprintln!("usage: simdrv check|replay|show ...");
            2
        }
    };
    std::process::exit(code);
}

//! Executes one plan in the current (forked) process, checking every answer against the model.
use crate::alloc;
use crate::ffi::*;
use crate::gen::{self, answer, item_text};
use crate::model::{self, data, Answer, List, CATS, MAX, VERSIONS};
use crate::plan::*;
use crate::rng::{mix, Rng};
use simops as so;
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::marker::PhantomData;
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier, Mutex, MutexGuard};
use unicode_intervals::{Codepoints, Error, Interval, IntervalQuery, IntervalSet, UnicodeCategory as U, UnicodeCategorySet, UnicodeVersion as V};

pub const MAX_OPS: usize = 512;
pub const N_COUNT: usize = 30;
/// Counters of what really happened in a run.
pub const COUNTERS: [&str; N_COUNT] = [
    "alloc_failures", "alloc_failure_unwound", "stream_panics", "stream_early_ends", "stream_pauses", "stream_reentries", "stream_size_lies",
    "text_panics", "sink_failures", "sink_short_writes", "sink_panics", "sink_pauses", "consumer_panics", "calls", "leak_checks",
    "errors_returned", "sets_dropped_while_shared", "cursor_items", "cursor_meets", "ascii_path_shape", "wide_path_shape", "retries_after_failure",
    "calls_with_other_task_inside", "steps_on_writable_static_data",
    "calls_from_the_allocator", "calls_from_destructors", "calls_from_the_panic_hook", "nested_calls", "calls_nested_deeper", "nested_calls_out_of_memory",
];
#[repr(C)]
pub struct Shared {
    pub sim: SimReport,
    pub status: i32, // 0 not finished, 1 fine, 2 violation, 3 harness error
    pub class: [u8; 96],
    pub msg: [u8; 3000],
    pub digest: u64,
    pub counts: [u64; N_COUNT],
    pub op_base: [u32; 64],
    pub op_steps: [u64; MAX_OPS],
    pub op_allocs: [u64; MAX_OPS],
    pub op_hot_n: [u32; MAX_OPS],
    pub op_first_n: [u32; MAX_OPS],
    // from here on not cleared before each run
    pub op_hot: [[u64; HOT]; MAX_OPS],
    pub op_first: [[u32; FIRSTS]; MAX_OPS],
}
pub const CLEARED: usize = std::mem::offset_of!(Shared, op_hot);

struct Sh<T>(T);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}

static CATEGORIES: [U; 30] = [
    U::Pe, U::Pc, U::Cc, U::Sc, U::Pd, U::Nd, U::Me, U::Pf, U::Cf, U::Pi, U::Nl, U::Zl, U::Ll, U::Sm, U::Lm, U::Sk, U::Mn, U::Ps, U::Lo, U::No, U::Po,
    U::So, U::Zp, U::Co, U::Zs, U::Mc, U::Cs, U::Lt, U::Cn, U::Lu,
];
static VERS: [V; 11] = [
    V::V9_0_0, V::V10_0_0, V::V11_0_0, V::V12_0_0, V::V12_1_0, V::V13_0_0, V::V14_0_0, V::V15_0_0, V::V15_1_0, V::V16_0_0, V::V17_0_0,
];
fn ci(c: U) -> usize {
    CATEGORIES.iter().position(|x| *x == c).unwrap()
}

/// Payloads of panics that the simulation itself raises.
struct AllocFailed;
struct Injected(u64);

static mut SHARED: *mut Shared = std::ptr::null_mut();
fn sh() -> &'static mut Shared {
    unsafe { &mut *SHARED }
}
fn put(dst: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let mut n = b.len().min(dst.len() - 1);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    dst[..n].copy_from_slice(&b[..n]);
    dst[n] = 0;
}
fn finish(status: i32, class: &str, msg: &str) -> ! {
    let s = sh();
    put(&mut s.class, class);
    put(&mut s.msg, msg);
    s.status = status;
    unsafe { libc::_exit(78) }
}
fn fail(class: &str, msg: &str) -> ! {
    let _g = alloc::untracked();
    CUR.with(|c| {
        let (t, o) = c.get();
        finish(2, class, &format!("task {t}, operation {o}: {msg}"))
    })
}
thread_local! {
    static CUR: Cell<(usize, usize)> = const { Cell::new((999, 999)) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static INJECT: Cell<u64> = const { Cell::new(0) };
    static NEXT: Cell<usize> = const { Cell::new(0) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static INNER: Cell<(u32, u32)> = const { Cell::new((0, 0)) };
    static INNER_FAILED: Cell<bool> = const { Cell::new(false) };
    static HOOKING: Cell<bool> = const { Cell::new(false) };
    static READING: Cell<Option<(*const IntervalSet, *const List)>> = const { Cell::new(None) };
}
static mut RUN: Option<&'static Run> = None;
fn count(name: usize, n: u64) {
    sh().counts[name] += n;
}
/// Runs code of the caller's side (streams, sinks, consumers): not part of the call's own steps and allocations.
fn outside<R>(f: impl FnOnce() -> R) -> R {
    let _g = alloc::untracked();
    struct Resume;
    impl Drop for Resume {
        fn drop(&mut self) {
            unsafe { sim_op_resume() }
        }
    }
    unsafe { sim_op_pause() };
    let _r = Resume;
    f()
}
fn inject() -> ! {
    let id = INJECT.with(|i| {
        i.set(i.get() + 1);
        i.get()
    });
    panic_any(Injected(id))
}

// ---------------------------------------------------------------- Send / Sync of the public types
struct P<T: ?Sized>(PhantomData<T>);
#[allow(dead_code)]
trait No {
    const SYNC: bool = false;
    const SEND: bool = false;
}
impl<T: ?Sized> No for P<T> {}
impl<T: ?Sized + Sync> P<T> {
    const SYNC: bool = true;
}
struct PS<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> No for PS<T> {}
impl<T: ?Sized + Send> PS<T> {
    const SEND: bool = true;
}
fn sharing(p: &str) {
    let bad = |t: &str, what: &str| finish(2, &format!("not-{what}:{t}"), &format!("{t} can no longer be used from several threads: it is not {what}"));
    if p == "C01" {
        if !P::<IntervalQuery<'static>>::SYNC {
            bad("IntervalQuery", "Sync");
        }
        if !PS::<IntervalQuery<'static>>::SEND {
            bad("IntervalQuery", "Send");
        }
    }
    if p == "C03" {
        if !P::<IntervalSet>::SYNC {
            bad("IntervalSet", "Sync");
        }
        if !PS::<IntervalSet>::SEND {
            bad("IntervalSet", "Send");
        }
    }
    if p == "C04" && !PS::<Codepoints<'static>>::SEND {
        bad("Codepoints", "Send");
    }
}

// ---------------------------------------------------------------- builders
fn catset(mask: u32, path: u32) -> UnicodeCategorySet {
    let members: Vec<U> = (0..30).filter(|i| mask >> i & 1 == 1).map(|i| CATEGORIES[i]).collect();
    let rot = |k: usize| {
        let mut m = members.clone();
        if !m.is_empty() {
            let n = m.len();
            m.rotate_left(k % n);
        }
        m
    };
    match path % 5 {
        0 => {
            let mut s = so::cs_new();
            for c in rot(path as usize) {
                so::cs_add(&mut s, c);
            }
            s
        }
        1 => {
            let mut s = so::cs_all();
            for (i, c) in CATEGORIES.iter().enumerate() {
                if mask >> i & 1 == 0 {
                    so::cs_remove(&mut s, *c);
                }
            }
            s
        }
        2 => {
            let mut s = so::cs_default();
            for c in members.iter().rev() {
                so::cs_assign_cat(&mut s, *c);
            }
            s
        }
        3 => {
            // via the one-letter classes, taking out what does not belong
            let mut s = so::cs_new();
            for (i, name) in model::CLASSES.iter().enumerate() {
                if model::class_mask(name) & mask != 0 {
                    so::cs_assign_set(&mut s, so::cs_class(i));
                }
            }
            for (i, c) in CATEGORIES.iter().enumerate() {
                if mask >> i & 1 == 0 {
                    so::cs_remove(&mut s, *c);
                }
            }
            s
        }
        _ => {
            let mut it = rot(path as usize / 7).into_iter();
            match (it.next(), it.next()) {
                (None, _) => so::cs_new(),
                (Some(a), None) => so::cs_from(a),
                (Some(a), Some(b)) => {
                    let mut s = so::cs_cat_or_cat(a, b);
                    for (k, c) in it.enumerate() {
                        s = match k % 3 {
                            0 => so::cs_or_cat(s, c),
                            1 => so::cs_cat_or(c, s),
                            _ => so::cs_or_set(s, so::cs_from(c)),
                        };
                    }
                    s
                }
            }
        }
    }
}
fn apply<'a>(mut q: IntervalQuery<'a>, s: &Spec, inc_ch: Option<&'a str>, exc_ch: Option<&'a str>) -> IntervalQuery<'a> {
    let twice = s.path >> 9 & 1 == 1;
    for k in 0..6 {
        match (k + s.path) % 6 {
            0 => {
                if let Some(m) = s.inc {
                    if twice {
                        q = q.include_categories(catset(!m & model::ALL, 1));
                    }
                    q = if m.count_ones() == 1 && s.path >> 3 & 1 == 1 {
                        q.include_categories(CATEGORIES[m.trailing_zeros() as usize])
                    } else {
                        q.include_categories(catset(m, s.path >> 4))
                    };
                }
            }
            1 => {
                if let Some(m) = s.exc {
                    if twice {
                        q = q.exclude_categories(None);
                    }
                    q = if m.count_ones() == 1 && s.path >> 3 & 1 == 0 {
                        q.exclude_categories(CATEGORIES[m.trailing_zeros() as usize])
                    } else {
                        q.exclude_categories(Some(catset(m, s.path >> 5)))
                    };
                }
            }
            2 => {
                if let Some(x) = inc_ch {
                    if twice {
                        q = q.include_characters("twice");
                    }
                    q = q.include_characters(x);
                }
            }
            3 => {
                if let Some(x) = exc_ch {
                    q = q.exclude_characters(x);
                }
            }
            4 => {
                if let Some(x) = s.min {
                    if twice {
                        q = q.min_codepoint(x ^ 7);
                    }
                    q = q.min_codepoint(x);
                }
            }
            _ => {
                if let Some(x) = s.max {
                    q = q.max_codepoint(x);
                }
            }
        }
    }
    q
}
fn builder<'a>(s: &Spec, inc_ch: Option<&'a str>, exc_ch: Option<&'a str>) -> IntervalQuery<'a> {
    let q: IntervalQuery<'a> = if s.v == 10 && s.path >> 10 & 1 == 1 { so::default_query() } else { so::version_query(VERS[s.v]) };
    apply(q, s, inc_ch, exc_ch)
}
fn leak_str(s: &Option<String>) -> Option<&'static str> {
    s.as_ref().map(|x| -> &'static str { Box::leak(x.clone().into_boxed_str()) })
}
fn overlay(base: &Spec, over: &Spec) -> Spec {
    Spec {
        v: base.v,
        inc: over.inc.or(base.inc),
        exc: over.exc.or(base.exc),
        inc_ch: over.inc_ch.clone().or_else(|| base.inc_ch.clone()),
        exc_ch: over.exc_ch.clone().or_else(|| base.exc_ch.clone()),
        min: over.min.or(base.min),
        max: over.max.or(base.max),
        path: 0,
    }
}

// ---------------------------------------------------------------- hashing of results
#[derive(Clone, Copy)]
struct H(u64);
impl H {
    fn u(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x);
    }
    fn s(&mut self, s: &str) {
        self.u(s.len() as u64);
        for b in s.bytes() {
            self.u(u64::from(b));
        }
    }
}

// ---------------------------------------------------------------- one call
/// How a call ended.
enum End<R> {
    Done(R),
    /// unwound by the injected allocation failure
    NoMemory,
    /// unwound by an injected panic of the caller's own code
    Panicked(u64),
}
struct Env {
    op: usize,
    flat: usize,
    /// the n-th allocation to fail, consumed by the first call of the operation that reaches it
    fail: Option<u32>,
    nest: Option<Nest>,
    allocs: u64,
    steps: u64,
    hash: H,
    net: i64,
    failed: bool,
}
static INSIDE: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
impl Env {
    /// Runs `f` as one call of the library. `panics`: an injected panic may come out of it.
    fn call<R>(&mut self, panics: bool, f: impl FnOnce() -> R) -> End<R> {
        use std::sync::atomic::Ordering::Relaxed;
        count(13, 1);
        let before = alloc::net();
        let fail_at = self.fail.map(|n| n.saturating_sub(self.allocs as u32)).filter(|&n| n > 0);
        unsafe { sim_op_enter(self.op as i32) };
        if INSIDE.fetch_add(1, Relaxed) > 0 {
            count(22, 1);
        }
        if let Some(n) = &self.nest {
            // counted over all the calls of one operation; releases from the start of each call
            let done = if n.frees { 0 } else { self.allocs };
            let first = u64::from(n.first);
            let first = match u64::from(n.every) {
                _ if first > done => first - done,
                0 => 0,
                every => every - (done - first) % every,
            };
            alloc::nesting(first, u64::from(n.every), n.frees);
        }
        alloc::start(fail_at);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let _g = alloc::tracked();
            f()
        }));
        let steps = unsafe { sim_op_exit() };
        let (n, fired) = alloc::stop();
        INSIDE.fetch_sub(1, Relaxed);
        self.allocs += n;
        self.steps = self.steps.max(steps);
        self.net += alloc::net() - before;
        if fired {
            count(0, 1);
            self.fail = None;
            self.failed = true;
        }
        match r {
            Ok(x) => End::Done(x),
            Err(p) => {
                if p.is::<AllocFailed>() {
                    count(1, 1);
                    return End::NoMemory;
                }
                if let Some(i) = p.downcast_ref::<Injected>() {
                    if panics {
                        return End::Panicked(i.0);
                    }
                    fail("panic", "an injected panic came out of a call that it was not injected into");
                }
                if fired {
                    // the failure reached the caller as another panic
                    count(1, 1);
                    return End::NoMemory;
                }
                let m = LAST_PANIC.with(|s| s.borrow().clone());
                fail("panic", &format!("the call panicked: {m}"));
            }
        }
    }
    /// Drops a result of the library inside the accounting.
    fn drop_result<T>(&mut self, x: T) {
        let before = alloc::net();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let _g = alloc::tracked();
            drop(x);
        }));
        if r.is_err() {
            fail("panic", "dropping a result panicked");
        }
        self.net += alloc::net() - before;
    }
    fn plain<R>(&mut self, f: impl FnOnce() -> R) -> Option<R> {
        match self.call(false, f) {
            End::Done(x) => Some(x),
            End::NoMemory => None,
            End::Panicked(_) => unreachable!(),
        }
    }
}

// ---------------------------------------------------------------- the world of a run
struct Slot {
    set: Option<(Arc<Sh<Tracked>>, Arc<List>)>,
}
struct Cursor {
    it: Sh<Codepoints<'static>>,
    list: Arc<List>,
    lo: u32,
    hi: u32, // indices [lo, hi) not yet delivered
}
struct Run {
    plan: Plan,
    builders: Vec<Sh<IntervalQuery<'static>>>,
    sets: Vec<Mutex<Slot>>,
    cursors: Vec<Mutex<Cursor>>,
}
fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(std::sync::PoisonError::into_inner)
}
struct Scratch {
    a: String,
    b: String,
}

fn show(r: &Result<Vec<Interval>, Error>) -> String {
    match r {
        Ok(v) if v.len() > 12 => format!("Ok({} intervals: {:?} .. {:?})", v.len(), &v[..6], &v[v.len() - 3..]),
        r => format!("{r:?}"),
    }
}
fn diff(got: &[Interval], want: &[Interval]) -> String {
    let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!(
        "first difference at interval {k}: got {:?}, expected {:?} (lengths {} and {})",
        &got[k.min(got.len())..(k + 3).min(got.len())],
        &want[k.min(want.len())..(k + 3).min(want.len())],
        got.len(),
        want.len()
    )
}
fn check_answer(what: &str, s: &Spec, got: &Result<Vec<Interval>, Error>, want: &Answer, h: &mut H) {
    match (got, want) {
        (Ok(g), Answer::Ok(w)) => {
            if g != w {
                fail("wrong-query", &format!("{what} of {s:?}: {}", diff(g, w)));
            }
            for &(l, r) in g {
                h.u(u64::from(l) << 32 | u64::from(r));
            }
        }
        (Err(Error::CodepointNotInRange(a, b)), Answer::NotInRange(c, d)) | (Err(Error::InvalidCodepoints(a, b)), Answer::Disordered(c, d))
            if (a, b) == (c, d) =>
        {
            count(15, 1);
            h.u(u64::from(*a) << 32 | u64::from(*b));
        }
        _ => fail("wrong-query", &format!("{what} of {s:?}: got {}, expected {want:?}", show(got))),
    }
}
fn digest_set(s: &IntervalSet) -> Vec<Iv> {
    // the intervals as the set's iterator and lookups show them
    let mut v: Vec<Iv> = vec![];
    for cp in s.iter() {
        match v.last_mut() {
            Some(x) if x.1.wrapping_add(1) == cp => x.1 = cp,
            _ => v.push((cp, cp)),
        }
    }
    v
}
type Iv = (u32, u32);
fn check_set(what: &str, s: &Spec, got: &Result<IntervalSet, Error>, want: &Answer, h: &mut H) {
    match (got, want) {
        (Ok(g), Answer::Ok(w)) => {
            let l = List::new(w.clone());
            if g.len() != l.len as usize || g.is_empty() != (l.len == 0) {
                fail("wrong-query", &format!("{what} of {s:?}: length {} instead of {}", g.len(), l.len));
            }
            if l.len < 20_000 {
                let seen = digest_set(g);
                if seen != *w {
                    fail("wrong-query", &format!("{what} of {s:?}: {}", diff(&seen, w)));
                }
            } else {
                for (k, &(a, b)) in w.iter().enumerate() {
                    let i = l.above(a).0;
                    if w.len() < 200 || k % 16 == 0 {
                        if g.codepoint_at(i) != Some(a) || g.index_of(b) != Some(i + (b - a)) || g.contains(b + 1) {
                            fail("wrong-query", &format!("{what} of {s:?}: interval {k} ({a}, {b}) is not in the set as expected"));
                        }
                    }
                }
            }
            h.u(u64::from(l.len));
        }
        (Err(Error::CodepointNotInRange(a, b)), Answer::NotInRange(c, d)) | (Err(Error::InvalidCodepoints(a, b)), Answer::Disordered(c, d))
            if (a, b) == (c, d) =>
        {
            count(15, 1);
        }
        _ => fail("wrong-query", &format!("{what} of {s:?}: got {:?}, expected {want:?}", got.as_ref().map(IntervalSet::len))),
    }
}

// ---------------------------------------------------------------- cursors
/// Takes the element the model expects next (front or back) and compares.
fn took(c: &mut Cursor, back: bool, got: u32, what: &str, h: &mut H) {
    h.u(u64::from(got));
    count(17, 1);
    if c.lo >= c.hi {
        fail("wrong-cursor", &format!("{what}: delivered {got} although every code point had been delivered"));
    }
    let i = if back { c.hi - 1 } else { c.lo };
    let want = c.list.at(i).unwrap();
    if got != want {
        fail("wrong-cursor", &format!("{what}: delivered {got}, expected {want} (element {i} of {}, {} left)", c.list.len, c.hi - c.lo));
    }
    if back {
        c.hi -= 1;
    } else {
        c.lo += 1;
    }
    if c.lo == c.hi {
        count(18, 1);
    }
}
fn opt(c: &mut Cursor, back: bool, got: Option<u32>, what: &str, h: &mut H) {
    match got {
        Some(x) => took(c, back, x, what, h),
        None => {
            if c.lo < c.hi {
                fail("wrong-cursor", &format!("{what}: delivered nothing with {} code points left", c.hi - c.lo));
            }
        }
    }
}
fn drop_front(c: &mut Cursor, back: bool, n: u64) -> bool {
    let left = u64::from(c.hi - c.lo);
    let k = n.min(left) as u32;
    if back {
        c.hi -= k;
    } else {
        c.lo += k;
    }
    n < left
}
fn compare_items(got: &[u32], want: impl Iterator<Item = u32>, what: &str) {
    let mut k = 0;
    for w in want {
        if got.get(k) != Some(&w) {
            fail("wrong-cursor", &format!("{what}: item {k} is {:?}, expected {w}", got.get(k)));
        }
        k += 1;
    }
    if got.len() != k {
        fail("wrong-cursor", &format!("{what}: {} items instead of {k}", got.len()));
    }
}
fn act(e: &mut Env, c: &mut Cursor, a: &Act) -> Option<Cursor> {
    let mut h = e.hash;
    let what = format!("{a:?}");
    match a {
        Act::Next(n) | Act::Back(n) => {
            let back = matches!(a, Act::Back(_));
            for _ in 0..*n {
                let Some(x) = e.plain(|| if back { so::it_back(&mut c.it.0) } else { so::it_next(&mut c.it.0) }) else { break };
                opt(c, back, x, &what, &mut h);
            }
        }
        Act::Nth(n) | Act::NthBack(n) => {
            let back = matches!(a, Act::NthBack(_));
            if let Some(x) = e.plain(|| if back { so::it_nth_back(&mut c.it.0, *n as usize) } else { so::it_nth(&mut c.it.0, *n as usize) }) {
                drop_front(c, back, u64::from(*n));
                opt(c, back, x, &what, &mut h);
            }
        }
        Act::Take { n, back, panic_at } | Act::Try { n, back, panic_at } => {
            let tr = matches!(a, Act::Try { .. });
            let mut got: Vec<u32> = vec![];
            let full = (if tr { (*n).max(1) } else { *n }).min(c.hi - c.lo);
            let end = {
                let got = &mut got;
                let it = &mut c.it.0;
                let mut each = |x: u32| {
                    outside(|| {
                        got.push(x);
                        if Some(got.len() as u32) == *panic_at {
                            count(12, 1);
                            inject();
                        }
                        got.len() as u32
                    })
                };
                e.call(true, || {
                    if tr {
                        let lim = *n;
                        let mut f = |x: u32| if each(x) >= lim.max(1) { None } else { Some(()) };
                        if *back {
                            so::it_try_each_back(it, &mut f);
                        } else {
                            so::it_try_each(it, &mut f);
                        }
                    } else if *back {
                        so::it_rev_take_each(it, *n as usize, &mut |x| {
                            each(x);
                        });
                    } else {
                        so::it_take_each(it, *n as usize, &mut |x| {
                            each(x);
                        });
                    }
                })
            };
            for x in &got {
                took(c, *back, *x, &what, &mut h);
            }
            match end {
                End::Done(()) => {
                    if got.len() as u32 != full {
                        fail("wrong-cursor", &format!("{what}: {} code points delivered instead of {full}", got.len()));
                    }
                    if panic_at.is_some_and(|p| p > 0 && p <= got.len() as u32) {
                        fail("wrong-cursor", &format!("{what}: the consumer's panic did not reach the caller"));
                    }
                }
                End::Panicked(_) => {
                    if Some(got.len() as u32) != *panic_at {
                        fail("wrong-cursor", &format!("{what}: a consumer was called again after it panicked"));
                    }
                }
                End::NoMemory => {}
            }
        }
        Act::Find { n, back } => {
            let mut got: Vec<u32> = vec![];
            let r = {
                let got = &mut got;
                let it = &mut c.it.0;
                e.plain(|| {
                    let mut f = |x: u32| {
                        outside(|| {
                            got.push(x);
                            got.len() as u32 >= (*n).max(1)
                        })
                    };
                    if *back {
                        so::it_rfind(it, &mut f)
                    } else {
                        so::it_find(it, &mut f)
                    }
                })
            };
            let left = c.hi - c.lo;
            for x in &got {
                took(c, *back, *x, &what, &mut h);
            }
            if let Some(r) = r {
                let want = if (*n).max(1) <= left { got.last().copied() } else { None };
                if r != want || (want.is_none() && got.len() as u32 != left) {
                    fail("wrong-cursor", &format!("{what}: found {r:?}, expected {want:?} after {} of {left}", got.len()));
                }
            }
        }
        Act::Hint => {
            if let Some((lo, hi)) = e.plain(|| so::it_hint(&c.it.0)) {
                let left = (c.hi - c.lo) as usize;
                if lo > left || hi.is_some_and(|x| x < left) {
                    fail("wrong-cursor", &format!("size hint ({lo}, {hi:?}) with {left} code points left"));
                }
            }
        }
        Act::Count | Act::Last | Act::MinMax | Act::Fold { .. } | Act::Step { .. } | Act::Skip { .. } | Act::CloneTo(_) => {
            let Some(k) = e.plain(|| so::it_clone(&c.it.0)) else { return None };
            let left = c.hi - c.lo;
            let all = (c.lo..c.hi).map(|i| c.list.at(i).unwrap());
            match a {
                Act::Count => {
                    if let Some(n) = e.plain(|| so::it_count(k)) {
                        if n != left as usize {
                            fail("wrong-cursor", &format!("count {n} with {left} code points left"));
                        }
                    }
                }
                Act::Last => {
                    if let Some(x) = e.plain(|| so::it_last(k)) {
                        let want = if left > 0 { c.list.at(c.hi - 1) } else { None };
                        if x != want {
                            fail("wrong-cursor", &format!("last {x:?}, expected {want:?}"));
                        }
                    }
                }
                Act::MinMax => {
                    if let Some(x) = e.plain(|| so::it_min_max(k)) {
                        let want = if left > 0 { (c.list.at(c.lo), c.list.at(c.hi - 1)) } else { (None, None) };
                        if x != want {
                            fail("wrong-cursor", &format!("min and max {x:?}, expected {want:?}"));
                        }
                    }
                }
                Act::Fold { back, panic_at } => {
                    let mut got: Vec<u32> = vec![];
                    let end = {
                        let got = &mut got;
                        e.call(true, || {
                            let mut f = |x: u32| {
                                outside(|| {
                                    got.push(x);
                                    if Some(got.len() as u32) == *panic_at {
                                        count(12, 1);
                                        inject();
                                    }
                                })
                            };
                            if *back {
                                so::it_rfold(k, &mut f);
                            } else {
                                so::it_fold(k, &mut f);
                            }
                        })
                    };
                    if !matches!(end, End::NoMemory) {
                        let n = if matches!(end, End::Panicked(_)) { got.len() } else { left as usize };
                        if *back {
                            compare_items(&got, all.rev().take(n), &what);
                        } else {
                            compare_items(&got, all.take(n), &what);
                        }
                    }
                }
                Act::Step { step, n } | Act::Skip { skip: step, n } => {
                    let st = matches!(a, Act::Step { .. });
                    let mut got: Vec<u32> = vec![];
                    let r = {
                        let got = &mut got;
                        e.plain(|| {
                            let mut f = |x: u32| outside(|| got.push(x));
                            if st {
                                so::it_step(k, *step as usize, *n as usize, &mut f);
                            } else {
                                so::it_skip(k, *step as usize, *n as usize, &mut f);
                            }
                        })
                    };
                    if r.is_some() {
                        if st {
                            compare_items(&got, all.step_by(*step as usize).take(*n as usize), &what);
                        } else {
                            compare_items(&got, all.skip(*step as usize).take(*n as usize), &what);
                        }
                    }
                }
                _ => return Some(Cursor { it: Sh(k), list: c.list.clone(), lo: c.lo, hi: c.hi }),
            }
        }
    }
    e.hash = h;
    None
}
/// Empties a cursor from both ends and asks twice more.
fn drain(c: &mut Cursor) {
    let mut h = H(0);
    let r = catch_unwind(AssertUnwindSafe(|| {
        if c.hi - c.lo > 100_000 {
            return;
        }
        let mut k = 0u64;
        while c.lo < c.hi {
            let back = mix(k / 3) & 1 == 1;
            let x = if back { c.it.0.next_back() } else { c.it.0.next() };
            opt(c, back, x, "draining", &mut h);
            k += 1;
        }
        for _ in 0..3 {
            let (x, y) = (c.it.0.next(), c.it.0.next_back());
            if x.is_some() || y.is_some() {
                fail("wrong-cursor", "an exhausted iterator delivered again");
            }
        }
    }));
    if r.is_err() {
        fail("panic", "iterating panicked");
    }
}

// ---------------------------------------------------------------- streams and sinks
struct Stream<'p> {
    run: &'p Run,
    names: &'p [String],
    f: &'p StreamFaults,
    at: u32,
    ended: bool,
    panicked: &'p Cell<u64>,
    asked_after_end: &'p Cell<bool>,
    asked: &'p Cell<u32>,
}
/// Another call of the library from inside the caller's own code.
fn reenter(run: &Run) {
    count(27, 1);
    let depth = DEPTH.with(|d| d.replace(d.get() + 1));
    let (nest_at, fail_at) = run.plan.inner.get(NEXT.with(Cell::get)).copied().unwrap_or_default();
    let was = INNER.with(|i| i.replace((if depth < 2 { nest_at } else { 0 }, if HOOKING.with(Cell::get) { 0 } else { fail_at })));
    let failed = INNER_FAILED.with(|f| f.replace(false));
    let r = catch_unwind(AssertUnwindSafe(|| call_again(run)));
    DEPTH.with(|d| d.set(depth));
    INNER.with(|i| i.set(was));
    let mine = INNER_FAILED.with(|f| f.replace(failed));
    if depth > 0 {
        count(28, 1);
    }
    if let Err(p) = r {
        if !mine {
            resume_unwind(p);
        }
        count(29, 1);
    }
}
fn call_again(run: &Run) {
    let all = &run.plan.nested;
    let k = NEXT.with(|n| n.replace(n.get() + 1));
    match all.get(k % all.len().max(1)) {
        Some(n) => nested(run, n),
        None => {
            nested(run, &Nested::Query { q: run.plan.builders[0].clone(), set: false });
            nested(run, &Nested::Expand { v: run.plan.builders[0].v, names: vec!["Lu".into(), "N".into()] });
        }
    }
}
fn within<R>(f: impl FnOnce() -> R) -> R {
    struct Pause(Option<alloc::Inner>);
    impl Drop for Pause {
        fn drop(&mut self) {
            if alloc::fired() {
                INNER_FAILED.with(|f| f.set(true));
            }
            self.0 = None;
            unsafe { sim_op_pause() }
        }
    }
    // the first of the calls made together is the one with the fault
    let (nest_at, fail_at) = INNER.with(|i| i.replace((0, 0)));
    unsafe { sim_op_resume() };
    let _p = Pause(Some(alloc::inner(nest_at, fail_at)));
    f()
}
fn nested(run: &Run, n: &Nested) {
    match n {
        Nested::Query { q, set } => {
            let (a, b) = (leak_str(&q.inc_ch), leak_str(&q.exc_ch));
            if *set {
                let got = within(|| so::interval_set(&builder(q, a, b)));
                check_set("an interval set made from inside another call", q, &got, &answer(q), &mut H(0));
                within(|| drop(got));
            } else {
                let got = within(|| so::intervals(&builder(q, a, b)));
                check_answer("a query made from inside another call", q, &got, &answer(q), &mut H(0));
                within(|| drop(got));
            }
        }
        Nested::Builder(i) => {
            let (q, i) = (&run.plan.builders[i % run.builders.len()], i % run.builders.len());
            let got = within(|| so::intervals(&run.builders[i].0));
            check_answer("the shared builder, from inside another call", q, &got, &answer(q), &mut H(0));
        }
        Nested::Current(reads) => {
            let Some((set, list)) = READING.with(Cell::get) else { return };
            let (set, list) = unsafe { (&*set, &*list) };
            let keep = READING.with(|r| r.replace(None));
            for r in reads {
                let (got, want) = match r {
                    Read::Len => (within(|| so::set_len(set)) as u64, u64::from(list.len)),
                    Read::At(i) => (within(|| so::set_at(set, *i)).map_or(u64::MAX, u64::from), list.at(*i).map_or(u64::MAX, u64::from)),
                    Read::Index(x) => (within(|| so::set_index_of(set, *x)).map_or(u64::MAX, u64::from), list.index_of(*x).map_or(u64::MAX, u64::from)),
                    Read::Above(x) => (u64::from(within(|| so::set_index_above(set, *x))), u64::from(list.above(*x).0)),
                    Read::Contains(x) => (u64::from(within(|| so::set_contains(set, *x))), u64::from(list.index_of(*x).is_some())),
                    _ => continue,
                };
                if got != want {
                    fail("wrong-set", &format!("{r:?} from inside another call on the same set: got {got}, expected {want}"));
                }
            }
            READING.with(|r| r.set(keep));
        }
        Nested::Expand { v, names } => {
            let refs: Vec<&str> = names.iter().map(String::as_str).collect();
            let got = within(|| so::expand_slice(&refs, VERS[*v]));
            let want = model::expand(refs.iter().copied(), *v);
            match (&got, &want) {
                (Ok(g), Ok(w)) if g.iter().map(|c| ci(*c)).collect::<Vec<_>>() == *w => {}
                (Err(Error::InvalidCategory(g)), Err(w)) if **g == **w => {}
                _ => fail("wrong-expand", &format!("an expansion made from inside another call: {names:?} gave {got:?}, expected {want:?}")),
            }
            within(|| drop(got));
        }
        Nested::Render(it) => {
            let item = match within(|| make_item(it)) {
                Ok(x) => x,
                Err(m) => fail("wrong-parse", &format!("{m}: {it:?}")),
            };
            let got = within(|| so::render_string(&*item));
            if got != item_text(it) {
                fail("wrong-render", &format!("{it:?}: printed {got:?} from inside another call"));
            }
        }
        Nested::Normal(v) => {
            let got = within(|| so::normalized(VERS[*v]));
            if got.iter().map(|c| ci(*c)).collect::<Vec<_>>() != data()[*v].order {
                fail("wrong-order", &format!("the normalised order of {} from inside another call: {got:?}", VERSIONS[*v]));
            }
        }
    }
}
/// A call from a place from which no panic may come out.
fn called_from(counter: usize, place: &str) {
    let Some(run) = (unsafe { RUN }) else { return };
    outside(|| {
        count(counter, 1);
        if catch_unwind(AssertUnwindSafe(|| reenter(run))).is_err() {
            let m = LAST_PANIC.with(|s| s.borrow().clone());
            fail("panic", &format!("a call made from {place} inside another call panicked: {m}"));
        }
    });
}
pub fn from_allocator() {
    called_from(24, "the allocator");
}
fn from_destructor() {
    let _g = alloc::untracked();
    called_from(25, "a destructor");
}
impl Stream<'_> {
    fn advance(&mut self) -> Option<u32> {
        let at = self.at;
        self.at += 1;
        self.asked.set(self.at);
        if self.ended || self.panicked.get() != 0 {
            self.asked_after_end.set(true);
        }
        for y in &self.f.yields {
            if *y == at {
                count(4, 1);
                unsafe { sim_yield() };
            }
        }
        if self.f.reenter.contains(&at) {
            count(5, 1);
            reenter(self.run);
        }
        if self.f.panic_at == Some(at) {
            count(2, 1);
            self.panicked.set(INJECT.with(Cell::get) + 1);
            inject();
        }
        if self.f.end_at == Some(at) {
            count(3, 1);
            self.ended = true;
            return None; // asked again, it would go on
        }
        if at as usize >= self.names.len() {
            self.ended = true;
            return None;
        }
        Some(at)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        let left = self.names.len().saturating_sub(self.at as usize);
        match self.f.hint {
            0 => (left, Some(left)),
            1 => (0, None),
            2 => (usize::MAX, None),
            3 => (0, Some(0)),
            _ => (usize::MAX / 2, Some(1)),
        }
    }
}
struct Strs<'p>(Stream<'p>);
impl<'p> Iterator for Strs<'p> {
    type Item = &'p str;
    fn next(&mut self) -> Option<&'p str> {
        outside(|| self.0.advance().map(|i| self.0.names[i as usize].as_str()))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint()
    }
}
struct Strings<'p>(Stream<'p>);
impl Iterator for Strings<'_> {
    type Item = String;
    fn next(&mut self) -> Option<String> {
        outside(|| self.0.advance().map(|i| self.0.names[i as usize].clone()))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint()
    }
}
type Text = dyn Fn() -> &'static str;
struct Entries<'p>(Stream<'p>, Vec<&'static Text>);
impl Iterator for Entries<'_> {
    type Item = so::Entry<'static>;
    fn next(&mut self) -> Option<so::Entry<'static>> {
        outside(|| {
            let r = self.0.f.drop_reenter.contains(&self.0.at);
            self.0.advance().map(|i| so::Entry(self.1[i as usize], if r { Some(from_destructor) } else { None }))
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint()
    }
}
struct Sink<'p> {
    run: &'p Run,
    f: &'p SinkFaults,
    got: String,
    calls: u32,
    failed: bool,
    after: bool,
    reentered: bool,
}
impl std::fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        outside(|| {
            if self.failed && !s.is_empty() {
                self.after = true;
                return Err(std::fmt::Error);
            }
            if self.f.yields {
                count(11, 1);
                unsafe { sim_yield() };
            }
            if self.f.reenter && !self.reentered {
                self.reentered = true;
                reenter(self.run);
            }
            let call = self.calls;
            self.calls += 1;
            let room = self.f.fail_after.map(|n| (n as usize).saturating_sub(self.got.len()));
            if self.f.fail_call == Some(call) || room.is_some_and(|n| s.len() > n) {
                self.failed = true;
                if self.f.short {
                    let mut n = room.unwrap_or(s.len() / 2).min(s.len());
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    self.got.push_str(&s[..n]);
                    count(9, 1);
                }
                if self.f.panic {
                    count(10, 1);
                    inject();
                }
                count(8, 1);
                return Err(std::fmt::Error);
            }
            self.got.push_str(s);
            Ok(())
        })
    }
}

// ---------------------------------------------------------------- operations
fn make_item(i: &Item) -> Result<Box<dyn std::fmt::Display>, String> {
    Ok(match i {
        Item::Cat(c) => Box::new(CATEGORIES[*c]),
        Item::Set(m) => Box::new(catset(*m, *m % 5)),
        Item::Version(v) => Box::new(VERS[*v]),
        Item::ErrCategory(s) => Box::new(so::parse_category(s).err().ok_or("category accepted")?),
        Item::ErrVersion(s) => Box::new(so::parse_version(s).err().ok_or("version accepted")?),
        Item::ErrRange(a, b) | Item::ErrOrder(a, b) => {
            let q = so::default_query().min_codepoint(*a).max_codepoint(*b);
            Box::new(so::intervals(&q).err().ok_or("range accepted")?)
        }
    })
}
fn do_query(e: &mut Env, run: &Run, scratch: &mut Scratch, src: &Src, set: bool) {
    let (spec, want);
    let keep: (Option<String>, Option<String>);
    let mut own: Option<IntervalQuery<'_>> = None;
    let mut shared: Option<&IntervalQuery<'static>> = None;
    match src {
        Src::Fresh(s) => {
            spec = s.clone();
            keep = (s.inc_ch.clone(), s.exc_ch.clone());
            let Some(b) = e.plain(|| builder(&spec, keep.0.as_deref(), keep.1.as_deref())) else { return };
            own = Some(b);
        }
        Src::Scratch(s) => {
            spec = s.clone();
            scratch.a.clear();
            scratch.b.clear();
            scratch.a.push_str(s.inc_ch.as_deref().unwrap_or(""));
            scratch.b.push_str(s.exc_ch.as_deref().unwrap_or(""));
            let (inc, exc) = (s.inc_ch.as_ref().map(|_| scratch.a.as_str()), s.exc_ch.as_ref().map(|_| scratch.b.as_str()));
            let Some(b) = e.plain(|| builder(&spec, inc, exc)) else { return };
            own = Some(b);
        }
        Src::Shared(i) => {
            spec = run.plan.builders[*i].clone();
            shared = Some(&run.builders[*i].0);
        }
        Src::CloneOf(i, s) => {
            spec = overlay(&run.plan.builders[*i], s);
            keep = (s.inc_ch.clone(), s.exc_ch.clone());
            let Some(b) = e.plain(|| apply(run.builders[*i].0.clone(), s, keep.0.as_deref(), keep.1.as_deref())) else { return };
            own = Some(b);
        }
    }
    want = answer(&spec);
    let q = shared.unwrap_or_else(|| own.as_ref().unwrap());
    let ascii = spec.max.unwrap_or(MAX) < 256;
    count(if ascii { 19 } else { 20 }, 1);
    let mut h = e.hash;
    if set {
        if let Some(r) = e.plain(|| so::interval_set(q)) {
            check_set("the interval set", &spec, &r, &want, &mut h);
            e.drop_result(r);
        }
    } else if let Some(r) = e.plain(|| so::intervals(q)) {
        check_answer("the query", &spec, &r, &want, &mut h);
        e.drop_result(r);
    }
    if let Some(q) = own {
        e.drop_result(q);
    }
    e.hash = h;
}
fn do_read(e: &mut Env, set: &IntervalSet, l: &List, reads: &[Read]) {
    READING.with(|r| r.set(Some((set, l))));
    do_reads(e, set, l, reads);
    READING.with(|r| r.set(None));
}
fn do_reads(e: &mut Env, set: &IntervalSet, l: &List, reads: &[Read]) {
    for r in reads {
        let (got, want): (Option<Option<u64>>, Option<u64>) = match r {
            Read::Len => (e.plain(|| Some(so::set_len(set) as u64)), Some(u64::from(l.len))),
            Read::Empty => (e.plain(|| Some(u64::from(so::set_is_empty(set)))), Some(u64::from(l.len == 0))),
            Read::Contains(x) => (
                e.plain(|| {
                    Some(u64::from(match char::from_u32(*x) {
                        Some(c) if x % 2 == 0 => so::set_contains_char(set, c),
                        _ => so::set_contains(set, *x),
                    }))
                }),
                Some(u64::from(l.index_of(*x).is_some())),
            ),
            Read::At(i) => (e.plain(|| so::set_at(set, *i).map(u64::from)), l.at(*i).map(u64::from)),
            Read::Index(x) => (
                e.plain(|| {
                    match char::from_u32(*x) {
                        Some(c) if x % 2 == 0 => so::set_index_of_char(set, c),
                        _ => so::set_index_of(set, *x),
                    }
                    .map(u64::from)
                }),
                l.index_of(*x).map(u64::from),
            ),
            Read::Above(x) => (
                e.plain(|| {
                    Some(u64::from(match char::from_u32(*x) {
                        Some(c) if x % 2 == 0 => so::set_index_above_char(set, c),
                        _ => so::set_index_above(set, *x),
                    }))
                }),
                Some(u64::from(l.above(*x).0)),
            ),
            Read::Front(n) | Read::Back(n) => {
                let back = matches!(r, Read::Back(_));
                let Some(mut it) = e.plain(|| if n % 2 == 0 { so::set_iter(set) } else { so::set_into_iter(set) }) else { continue };
                for k in 0..*n {
                    let Some(g) = e.plain(|| if back { so::it_back(&mut it) } else { so::it_next(&mut it) }) else { break };
                    let w = if k >= l.len { None } else { l.at(if back { l.len - 1 - k } else { k }) };
                    if g != w {
                        fail("wrong-set", &format!("{r:?}: item {k} is {g:?}, expected {w:?}"));
                    }
                }
                continue;
            }
            Read::Sum if l.len > 20_000 => continue,
            Read::Sum => {
                let mut sum = 0u64;
                let mut n = 0u64;
                let s = (&mut sum, &mut n);
                if e.plain(|| {
                    so::it_fold(so::set_iter(set), &mut |x| {
                        *s.0 = mix(*s.0 ^ u64::from(x));
                        *s.1 += 1;
                    });
                })
                .is_none()
                {
                    continue;
                }
                let mut w = 0;
                for i in 0..l.len {
                    w = mix(w ^ u64::from(l.at(i).unwrap()));
                }
                if n != u64::from(l.len) {
                    fail("wrong-set", &format!("iteration delivered {n} code points instead of {}", l.len));
                }
                (Some(Some(sum)), Some(w))
            }
        };
        if let Some(g) = got {
            if g != want {
                fail("wrong-set", &format!("{r:?}: got {g:?}, expected {want:?} on a set of {} code points {:?}", l.len, &l.iv[..l.iv.len().min(5)]));
            }
            e.hash.u(g.map_or(7, |x| x + 8));
        }
    }
}
fn do_expand(e: &mut Env, run: &Run, v: usize, names: &[String], kind: u32, f: &StreamFaults) {
    let longer: Vec<String>;
    let names = match f.again {
        Some((at, times)) if (at as usize) < names.len() => {
            let (a, b) = names.split_at(at as usize);
            longer = a.iter().chain(std::iter::repeat_n(&b[0], times as usize)).chain(b).cloned().collect();
            &longer[..]
        }
        _ => names,
    };
    let (panicked, after, asked) = (Cell::new(0), Cell::new(false), Cell::new(0));
    let stream = Stream { run, names, f, at: 0, ended: false, panicked: &panicked, asked_after_end: &after, asked: &asked };
    if f.hint != 0 {
        count(6, 1);
    }
    let text_panic = Cell::new(0u64);
    let closures: Vec<Box<dyn Fn() -> &'static str>>;
    let kind = kind % 4;
    let end = match kind {
        0 => {
            let mut s = Strs(stream);
            e.call(true, || so::expand_str(&mut s, VERS[v]))
        }
        1 => {
            let mut s = Strings(stream);
            e.call(true, || so::expand_string(&mut s, VERS[v]))
        }
        2 => {
            let tp = &text_panic;
            // SAFETY of the lifetime: leaked text
            let texts: Vec<&'static str> = names.iter().map(|s| -> &'static str { Box::leak(s.clone().into_boxed_str()) }).collect();
            let tpp: &'static Cell<u64> = unsafe { &*(tp as *const Cell<u64>) };
            let (y, p) = (f.text_yields.clone(), f.text_panic_at);
            closures = texts
                .into_iter()
                .enumerate()
                .map(|(i, s)| -> Box<dyn Fn() -> &'static str> {
                    let y = y.clone();
                    Box::new(move || {
                        outside(|| {
                            if y.contains(&(i as u32)) {
                                unsafe { sim_yield() };
                            }
                            if p == Some(i as u32) {
                                count(7, 1);
                                tpp.set(INJECT.with(Cell::get) + 1);
                                inject();
                            }
                            s
                        })
                    })
                })
                .collect();
            let refs: Vec<&dyn Fn() -> &'static str> = closures.iter().map(|b| &**b).collect();
            // shorten 'static to the life of this call
            let refs: Vec<&'static Text> = unsafe { std::mem::transmute(refs) };
            let mut s = Entries(stream, refs);
            e.call(true, || so::expand_entry(&mut s, VERS[v]))
        }
        _ => {
            let refs: Vec<&str> = names.iter().map(String::as_str).collect();
            e.call(true, || so::expand_slice(&refs, VERS[v]))
        }
    };
    if after.get() {
        fail("stream-misuse", "the stream was asked for more after it had ended or panicked");
    }
    let faulty = kind != 3;
    let seen = match f.end_at {
        Some(n) if faulty => &names[..names.len().min(n as usize)],
        _ => names,
    };
    // The first of: unknown name, panic of the stream at an entry, panic while reading the text of an entry
    let bad = seen.iter().position(|n| model::name_mask(n).is_none());
    let pan = f.panic_at.filter(|&p| faulty && p as usize <= seen.len() && f.end_at.is_none_or(|x| x >= p) && p <= names.len() as u32);
    let tpan = f.text_panic_at.filter(|&p| kind == 2 && (p as usize) < seen.len());
    let want = model::expand(seen.iter().map(String::as_str), v);
    match end {
        End::NoMemory => {}
        End::Panicked(id) => {
            if panicked.get() != id && text_panic.get() != id {
                fail("wrong-expand", "the panic that came out is not the one that was raised");
            }
        }
        End::Done(r) => {
            if panicked.get() != 0 || text_panic.get() != 0 {
                fail("wrong-expand", &format!("a panic of the stream was swallowed; the call returned {r:?}"));
            }
            match (&r, &want) {
                (Ok(g), Ok(w)) => {
                    let g: Vec<usize> = g.iter().map(|c| ci(*c)).collect();
                    if g != *w {
                        let s = |x: &[usize]| x.iter().map(|i| CATS[*i]).collect::<Vec<_>>().join(",");
                        fail("wrong-expand", &format!("version {}: {names:?} gave {}, expected {}", VERSIONS[v], s(&g), s(w)));
                    }
                    if pan.is_some() || tpan.is_some() {
                        fail("wrong-expand", &format!("the call returned {r:?} without reading the whole stream (asked {} times)", asked.get()));
                    }
                    for c in g {
                        e.hash.u(c as u64);
                    }
                }
                (Err(Error::InvalidCategory(g)), Err(w)) if **g == **w => {
                    count(15, 1);
                    // a fault placed before the unknown entry must have come first
                    let b = bad.unwrap() as u32;
                    if pan.is_some_and(|p| p <= b) || tpan.is_some_and(|p| p < b) {
                        fail("wrong-expand", "the stream's panic was never reached although an entry after it was reported");
                    }
                    e.hash.s(g);
                }
                _ => fail("wrong-expand", &format!("version {}: {names:?} gave {r:?}, expected {want:?}", VERSIONS[v])),
            }
            e.drop_result(r);
        }
    }
}
fn do_render(e: &mut Env, run: &Run, it: &Item, f: &SinkFaults) {
    let want = item_text(it);
    let item = match make_item(it) {
        Ok(x) => x,
        Err(m) => fail("wrong-parse", &format!("{m}: {it:?}")),
    };
    let mut sink = Sink { run, f, got: String::new(), calls: 0, failed: false, after: false, reentered: false };
    let end = e.call(true, || so::render(&*item, &mut sink));
    if sink.after {
        fail("wrong-render", &format!("{it:?}: text was written after the sink had failed"));
    }
    if !want.starts_with(&sink.got) {
        fail("wrong-render", &format!("{it:?}: the sink received {:?}, which does not begin {want:?}", sink.got));
    }
    match end {
        End::NoMemory => {}
        End::Panicked(_) => {
            if !(sink.failed && f.panic) {
                fail("wrong-render", "an unexpected panic came out");
            }
        }
        End::Done(r) => {
            if sink.failed && r.is_ok() {
                fail("wrong-render", &format!("{it:?}: the sink failed after {:?} and the caller was told all is well", sink.got));
            }
            if sink.failed && f.panic {
                fail("wrong-render", &format!("{it:?}: the sink's panic was swallowed"));
            }
            if !sink.failed && (r.is_err() || sink.got != want) {
                fail("wrong-render", &format!("{it:?}: result {r:?}, text {:?}, expected {want:?}", sink.got));
            }
        }
    }
    if let Some(s) = e.plain(|| so::render_string(&*item)) {
        if s != want {
            fail("wrong-render", &format!("{it:?}: printed {s:?}, expected {want:?}"));
        }
        e.hash.s(&s);
        e.drop_result(s);
    }
}
fn do_cs(e: &mut Env, acts: &[CsAct]) {
    let r = e.plain(|| {
        let mut s = so::cs_new();
        let mut m = 0u32;
        for a in acts {
            match a {
                CsAct::Add(c) => {
                    so::cs_add(&mut s, CATEGORIES[*c]);
                    m |= 1 << c;
                }
                CsAct::Remove(c) => {
                    so::cs_remove(&mut s, CATEGORIES[*c]);
                    m &= !(1 << c);
                }
                CsAct::OrCat(c) => {
                    s = so::cs_or_cat(s, CATEGORIES[*c]);
                    m |= 1 << c;
                }
                CsAct::CatOr(c) => {
                    s = so::cs_cat_or(CATEGORIES[*c], s);
                    m |= 1 << c;
                }
                CsAct::AssignCat(c) => {
                    so::cs_assign_cat(&mut s, CATEGORIES[*c]);
                    m |= 1 << c;
                }
                CsAct::AssignSet(x) => {
                    let t = outside(|| catset(*x, 0));
                    so::cs_assign_set(&mut s, t);
                    m |= x;
                }
                CsAct::OrSet(x) => {
                    let t = outside(|| catset(*x, 1));
                    s = so::cs_or_set(s, t);
                    m |= x;
                }
                CsAct::OrClass(i) => {
                    s = so::cs_or_set(s, so::cs_class(*i));
                    m |= model::class_mask(model::CLASSES[*i]);
                }
                CsAct::New => {
                    s = so::cs_default();
                    m = 0;
                }
                CsAct::All => {
                    s = so::cs_all();
                    m = model::ALL;
                }
                CsAct::From(c) => {
                    s = so::cs_from(CATEGORIES[*c]);
                    m = 1 << c;
                }
                CsAct::Pair(a, b) => {
                    s = so::cs_cat_or_cat(CATEGORIES[*a], CATEGORIES[*b]);
                    m = 1 << a | 1 << b;
                }
            }
        }
        (s, m)
    });
    let Some((s, m)) = r else { return };
    let mut it: Vec<usize> = vec![];
    let mut lens_ok = true;
    let mut left = m.count_ones() as usize;
    {
        let (it, lens_ok, left) = (&mut it, &mut lens_ok, &mut left);
        e.plain(|| {
            so::cs_iter(s, &mut |c, n| {
                outside(|| {
                    *lens_ok &= n == *left;
                    *left = left.wrapping_sub(1);
                    it.push(ci(c));
                })
            })
        });
    }
    let want: Vec<usize> = (0..30).filter(|i| m >> i & 1 == 1).collect();
    let contains = (0..30).all(|i| so::cs_contains(s, CATEGORIES[i]) == (m >> i & 1 == 1));
    if it != want || !lens_ok || !contains || so::cs_len(s) != want.len() || so::cs_is_empty(s) != want.is_empty() || so::cs_value(s) != m {
        fail("wrong-catset", &format!("{acts:?}: members {it:?}, expected {want:?} (value {:#x})", so::cs_value(s)));
    }
    e.hash.u(u64::from(m));
}
/// Stores into a shared set (there should be none) are where schedules matter.
fn hot_set(s: &Arc<Sh<Tracked>>) {
    let p: *const IntervalSet = &*s.0 .0;
    unsafe { sim_hot_range(p.cast(), p.add(1).cast(), 1) };
}
struct Tracked(ManuallyDrop<IntervalSet>);
impl Tracked {
    fn new(s: IntervalSet) -> Tracked {
        Tracked(ManuallyDrop::new(s))
    }
    fn forget(&self) {
        let p: *const IntervalSet = &*self.0;
        unsafe { sim_hot_forget(p.cast()) };
    }
    fn take(mut self) -> IntervalSet {
        let s = unsafe { ManuallyDrop::take(&mut self.0) };
        std::mem::forget(self);
        s
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        self.forget();
        unsafe { ManuallyDrop::drop(&mut self.0) };
    }
}
impl std::ops::Deref for Tracked {
    type Target = IntervalSet;
    fn deref(&self) -> &IntervalSet {
        &self.0
    }
}
fn run_op(e: &mut Env, run: &Run, scratch: &mut Scratch, op: &Op) {
    match op {
        Op::Query { src, set } => do_query(e, run, scratch, src, *set),
        Op::Many { what, seed, n } => {
            for k in 0..*n {
                let mut r = Rng::new(&[*seed, u64::from(k)]);
                if r.pct(10) && k > 20 {
                    r = Rng::new(&[*seed, u64::from(k) - r.range(1, 20)]); // asked before
                    r.u64();
                }
                match what {
                    0 => do_query(e, run, scratch, &Src::Scratch(gen::tiny(&mut r)), false),
                    1 => do_expand(e, run, if r.pct(70) { 10 } else { r.us(11) }, &gen::names(&mut r), 3, &StreamFaults::default()),
                    2 => {
                        let k = r.us(run.sets.len());
                        let Some((s, l)) = lock(&run.sets[k]).set.clone() else { continue };
                        do_read(e, &s.0, &l, &gen::reads(&mut r, &l));
                    }
                    _ => {
                        let op = Op::Render { item: gen::item(&mut r), f: SinkFaults::default() };
                        run_op(e, run, scratch, &op);
                    }
                }
            }
        }
        Op::SetPut { slot, q } => {
            let (a, b) = (q.inc_ch.clone(), q.exc_ch.clone());
            let b = builder(q, a.as_deref(), b.as_deref());
            let want = answer(q);
            if let Some(r) = e.plain(|| so::interval_set(&b)) {
                let mut h = H(0);
                check_set("the interval set", q, &r, &want, &mut h);
                if let (Ok(s), Answer::Ok(w)) = (r, want) {
                    let s = Arc::new(Sh(Tracked::new(s)));
                    hot_set(&s);
                    let old = lock(&run.sets[*slot]).set.replace((s, Arc::new(List::new(w))));
                    if old.as_ref().is_some_and(|o| Arc::strong_count(&o.0) > 1) {
                        count(16, 1);
                    }
                    drop(old);
                }
            }
        }
        Op::SetClone { from, to } => {
            let Some((s, l)) = lock(&run.sets[*from]).set.clone() else { return };
            if let Some(c) = e.plain(|| so::set_clone(&s.0)) {
                let old = lock(&run.sets[*to]).set.replace((Arc::new(Sh(Tracked::new(c))), l));
                drop(old);
            }
        }
        Op::SetDrop { slot } => {
            let old = lock(&run.sets[*slot]).set.take();
            if let Some((s, _)) = old {
                if Arc::strong_count(&s) == 1 {
                    s.0.forget();
                }
                if let Some(Sh(s)) = Arc::into_inner(s) {
                    let s = s.take();
                    e.plain(|| so::set_drop(s));
                } else {
                    count(16, 1);
                }
            }
        }
        Op::SetRead { slot, reads } => {
            let Some((s, l)) = lock(&run.sets[*slot]).set.clone() else { return };
            do_read(e, &s.0, &l, reads);
        }
        Op::Cur { slot, act: a } => {
            let made = {
                let mut c = lock(&run.cursors[*slot]);
                act(e, &mut c, a)
            };
            if let (Some(k), Act::CloneTo(to)) = (made, a) {
                let mut old = std::mem::replace(&mut *lock(&run.cursors[*to]), k);
                drain(&mut old);
            }
        }
        Op::Own { q, acts } => {
            let (a, b) = (q.inc_ch.clone(), q.exc_ch.clone());
            let b = builder(q, a.as_deref(), b.as_deref());
            let want = answer(q);
            let Some(r) = e.plain(|| so::interval_set(&b)) else { return };
            check_set("the interval set", q, &r, &want, &mut H(0));
            let (Ok(s), Answer::Ok(w)) = (r, want) else { return };
            {
                let st: &'static IntervalSet = unsafe { &*std::ptr::addr_of!(s) };
                let l = Arc::new(List::new(w));
                let n = l.len;
                let mut cs: Vec<Cursor> =
                    (0..3).map(|k| Cursor { it: Sh(if k == 1 { so::set_into_iter(st) } else { so::set_iter(st) }), list: l.clone(), lo: 0, hi: n }).collect();
                let mut k = 0;
                for a in acts {
                    if let (Some(c), Act::CloneTo(to)) = (act(e, &mut cs[k], a), a) {
                        k = *to % 3;
                        let mut old = std::mem::replace(&mut cs[k], c);
                        if old.list.len < 3000 {
                            drain(&mut old);
                        }
                    }
                }
                for c in &mut cs {
                    if c.list.len < 6000 {
                        drain(c);
                    }
                }
            }
            e.drop_result(s);
        }
        Op::Expand { v, names, kind, f } => do_expand(e, run, *v, names, *kind, f),
        Op::Render { item, f } => do_render(e, run, item, f),
        Op::Normal(v) => {
            if let Some(g) = e.plain(|| so::normalized(VERS[*v])) {
                let g: Vec<usize> = g.iter().map(|c| ci(*c)).collect();
                if g != data()[*v].order {
                    fail("wrong-order", &format!("normalised order of {}: {:?}", VERSIONS[*v], g.iter().map(|i| CATS[*i]).collect::<Vec<_>>()));
                }
                for x in g {
                    e.hash.u(x as u64);
                }
            }
        }
        Op::Table(v, c) => {
            let Some(g) = e.plain(|| so::intervals_for(VERS[*v], CATEGORIES[*c])) else { return };
            let Some(t) = e.plain(|| so::table(VERS[*v])) else { return };
            if g != data()[*v].table[*c] || t.len() != 30 || t[*c] != g {
                fail("wrong-table", &format!("table of {} in {}: {}", CATS[*c], VERSIONS[*v], diff(g, &data()[*v].table[*c])));
            }
            e.hash.u(g.len() as u64);
        }
        Op::ParseVersion(s) => {
            if let Some(r) = e.plain(|| so::parse_version(s)) {
                match (&r, VERSIONS.iter().position(|x| x == s)) {
                    (Ok(v), Some(i)) if *v == VERS[i] => {
                        if so::version_str(*v) != s {
                            fail("wrong-parse", &format!("version {s:?} prints {:?}", so::version_str(*v)));
                        }
                        e.hash.u(i as u64);
                    }
                    (Err(Error::InvalidVersion(t)), None) if **t == **s => {}
                    _ => fail("wrong-parse", &format!("version {s:?}: {r:?}")),
                }
                e.drop_result(r);
            }
        }
        Op::ParseCat(s) => {
            if let Some(r) = e.plain(|| so::parse_category(s)) {
                match (&r, CATS.iter().position(|x| x == s)) {
                    (Ok(c), Some(i)) if *c == CATEGORIES[i] => {
                        if so::category_str(*c) != s {
                            fail("wrong-parse", &format!("category {s:?} prints {:?}", so::category_str(*c)));
                        }
                        e.hash.u(i as u64);
                    }
                    (Err(Error::InvalidCategory(t)), None) if **t == **s => {}
                    _ => fail("wrong-parse", &format!("category {s:?}: {r:?}")),
                }
                e.drop_result(r);
            }
        }
        Op::Cs(acts) => do_cs(e, acts),
        Op::Consts => {
            let Some(l) = e.plain(so::latest) else { return };
            let Some(a) = e.plain(so::all_versions) else { return };
            if l != VERS[10] || a != VERS {
                fail("wrong-parse", "latest or ALL is wrong");
            }
        }
    }
}
fn stateless(op: &Op) -> bool {
    !matches!(op, Op::SetPut { .. } | Op::SetClone { .. } | Op::SetDrop { .. } | Op::Cur { .. })
}
fn task(run: &Run, t: usize) {
    unsafe { sim_task_begin(t as i32) };
    let mut scratch = Scratch { a: String::with_capacity(2048), b: String::with_capacity(2048) };
    let mut owed: Vec<(usize, usize)> = vec![];
    for (o, rec) in run.plan.tasks[t].iter().enumerate() {
        CUR.with(|c| c.set((t, o)));
        let flat = sh().op_base[t] as usize + o;
        let mut e = Env { op: o, flat, fail: None, nest: None, allocs: 0, steps: 0, hash: H(mix((t * 1000 + o) as u64)), net: 0, failed: false };
        let mut growth = vec![];
        let mut any_failed = false;
        for _ in 0..rec.rep {
            e.fail = rec.fail;
            e.nest = rec.nest.clone();
            e.allocs = 0;
            e.net = 0;
            run_op(&mut e, run, &mut scratch, &rec.op);
            growth.push(e.net);
            any_failed |= e.failed;
        }
        if any_failed {
            // the same call again, with memory; at once it might clear away what the failed one has left to the others
            owed.push((o + rec.again as usize, o));
        }
        while let Some(k) = owed.iter().position(|x| x.0 <= o) {
            retry(&mut e, run, t, owed.remove(k).1, &mut scratch);
        }
        // a call that unwinds out of a failed allocation may leave memory behind: the standard library's own
        // conversions (Arc<[T]>::from(Vec), into_boxed_slice) do, as a failed allocation normally ends the process
        if rec.rep >= 5 && stateless(&rec.op) && !any_failed {
            count(14, 1);
            if growth[growth.len() - 3..].iter().all(|g| *g > 0) {
                fail("leak", &format!("each further call leaves memory allocated: {growth:?} bytes ({:?})", rec));
            }
        }
        let s = sh();
        s.op_steps[e.flat] = e.steps;
        s.op_allocs[e.flat] = e.allocs;
        s.op_hot_n[e.flat] = unsafe { sim_op_hot(s.op_hot[e.flat].as_mut_ptr()) };
        count(23, u64::from(s.op_hot_n[e.flat]));
        s.op_first_n[e.flat] = unsafe { sim_op_firsts(s.op_first[e.flat].as_mut_ptr()) };
        s.digest = s.digest.wrapping_add(e.hash.0);
    }
    for (_, o) in owed {
        let flat = sh().op_base[t] as usize + o;
        let mut e = Env { op: o, flat, fail: None, nest: None, allocs: 0, steps: 0, hash: H(mix((t * 1000 + o) as u64)), net: 0, failed: false };
        retry(&mut e, run, t, o, &mut scratch);
        sh().digest = sh().digest.wrapping_add(e.hash.0);
    }
}
fn retry(e: &mut Env, run: &Run, t: usize, o: usize, scratch: &mut Scratch) {
    count(21, 1);
    e.fail = None;
    e.nest = None;
    e.allocs = 0;
    run_op(e, run, scratch, &run.plan.tasks[t][o].op);
}
extern "C" {
    static mut environ: *const *const libc::c_char;
}
/// What a call finds that lists the environment instead of asking for a name.
fn hostile_environ(seed: u64) {
    const NAMES: [&str; 12] =
        ["LANG", "LC_ALL", "TZ", "HOME", "UNICODE_VERSION", "UNICODE_INTERVALS_VERSION", "DEBUG", "RUST_LOG", "CI", "NO_COLOR", "PYTHONHASHSEED", "TMPDIR"];
    const VALUES: [&str; 8] = ["", "0", "1", "9.0.0", "12.1.0", "tr_TR.UTF-8", "C", "/tmp"];
    let mut list = vec![];
    let mut h = seed;
    for name in NAMES {
        h = mix(h);
        if h & 1 == 0 {
            list.push(std::ffi::CString::new(format!("{name}={}", VALUES[(h >> 8) as usize % 8])).unwrap().into_raw().cast_const());
        }
    }
    if h & 4 == 0 {
        list.reverse();
    }
    list.push(std::ptr::null());
    unsafe { environ = Box::leak(list.into_boxed_slice()).as_ptr() };
}
fn body(plan: Plan, trace: bool) {
    let nt = plan.tasks.len();
    let mut flat = 0;
    for (t, ops) in plan.tasks.iter().enumerate() {
        sh().op_base[t] = flat as u32;
        flat += ops.len();
    }
    assert!(flat < MAX_OPS && nt < 60);
    sharing(&plan.property);
    // another heap layout per world
    let mut hseed = plan.world.heap;
    for _ in 0..hseed % 13 {
        hseed = mix(hseed);
        Box::leak(vec![0u8; (hseed % 5000) as usize].into_boxed_slice());
    }
    let events: Vec<SimEvent> = plan
        .events
        .iter()
        .map(|e| {
            let (kind, arg) = match e.kind {
                Kind::Preempt(t) => (1, i64::from(t)),
                Kind::Stall => (2, 0),
                Kind::Sleep(n) => (3, n),
                Kind::Clock(n) => (4, n),
            };
            SimEvent { task: e.task, op: e.op, step: e.step, kind, pad: 0, arg }
        })
        .collect();
    let events: &'static [SimEvent] = Box::leak(events.into_boxed_slice());
    let w = plan.world.clone();
    let cfg = SimConfig {
        sched_seed: w.sched,
        env_seed: w.env,
        entropy: w.entropy,
        mono0: w.mono0,
        real0: w.real0,
        switch_pct: plan.switch_pct,
        stall_strict: i32::from(plan.stall_strict),
        op_cap: step_bound(&plan),
        quantum: plan.quantum,
        events: events.as_ptr(),
        n_events: events.len() as i32,
        trace: i32::from(trace),
        wake_any: 0,
        pad: 0,
    };
    if w.env != 0 {
        hostile_environ(w.env);
    }
    unsafe {
        sim_hot_object(c"".as_ptr());
        sim_start(&cfg, &mut sh().sim);
    }
    // the main thread is task nt: it builds what is shared, as calls of its own
    unsafe { sim_task_begin(nt as i32) };
    CUR.with(|c| c.set((nt, 0)));
    let mut e = Env { op: 0, flat: 0, fail: None, nest: None, allocs: 0, steps: 0, hash: H(0), net: 0, failed: false };
    let builders = plan.builders.iter().map(|s| Sh(builder(s, leak_str(&s.inc_ch), leak_str(&s.exc_ch)))).collect();
    let mut build = |s: &Spec| -> (IntervalSet, Arc<List>) {
        let q = builder(s, leak_str(&s.inc_ch), leak_str(&s.exc_ch));
        let r = e.plain(|| so::interval_set(&q)).unwrap();
        check_set("the interval set", s, &r, &answer(s), &mut H(0));
        match (r, answer(s)) {
            (Ok(x), Answer::Ok(iv)) => (x, Arc::new(List::new(iv))),
            _ => finish(3, "harness", "a shared set is not valid"),
        }
    };
    let sets = plan
        .sets
        .iter()
        .map(|s| {
            let (x, l) = build(s);
            let x = Arc::new(Sh(Tracked::new(x)));
            hot_set(&x);
            Mutex::new(Slot { set: Some((x, l)) })
        })
        .collect();
    let cursors = plan
        .cursors
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let (x, list) = build(s);
            let x: &'static IntervalSet = Box::leak(Box::new(x));
            let hi = list.len;
            Mutex::new(Cursor { it: Sh(if i % 2 == 0 { so::set_iter(x) } else { so::set_into_iter(x) }), list, lo: 0, hi })
        })
        .collect();
    let run: &'static Run = Box::leak(Box::new(Run { plan, builders, sets, cursors }));
    unsafe { RUN = Some(run) };
    for _ in 0..w.extra_threads {
        std::thread::spawn(|| {}).join().unwrap();
    }
    let gate: &'static Barrier = Box::leak(Box::new(Barrier::new(nt + 1)));
    let handles: Vec<_> = (0..nt)
        .map(|k| {
            let t = (k + w.spawn_rot as usize) % nt;
            let b = std::thread::Builder::new().stack_size(512 * 1024);
            let b = if w.env == 0 { b } else { b.name(["main", "worker", "", "9.0.0", "pool-1"][(w.env >> 9) as usize % 5].to_string()) };
            b
                .spawn(move || {
                    unsafe { sim_task_begin(t as i32) };
                    gate.wait();
                    let r = catch_unwind(AssertUnwindSafe(|| task(run, t)));
                    if r.is_err() {
                        let m = LAST_PANIC.with(|s| s.borrow().clone());
                        finish(3, "harness", &format!("task {t}: {m}"));
                    }
                })
                .unwrap()
        })
        .collect();
    gate.wait();
    for h in handles {
        h.join().unwrap();
    }
    CUR.with(|c| c.set((nt, 1)));
    for c in &run.cursors {
        drain(&mut lock(c));
    }
    for (i, b) in run.builders.iter().enumerate() {
        // builders still answer as at the start
        let s = &run.plan.builders[i];
        let got = e.plain(|| so::intervals(&b.0)).unwrap();
        check_answer("the shared builder, at the end", s, &got, &answer(s), &mut H(0));
    }
    for s in &run.sets {
        if let Some((x, l)) = &lock(s).set {
            if x.0.len() != l.len as usize || (l.len < 3000 && digest_set(&x.0) != l.iv) {
                fail("wrong-set", "a shared set has changed by the end of the run");
            }
        }
    }
    unsafe { sim_stop() };
}
/// The steps one operation may take: far above any measured, and in proportion to the code points it may visit.
fn step_bound(plan: &Plan) -> u64 {
    let own = plan.tasks.iter().flatten().filter_map(|r| if let Op::Own { q, .. } = &r.op { Some(q) } else { None });
    let most = plan.sets.iter().chain(&plan.cursors).chain(own).map(|s| match answer(s) {
        Answer::Ok(iv) => iv.iter().map(|(l, r)| u64::from(r - l + 1)).sum(),
        _ => 0,
    });
    // calls made by the allocator in the middle of a call count as its steps
    let nested = plan.tasks.iter().flatten().any(|r| r.nest.is_some());
    (80_000_000 + 2000 * most.max().unwrap_or(0)) * if nested { 10 } else { 1 }
}
/// In a fresh child process: does not return.
pub fn run_child(plan: Plan, shared: *mut Shared, trace: bool) -> ! {
    unsafe { SHARED = shared };
    alloc::use_arena(mix(plan.world.heap));
    let hook = plan.hook;
    std::panic::set_hook(Box::new(move |i| {
        let _g = alloc::untracked();
        if i.payload().is::<AllocFailed>() || i.payload().is::<Injected>() {
            if hook && i.payload().is::<AllocFailed>() {
                HOOKING.with(|h| h.set(true));
                called_from(26, "the panic hook");
                HOOKING.with(|h| h.set(false));
            }
            return;
        }
        let mut s = String::new();
        let _ = write!(s, "{i}");
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = s);
    }));
    std::alloc::set_alloc_error_hook(|_| {
        let _g = alloc::untracked();
        if alloc::fired() {
            panic_any(AllocFailed);
        }
    });
    let r = catch_unwind(AssertUnwindSafe(|| body(plan, trace)));
    if let Err(p) = r {
        let m = LAST_PANIC.with(|s| s.borrow().clone());
        if std::env::var_os("SIM_DEBUG").is_some() {
            resume_unwind(p);
        }
        finish(3, "harness", &m);
    }
    sh().status = 1;
    unsafe { libc::_exit(0) }
}

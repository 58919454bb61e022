//! The allocator of the simulated process: counts, fails on command, poisons freed memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{
    AtomicBool,
    Ordering::{Acquire, Release},
};

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static NET: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FAIL_AT: Cell<u64> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static NEST: Cell<(u64, u64, bool)> = const { Cell::new((0, 0, false)) };
    static FREES: Cell<u64> = const { Cell::new(0) };
}
fn nest(n: u64, free: bool) {
    let (first, every, frees) = NEST.with(Cell::get);
    if frees == free && first != 0 && n >= first && (n == first || every != 0 && (n - first) % every == 0) {
        crate::exec::from_allocator();
    }
}
pub struct Sim;
const TRACKED: u64 = 0x7ac4_ed00_7ac4_ed00;
const PLAIN: u64 = 0x51a1_51a1_51a1_51a1;
const FREED: u64 = 0xdead_dead_dead_dead;

/// Once a run has begun its memory comes from here: at the same addresses whenever the run is repeated, and
/// handed out again in an order that belongs to the run's world.
struct Arena {
    lo: usize,
    next: usize,
    hi: usize,
    policy: u64,
    head: [usize; 40],
    tail: [usize; 40],
}
static LOCK: AtomicBool = AtomicBool::new(false);
static mut ARENA: Arena = Arena { lo: 0, next: 0, hi: 0, policy: 0, head: [0; 40], tail: [0; 40] };
const ARENA_AT: usize = 0x2000_0000_0000;
const ARENA_SIZE: usize = 16 << 30;
const WITHOUT_REUSE: usize = 64 << 20;

/// To be called once, in the child, by its only thread.
pub fn use_arena(seed: u64) {
    unsafe {
        let a = ARENA_AT + ((seed >> 8) as usize % 509) * 0x10_0000_0000;
        let flags = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE;
        let p = libc::mmap(a as *mut libc::c_void, ARENA_SIZE, libc::PROT_READ | libc::PROT_WRITE, flags, -1, 0);
        if p as usize != a {
            return;
        }
        ARENA.policy = seed % 5; // 0, 4: last freed first; 1, 3: first freed first; 2: not at all while it fits
        ARENA.lo = a;
        ARENA.hi = a + ARENA_SIZE;
        ARENA.next = a + 16 * ((seed >> 20) as usize % 0x1000);
    }
}
#[allow(static_mut_refs)]
unsafe fn take(l: Layout) -> *mut u8 {
    if ARENA.lo == 0 {
        return System.alloc(l);
    }
    let class = l.size().max(32).next_power_of_two().trailing_zeros() as usize;
    while LOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let a = &mut ARENA;
    let reuse = a.policy != 2 || a.next - a.lo > WITHOUT_REUSE;
    let p = if class < 40 && l.align() <= 16 && reuse && a.head[class] != 0 {
        let p = a.head[class];
        a.head[class] = (p as *const usize).add(1).read();
        p
    } else if class < 40 {
        // blocks of one class are of one size, so any of them will do later
        let p = (a.next + l.align() - 1) & !(l.align() - 1);
        let end = p + (1usize << class);
        if end > a.hi {
            0
        } else {
            a.next = end;
            p
        }
    } else {
        0
    };
    LOCK.store(false, Release);
    p as *mut u8
}
#[allow(static_mut_refs)]
unsafe fn give(p: *mut u8, l: Layout) {
    let at = p as usize;
    if at < ARENA.lo || at >= ARENA.hi {
        System.dealloc(p, l);
        return;
    }
    let class = l.size().max(32).next_power_of_two().trailing_zeros() as usize;
    while LOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let a = &mut ARENA;
    if a.policy % 2 == 0 || a.head[class] == 0 {
        (at as *mut usize).add(1).write(a.head[class]);
        if a.head[class] == 0 {
            a.tail[class] = at;
        }
        a.head[class] = at;
    } else {
        (at as *mut usize).add(1).write(0);
        (a.tail[class] as *mut usize).add(1).write(at);
        a.tail[class] = at;
    }
    LOCK.store(false, Release);
}

fn pad(l: Layout) -> usize {
    l.align().max(16)
}
unsafe impl GlobalAlloc for Sim {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let track = TRACK.with(Cell::get);
        if track {
            let n = COUNT.with(|c| {
                c.set(c.get() + 1);
                c.get()
            });
            nest(n, false);
            if n == FAIL_AT.with(Cell::get) {
                FAIL_AT.with(|f| f.set(0));
                FIRED.with(|f| f.set(true));
                return std::ptr::null_mut();
            }
        }
        let h = pad(l);
        let Ok(full) = Layout::from_size_align(l.size() + h, h) else { return std::ptr::null_mut() };
        let p = take(full);
        if p.is_null() {
            return p;
        }
        p.cast::<u64>().write(if track { TRACKED } else { PLAIN });
        if track {
            NET.with(|n| n.set(n.get() + l.size() as i64));
        }
        p.add(h)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if TRACK.with(Cell::get) {
            nest(
                FREES.with(|c| {
                    c.set(c.get() + 1);
                    c.get()
                }),
                true,
            );
        }
        let h = pad(l);
        let base = p.sub(h);
        let tag = base.cast::<u64>().read();
        if tag == TRACKED {
            NET.with(|n| n.set(n.get() - l.size() as i64));
        } else if tag != PLAIN {
            libc::abort();
        }
        base.cast::<u64>().write(FREED);
        std::ptr::write_bytes(p, 0xdd, l.size().min(4096));
        give(base, Layout::from_size_align_unchecked(l.size() + h, h));
    }
}

pub struct Guard(bool);
impl Drop for Guard {
    fn drop(&mut self) {
        TRACK.with(|t| t.set(self.0));
    }
}
pub fn tracked() -> Guard {
    Guard(TRACK.with(|t| t.replace(true)))
}
pub fn untracked() -> Guard {
    Guard(TRACK.with(|t| t.replace(false)))
}
pub fn start(fail_at: Option<u32>) {
    COUNT.with(|c| c.set(0));
    FIRED.with(|f| f.set(false));
    FAIL_AT.with(|f| f.set(u64::from(fail_at.unwrap_or(0))));
}
/// To be called before `start`.
pub fn nesting(first: u64, every: u64, frees: bool) {
    FREES.with(|c| c.set(0));
    NEST.with(|f| f.set((first, every, frees)));
}
/// What belongs to a call while another one runs inside it.
pub struct Inner(bool, u64, u64, u64, bool, (u64, u64, bool));
/// A call begins inside another one: calls the library at its `nest_at`-th allocation, fails its `fail_at`-th.
pub fn inner(nest_at: u32, fail_at: u32) -> Inner {
    let i = Inner(
        TRACK.with(|t| t.replace(true)),
        COUNT.with(|c| c.replace(0)),
        FREES.with(|c| c.replace(0)),
        FAIL_AT.with(|c| c.replace(u64::from(fail_at))),
        FIRED.with(|c| c.replace(false)),
        NEST.with(|c| c.replace((u64::from(nest_at), 0, false))),
    );
    i
}
impl Drop for Inner {
    fn drop(&mut self) {
        TRACK.with(|c| c.set(self.0));
        COUNT.with(|c| c.set(self.1));
        FREES.with(|c| c.set(self.2));
        FAIL_AT.with(|c| c.set(self.3));
        FIRED.with(|c| c.set(self.4));
        NEST.with(|c| c.set(self.5));
    }
}
/// (allocations made, whether the planned failure happened)
pub fn stop() -> (u64, bool) {
    NEST.with(|f| f.set((0, 0, false)));
    FAIL_AT.with(|f| f.set(0));
    (COUNT.with(Cell::get), FIRED.with(Cell::get))
}
pub fn fired() -> bool {
    FIRED.with(Cell::get)
}
pub fn net() -> i64 {
    NET.with(Cell::get)
}

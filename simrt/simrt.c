// simrt: deterministic scheduler for the real threads of one process.
//
// Every thread of a simulated process is a real OS thread, but only the holder of the token runs.
// The code under test is compiled with SanitizerCoverage, so each basic block edge, load and store
// calls in here (a "step"); everything that could block or read nondeterminism (futex via syscall(2),
// pthread mutex/cond/join, POSIX semaphores, sleeps, clocks, getrandom) is interposed. Who runs next
// is decided only by the configuration: events keyed (task, op, step) and a seed hashed at blocking
// points and operation boundaries.
#define _GNU_SOURCE
#include "simrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <alloca.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/stat.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define MAXT 64
enum { S_FREE, S_RUN, S_BLOCKED, S_STALLED, S_DONE };
enum { K_FUTEX = 1, K_MUTEX, K_COND, K_SEM, K_JOIN, K_SLEEP };

typedef struct thr {
    int state, slot, task, op;
    volatile int turn;
    int kind, timed_out, in_op;
    const void *addr;
    int64_t deadline; // -1: none
    uint64_t seq;     // arrival order of waiters
    uint64_t steps, next, since_switch_base;
    int ev, ev_end;
    uint32_t nhot, nfirst, epoch;
    uint32_t first[SIM_FIRSTS];
    uint64_t hot[SIM_HOT];
    pthread_t pt;
    void *(*start)(void *);
    void *arg;
} thr;

static thr T[MAXT];
static int nT, cur;
static int active;
static sim_config C;
static sim_report dummy_rep, *R = &dummy_rep;
static int64_t now_ns, real_skew;
static uint64_t wait_seq, blockno, idle_jumps, ent;
static __thread thr *me;   // this thread's slot, NULL if not controlled
static __thread thr *self; // == me inside an operation window, else NULL
static pthread_key_t exit_key;

// ------------------------------------------------------------------ raw syscalls
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static void raw_wait(volatile int *p, int v) { raw6(SYS_futex, (long)p, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, 0, 0, 0); }
static void raw_wake(volatile int *p) { raw6(SYS_futex, (long)p, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0); }

static uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
static void hash_in(uint64_t v) { R->hash = mix(R->hash ^ v); }

static void trace(const char *what, int a, int b, uint64_t s) {
    if (!C.trace) return;
    char buf[160];
    int n = snprintf(buf, sizeof buf, "[sim t=%lld] %s task=%d op=%d step=%llu -> %d\n", (long long)now_ns, what, a,
                     me ? me->op : -1, (unsigned long long)s, b);
    raw6(SYS_write, 2, (long)buf, n, 0, 0, 0);
}

static void die(int verdict, thr *t, const char *text) {
    R->verdict = verdict;
    R->task = t ? t->task : -1;
    R->op = t ? t->op : -1;
    R->step = t ? t->steps : 0;
    R->sim_ns = now_ns;
    snprintf(R->text, sizeof R->text, "%s", text);
    raw6(SYS_exit_group, 77, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

// ------------------------------------------------------------------ scheduling core
static void wait_turn(thr *t) {
    while (!__atomic_load_n(&t->turn, __ATOMIC_ACQUIRE)) raw_wait(&t->turn, 0);
    t->turn = 0;
}
static void give(thr *n) {
    cur = n->slot;
    n->since_switch_base = n->steps;
    __atomic_store_n(&n->turn, 1, __ATOMIC_RELEASE);
    raw_wake(&n->turn);
}
static void switch_to(thr *n) {
    thr *t = me;
    if (n == t) return;
    R->switches++;
    hash_in(((uint64_t)(t->task + 2) << 48) ^ ((uint64_t)(t->op + 2) << 32) ^ t->steps ^ ((uint64_t)(n->task + 2) << 56));
    trace("switch", t->task, n->task, t->steps);
    give(n);
    wait_turn(t);
}
static void expire(void) {
    for (int i = 0; i < nT; i++)
        if (T[i].state == S_BLOCKED && T[i].deadline >= 0 && T[i].deadline <= now_ns) {
            T[i].state = S_RUN;
            T[i].timed_out = 1;
            R->timeouts++;
        }
}
static int runnable(thr **out, thr *except) {
    int n = 0;
    expire();
    for (int i = 0; i < nT; i++)
        if (T[i].state == S_RUN && &T[i] != except) out[n++] = &T[i];
    return n;
}
static void describe_blocked(char *buf, int cap) {
    int n = 0;
    static const char *kn[] = {"", "futex", "mutex", "cond", "sem", "join", "sleep"};
    buf[0] = 0;
    for (int i = 0; i < nT && n < cap - 60; i++)
        if (T[i].state == S_BLOCKED || T[i].state == S_STALLED)
            n += snprintf(buf + n, cap - n, "task %d op %d %s%s; ", T[i].task, T[i].op,
                          T[i].state == S_STALLED ? "stalled" : "blocked on ", T[i].state == S_STALLED ? "" : kn[T[i].kind]);
}
// The current thread cannot go on: who runs next?
static thr *next_after_block(void) {
    thr *c[MAXT];
    char buf[240];
    int n = runnable(c, NULL);
    if (n == 0) {
        thr *first = NULL;
        for (int i = 0; i < nT; i++)
            if (T[i].state == S_BLOCKED && T[i].deadline >= 0 && (!first || T[i].deadline < first->deadline)) first = &T[i];
        if (first && idle_jumps < 3000) {
            idle_jumps++;
            now_ns = first->deadline;
            n = runnable(c, NULL);
        }
    }
    if (n == 0 || (idle_jumps >= 3000)) {
        int stalled = 0, victim = -1;
        for (int i = 0; i < nT; i++) {
            if (T[i].state == S_STALLED) stalled++;
            if (T[i].state == S_BLOCKED && T[i].in_op) victim = i;
        }
        if (stalled) {
            if (victim >= 0 && C.stall_strict) {
                describe_blocked(buf, sizeof buf);
                die(V_BLOCKED_BY_STALLED, &T[victim], buf);
            }
            for (int i = 0; i < nT; i++)
                if (T[i].state == S_STALLED) T[i].state = S_RUN;
            idle_jumps = 0;
            n = runnable(c, NULL);
        } else {
            describe_blocked(buf, sizeof buf);
            for (int i = 0; i < nT && victim < 0; i++)
                if (T[i].state == S_BLOCKED) victim = i;
            die(n == 0 ? V_DEADLOCK : V_LIVELOCK, victim >= 0 ? &T[victim] : NULL, buf);
        }
    }
    blockno++;
    return c[mix(C.sched_seed ^ (blockno * 0x51ed27)) % n];
}
static void block(int kind, const void *addr, int64_t deadline) {
    thr *t = me;
    t->state = S_BLOCKED;
    t->kind = kind;
    t->addr = addr;
    t->deadline = deadline;
    t->timed_out = 0;
    t->seq = ++wait_seq;
    R->blocks++;
    now_ns += 1000;
    uint64_t jumps = idle_jumps;
    thr *n = next_after_block();
    if (n != t) switch_to(n);
    if (!t->timed_out) idle_jumps = 0;
    else if (idle_jumps == jumps) idle_jumps++; // a timeout that had passed already is no progress either
}
static int prefer = -100; // task that sim_switch names
static int wake(int kind, const void *addr, int max) {
    int k = 0;
    while (k < max) {
        thr *w = NULL;
        uint64_t n = 0;
        for (int i = 0; i < nT; i++)
            if (T[i].state == S_BLOCKED && T[i].kind == kind && T[i].addr == addr) {
                n++;
                if (!w || T[i].seq < w->seq) w = &T[i];
            }
        if (!w) break;
        if (C.wake_any && kind == K_COND && n > 1) { // any waiter may be the one that is woken
            uint64_t k = mix(C.sched_seed ^ (++blockno * 0x2545f) ^ 0x3a4e) % n;
            thr *pick = NULL;
            for (int i = 0; i < nT; i++)
                if (T[i].state == S_BLOCKED && T[i].kind == kind && T[i].addr == addr) {
                    if (T[i].task == prefer) { pick = &T[i]; break; }
                    if (k-- == 0) pick = pick ? pick : &T[i];
                }
            w = pick;
        }
        w->state = S_RUN;
        w->timed_out = 0;
        k++;
    }
    return k;
}
static thr *by_task(int task) {
    for (int i = 0; i < nT; i++)
        if (T[i].task == task && T[i].state == S_RUN) return &T[i];
    return NULL;
}
static void yield_any(uint64_t h) {
    thr *c[MAXT];
    int n = runnable(c, me);
    if (n) switch_to(c[h % n]);
}

#define SITE_BITS 65536
static unsigned char site_seen[SITE_BITS];
static void arm(thr *t) {
    uint64_t nx = C.op_cap;
    if (t->ev < t->ev_end && C.events[t->ev].step < nx) nx = C.events[t->ev].step;
    uint64_t q = t->since_switch_base + C.quantum;
    if (q < nx) nx = q;
    t->next = nx;
}
static void __attribute__((noinline)) slow_step(thr *t, uintptr_t site) {
    if (t->steps >= C.op_cap) die(V_STEPCAP, t, "operation exceeded its step bound");
    self = NULL;
    while (t->ev < t->ev_end && C.events[t->ev].step <= t->steps) {
        const sim_event *e = &C.events[t->ev++];
        thr *n;
        switch (e->kind) {
        case EV_PREEMPT:
            expire();
            n = e->arg >= 0 ? by_task((int)e->arg) : NULL;
            if (e->arg < 0) {
                thr *c[MAXT];
                int k = runnable(c, t);
                if (k) n = c[mix(C.sched_seed ^ t->steps) % k];
            }
            if (n && n != t) {
                R->preempts++;
                unsigned h = (unsigned)(site % SITE_BITS);
                if (!site_seen[h]) site_seen[h] = 1, R->preempt_sites++;
                switch_to(n);
            }
            break;
        case EV_STALL: {
            thr *c[MAXT];
            int others = runnable(c, t);
            for (int i = 0; i < nT; i++) others += T[i].state == S_BLOCKED && T[i].deadline >= 0;
            if (others) {
                R->stalls++;
                trace("stall", t->task, -1, t->steps);
                t->state = S_STALLED;
                n = next_after_block();
                if (n != t) switch_to(n);
            }
            break;
        }
        case EV_SLEEP:
            R->sleeps++;
            block(K_SLEEP, NULL, now_ns + e->arg);
            break;
        case EV_CLOCK:
            R->clock_jumps++;
            if (e->arg >= 0) now_ns += e->arg;
            else real_skew += e->arg;
            break;
        }
    }
    if (t->steps >= t->since_switch_base + C.quantum) {
        t->since_switch_base = t->steps;
        R->forced_rotations++;
        now_ns += 1000000;
        yield_any(mix(C.sched_seed ^ t->steps ^ 77));
    }
    self = t;
    arm(t);
}
static inline __attribute__((always_inline)) void step(uintptr_t site) {
    thr *t = self;
    if (__builtin_expect(t != NULL, 0))
        if (__builtin_expect(++t->steps >= t->next, 0)) slow_step(t, site);
}

// ------------------------------------------------------------------ coverage callbacks = steps
#define MAXG SIM_MAX_SITES
static unsigned char covered_own[MAXG], *covered = covered_own;
static uint32_t n_guards, last_guard, epochs;
static uint32_t site_epoch[MAXG];
static void __attribute__((noinline)) new_site(thr *t, uint32_t g) {
    site_epoch[g] = t->epoch;
    uint32_t k = t->nfirst++;
    if (k >= SIM_FIRSTS) k = mix(C.sched_seed ^ ((uint64_t)g << 20) ^ k) % (k + 1);
    if (k < SIM_FIRSTS) t->first[k] = (uint32_t)t->steps + 1;
}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    if (a == b || *a) return;
    for (; a < b; a++) *a = ++n_guards;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (self) {
        if (*g < MAXG) {
            covered[*g] = 1;
            if (site_epoch[*g] != self->epoch) new_site(self, *g);
        }
        last_guard = *g;
        step(*g);
    }
}
// Accesses to shared mutable memory are where schedules matter: remember their steps.
#define MAXR 16
static struct { uintptr_t lo, hi; int stores; } ranges[MAXR];
static int n_ranges;
static void hot(uintptr_t p, int store) {
    for (int i = 0; i < n_ranges; i++)
        if (p >= ranges[i].lo && p < ranges[i].hi && (store || !ranges[i].stores)) {
            thr *t = self;
            t->hot[t->nhot < SIM_HOT ? t->nhot : 4 + t->nhot % (SIM_HOT - 4)] = t->steps + 1;
            t->nhot++;
            return;
        }
}
static inline __attribute__((always_inline)) void mem(void *p, int store) {
    if (self) {
        hot((uintptr_t)p, store);
        step(last_guard);
    }
}
void __sanitizer_cov_load1(void *p) { mem(p, 0); }
void __sanitizer_cov_load2(void *p) { mem(p, 0); }
void __sanitizer_cov_load4(void *p) { mem(p, 0); }
void __sanitizer_cov_load8(void *p) { mem(p, 0); }
void __sanitizer_cov_load16(void *p) { mem(p, 0); }
void __sanitizer_cov_store1(void *p) { mem(p, 1); }
void __sanitizer_cov_store2(void *p) { mem(p, 1); }
void __sanitizer_cov_store4(void *p) { mem(p, 1); }
void __sanitizer_cov_store8(void *p) { mem(p, 1); }
void __sanitizer_cov_store16(void *p) { mem(p, 1); }
void sim_hot_range(const void *lo, const void *hi, int stores_only) {
    int i = n_ranges < MAXR ? n_ranges++ : MAXR - 1;
    ranges[i].lo = (uintptr_t)lo;
    ranges[i].hi = (uintptr_t)hi;
    ranges[i].stores = stores_only;
}
void sim_hot_forget(const void *lo) {
    for (int i = 0; i < n_ranges; i++)
        if (ranges[i].lo == (uintptr_t)lo) {
            ranges[i] = ranges[--n_ranges];
            return;
        }
}
// The writable static data of an object file (empty name: the program), without what is read-only after relocation.
#include <link.h>
static int add_object(struct dl_phdr_info *in, size_t n, void *name) {
    (void)n;
    const char *want = name;
    if (*want ? !strstr(in->dlpi_name, want) : in->dlpi_name[0] != 0) return 0;
    uintptr_t rl = 0, rh = 0;
    for (int i = 0; i < in->dlpi_phnum; i++)
        if (in->dlpi_phdr[i].p_type == PT_GNU_RELRO) {
            rl = in->dlpi_addr + in->dlpi_phdr[i].p_vaddr;
            rh = rl + in->dlpi_phdr[i].p_memsz;
        }
    for (int i = 0; i < in->dlpi_phnum; i++)
        if (in->dlpi_phdr[i].p_type == PT_LOAD && (in->dlpi_phdr[i].p_flags & PF_W)) {
            uintptr_t lo = in->dlpi_addr + in->dlpi_phdr[i].p_vaddr, hi = lo + in->dlpi_phdr[i].p_memsz;
            if (rl >= lo && rh <= hi) {
                if (rl > lo) sim_hot_range((void *)lo, (void *)rl, 0);
                if (hi > rh) sim_hot_range((void *)rh, (void *)hi, 0);
            } else
                sim_hot_range((void *)lo, (void *)hi, 0);
        }
    return 1;
}
void sim_hot_object(const char *name) { dl_iterate_phdr(add_object, (void *)name); }
uint32_t sim_op_hot(uint64_t out[SIM_HOT]) {
    if (!me) return 0;
    memcpy(out, me->hot, sizeof me->hot);
    return me->nhot < SIM_HOT ? me->nhot : SIM_HOT;
}

uint32_t sim_op_firsts(uint32_t out[SIM_FIRSTS]) {
    if (!me) return 0;
    memcpy(out, me->first, sizeof me->first);
    return me->nfirst < SIM_FIRSTS ? me->nfirst : SIM_FIRSTS;
}

// The caller's buffer of SIM_MAX_SITES bytes (shared between processes) collects reached sites.
uint32_t sim_cov_buffer(unsigned char *buf) {
    covered = buf;
    return n_guards;
}

// ------------------------------------------------------------------ real functions
static int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*r_join)(pthread_t, void **);
static int (*r_mlock)(pthread_mutex_t *), (*r_mtrylock)(pthread_mutex_t *), (*r_munlock)(pthread_mutex_t *);
static int (*r_cwait)(pthread_cond_t *, pthread_mutex_t *);
static int (*r_ctimed)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
static int (*r_cclock)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
static int (*r_csig)(pthread_cond_t *), (*r_cbc)(pthread_cond_t *);
static int (*r_swait)(sem_t *), (*r_strywait)(sem_t *), (*r_spost)(sem_t *);
static int (*r_stimed)(sem_t *, const struct timespec *), (*r_sclock)(sem_t *, clockid_t, const struct timespec *);
static char *(*r_getenv)(const char *);
static void resolve(void) {
    if (r_munlock) return;
    r_create = dlsym(RTLD_NEXT, "pthread_create");
    r_join = dlsym(RTLD_NEXT, "pthread_join");
    r_mlock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
    r_mtrylock = dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    r_cwait = dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    r_ctimed = dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2");
    r_cclock = dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    r_csig = dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
    r_cbc = dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2");
    r_swait = dlsym(RTLD_NEXT, "sem_wait");
    r_strywait = dlsym(RTLD_NEXT, "sem_trywait");
    r_spost = dlsym(RTLD_NEXT, "sem_post");
    r_stimed = dlsym(RTLD_NEXT, "sem_timedwait");
    r_sclock = dlsym(RTLD_NEXT, "sem_clockwait");
    r_getenv = dlsym(RTLD_NEXT, "getenv");
    r_munlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
}
#define CTL (active && me)

// ------------------------------------------------------------------ threads
static void finish(thr *t) {
    self = NULL;
    t->in_op = 0;
    t->state = S_DONE;
    wake(K_JOIN, t, MAXT);
    R->switches++;
    hash_in(0xd09e ^ ((uint64_t)(t->task + 2) << 16));
    trace("exit", t->task, -1, t->steps);
    thr *n = next_after_block();
    me = NULL;
    give(n);
}
static void on_exit_key(void *v) {
    // Runs after the thread's C++/Rust TLS destructors; stay around for the last destructor round.
    uintptr_t round = (uintptr_t)v;
    if (round < 3) {
        pthread_setspecific(exit_key, (void *)(round + 1));
        return;
    }
    if (CTL) finish(me);
}
static void *trampoline(void *p) {
    thr *t = p;
    me = t;
    wait_turn(t);
    pthread_setspecific(exit_key, (void *)1);
    // where the stack is belongs to the world, too
    volatile char *pad = alloca(16 + 16 * (mix(C.env_seed ^ (C.env_seed ? (uint64_t)t->slot : 0)) % 200));
    pad[0] = 0;
    return t->start(t->arg);
}
int pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    resolve();
    if (!CTL) return r_create(pt, a, f, arg);
    int slot = -1;
    for (int i = 0; i < nT && slot < 0; i++)
        if (T[i].state == S_FREE) slot = i;
    if (slot < 0) {
        if (nT == MAXT) die(V_HARNESS, me, "too many threads");
        slot = nT++;
    }
    thr *t = &T[slot];
    memset(t, 0, sizeof *t);
    t->slot = slot;
    t->state = S_RUN;
    t->task = -2 - slot;
    t->op = -1;
    t->deadline = -1;
    t->start = f;
    t->arg = arg;
    R->n_threads++;
    int rc = r_create(&t->pt, a, trampoline, t);
    if (rc) {
        t->state = S_FREE;
        return rc;
    }
    for (int i = 0; i < nT; i++) // the id of a dead (detached) thread is used again
        if (i != slot && T[i].state == S_DONE && pthread_equal(T[i].pt, t->pt)) T[i].state = S_FREE;
    *pt = t->pt;
    return 0;
}
int pthread_join(pthread_t pt, void **ret) {
    resolve();
    if (!CTL) return r_join(pt, ret);
    for (int i = 0; i < nT; i++)
        if (T[i].state != S_FREE && i != me->slot && pthread_equal(T[i].pt, pt)) {
            while (T[i].state != S_DONE) block(K_JOIN, &T[i], -1);
            int rc = r_join(pt, ret);
            T[i].state = S_FREE;
            return rc;
        }
    return r_join(pt, ret);
}

// ------------------------------------------------------------------ clocks
static int64_t to_ns(const struct timespec *ts) { return (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec; }
static int64_t mono(void) { return C.mono0 + now_ns; }
static int64_t real(void) { return C.real0 + now_ns + real_skew; }
static int64_t abs_deadline(const struct timespec *ts) {
    int64_t a = to_ns(ts), dm = a - mono(), dr = a - real();
    int64_t am = dm < 0 ? -dm : dm, ar = dr < 0 ? -dr : dr;
    int64_t d = am <= ar ? dm : dr; // which clock the caller meant
    return now_ns + (d > 0 ? d : 0);
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!CTL) return raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0) ? -1 : 0;
    if (me->in_op) R->clock_reads++;
    int64_t v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? real() : mono();
    ts->tv_sec = v / 1000000000ll;
    ts->tv_nsec = v % 1000000000ll;
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    (void)tz;
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
int nanosleep(const struct timespec *q, struct timespec *r) {
    if (!CTL) {
        long e = raw6(SYS_nanosleep, (long)q, (long)r, 0, 0, 0, 0);
        if (e < 0) return errno = -e, -1;
        return 0;
    }
    thr *s = self;
    self = NULL;
    block(K_SLEEP, NULL, now_ns + to_ns(q));
    self = s;
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *q, struct timespec *r) {
    if (!CTL) return -raw6(SYS_clock_nanosleep, id, flags, (long)q, (long)r, 0, 0);
    thr *s = self;
    self = NULL;
    block(K_SLEEP, NULL, (flags & TIMER_ABSTIME) ? abs_deadline(q) : now_ns + to_ns(q));
    self = s;
    return 0;
}
int usleep(useconds_t us) {
    struct timespec ts = {us / 1000000, (us % 1000000) * 1000l};
    return nanosleep(&ts, NULL);
}
int sched_yield(void) {
    if (!CTL) return raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    thr *s = self;
    self = NULL;
    now_ns += 1000;
    yield_any(mix(C.sched_seed ^ ++blockno));
    self = s;
    return 0;
}

// ------------------------------------------------------------------ entropy, environment
static void fill(void *buf, size_t n) {
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) {
        if (i % 8 == 0) ent = mix(ent);
        p[i] = (unsigned char)(ent >> (8 * (i % 8)));
    }
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    if (!CTL) {
        long e = raw6(SYS_getrandom, (long)buf, n, flags, 0, 0, 0);
        if (e < 0) return errno = -e, -1;
        return e;
    }
    if (me->in_op) R->entropy_reads++;
    fill(buf, n);
    return n;
}
char *getenv(const char *k) {
    resolve();
    if (CTL && me->in_op) {
        R->env_reads++;
        if (C.env_seed) {
            // a hostile environment: any variable may have any plausible value
            static char *vals[] = {NULL, "", "0", "1", "9.0.0", "12.1.0", "16.0.0", "9.0.0", "15.1.0", "10.0.0", "11.0.0", "13.0.0", "14.0.0", "en_US.UTF-8", "tr_TR.UTF-8", "C", "true", "debug", "/tmp", "65536"};
            uint64_t h = C.env_seed;
            for (const char *q = k; *q; q++) h = mix(h ^ (unsigned char)*q);
            return vals[h % (sizeof vals / sizeof *vals)];
        }
    }
    return r_getenv ? r_getenv(k) : NULL;
}

// What else a call could ask the system about: answered at random, but the same throughout a run.
#define ASKED CTL
#define HOSTILE (CTL && me->in_op && self && C.env_seed)
static uint64_t about(const char *what) {
    R->env_reads++;
    uint64_t h = mix(C.env_seed);
    for (; *what; what++) h = mix(h ^ (unsigned char)*what);
    return h;
}
pid_t getpid(void) { return ASKED ? (pid_t)(C.env_seed ? 1 + about("getpid") % 4194303 : 4242) : (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0); }
pid_t getppid(void) { return ASKED ? (pid_t)(C.env_seed ? 1 + about("getppid") % 4194303 : 4241) : (pid_t)raw6(SYS_getppid, 0, 0, 0, 0, 0, 0); }
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set) {
    memset(set, 0, n);
    if (ASKED) {
        CPU_ZERO_S(n, set);
        for (uint64_t k = C.env_seed ? about("cpus") % 64 + 1 : 4; k; k--) CPU_SET_S(k - 1, n, set);
        return 0;
    }
    long e = raw6(SYS_sched_getaffinity, pid, (long)n, (long)set, 0, 0, 0);
    return e < 0 ? (errno = (int)-e, -1) : 0;
}
#define NEXT(f) static __typeof__(f) *r_##f; if (!r_##f) *(void **)&r_##f = dlsym(RTLD_NEXT, #f)
long sysconf(int k) {
    if ((k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF) && ASKED) return C.env_seed ? (long)(about("cpus") % 64 + 1) : 4;
    NEXT(sysconf);
    return r_sysconf(k);
}
int isatty(int fd) {
    if (HOSTILE) return (int)(about(fd == 0 ? "tty0" : fd == 1 ? "tty1" : "tty2") & 1);
    NEXT(isatty);
    return r_isatty(fd);
}
char *getcwd(char *buf, size_t n) {
    static char *dirs[] = {"/", "/tmp", "/home/user/project", "/root", "/usr/lib/python3/dist-packages", "/\xc3\xa4"};
    if (HOSTILE && buf) {
        char *d = dirs[about("getcwd") % (sizeof dirs / sizeof *dirs)];
        if (strlen(d) + 1 > n) return errno = ERANGE, NULL;
        return strcpy(buf, d);
    }
    NEXT(getcwd);
    return r_getcwd(buf, n);
}
int gethostname(char *buf, size_t n) {
    if (HOSTILE) return snprintf(buf, n, "host%u", (unsigned)(about("hostname") % 1000)), 0;
    NEXT(gethostname);
    return r_gethostname(buf, n);
}
static int some_file(const char *path) {
    static char *texts[] = {"", "1\n", "0\n", "9.0.0\n", "16.0.0\n", "version = 12.1.0\n", "C.UTF-8\n"};
    uint64_t h = about(path);
    if (h & 1) return errno = ENOENT, -1;
    long fd = raw6(SYS_memfd_create, (long)"sim", 1, 0, 0, 0, 0);
    if (fd < 0) return errno = ENOENT, -1;
    char *t = texts[(h >> 8) % (sizeof texts / sizeof *texts)];
    raw6(SYS_pwrite64, fd, (long)t, (long)strlen(t), 0, 0, 0);
    return (int)fd;
}
#define OPEN(name)                                                                                                     \
    int name(const char *path, int flags, ...) {                                                                       \
        va_list ap;                                                                                                    \
        va_start(ap, flags);                                                                                           \
        mode_t m = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, mode_t) : 0;                                             \
        va_end(ap);                                                                                                    \
        if (HOSTILE && !(flags & (O_WRONLY | O_RDWR | O_CREAT))) return some_file(path);                               \
        NEXT(name);                                                                                                    \
        return r_##name(path, flags, m);                                                                               \
    }
OPEN(open)
OPEN(open64)
#define STAT(name, type)                                                                                               \
    int name(const char *path, type *st) {                                                                             \
        if (HOSTILE && about(path) & 1) return errno = ENOENT, -1;                                                     \
        NEXT(name);                                                                                                    \
        return r_##name(HOSTILE ? "/dev/null" : path, st);                                                             \
    }
STAT(stat, struct stat)
STAT(stat64, struct stat64)
int statx(int dir, const char *restrict path, int flags, unsigned mask, struct statx *restrict st) {
    if (HOSTILE && *path && about(path) & 1) return errno = ENOENT, -1;
    NEXT(statx);
    return r_statx(dir, HOSTILE && *path ? "/dev/null" : path, flags, mask, st);
}
int access(const char *path, int m) {
    if (HOSTILE) return about(path) & 1 ? (errno = ENOENT, -1) : 0;
    NEXT(access);
    return r_access(path, m);
}

// ------------------------------------------------------------------ futex (Rust std::sync)
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (CTL && n == SYS_futex) {
        int op = (int)b & FUTEX_CMD_MASK;
        thr *s = self;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (*(volatile int *)a != (int)c) return errno = EAGAIN, -1;
            int64_t dl = -1;
            if (d) dl = op == FUTEX_WAIT ? now_ns + to_ns((void *)d) : abs_deadline((void *)d);
            R->futex_waits++;
            self = NULL;
            block(K_FUTEX, (void *)a, dl);
            self = s;
            if (me->timed_out) return errno = ETIMEDOUT, -1;
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) return wake(K_FUTEX, (void *)a, (int)c);
        die(V_HARNESS, me, "unsupported futex operation");
    }
    if (CTL && n == SYS_getrandom) return getrandom((void *)a, (size_t)b, (unsigned)c);
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) return errno = -r, -1;
    return r;
}

// ------------------------------------------------------------------ pthread mutex / cond, semaphores
int pthread_mutex_lock(pthread_mutex_t *m) {
    resolve();
    if (!CTL) return r_mlock(m);
    thr *s = self;
    self = NULL;
    int rc;
    while ((rc = r_mtrylock(m)) == EBUSY) R->mutex_waits++, block(K_MUTEX, m, -1);
    self = s;
    return rc;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    resolve();
    int rc = r_munlock(m);
    if (CTL) wake(K_MUTEX, m, MAXT);
    return rc;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int64_t dl) {
    thr *s = self;
    self = NULL;
    R->cond_waits++;
    r_munlock(m);
    wake(K_MUTEX, m, MAXT);
    block(K_COND, c, dl);
    int to = me->timed_out;
    int rc;
    while ((rc = r_mtrylock(m)) == EBUSY) block(K_MUTEX, m, -1);
    self = s;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    resolve();
    return CTL ? cond_wait(c, m, -1) : r_cwait(c, m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    resolve();
    return CTL ? cond_wait(c, m, abs_deadline(ts)) : r_ctimed(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
    resolve();
    return CTL ? cond_wait(c, m, abs_deadline(ts)) : r_cclock(c, m, k, ts);
}
int pthread_cond_signal(pthread_cond_t *c) {
    resolve();
    if (CTL) return wake(K_COND, c, 1), 0;
    return r_csig(c);
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    resolve();
    if (CTL) return wake(K_COND, c, MAXT), 0;
    return r_cbc(c);
}
static int s_wait(sem_t *m, int64_t dl) {
    thr *s = self;
    self = NULL;
    int rc = 0;
    while (r_strywait(m)) {
        if (errno != EAGAIN && errno != EINTR) {
            rc = -1;
            break;
        }
        R->sem_waits++;
        block(K_SEM, m, dl);
        if (me->timed_out) {
            if (r_strywait(m)) errno = ETIMEDOUT, rc = -1;
            break;
        }
    }
    self = s;
    return rc;
}
int sem_wait(sem_t *m) {
    resolve();
    return CTL ? s_wait(m, -1) : r_swait(m);
}
int sem_timedwait(sem_t *m, const struct timespec *ts) {
    resolve();
    return CTL ? s_wait(m, abs_deadline(ts)) : r_stimed(m, ts);
}
int sem_clockwait(sem_t *m, clockid_t k, const struct timespec *ts) {
    resolve();
    return CTL ? s_wait(m, abs_deadline(ts)) : r_sclock(m, k, ts);
}
int sem_post(sem_t *m) {
    resolve();
    int rc = r_spost(m);
    if (CTL) wake(K_SEM, m, MAXT);
    return rc;
}

// ------------------------------------------------------------------ control
static void fork_child(void) {
    if (!active || !me) return;
    for (int i = 0; i < nT; i++)
        if (&T[i] != me) T[i].state = S_FREE;
    cur = me->slot;
    me->pt = pthread_self();
}
static void __attribute__((constructor)) init(void) {
    resolve();
    pthread_key_create(&exit_key, on_exit_key);
    pthread_atfork(NULL, NULL, fork_child);
}
void sim_start(const sim_config *cfg, sim_report *rep) {
    C = *cfg;
    R = rep;
    if (!C.op_cap) C.op_cap = 1ull << 62;
    if (!C.quantum) C.quantum = 1ull << 61;
    memset(T, 0, sizeof T);
    nT = 1;
    cur = 0;
    now_ns = 0;
    real_skew = 0;
    prefer = -100;
    wait_seq = blockno = idle_jumps = 0;
    ent = C.entropy;
    me = &T[0];
    me->state = S_RUN;
    me->task = -1;
    me->op = -1;
    me->deadline = -1;
    me->pt = pthread_self();
    self = NULL;
    R->hash = mix(C.sched_seed);
    active = 1;
}
void sim_stop(void) {
    R->sim_ns = now_ns;
    active = 0;
    self = me = NULL;
}
int sim_active(void) { return CTL; }
void sim_task_begin(int task) {
    if (me) me->task = task;
}
void sim_op_enter(int op) {
    thr *t = me;
    if (!CTL) return;
    if (t->op != op) {
        t->nhot = t->nfirst = 0;
        t->epoch = ++epochs;
    }
    t->op = op;
    idle_jumps = 0;
    uint64_t h = mix(C.sched_seed ^ ((uint64_t)(t->task + 3) << 40) ^ (uint64_t)(op + 1));
    if ((int)(h % 100) < C.switch_pct) yield_any(h >> 8);
    t->steps = 0;
    t->since_switch_base = 0;
    int i = 0;
    while (i < C.n_events && (C.events[i].task != t->task || C.events[i].op != op)) i++;
    t->ev = i;
    while (i < C.n_events && C.events[i].task == t->task && C.events[i].op == op) i++;
    t->ev_end = i;
    arm(t);
    t->in_op = 1;
    self = t;
}
uint64_t sim_op_exit(void) {
    thr *t = me;
    self = NULL;
    if (!CTL) return 0;
    t->in_op = 0;
    R->steps += t->steps;
    now_ns += (int64_t)t->steps;
    idle_jumps = 0;
    return t->steps;
}
void sim_op_pause(void) { self = NULL; }
void sim_op_resume(void) {
    if (CTL && me->in_op) self = me;
}
void sim_yield(void) {
    if (!CTL) return;
    thr *s = self;
    self = NULL;
    now_ns += 1000;
    yield_any(mix(C.sched_seed ^ ++blockno ^ 0x717));
    self = s;
}
void sim_prefer(int task) { prefer = task; }
void sim_switch(int task) {
    if (!CTL) return;
    thr *s = self, *n;
    self = NULL;
    now_ns += 1000;
    expire();
    n = by_task(task);
    if (n && n != me) switch_to(n);
    else yield_any(mix(C.sched_seed ^ ++blockno ^ 0x717));
    prefer = -100;
    self = s;
}
void sim_point(void) { step(1); }
int64_t sim_now(void) { return now_ns; }

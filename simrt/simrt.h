// simrt: deterministic scheduler for real threads of one process. See DESIGN.md.
#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>

enum { EV_PREEMPT = 1, EV_STALL = 2, EV_SLEEP = 3, EV_CLOCK = 4 };
// "When task `task`, inside its operation `op`, reaches its step `step`: do `kind`."
typedef struct {
    int32_t task, op;
    uint64_t step;
    int32_t kind;
    int32_t pad;
    int64_t arg; // PREEMPT: target task or -1; SLEEP/CLOCK: nanoseconds
} sim_event;

typedef struct {
    uint64_t sched_seed;   // choices at operation boundaries and blocking points
    uint64_t env_seed;     // not 0: getenv inside operations answers at random
    uint64_t entropy;      // what getrandom hands out
    int64_t mono0, real0;  // clock readings at the start
    int32_t switch_pct;    // chance of a switch at an operation boundary
    int32_t stall_strict;  // blocking on a stalled thread is a violation
    uint64_t op_cap;       // steps one operation may take
    uint64_t quantum;      // fairness: rotate after this many steps without a switch
    const sim_event *events;
    int32_t n_events;
    int32_t trace;         // write every scheduling decision to fd 2
    int32_t wake_any;      // a condition signal wakes any waiter (chosen by seed), not the oldest
    int32_t pad;
} sim_config;

enum { V_NONE = 0, V_DEADLOCK = 1, V_STEPCAP = 2, V_BLOCKED_BY_STALLED = 3, V_LIVELOCK = 4, V_HARNESS = 5 };
// Lives in memory shared with the parent process.
typedef struct {
    int32_t verdict, task, op, n_threads;
    uint64_t step;
    uint64_t hash;          // of all scheduling decisions
    uint64_t steps;         // total steps inside operations
    uint64_t switches, preempts, stalls, sleeps, clock_jumps, blocks, timeouts, forced_rotations;
    uint64_t futex_waits, mutex_waits, cond_waits, sem_waits;
    uint64_t clock_reads, entropy_reads, env_reads; // made from inside operations
    uint64_t preempt_sites;  // distinct code sites at which a preemption took effect
    int64_t sim_ns;
    char text[256];
} sim_report;

void sim_start(const sim_config *cfg, sim_report *rep);
void sim_stop(void);
void sim_task_begin(int task);
void sim_op_enter(int op);
uint64_t sim_op_exit(void);
void sim_op_pause(void);   // leave / re-enter the window of the current operation (harness code)
void sim_op_resume(void);
void sim_yield(void);      // a scheduling point where a switch always happens if possible
void sim_prefer(int task);
void sim_switch(int task); // to that task if it can run, else to any other
void sim_point(void);      // one ordinary step
int64_t sim_now(void);
int sim_active(void);
#define SIM_MAX_SITES 65536
uint32_t sim_cov_buffer(unsigned char *buf);
// Writable static data: accesses from inside operations are remembered as "hot" steps. stores_only: heap objects.
void sim_hot_range(const void *lo, const void *hi, int stores_only);
void sim_hot_forget(const void *lo);
void sim_hot_object(const char *name);
#define SIM_HOT 8
uint32_t sim_op_hot(uint64_t out[SIM_HOT]); // of the calls of the current operation so far
#define SIM_FIRSTS 32
// A sample of the steps at which the current operation reached a code site for the first time.
uint32_t sim_op_firsts(uint32_t out[SIM_FIRSTS]);
#endif

#[repr(C)]
#[derive(Clone, Copy)]
pub struct SimEvent {
    pub task: i32,
    pub op: i32,
    pub step: u64,
    pub kind: i32,
    pub pad: i32,
    pub arg: i64,
}
#[repr(C)]
pub struct SimConfig {
    pub sched_seed: u64,
    pub env_seed: u64,
    pub entropy: u64,
    pub mono0: i64,
    pub real0: i64,
    pub switch_pct: i32,
    pub stall_strict: i32,
    pub op_cap: u64,
    pub quantum: u64,
    pub events: *const SimEvent,
    pub n_events: i32,
    pub trace: i32,
    pub wake_any: i32,
    pub pad: i32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct SimReport {
    pub verdict: i32,
    pub task: i32,
    pub op: i32,
    pub n_threads: i32,
    pub step: u64,
    pub hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub stalls: u64,
    pub sleeps: u64,
    pub clock_jumps: u64,
    pub blocks: u64,
    pub timeouts: u64,
    pub forced_rotations: u64,
    pub futex_waits: u64,
    pub mutex_waits: u64,
    pub cond_waits: u64,
    pub sem_waits: u64,
    pub clock_reads: u64,
    pub entropy_reads: u64,
    pub env_reads: u64,
    pub preempt_sites: u64,
    pub sim_ns: i64,
    pub text: [u8; 256],
}
pub const HOT: usize = 8;
pub const FIRSTS: usize = 32;
pub const SITES: usize = 65536;
extern "C" {
    pub fn sim_start(c: *const SimConfig, r: *mut SimReport);
    pub fn sim_stop();
    pub fn sim_task_begin(t: i32);
    pub fn sim_op_enter(op: i32);
    pub fn sim_op_exit() -> u64;
    pub fn sim_op_pause();
    pub fn sim_op_resume();
    pub fn sim_yield();
    pub fn sim_hot_range(lo: *const u8, hi: *const u8, stores_only: i32);
    pub fn sim_hot_forget(lo: *const u8);
    pub fn sim_hot_object(name: *const libc::c_char);
    pub fn sim_op_hot(out: *mut u64) -> u32;
    pub fn sim_op_firsts(out: *mut u32) -> u32;
    pub fn sim_cov_buffer(b: *mut u8) -> u32;
}

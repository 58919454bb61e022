"""ctypes bindings of the simulator runtime and of the Python seams."""
import ctypes as C, mmap, os

BUILD = os.environ["SIMPY_BUILD"]
sim = C.PyDLL(os.path.join(BUILD, "libsimrt.so"))
hlp = C.PyDLL(os.path.join(BUILD, "libsimpy.so"))
L = C.c_long


class Event(C.Structure):
    _fields_ = [("task", C.c_int32), ("op", C.c_int32), ("step", C.c_uint64), ("kind", C.c_int32), ("pad", C.c_int32), ("arg", C.c_int64)]


class Config(C.Structure):
    _fields_ = [("sched_seed", C.c_uint64), ("env_seed", C.c_uint64), ("entropy", C.c_uint64), ("mono0", C.c_int64), ("real0", C.c_int64),
                ("switch_pct", C.c_int32), ("stall_strict", C.c_int32), ("op_cap", C.c_uint64), ("quantum", C.c_uint64),
                ("events", C.POINTER(Event)), ("n_events", C.c_int32), ("trace", C.c_int32), ("wake_any", C.c_int32), ("pad", C.c_int32)]


SUMS = ("switches preempts stalls sleeps clock_jumps blocks timeouts forced_rotations futex_waits mutex_waits cond_waits sem_waits "
        "clock_reads entropy_reads env_reads preempt_sites").split()


class Report(C.Structure):
    _fields_ = [("verdict", C.c_int32), ("task", C.c_int32), ("op", C.c_int32), ("n_threads", C.c_int32), ("step", C.c_uint64), ("hash", C.c_uint64),
                ("steps", C.c_uint64)] + [(n, C.c_uint64) for n in SUMS] + [("sim_ns", C.c_int64), ("text", C.c_char * 256)]


VERDICTS = {1: "deadlock", 2: "step-cap", 3: "blocked-by-stalled", 4: "livelock", 5: "harness"}
EV_PREEMPT, EV_STALL, EV_SLEEP, EV_CLOCK = 1, 2, 3, 4
SITES = 65536
FIRSTS = 32

sim.sim_start.argtypes = [C.POINTER(Config), C.c_void_p]
sim.sim_op_firsts.restype = C.c_uint32
sim.sim_op_hot.restype = C.c_uint32
sim.sim_cov_buffer.restype = C.c_uint32
sim.sim_cov_buffer.argtypes = [C.c_void_p]
sim.sim_now.restype = C.c_int64
hlp.simpy_init.argtypes = [C.c_char_p, C.py_object]
hlp.simpy_call.argtypes = [C.py_object, C.py_object, C.py_object, L, C.POINTER(L), L, L, L, C.POINTER(L)]
hlp.simpy_call.restype = C.py_object
hlp.simpy_state_size.restype = L
hlp.simpy_pause.argtypes = hlp.simpy_resume.argtypes = [C.c_void_p]
hlp.simpy_switch.argtypes = [C.c_int]
hlp.simpy_fork.restype = hlp.simpy_zygotes.restype = L
hlp.simpy_zygotes.argtypes = [L, C.POINTER(C.c_int), C.POINTER(C.c_int)]
for _f in ("live_py", "live_native", "total_py"):
    getattr(hlp, "simpy_" + _f).restype = L
STATE = hlp.simpy_state_size()
BUF = C.c_char * STATE


class paused:
    """Python code called back from inside a call of the library: not part of the call."""

    def __enter__(self):
        self.buf = BUF()
        hlp.simpy_pause(self.buf)

    def __exit__(self, *a):
        hlp.simpy_resume(self.buf)


def shared(n):
    m = mmap.mmap(-1, n)
    return m, C.addressof(C.c_char.from_buffer(m))

// Seams of the Python simulation: one call of the binding as a simulator operation, with a hook at the
// GC allocations it makes (CPython 3.10 and 3.11 may collect there) and a failing n-th allocation.
// Loaded with ctypes.PyDLL (the GIL is held on entry).
#define PY_SSIZE_T_CLEAN
#define _GNU_SOURCE
#include <Python.h>
#include <elf.h>
#include <link.h>
#include <stdint.h>
#include <string.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "../simrt/simrt.h"

// ------------------------------------------------------------------ per-thread state of the current call
typedef struct {
    int on;                // inside a call
    long gc_count;         // GC allocations of this call so far
    const long *gc_at;     // those at which to run the hook (ascending), and how many
    long gc_n, gc_next;
    long alloc_count;      // interpreter allocations of this call so far
    long fail_from, fail_to, failed;
} call_state;
static __thread call_state S;

// ------------------------------------------------------------------ hook at GC allocations
static PyObject *gc_hook;
static void gc_point(void) {
    if (!S.on) return;
    long k = S.gc_count++;
    if (S.gc_next >= S.gc_n || S.gc_at[S.gc_next] != k || !gc_hook) return;
    S.gc_next++;
    call_state saved = S;
    memset(&S, 0, sizeof S);
    sim_op_pause();
    PyObject *exc = PyErr_GetRaisedException();
    PyObject *r = PyObject_CallFunction(gc_hook, "l", k);
    if (r) Py_DECREF(r);
    else PyErr_Clear();
    PyErr_SetRaisedException(exc);
    S = saved;
    sim_op_resume();
}
// Only where CPython really made a new object its collector tracks (not the empty tuple, not an iterator that returns itself).
#define WRAP(name, ret, params, args)                             \
    static ret (*real_##name) params;                             \
    static ret hook_##name params {                               \
        ret made = real_##name args;                              \
        if (made && Py_REFCNT(made) == 1 && PyObject_IS_GC(made)) \
            gc_point();                                           \
        return made;                                              \
    }
WRAP(PyTuple_New, PyObject *, (Py_ssize_t n), (n))
WRAP(PyList_New, PyObject *, (Py_ssize_t n), (n))
WRAP(PyDict_New, PyObject *, (void), ())
WRAP(PySet_New, PyObject *, (PyObject *o), (o))
WRAP(PyFrozenSet_New, PyObject *, (PyObject *o), (o))
WRAP(PySequence_Tuple, PyObject *, (PyObject *o), (o))
WRAP(PySequence_List, PyObject *, (PyObject *o), (o))
WRAP(PyList_AsTuple, PyObject *, (PyObject *o), (o))
WRAP(PyObject_GetIter, PyObject *, (PyObject *o), (o))
WRAP(PyObject_Call, PyObject *, (PyObject *f, PyObject *a, PyObject *k), (f, a, k))
WRAP(PyObject_CallObject, PyObject *, (PyObject *f, PyObject *a), (f, a))
WRAP(PyObject_CallNoArgs, PyObject *, (PyObject *f), (f))
WRAP(PyType_GenericAlloc, PyObject *, (PyTypeObject *t, Py_ssize_t n), (t, n))

// ------------------------------------------------------------------ the extension's own heap
static long live_native, live_py, total_py;
static void *(*real_malloc)(size_t), *(*real_calloc)(size_t, size_t), *(*real_realloc)(void *, size_t);
static void (*real_free)(void *);
static int (*real_posix_memalign)(void **, size_t, size_t);
static void *hook_malloc(size_t n) {
    void *p = real_malloc(n);
    live_native += p != NULL;
    return p;
}
static void *hook_calloc(size_t a, size_t b) {
    void *p = real_calloc(a, b);
    live_native += p != NULL;
    return p;
}
static void *hook_realloc(void *o, size_t n) {
    void *p = real_realloc(o, n);
    if (!o && p) live_native++;
    return p;
}
static void hook_free(void *p) {
    if (p) live_native--;
    real_free(p);
}
static int hook_posix_memalign(void **o, size_t a, size_t n) {
    int rc = real_posix_memalign(o, a, n);
    live_native += rc == 0;
    return rc;
}

// ------------------------------------------------------------------ patching the extension's import table
#define ENTRY(name) {#name, (void *)hook_##name, (void **)&real_##name, 1}
#define HEAP(name) {#name, (void *)hook_##name, (void **)&real_##name, 0}
static struct { const char *name; void *hook; void **real; int gc; } hooks[] = {
    ENTRY(PyTuple_New), ENTRY(PyList_New), ENTRY(PyDict_New), ENTRY(PySet_New), ENTRY(PyFrozenSet_New),
    ENTRY(PySequence_Tuple), ENTRY(PySequence_List), ENTRY(PyList_AsTuple), ENTRY(PyObject_GetIter),
    ENTRY(PyObject_Call), ENTRY(PyObject_CallObject), ENTRY(PyObject_CallNoArgs), ENTRY(PyType_GenericAlloc),
    HEAP(malloc), HEAP(calloc), HEAP(realloc), HEAP(free), HEAP(posix_memalign),
};
static int patched_gc;
static int patch_object(struct dl_phdr_info *in, size_t sz, void *want) {
    (void)sz;
    if (!strstr(in->dlpi_name, (const char *)want)) return 0;
    ElfW(Dyn) *dyn = NULL;
    for (int i = 0; i < in->dlpi_phnum; i++) {
        const ElfW(Phdr) *ph = &in->dlpi_phdr[i];
        if (ph->p_type == PT_DYNAMIC) dyn = (void *)(in->dlpi_addr + ph->p_vaddr);
        if (ph->p_type == PT_GNU_RELRO) {
            uintptr_t lo = (in->dlpi_addr + ph->p_vaddr) & ~4095ul, hi = (in->dlpi_addr + ph->p_vaddr + ph->p_memsz + 4095) & ~4095ul;
            mprotect((void *)lo, hi - lo, PROT_READ | PROT_WRITE);
        }
    }
    ElfW(Sym) *sym = NULL;
    const char *str = NULL;
    ElfW(Rela) *rel[2] = {NULL, NULL};
    size_t n[2] = {0, 0};
    for (; dyn && dyn->d_tag != DT_NULL; dyn++) {
        uintptr_t p = dyn->d_un.d_ptr;
        if (dyn->d_tag == DT_SYMTAB) sym = (void *)p;
        else if (dyn->d_tag == DT_STRTAB) str = (void *)p;
        else if (dyn->d_tag == DT_JMPREL) rel[0] = (void *)p;
        else if (dyn->d_tag == DT_PLTRELSZ) n[0] = dyn->d_un.d_val / sizeof(ElfW(Rela));
        else if (dyn->d_tag == DT_RELA) rel[1] = (void *)p;
        else if (dyn->d_tag == DT_RELASZ) n[1] = dyn->d_un.d_val / sizeof(ElfW(Rela));
    }
    for (int k = 0; k < 2; k++)
        for (size_t i = 0; rel[k] && i < n[k]; i++) {
            unsigned long t = ELF64_R_TYPE(rel[k][i].r_info);
            if (t != R_X86_64_JUMP_SLOT && t != R_X86_64_GLOB_DAT && t != R_X86_64_64) continue;
            const char *name = str + sym[ELF64_R_SYM(rel[k][i].r_info)].st_name;
            for (size_t h = 0; h < sizeof hooks / sizeof *hooks; h++)
                if (!strcmp(hooks[h].name, name)) {
                    void **slot = (void **)(in->dlpi_addr + rel[k][i].r_offset);
                    *hooks[h].real = dlsym(RTLD_DEFAULT, name);
                    *slot = hooks[h].hook;
                    patched_gc += hooks[h].gc;
                }
        }
    return 1;
}

// ------------------------------------------------------------------ interpreter allocations
static PyMemAllocatorEx base[3];
static int must_fail(void) {
    if (!S.on) return 0;
    long k = S.alloc_count++;
    if (k >= S.fail_from && k < S.fail_to) {
        S.failed++;
        return 1;
    }
    return 0;
}
static void *a_malloc(void *ctx, size_t n) {
    PyMemAllocatorEx *b = ctx;
    if (must_fail()) return NULL;
    void *p = b->malloc(b->ctx, n);
    live_py += p != NULL;
    total_py++;
    return p;
}
static void *a_calloc(void *ctx, size_t a, size_t n) {
    PyMemAllocatorEx *b = ctx;
    if (must_fail()) return NULL;
    void *p = b->calloc(b->ctx, a, n);
    live_py += p != NULL;
    total_py++;
    return p;
}
static void *a_realloc(void *ctx, void *o, size_t n) {
    PyMemAllocatorEx *b = ctx;
    if (must_fail()) return NULL;
    void *p = b->realloc(b->ctx, o, n);
    if (!o && p) live_py++;
    return p;
}
static void a_free(void *ctx, void *p) {
    PyMemAllocatorEx *b = ctx;
    if (p) live_py--;
    b->free(b->ctx, p);
}

// ------------------------------------------------------------------ what the driver calls
int simpy_init(const char *object, PyObject *hook) {
    gc_hook = hook;
    Py_INCREF(hook);
    dl_iterate_phdr(patch_object, (void *)object);
    PyMemAllocatorDomain d[3] = {PYMEM_DOMAIN_RAW, PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ};
    for (int i = 0; i < 3; i++) {
        PyMem_GetAllocator(d[i], &base[i]);
        PyMemAllocatorEx a = {&base[i], a_malloc, a_calloc, a_realloc, a_free};
        PyMem_SetAllocator(d[i], &a);
    }
    sim_hot_object(object);
    return patched_gc;
}
// One call. op >= 0: as operation `op` of the current task. Counts go to out: steps, GC allocations, allocations, failed.
PyObject *simpy_call(PyObject *f, PyObject *args, PyObject *kw, long op, const long *gc_at, long gc_n, long fail_from,
                     long fail_n, long *out) {
    call_state saved = S;
    memset(&S, 0, sizeof S);
    S.gc_at = gc_at;
    S.gc_n = gc_n;
    S.fail_from = fail_from;
    S.fail_to = fail_from + fail_n;
    if (op >= 0) sim_op_enter((int)op);
    S.on = 1;
    PyObject *r = PyObject_Call(f, args, kw);
    S.on = 0;
    out[0] = op >= 0 ? (long)sim_op_exit() : 0;
    out[1] = S.gc_count;
    out[2] = S.alloc_count;
    out[3] = S.failed;
    S = saved;
    return r;
}
// Python code called back from inside a call: its own allocations do not count.
void simpy_pause(call_state *keep) {
    *keep = S;
    memset(&S, 0, sizeof S);
    sim_op_pause();
}
void simpy_resume(const call_state *keep) {
    S = *keep;
    sim_op_resume();
}
long simpy_state_size(void) { return sizeof(call_state); }
void simpy_switch(int task) {
    call_state saved = S;
    memset(&S, 0, sizeof S);
    sim_prefer(task);
    PyThreadState *t = PyEval_SaveThread();
    sim_switch(task);
    PyEval_RestoreThread(t);
    S = saved;
}
void simpy_point(void) {
    PyThreadState *t = PyEval_SaveThread();
    sim_point();
    PyEval_RestoreThread(t);
}
long simpy_fork(void) {
    PyOS_BeforeFork();
    pid_t p = fork();
    if (p == 0) PyOS_AfterFork_Child();
    else PyOS_AfterFork_Parent();
    return p;
}
// Processes that wait in C for a request and fork: every run starts from the same interpreter state.
// Returns -1 in the caller and i in a process forked by zygote i for one run.
long simpy_zygotes(long n, const int *request, const int *response) {
    for (long i = 0; i < n; i++) {
        if (simpy_fork()) continue;
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        cpu_set_t all, one;
        sched_getaffinity(0, sizeof all, &all);
        CPU_ZERO(&one);
        for (int c = 0, k = (int)(i % CPU_COUNT(&all)); c < CPU_SETSIZE; c++)
            if (CPU_ISSET(c, &all) && k-- == 0) CPU_SET(c, &one);
        sched_setaffinity(0, sizeof one, &one);
        for (;;) {
            char b;
            if (read(request[i], &b, 1) != 1) _exit(0);
            pid_t p = simpy_fork();
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                return i;
            }
            int st = -1;
            if (p > 0) waitpid(p, &st, 0);
            if (write(response[i], &st, sizeof st) != sizeof st) _exit(0);
        }
    }
    return -1;
}
long simpy_live_py(void) { return live_py; }
long simpy_live_native(void) { return live_native; }
long simpy_total_py(void) { return total_py; }

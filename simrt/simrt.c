// simrt: a simulated operating system underneath an unmodified Rust program.
//
// Loaded with LD_PRELOAD it replaces the libc functions through which the program meets the outside
// world: threads, futexes, clocks, randomness, memory allocation and (in CLI mode) the file system.
// Real OS threads exist, but exactly one runs at any time; a seeded scheduler decides which one, at
// every synchronisation operation and at every basic block of the instrumented crates
// (-sanitizer-coverage-trace-pc-guard).  One seed, or one explicit list of decisions, is one exactly
// repeatable execution.  File operations are forwarded to the driver, which owns the simulated disk.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <dirent.h>
#include <dlfcn.h>
#include <limits.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>
#include "simrt.h"

#define EXPORT __attribute__((visibility("default")))
#define VFD_BASE 1000
#define VFD_MAX 5000
#define CTL_FD 900

static struct sim_shared *S;
static volatile int sim_on;   // scheduler active
static int fs_on;             // file system forwarded to the driver
static volatile int in_sim;   // inside the simulator itself

// ------------------------------------------------------------------ raw system calls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}
#define RAW(n, a, b, c, d, e, f) raw6((n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static long ret(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
static void die(uint32_t end, const char *m) {
    if (S) {
        if (!S->end) {
            S->end = end;
            strncpy(S->msg, m, sizeof S->msg - 1);
        }
    }
    RAW(SYS_exit_group, 70 + end, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

// ------------------------------------------------------------------ threads
enum { RUN, FUTEX, JOIN, SLEEP, DONE };
struct thr {
    int state;
    volatile int go;
    uint32_t *faddr;
    uint32_t fbits;
    uint64_t fseq;
    uint64_t deadline;   // 0: none
    int timed_out;
    int joining;
    uint64_t last_run;
    uint64_t clk;        // POL_CORES: steps this thread's own processor has done
    uint32_t prio;
    pthread_t pt;
    void *(*start)(void *);
    void *arg;
};
static struct thr T[SIM_MAXT];
static int nthr, cur;
static __thread int my_tid = -1;
static uint64_t step, next_evt, fseq_ctr, clock_skew;
static int64_t wall_skew; // of the wall clock alone
static uint64_t rng, env_rng; // scheduling decisions / values handed to the program
static uint32_t ridx;
static uint64_t next_preempt;
static uint64_t chg[16];
static uint32_t low_prio;
static uint32_t last_guard;
static pthread_key_t exit_key;
static int exit_key_ok;

static inline uint64_t rnd(void) {
    uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static inline uint64_t ernd(void) {
    uint64_t z = (env_rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static inline int is_frozen(int t) { return t < 64 && ((S->frozen >> t) & 1); }
// POL_CORES: every thread has a processor of its own; the one that is furthest behind goes next
static inline uint64_t own_clk(void) { return T[cur].clk + (step - T[cur].last_run); }
static uint64_t vtime(void) { return (S->policy == POL_CORES ? own_clk() : step) * S->ns_per_step + clock_skew; }
static inline int runnable(int t) {
    if (is_frozen(t)) return 0;
    struct thr *p = &T[t];
    if (p->state == RUN) return 1;
    if (p->state == JOIN) return T[p->joining].state == DONE;
    if ((p->state == SLEEP || p->state == FUTEX) && p->deadline && vtime() >= p->deadline) return 1;
    return 0;
}
static void log_dec(uint32_t kind, uint32_t val) {
    if (S->replay || !S->log_on) return;
    if (S->ndec >= SIM_MAX_DEC) { S->dec_overflow = 1; return; }
    S->dec[S->ndec].step = step;
    S->dec[S->ndec].kind = kind;
    S->dec[S->ndec].val = val;
    S->ndec++;
}
static int replay_dec(uint32_t kind, uint32_t *val) {
    while (ridx < S->ndec && S->dec[ridx].step < step) ridx++;
    for (uint32_t i = ridx; i < S->ndec && S->dec[i].step == step; i++)
        if (S->dec[i].kind == kind) { *val = S->dec[i].val; return 1; }
    return 0;
}
static uint64_t gap_sample(uint64_t mean) {
    if (mean == 0) return UINT64_MAX / 4;
    if (mean == 1) return 1;
    // geometric-ish: mixture of uniform on [1, 2*mean)
    return 1 + rnd() % (2 * mean - 1);
}
static void schedule_next_preempt(void) {
    if (S->replay) {
        uint32_t i = ridx;
        while (i < S->ndec && S->dec[i].step <= step) i++;
        next_preempt = i < S->ndec ? S->dec[i].step : UINT64_MAX;
    } else {
        switch (S->policy) {
        case POL_DEFAULT: next_preempt = UINT64_MAX; break;
        case POL_PCT: {
            next_preempt = UINT64_MAX;
            for (uint32_t i = 0; i < S->nchg && i < 16; i++)
                if (chg[i] > step && chg[i] < next_preempt) next_preempt = chg[i];
            break;
        }
        case POL_BURST:
            if (step < S->burst_at) next_preempt = S->burst_at;
            else if (step < S->burst_at + S->burst_len) next_preempt = step + gap_sample(S->gap);
            else next_preempt = UINT64_MAX;
            break;
        case POL_CORES: {
            uint64_t m = UINT64_MAX, me = own_clk();
            for (int t = 0; t < nthr; t++) if (t != cur && runnable(t) && T[t].clk < m) m = T[t].clk;
            next_preempt = m == UINT64_MAX ? m : step + (m > me ? m - me : 0) + gap_sample(S->gap);
            break;
        }
        default: next_preempt = step + gap_sample(S->gap); break;
        }
        if (S->fair && next_preempt > step + S->fair) next_preempt = step + S->fair;
    }
    next_evt = next_preempt < S->step_budget ? next_preempt : S->step_budget;
}
enum { K_PREEMPT, K_SYNC, K_YIELD, K_BLOCK };

static int choose(int kind) {
    int self_ok = kind != K_BLOCK;
    int cand[SIM_MAXT], n = 0;
    for (;;) {
        n = 0;
        for (int t = 0; t < nthr; t++)
            if (t == cur ? self_ok : runnable(t)) cand[n++] = t;
        if (n == 0 && kind == K_BLOCK && runnable(cur)) cand[n++] = cur; // e.g. its deadline has passed
        if (n) break;
        // nothing can run: time jumps to the earliest deadline
        uint64_t best = 0;
        for (int t = 0; t < nthr; t++)
            if (!is_frozen(t) && (T[t].state == SLEEP || T[t].state == FUTEX) && T[t].deadline &&
                (!best || T[t].deadline < best)) best = T[t].deadline;
        if (!best) {
            char m[200];
            int o = snprintf(m, sizeof m, "deadlock: no thread can run;");
            for (int t = 0; t < nthr && o < 170; t++)
                o += snprintf(m + o, sizeof m - o, " T%d=%s", t,
                    is_frozen(t) ? "frozen" : T[t].state == FUTEX ? "futex" : T[t].state == JOIN ? "join" :
                    T[t].state == SLEEP ? "sleep" : T[t].state == DONE ? "done" : "run");
            S->steps = step;
            die(END_DEADLOCK, m);
        }
        uint64_t v = vtime();
        if (best > v) clock_skew += best - v;
    }
    if ((uint64_t)n > S->max_runnable) S->max_runnable = n;
    // default choice
    int def;
    if (kind == K_PREEMPT || kind == K_SYNC) def = cur;
    else {
        def = cand[0];
        for (int i = 0; i < n; i++) if (cand[i] > cur) { def = cand[i]; break; }
        if (kind == K_YIELD && def == cur && n > 1) def = cand[0] == cur ? cand[1] : cand[0];
    }
    if (n == 1) return cand[0];
    if (S->replay) {
        uint32_t v;
        if (replay_dec(DEC_SWITCH, &v))
            for (int i = 0; i < n; i++) if ((uint32_t)cand[i] == v) return (int)v;
        return def;
    }
    int pick = def;
    // bounded unfairness first
    int oldest = -1;
    if (S->fair)
        for (int i = 0; i < n; i++)
            if (cand[i] != cur && step - T[cand[i]].last_run > S->fair &&
                (oldest < 0 || T[cand[i]].last_run < T[oldest].last_run)) oldest = cand[i];
    if (oldest >= 0) pick = oldest;
    else switch (S->policy) {
    case POL_DEFAULT: break;
    case POL_RANDOM:
    case POL_BURST: {
        if (kind == K_SYNC && (rnd() & 255) >= S->sync_p) break;
        if (kind == K_YIELD) {
            int k = rnd() % (n - 1), j = 0;
            for (int i = 0; i < n; i++) if (cand[i] != cur && j++ == k) pick = cand[i];
        } else pick = cand[rnd() % n];
        break;
    }
    case POL_STARVE: {
        if (kind == K_SYNC && (rnd() & 255) >= S->sync_p) break;
        int c2[SIM_MAXT], m = 0;
        for (int i = 0; i < n; i++)
            if ((uint32_t)cand[i] != S->victim && !(kind == K_YIELD && cand[i] == cur)) c2[m++] = cand[i];
        if (m) pick = c2[rnd() % m];
        break;
    }
    case POL_CORES: {
        int b = cand[0];
        for (int i = 1; i < n; i++) if (T[cand[i]].clk < T[b].clk) b = cand[i];
        return b;
    }
    case POL_PCT: {
        if (kind == K_YIELD) T[cur].prio = low_prio ? --low_prio : 0;
        if (kind == K_PREEMPT) T[cur].prio = low_prio ? --low_prio : 0;
        int b = cand[0];
        for (int i = 0; i < n; i++) if (T[cand[i]].prio > T[b].prio) b = cand[i];
        if (kind == K_YIELD && b == cur) { for (int i = 0; i < n; i++) if (cand[i] != cur) b = cand[i]; }
        pick = b;
        break;
    }
    }
    if (pick != def) log_dec(DEC_SWITCH, pick);
    return pick;
}
static void real_wait(int me) {
    while (!__atomic_load_n(&T[me].go, __ATOMIC_ACQUIRE))
        RAW(SYS_futex, &T[me].go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    __atomic_store_n(&T[me].go, 0, __ATOMIC_RELAXED);
}
static void real_go(int t) {
    __atomic_store_n(&T[t].go, 1, __ATOMIC_RELEASE);
    RAW(SYS_futex, &T[t].go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static void maybe_spurious(void) {
    uint32_t v;
    int t = -1;
    if (S->replay) { if (replay_dec(DEC_SPUR, &v) && v < (uint32_t)nthr && T[v].state == FUTEX) t = v; }
    else if (S->spur_p && (rnd() & 65535) < S->spur_p) {
        int c[SIM_MAXT], n = 0;
        for (int i = 0; i < nthr; i++) if (T[i].state == FUTEX && !is_frozen(i) && i != cur) c[n++] = i;
        if (n) { t = c[rnd() % n]; log_dec(DEC_SPUR, t); }
    }
    if (t >= 0) { T[t].state = RUN; T[t].deadline = 0; T[t].timed_out = 0; S->spurious++; }
}
// Hands the processor to whichever thread the scheduler picks.  The caller counts the step.
static void sched_event(int kind) {
    int me = cur;
    S->events++;
    if (step >= S->step_budget) { S->steps = step; die(END_BUDGET, "step budget exceeded: no completion within the bound"); }
    if (S->policy == POL_CORES) { T[me].clk = own_clk(); T[me].last_run = step; }
    maybe_spurious();
    int t = choose(kind);
    T[me].last_run = step;
    if (t != me) {
        S->switches++;
        if (kind == K_PREEMPT) S->preemptions++;
        S->sched_hash = (S->sched_hash ^ ((uint64_t)t << 32 | last_guard << 2 | kind)) * 0x100000001B3ull;
        cur = t;
        T[t].last_run = step;
        if (T[t].state == SLEEP || T[t].state == FUTEX) { // woken by its deadline
            T[t].timed_out = T[t].state == FUTEX;
            T[t].state = RUN;
        } else if (T[t].state == JOIN) { T[t].state = RUN; if (T[T[t].joining].clk > T[t].clk) T[t].clk = T[T[t].joining].clk; }
        schedule_next_preempt();
        S->steps = step;
        real_go(t);
        if (T[me].state != DONE) real_wait(me);
    } else {
        if (T[me].state == SLEEP || T[me].state == FUTEX) { T[me].timed_out = T[me].state == FUTEX; T[me].state = RUN; }
        else if (T[me].state == JOIN) T[me].state = RUN;
        schedule_next_preempt();
        S->steps = step;
    }
}
static inline int active(void) { return sim_on && !in_sim && my_tid >= 0; }
static void sync_point(void) {
    if (!active()) return;
    in_sim = 1;
    step++;
    sched_event(K_SYNC);
    in_sim = 0;
}

// ------------------------------------------------------------------ instrumentation callbacks
EXPORT void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    static uint32_t n;
    if (start == stop || *start) return;
    for (uint32_t *x = start; x < stop; x++) *x = ++n;
    last_guard = n;
}
EXPORT void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (!sim_on || in_sim || my_tid < 0) return;
    uint32_t id = *g;
    S->cov[id & (SIM_COV - 1)] = 1;
    last_guard = id;
    if (++step < next_evt) return;
    in_sim = 1;
    sched_event(K_PREEMPT);
    in_sim = 0;
}

// Reads and writes of memory inside a basic block: only of memory another thread could reach, that
// is not of the thread's own stack.
static __thread char *stk_top;
static inline __attribute__((always_inline)) void mem_access(const void *a) {
    if (!sim_on || in_sim || my_tid < 0) return;
    if ((char *)a >= (char *)__builtin_frame_address(0) && (char *)a < stk_top) return;
    if (++step < next_evt) return;
    in_sim = 1;
    sched_event(K_PREEMPT);
    in_sim = 0;
}
#define MEM(n) EXPORT void __sanitizer_cov_load##n(const void *a) { mem_access(a); } \
               EXPORT void __sanitizer_cov_store##n(const void *a) { mem_access(a); }
MEM(1) MEM(2) MEM(4) MEM(8) MEM(16)

// ------------------------------------------------------------------ thread lifecycle
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static void resolve(void) {
    if (!real_create) {
        real_create = dlsym(RTLD_NEXT, "pthread_create");
        real_join = dlsym(RTLD_NEXT, "pthread_join");
    }
}
static void thread_gone(void *v) {
    long n = (long)v;
    if (n < 4) { pthread_setspecific(exit_key, (void *)(n + 1)); return; } // run after all other destructors
    if (my_tid < 0 || !sim_on) return;
    in_sim = 1;
    T[my_tid].state = DONE;
    my_tid = -1;
    step++;
    in_sim = 1;
    // hand over without waiting; in_sim is cleared by the thread that resumes
    sched_event(K_BLOCK);
}
static void *trampoline(void *p) {
    int id = (int)(long)p;
    my_tid = id;
    stk_top = __builtin_frame_address(0);
    real_wait(id);
    in_sim = 0;
    pthread_setspecific(exit_key, (void *)1);
    return T[id].start(T[id].arg);
}
EXPORT int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*start)(void *), void *arg) {
    resolve();
    if (!active()) return real_create(pt, attr, start, arg);
    in_sim = 1;
    uint32_t k = ++S->nthreads;
    if (S->thread_fail_at && (k == S->thread_fail_at || (S->thread_persist && k > S->thread_fail_at))) {
        S->thread_failed++;
        in_sim = 0;
        return EAGAIN;
    }
    if (nthr >= SIM_MAXT) die(END_UNSUPPORTED, "too many threads");
    int id = nthr++;
    memset(&T[id], 0, sizeof T[id]);
    T[id].start = start;
    T[id].arg = arg;
    T[id].state = RUN;
    T[id].last_run = step;
    T[id].clk = own_clk();
    T[id].prio = 1000000 + (uint32_t)(rnd() % 1000000);
    pthread_attr_t a2;
    int r = real_create(&T[id].pt, attr, trampoline, (void *)(long)id);
    (void)a2;
    if (r) { T[id].state = DONE; in_sim = 0; return r; }
    *pt = T[id].pt;
    in_sim = 0;
    sync_point();
    return 0;
}
EXPORT int pthread_join(pthread_t pt, void **rv) {
    resolve();
    if (active()) {
        int id = -1;
        for (int t = 0; t < nthr; t++) if (T[t].pt == pt && T[t].start) id = t;
        if (id > 0) {
            in_sim = 1;
            step++;
            if (T[id].state != DONE) {
                T[cur].state = JOIN;
                T[cur].joining = id;
                T[cur].deadline = 0;
                sched_event(K_BLOCK);
            }
            T[id].start = 0;
            in_sim = 0;
        }
    }
    return real_join(pt, rv);
}
EXPORT int sched_yield(void) {
    if (!active()) return (int)ret(RAW(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
    in_sim = 1;
    S->yields++;
    step++;
    sched_event(K_YIELD);
    in_sim = 0;
    return 0;
}
static int sim_sleep(uint64_t until) {
    in_sim = 1;
    step++;
    T[cur].state = SLEEP;
    T[cur].deadline = until ? until : 1;
    sched_event(K_BLOCK);
    T[cur].deadline = 0;
    in_sim = 0;
    return 0;
}

// ------------------------------------------------------------------ futex
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t *addr2, uint32_t val3) {
    int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        in_sim = 1;
        step++;
        S->futex_waits++;
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { in_sim = 0; errno = EAGAIN; return -1; }
        struct thr *t = &T[cur];
        t->state = FUTEX;
        t->faddr = addr;
        t->fbits = cmd == FUTEX_WAIT ? ~0u : val3;
        t->fseq = ++fseq_ctr;
        t->timed_out = 0;
        t->deadline = 0;
        if (ts) {
            uint64_t ns = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
            if (cmd == FUTEX_WAIT) t->deadline = vtime() + ns + 1;
            else t->deadline = ns > S->clock_base_ns ? ns - S->clock_base_ns : 1;
            if (!t->deadline) t->deadline = 1;
        }
        sched_event(K_BLOCK);
        t = &T[my_tid];
        t->deadline = 0;
        int to = t->timed_out;
        t->timed_out = 0;
        in_sim = 0;
        if (to) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        uint32_t bits = cmd == FUTEX_WAKE ? ~0u : val3;
        in_sim = 1;
        long woken = 0;
        while (woken < (long)(int32_t)val) {
            int c[SIM_MAXT], n = 0, first = -1;
            for (int i = 0; i < nthr; i++)
                if (T[i].state == FUTEX && T[i].faddr == addr && (T[i].fbits & bits)) {
                    c[n++] = i;
                    if (first < 0 || T[i].fseq < T[first].fseq) first = i;
                }
            if (!n) break;
            step++;
            int pick = first;
            if (n > 1) {
                uint32_t v;
                if (S->replay) { if (replay_dec(DEC_WAKE, &v)) for (int i = 0; i < n; i++) if (c[i] == (int)v) pick = v; }
                else if (S->policy != POL_DEFAULT) { pick = c[rnd() % n]; if (pick != first) log_dec(DEC_WAKE, pick); }
            }
            T[pick].state = RUN;
            T[pick].deadline = 0;
            T[pick].last_run = step;
            if (own_clk() > T[pick].clk) T[pick].clk = own_clk();
            S->wakes++;
            woken++;
        }
        in_sim = 0;
        sync_point();
        return woken;
    }
    die(END_UNSUPPORTED, "futex operation outside the model");
    return -1;
}
static void fill_random(void *buf, size_t n) {
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)ernd();
}
EXPORT long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (active()) {
        if (n == SYS_futex) return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t *)e, (uint32_t)f);
        if (n == SYS_getrandom) { in_sim = 1; fill_random((void *)a, b); in_sim = 0; return b; }
        if (n == SYS_sched_yield) return sched_yield();
        if (n == SYS_copy_file_range || n == SYS_renameat2) { errno = ENOSYS; return -1; }
        if (n == SYS_gettid) return gettid();
        if (n == SYS_getpid) return getpid();
    }
    return ret(raw6(n, a, b, c, d, e, f));
}
EXPORT ssize_t getrandom(void *buf, size_t n, unsigned fl) {
    if (!active()) return ret(RAW(SYS_getrandom, buf, n, fl, 0, 0, 0));
    in_sim = 1; fill_random(buf, n); in_sim = 0;
    return n;
}
EXPORT int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) < 0 ? -1 : 0; }

// ------------------------------------------------------------------ clocks and processors
static uint64_t read_clock(void) {
    S->clock_reads++;
    step++;
    if (S->clock_jump_p && (ernd() & 65535) < S->clock_jump_p) {
        S->clock_jumps++;
        clock_skew += ernd() % (3600ull * 1000000000ull);
    }
    return S->clock_base_ns + vtime();
}
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
    if (active() && (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID)) {
        uint64_t v = ++step * S->ns_per_step;
        ts->tv_sec = v / 1000000000ull;
        ts->tv_nsec = v % 1000000000ull;
        return 0;
    }
    if (!active())
        return (int)ret(RAW(SYS_clock_gettime, id, ts, 0, 0, 0, 0));
    in_sim = 1;
    uint64_t v = read_clock();
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) {
        // somebody sets the wall clock, backwards as often as forwards
        if (S->clock_jump_p && (ernd() & 65535) < 4 * S->clock_jump_p + 4096) {
            S->clock_jumps++;
            wall_skew += (int64_t)(ernd() % (7200ull * 1000000000ull)) - 3600ll * 1000000000ll;
        }
        v += 1500000000ull * 1000000000ull + wall_skew;
    }
    in_sim = 0;
    ts->tv_sec = v / 1000000000ull;
    ts->tv_nsec = v % 1000000000ull;
    return 0;
}
EXPORT int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    (void)tz;
    return 0;
}
EXPORT time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
EXPORT int nanosleep(const struct timespec *rq, struct timespec *rm) {
    if (!active()) return (int)ret(RAW(SYS_nanosleep, rq, rm, 0, 0, 0, 0));
    return sim_sleep(vtime() + rq->tv_sec * 1000000000ull + rq->tv_nsec);
}
EXPORT int clock_nanosleep(clockid_t id, int fl, const struct timespec *rq, struct timespec *rm) {
    if (!active()) return (int)-RAW(SYS_clock_nanosleep, id, fl, rq, rm, 0, 0);
    uint64_t ns = rq->tv_sec * 1000000000ull + rq->tv_nsec;
    if (fl & TIMER_ABSTIME) return sim_sleep(ns > S->clock_base_ns ? ns - S->clock_base_ns : 1);
    return sim_sleep(vtime() + ns);
}
EXPORT int usleep(useconds_t us) {
    struct timespec t = {us / 1000000, (us % 1000000) * 1000};
    return nanosleep(&t, 0);
}
EXPORT int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set) {
    if (!active()) { long r = RAW(SYS_sched_getaffinity, pid, n, set, 0, 0, 0); if (r >= 0) { if ((size_t)r < n) memset((char *)set + r, 0, n - r); return 0; } return (int)ret(r); }
    memset(set, 0, n);
    for (uint32_t i = 0; i < S->ncpu; i++) CPU_SET_S(i, n, set);
    return 0;
}
EXPORT pid_t getpid(void) { return S && S->pid ? (pid_t)S->pid : (pid_t)RAW(SYS_getpid, 0, 0, 0, 0, 0, 0); }
EXPORT pid_t getppid(void) { return S && S->pid ? 1 : (pid_t)RAW(SYS_getppid, 0, 0, 0, 0, 0, 0); }
EXPORT pid_t gettid(void) { return S && S->pid ? (pid_t)(S->pid + (my_tid > 0 ? my_tid : 0)) : (pid_t)RAW(SYS_gettid, 0, 0, 0, 0, 0, 0); }
EXPORT int sched_getcpu(void) { return active() ? (int)(my_tid % (S->ncpu ? S->ncpu : 1)) : 0; }

// ------------------------------------------------------------------ memory
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static int alloc_fault(size_t n) {
    if (!sim_on || in_sim || my_tid < 0 || n < S->alloc_min) return 0;
    uint64_t k = ++S->allocs;
    if (S->alloc_fail_at && (k == S->alloc_fail_at || (S->alloc_persist && k > S->alloc_fail_at))) {
        S->alloc_failed++;
        errno = ENOMEM;
        return 1;
    }
    return 0;
}
extern size_t malloc_usable_size(void *);
static void *junk(void *p, size_t from, size_t n) {
    if (p && sim_on && S->mem_junk && n > from && n <= (1u << 22)) memset((char *)p + from, (int)(S->mem_junk - 1), n - from);
    return p;
}
static void *got(void *p) {
    if (p && sim_on) { S->mem_live += malloc_usable_size(p); if (S->mem_live > S->mem_peak) S->mem_peak = S->mem_live; }
    return p;
}
static void gone(size_t n) { if (sim_on) S->mem_live -= n; }
EXPORT void *malloc(size_t n) { return alloc_fault(n) ? 0 : junk(got(__libc_malloc(n)), 0, n); }
EXPORT void *calloc(size_t a, size_t b) { return alloc_fault(a * b) ? 0 : got(__libc_calloc(a, b)); }
EXPORT void *realloc(void *p, size_t n) {
    if (alloc_fault(n)) return 0;
    size_t use = p && sim_on ? malloc_usable_size(p) : 0;
    size_t old = p && sim_on && S->mem_junk ? use : n;
    void *q = __libc_realloc(p, n);
    if (q || !n) gone(use);
    return junk(got(q), old, n);
}
EXPORT void *memalign(size_t a, size_t n) { return alloc_fault(n) ? 0 : junk(got(__libc_memalign(a, n)), 0, n); }
EXPORT void *aligned_alloc(size_t a, size_t n) { return alloc_fault(n) ? 0 : junk(got(__libc_memalign(a, n)), 0, n); }
EXPORT int posix_memalign(void **p, size_t a, size_t n) {
    if (alloc_fault(n)) return ENOMEM;
    void *r = junk(got(__libc_memalign(a, n)), 0, n);
    if (!r) return ENOMEM;
    *p = r;
    return 0;
}
EXPORT void free(void *p) { if (p && sim_on) gone(malloc_usable_size(p)); __libc_free(p); }

// ------------------------------------------------------------------ file system: forwarding
static void io_all(int wr, const void *buf, size_t n) {
    char *p = (char *)buf;
    while (n) {
        long r = RAW(wr ? SYS_write : SYS_read, CTL_FD, p, n, 0, 0, 0);
        if (r == -EINTR) continue;
        if (r <= 0) RAW(SYS_exit_group, 99, 0, 0, 0, 0, 0); // the driver is gone
        p += r;
        n -= r;
    }
}
// One simulated system call.  Returns >=0 or -errno.
static int64_t rpc(uint32_t op, int64_t a0, int64_t a1, int64_t a2, int64_t a3, const void *pl, uint32_t n, void *out, uint32_t outn, int64_t *x) {
    sync_point();
    int save = in_sim;
    in_sim = 1;
    S->rpcs++;
    step++;
    struct sim_req q = {op, (uint32_t)(my_tid < 0 ? 0 : my_tid), {a0, a1, a2, a3}, n, 0};
    io_all(1, &q, sizeof q);
    if (n) io_all(1, pl, n);
    struct sim_rep r;
    io_all(0, &r, sizeof r);
    if (r.plen) {
        if (r.plen <= outn) io_all(0, out, r.plen);
        else die(END_UNSUPPORTED, "reply larger than buffer");
    }
    if (x) memcpy(x, r.x, sizeof r.x);
    in_sim = save;
    return r.ret;
}
#define P0(op, p) rpc(op, 0, 0, 0, 0, p, strlen(p) + 1, 0, 0, 0)
// The driver learns which variables the program asks for, so that it can vary them.
extern char **environ;
EXPORT char *getenv(const char *name) {
    size_t n = strlen(name);
    if (fs_on && active()) P0(OP_GETENV, name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return 0;
}
EXPORT char *secure_getenv(const char *name) { return getenv(name); }
static int vfd(int fd) { return fs_on && ((fd >= VFD_BASE && fd < VFD_MAX) || (fd >= 0 && fd <= 2)); }

static int do_open(int dirfd, const char *path, int flags, int mode) {
    if (!fs_on) return (int)ret(RAW(SYS_openat, dirfd, path, flags, mode, 0, 0));
    return (int)ret(rpc(OP_OPEN, flags, mode, dirfd, 0, path, strlen(path) + 1, 0, 0, 0));
}
EXPORT int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(AT_FDCWD, p, fl, m); }
EXPORT int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(AT_FDCWD, p, fl, m); }
EXPORT int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(d, p, fl, m); }
EXPORT int openat64(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(d, p, fl, m); }
EXPORT int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int close(int fd) {
    if (!vfd(fd)) return (int)ret(RAW(SYS_close, fd, 0, 0, 0, 0, 0));
    return (int)ret(rpc(OP_CLOSE, fd, 0, 0, 0, 0, 0, 0, 0, 0));
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
    if (!vfd(fd)) return ret(RAW(SYS_read, fd, b, n, 0, 0, 0));
    if (n > 0x7ffff000) n = 0x7ffff000;
    return ret(rpc(OP_READ, fd, n, 0, 0, 0, 0, b, n, 0));
}
static ssize_t do_pread(int fd, void *b, size_t n, off_t o) {
    if (!vfd(fd)) return ret(RAW(SYS_pread64, fd, b, n, o, 0, 0));
    return ret(rpc(OP_PREAD, fd, n, o, 0, 0, 0, b, n, 0));
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!vfd(fd)) return ret(RAW(SYS_readv, fd, v, c, 0, 0, 0));
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len); // legal short transfer
    return 0;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
    if (!vfd(fd)) return ret(RAW(SYS_write, fd, b, n, 0, 0, 0));
    if (n > 0x7ffff000) n = 0x7ffff000;
    return ret(rpc(OP_WRITE, fd, 0, 0, 0, b, n, 0, 0, 0));
}
static ssize_t do_pwrite(int fd, const void *b, size_t n, off_t o) {
    if (!vfd(fd)) return ret(RAW(SYS_pwrite64, fd, b, n, o, 0, 0));
    return ret(rpc(OP_PWRITE, fd, o, 0, 0, b, n, 0, 0, 0));
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!vfd(fd)) return ret(RAW(SYS_writev, fd, v, c, 0, 0, 0));
    size_t tot = 0;
    for (int i = 0; i < c; i++) tot += v[i].iov_len;
    if (!tot) return 0;
    char *buf = __libc_malloc(tot), *p = buf;
    for (int i = 0; i < c; i++) { memcpy(p, v[i].iov_base, v[i].iov_len); p += v[i].iov_len; }
    ssize_t r = write(fd, buf, tot);
    int e = errno;
    __libc_free(buf);
    errno = e;
    return r;
}
static off_t do_lseek(int fd, off_t o, int w) {
    if (!vfd(fd)) return ret(RAW(SYS_lseek, fd, o, w, 0, 0, 0));
    return ret(rpc(OP_LSEEK, fd, o, w, 0, 0, 0, 0, 0, 0));
}
EXPORT off_t lseek(int fd, off_t o, int w) { return do_lseek(fd, o, w); }
EXPORT off64_t lseek64(int fd, off64_t o, int w) { return do_lseek(fd, o, w); }
EXPORT int fsync(int fd) { return vfd(fd) ? (int)ret(rpc(OP_FSYNC, fd, 0, 0, 0, 0, 0, 0, 0, 0)) : (int)ret(RAW(SYS_fsync, fd, 0, 0, 0, 0, 0)); }
EXPORT int fdatasync(int fd) { return vfd(fd) ? (int)ret(rpc(OP_FSYNC, fd, 1, 0, 0, 0, 0, 0, 0, 0)) : (int)ret(RAW(SYS_fdatasync, fd, 0, 0, 0, 0, 0)); }
EXPORT void sync(void) { if (!fs_on) RAW(SYS_sync, 0, 0, 0, 0, 0, 0); }
static int do_ftrunc(int fd, off_t n) { return vfd(fd) ? (int)ret(rpc(OP_FTRUNCATE, fd, n, 0, 0, 0, 0, 0, 0, 0)) : (int)ret(RAW(SYS_ftruncate, fd, n, 0, 0, 0, 0)); }
EXPORT int ftruncate(int fd, off_t n) { return do_ftrunc(fd, n); }
EXPORT int ftruncate64(int fd, off64_t n) { return do_ftrunc(fd, n); }
static int do_trunc(const char *p, off_t n) { return fs_on ? (int)ret(rpc(OP_FTRUNCATE, -1, n, 0, 0, p, strlen(p) + 1, 0, 0, 0)) : (int)ret(RAW(SYS_truncate, p, n, 0, 0, 0, 0)); }
EXPORT int truncate(const char *p, off_t n) { return do_trunc(p, n); }
EXPORT int truncate64(const char *p, off64_t n) { return do_trunc(p, n); }
static int do_falloc(int fd, int mode, off_t o, off_t n) { return vfd(fd) ? (int)ret(rpc(OP_FALLOCATE, fd, mode, o, n, 0, 0, 0, 0, 0)) : (int)ret(RAW(SYS_fallocate, fd, mode, o, n, 0, 0)); }
EXPORT int fallocate(int fd, int m, off_t o, off_t n) { return do_falloc(fd, m, o, n); }
EXPORT int fallocate64(int fd, int m, off64_t o, off64_t n) { return do_falloc(fd, m, o, n); }
EXPORT int posix_fallocate(int fd, off_t o, off_t n) { return do_falloc(fd, 0, o, n) < 0 ? errno : 0; }
EXPORT int posix_fallocate64(int fd, off64_t o, off64_t n) { return do_falloc(fd, 0, o, n) < 0 ? errno : 0; }
EXPORT int posix_fadvise(int fd, off_t o, off_t n, int a) { return vfd(fd) ? 0 : (int)-RAW(SYS_fadvise64, fd, o, n, a, 0, 0); }
EXPORT int posix_fadvise64(int fd, off64_t o, off64_t n, int a) { return posix_fadvise(fd, o, n, a); }
EXPORT int flock(int fd, int op) { return vfd(fd) ? (int)ret(rpc(OP_FLOCK, fd, op, 0, 0, 0, 0, 0, 0, 0)) : (int)ret(RAW(SYS_flock, fd, op, 0, 0, 0, 0)); }
EXPORT ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
    if (fs_on) { errno = ENOSYS; return -1; }
    return ret(RAW(SYS_copy_file_range, a, b, c, d, e, f));
}
EXPORT ssize_t sendfile(int a, int b, off_t *c, size_t d) { if (fs_on) { errno = ENOSYS; return -1; } return ret(RAW(SYS_sendfile, a, b, c, d, 0, 0)); }
EXPORT ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { return sendfile(a, b, c, d); }
EXPORT ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { if (fs_on) { errno = ENOSYS; return -1; } return ret(RAW(SYS_splice, a, b, c, d, e, f)); }

struct vstat { uint64_t mode, size, ino, nlink, mtime, pad[3]; };
static void to_stat(const struct vstat *v, struct stat *s) {
    memset(s, 0, sizeof *s);
    s->st_mode = v->mode; s->st_size = v->size; s->st_ino = v->ino; s->st_nlink = v->nlink;
    s->st_dev = 42; s->st_blksize = 4096; s->st_blocks = (v->size + 511) / 512;
    s->st_mtime = s->st_ctime = s->st_atime = v->mtime;
}
static int v_fstat(int fd, struct stat *s) {
    struct vstat v;
    int64_t r = rpc(OP_FSTAT, fd, 0, 0, 0, 0, 0, &v, sizeof v, 0);
    if (r >= 0) to_stat(&v, s);
    return (int)ret(r);
}
static int v_stat(int dirfd, const char *p, int nofollow, struct stat *s) {
    struct vstat v;
    int64_t r = rpc(OP_STAT, nofollow, dirfd, 0, 0, p, strlen(p) + 1, &v, sizeof v, 0);
    if (r >= 0) to_stat(&v, s);
    return (int)ret(r);
}
static int do_fstatat(int d, const char *p, struct stat *s, int fl) {
    if (!fs_on) return (int)ret(RAW(SYS_newfstatat, d, p, s, fl, 0, 0));
    if ((fl & AT_EMPTY_PATH) && !*p) return v_fstat(d, s);
    return v_stat(d, p, !!(fl & AT_SYMLINK_NOFOLLOW), s);
}
EXPORT int fstat(int fd, struct stat *s) { return vfd(fd) ? v_fstat(fd, s) : (int)ret(RAW(SYS_fstat, fd, s, 0, 0, 0, 0)); }
EXPORT int fstat64(int fd, struct stat64 *s) { return fstat(fd, (struct stat *)s); }
EXPORT int stat(const char *restrict p, struct stat *restrict s) { return do_fstatat(AT_FDCWD, p, s, 0); }
EXPORT int stat64(const char *restrict p, struct stat64 *restrict s) { return do_fstatat(AT_FDCWD, p, (struct stat *)s, 0); }
EXPORT int lstat(const char *restrict p, struct stat *restrict s) { return do_fstatat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
EXPORT int lstat64(const char *restrict p, struct stat64 *restrict s) { return do_fstatat(AT_FDCWD, p, (struct stat *)s, AT_SYMLINK_NOFOLLOW); }
EXPORT int fstatat(int d, const char *restrict p, struct stat *restrict s, int fl) { return do_fstatat(d, p, s, fl); }
EXPORT int fstatat64(int d, const char *restrict p, struct stat64 *restrict s, int fl) { return do_fstatat(d, p, (struct stat *)s, fl); }
EXPORT int statx(int d, const char *restrict p, int fl, unsigned mask, struct statx *restrict x) {
    const char *volatile path = p; // declared as never null
    if (!path) { errno = EFAULT; return -1; } // Rust asks whether the call exists this way
    if (!fs_on) return (int)ret(RAW(SYS_statx, d, p, fl, mask, x, 0));
    struct stat s;
    int r;
    if ((fl & AT_EMPTY_PATH) && !*p) r = fstat(d, &s);
    else r = do_fstatat(d, p, &s, fl & AT_SYMLINK_NOFOLLOW);
    if (r) return r;
    memset(x, 0, sizeof *x);
    x->stx_mask = STATX_BASIC_STATS;
    x->stx_mode = s.st_mode; x->stx_size = s.st_size; x->stx_ino = s.st_ino; x->stx_nlink = s.st_nlink;
    x->stx_blksize = 4096; x->stx_blocks = s.st_blocks; x->stx_mtime.tv_sec = s.st_mtime; x->stx_dev_minor = 42;
    return 0;
}
static int two(int op, const char *a, const char *b) {
    size_t la = strlen(a) + 1, lb = strlen(b) + 1;
    char *m = __libc_malloc(la + lb);
    memcpy(m, a, la); memcpy(m + la, b, lb);
    int64_t r = rpc(op, la, 0, 0, 0, m, la + lb, 0, 0, 0);
    __libc_free(m);
    return (int)ret(r);
}
EXPORT int rename(const char *a, const char *b) { return fs_on ? two(OP_RENAME, a, b) : (int)ret(RAW(SYS_rename, a, b, 0, 0, 0, 0)); }
EXPORT int renameat(int d, const char *a, int e, const char *b) { return fs_on ? two(OP_RENAME, a, b) : (int)ret(RAW(SYS_renameat, d, a, e, b, 0, 0)); }
EXPORT int renameat2(int d, const char *a, int e, const char *b, unsigned f) { return fs_on ? two(OP_RENAME, a, b) : (int)ret(RAW(SYS_renameat2, d, a, e, b, f, 0)); }
EXPORT int link(const char *a, const char *b) { return fs_on ? two(OP_LINK, a, b) : (int)ret(RAW(SYS_link, a, b, 0, 0, 0, 0)); }
EXPORT int linkat(int d, const char *a, int e, const char *b, int f) { return fs_on ? two(OP_LINK, a, b) : (int)ret(RAW(SYS_linkat, d, a, e, b, f, 0)); }
EXPORT int symlink(const char *a, const char *b) { return fs_on ? two(OP_SYMLINK, a, b) : (int)ret(RAW(SYS_symlink, a, b, 0, 0, 0, 0)); }
EXPORT int symlinkat(const char *a, int d, const char *b) { return fs_on ? two(OP_SYMLINK, a, b) : (int)ret(RAW(SYS_symlinkat, a, d, b, 0, 0, 0)); }
EXPORT int unlink(const char *p) { return fs_on ? (int)ret(P0(OP_UNLINK, p)) : (int)ret(RAW(SYS_unlink, p, 0, 0, 0, 0, 0)); }
EXPORT int unlinkat(int d, const char *p, int f) { return fs_on ? (int)ret(P0(f & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, p)) : (int)ret(RAW(SYS_unlinkat, d, p, f, 0, 0, 0)); }
EXPORT int remove(const char *p) { return unlink(p); }
EXPORT int mkdir(const char *p, mode_t m) { return fs_on ? (int)ret(P0(OP_MKDIR, p)) : (int)ret(RAW(SYS_mkdir, p, m, 0, 0, 0, 0)); }
EXPORT int mkdirat(int d, const char *p, mode_t m) { return fs_on ? (int)ret(P0(OP_MKDIR, p)) : (int)ret(RAW(SYS_mkdirat, d, p, m, 0, 0, 0)); }
EXPORT int rmdir(const char *p) { return fs_on ? (int)ret(P0(OP_RMDIR, p)) : (int)ret(RAW(SYS_rmdir, p, 0, 0, 0, 0, 0)); }
EXPORT int access(const char *p, int m) { return fs_on ? (int)ret(rpc(OP_ACCESS, m, 0, 0, 0, p, strlen(p) + 1, 0, 0, 0)) : (int)ret(RAW(SYS_access, p, m, 0, 0, 0, 0)); }
EXPORT int faccessat(int d, const char *p, int m, int f) { return fs_on ? access(p, m) : (int)ret(RAW(SYS_faccessat, d, p, m, f, 0, 0)); }
EXPORT int chmod(const char *p, mode_t m) { return fs_on ? (int)ret(rpc(OP_CHMOD, m, -1, 0, 0, p, strlen(p) + 1, 0, 0, 0)) : (int)ret(RAW(SYS_chmod, p, m, 0, 0, 0, 0)); }
EXPORT int fchmod(int fd, mode_t m) { return vfd(fd) ? (int)ret(rpc(OP_CHMOD, m, fd, 0, 0, 0, 0, 0, 0, 0)) : (int)ret(RAW(SYS_fchmod, fd, m, 0, 0, 0, 0)); }
EXPORT int futimens(int fd, const struct timespec t[2]) { return vfd(fd) ? (int)ret(rpc(OP_UTIME, fd, 0, 0, 0, 0, 0, 0, 0, 0)) : (int)ret(RAW(SYS_utimensat, fd, 0, t, 0, 0, 0)); }
EXPORT int utimensat(int d, const char *p, const struct timespec t[2], int f) { return fs_on ? (int)ret(rpc(OP_UTIME, -1, 0, 0, 0, p, strlen(p) + 1, 0, 0, 0)) : (int)ret(RAW(SYS_utimensat, d, p, t, f, 0, 0)); }
EXPORT ssize_t readlink(const char *restrict p, char *restrict b, size_t n) {
    if (!fs_on) return ret(RAW(SYS_readlink, p, b, n, 0, 0, 0));
    return ret(rpc(OP_READLINK, n, 0, 0, 0, p, strlen(p) + 1, b, n, 0));
}
EXPORT char *getcwd(char *b, size_t n) {
    if (!fs_on) { long r = RAW(SYS_getcwd, b, n, 0, 0, 0, 0); if (r < 0) { errno = -r; return 0; } return b; }
    if (!b) { n = 4096; b = malloc(n); if (!b) return 0; }
    int64_t r = rpc(OP_GETCWD, n, 0, 0, 0, 0, 0, b, n, 0);
    if (r < 0) { errno = -r; return 0; }
    return b;
}
EXPORT int chdir(const char *p) { return fs_on ? (int)ret(P0(OP_CHDIR, p)) : (int)ret(RAW(SYS_chdir, p, 0, 0, 0, 0, 0)); }
EXPORT char *realpath(const char *restrict p, char *restrict out) {
    char tmp[PATH_MAX];
    if (!fs_on) {
        static char *(*rp)(const char *, char *);
        if (!rp) rp = dlsym(RTLD_NEXT, "realpath");
        return rp(p, out);
    }
    struct stat s;
    if (stat(p, &s)) return 0;
    if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
    else { if (!getcwd(tmp, 2000)) return 0; strcat(tmp, "/"); strncat(tmp, p, 2000); }
    // only the last component of a path can be a link on this disk
    for (int i = 0; i < 8; i++) {
        char to[2048];
        ssize_t n = readlink(tmp, to, sizeof to - 1);
        if (n < 0) break;
        to[n] = 0;
        if (to[0] == '/') snprintf(tmp, sizeof tmp, "%s", to);
        else { char *sl = strrchr(tmp, '/'); snprintf(sl + 1, sizeof tmp - (sl + 1 - tmp), "%s", to); }
    }
    if (!out) { out = malloc(strlen(tmp) + 1); if (!out) return 0; }
    strcpy(out, tmp);
    return out;
}
static int do_dup(int fd, int at) { return (int)ret(rpc(OP_DUP, fd, at, 0, 0, 0, 0, 0, 0, 0)); }
EXPORT int dup(int fd) { return vfd(fd) ? do_dup(fd, -1) : (int)ret(RAW(SYS_dup, fd, 0, 0, 0, 0, 0)); }
EXPORT int dup2(int fd, int to) { return vfd(fd) ? do_dup(fd, to) : (int)ret(RAW(SYS_dup2, fd, to, 0, 0, 0, 0)); }
EXPORT int dup3(int fd, int to, int fl) { return vfd(fd) ? do_dup(fd, to) : (int)ret(RAW(SYS_dup3, fd, to, fl, 0, 0, 0)); }
static int do_fcntl(int fd, int cmd, long a) {
    if (!vfd(fd)) return (int)ret(RAW(SYS_fcntl, fd, cmd, a, 0, 0, 0));
    switch (cmd) {
    case F_DUPFD: case F_DUPFD_CLOEXEC: return do_dup(fd, -1);
    case F_GETFD: return FD_CLOEXEC;
    case F_GETFL: return O_RDWR;
    default: return 0;
    }
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int ioctl(int fd, unsigned long rq, ...) {
    va_list ap; va_start(ap, rq); long a = va_arg(ap, long); va_end(ap);
    if (vfd(fd) && active() && fd <= 2 && (S->tty >> fd & 1)) {
        if (rq == 0x5401) { memset((void *)a, 0, 36); return 0; } // TCGETS
        if (rq == 0x5413) { uint16_t z[4] = { 24 + S->pid % 60, 10 + S->pid % 150, 0, 0 }; memcpy((void *)a, z, 8); return 0; } // TIOCGWINSZ
    }
    if (vfd(fd)) { errno = ENOTTY; return -1; }
    return (int)ret(RAW(SYS_ioctl, fd, rq, a, 0, 0, 0));
}
EXPORT int isatty(int fd) { if (vfd(fd)) { if (active() && fd <= 2 && (S->tty >> fd & 1)) return 1; errno = ENOTTY; return 0; } char b[256]; return RAW(SYS_ioctl, fd, 0x5401, b, 0, 0, 0) == 0; }
static void *do_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
    if (fs_on && fd >= VFD_BASE && fd < VFD_MAX && !(fl & MAP_ANONYMOUS)) { errno = ENODEV; return MAP_FAILED; }
    long r = RAW(SYS_mmap, a, n, pr, fl, fd, o);
    if (r < 0 && r > -4096) { errno = -r; return MAP_FAILED; }
    return (void *)r;
}
EXPORT void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { return do_mmap(a, n, pr, fl, fd, o); }
EXPORT void *mmap64(void *a, size_t n, int pr, int fl, int fd, off64_t o) { return do_mmap(a, n, pr, fl, fd, o); }

struct vdir { int pos, n; char *names; struct dirent ent; };
EXPORT DIR *opendir(const char *p) {
    if (!fs_on) { static DIR *(*f)(const char *); if (!f) f = dlsym(RTLD_NEXT, "opendir"); return f(p); }
    char *buf = __libc_malloc(65536);
    int64_t r = rpc(OP_READDIR, 65536, 0, 0, 0, p, strlen(p) + 1, buf, 65536, 0);
    if (r < 0) { __libc_free(buf); errno = -r; return 0; }
    struct vdir *d = __libc_calloc(1, sizeof *d);
    d->names = buf; d->n = (int)r; d->pos = 0;
    return (DIR *)d;
}
EXPORT struct dirent *readdir(DIR *dp) {
    if (!fs_on) { static struct dirent *(*f)(DIR *); if (!f) f = dlsym(RTLD_NEXT, "readdir"); return f(dp); }
    struct vdir *d = (struct vdir *)dp;
    if (d->pos >= d->n) return 0;
    char *s = d->names + d->pos;
    d->pos += strlen(s) + 1;
    d->ent.d_type = s[0] == 'd' ? DT_DIR : DT_REG;
    d->ent.d_ino = 1; d->ent.d_reclen = sizeof d->ent;
    snprintf(d->ent.d_name, sizeof d->ent.d_name, "%s", s + 1);
    return &d->ent;
}
EXPORT struct dirent64 *readdir64(DIR *dp) { return (struct dirent64 *)readdir(dp); }
EXPORT int closedir(DIR *dp) {
    if (!fs_on) { static int (*f)(DIR *); if (!f) f = dlsym(RTLD_NEXT, "closedir"); return f(dp); }
    struct vdir *d = (struct vdir *)dp;
    __libc_free(d->names);
    __libc_free(d);
    return 0;
}
EXPORT DIR *fdopendir(int fd) {
    if (!fs_on) { static DIR *(*f)(int); if (!f) f = dlsym(RTLD_NEXT, "fdopendir"); return f(fd); }
    errno = ENOSYS; return 0;
}
EXPORT int execve(const char *p, char *const a[], char *const e[]) {
    if (fs_on) { errno = EAGAIN; return -1; }
    return (int)ret(RAW(SYS_execve, p, a, e, 0, 0, 0));
}
EXPORT int posix_spawnp(pid_t *pid, const char *f, const void *a, const void *b, char *const v[], char *const e[]) {
    if (fs_on) return EAGAIN;
    static int (*fn)(pid_t *, const char *, const void *, const void *, char *const *, char *const *);
    if (!fn) fn = dlsym(RTLD_NEXT, "posix_spawnp");
    return fn(pid, f, a, b, v, e);
}
EXPORT int posix_spawn(pid_t *pid, const char *f, const void *a, const void *b, char *const v[], char *const e[]) {
    if (fs_on) return EAGAIN;
    static int (*fn)(pid_t *, const char *, const void *, const void *, char *const *, char *const *);
    if (!fn) fn = dlsym(RTLD_NEXT, "posix_spawn");
    return fn(pid, f, a, b, v, e);
}

// ------------------------------------------------------------------ start and stop
static void sim_start(struct sim_shared *s) {
    S = s;
    resolve();
    if (S->layout) {
        volatile char *p = __libc_malloc(16 * (S->layout % 4001) + 1);
        if (p) *p = 0;
        RAW(SYS_mmap, 0, (S->layout / 7 % 97) * 4096 + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    if (!exit_key_ok) { pthread_key_create(&exit_key, thread_gone); exit_key_ok = 1; }
    memset(T, 0, sizeof T);
    nthr = 1;
    cur = 0;
    my_tid = 0;
    stk_top = __builtin_frame_address(0);
    T[0].state = RUN;
    step = 0; fseq_ctr = 0; clock_skew = 0; wall_skew = 0; ridx = 0;
    rng = S->seed;
    env_rng = S->seed ^ 0x5bd1e995a5a5a5a5ull;
    low_prio = 900000;
    T[0].prio = 1000000 + (uint32_t)(rnd() % 1000000);
    if (!S->replay) S->ndec = 0;
    for (int i = 0; i < 16; i++) chg[i] = S->est_len ? 1 + rnd() % S->est_len : 0;
    S->nguards = 0;
    in_sim = 0;
    schedule_next_preempt();
    sim_on = 1;
}
EXPORT void simrt_begin(struct sim_shared *s) { sim_start(s); }
EXPORT void simrt_end(void) {
    if (!sim_on) return;
    sim_on = 0;
    S->steps = step;
    S->sim_ns = vtime();
    S->end = END_EXIT;
}
EXPORT uint64_t simrt_step(void) { return step; }

__attribute__((constructor)) static void init(void) {
    char *e = getenv("SIMRT_CLI");
    if (!e) return;
    unsetenv("SIMRT_CLI");
    unsetenv("SIMRT_PAD"); // moves the stack
    void *m = (void *)RAW(SYS_mmap, 0, sizeof(struct sim_shared), PROT_READ | PROT_WRITE, MAP_SHARED, CTL_FD + 1, 0);
    if ((long)m < 0 && (long)m > -4096) RAW(SYS_exit_group, 98, 0, 0, 0, 0, 0);
    fs_on = 1;
    sim_start(m);
}
__attribute__((destructor)) static void fini(void) {
    if (S && fs_on && !S->end) { S->steps = step; S->sim_ns = vtime(); S->end = END_EXIT; }
}

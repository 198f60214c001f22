// Shared layout between the simulated operating system (simrt.c, linked into the program under
// simulation) and the driver (vsim).  vsim/src/shared.rs mirrors it field by field.
#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>

#define SIM_MAX_DEC 60000
#define SIM_COV 65536
#define SIM_MAXT 512

enum { DEC_SWITCH = 1, DEC_WAKE = 2, DEC_SPUR = 3 };
enum { END_NONE = 0, END_EXIT = 1, END_DEADLOCK = 2, END_BUDGET = 3, END_UNSUPPORTED = 4 };
enum { POL_DEFAULT = 0, POL_RANDOM = 1, POL_PCT = 2, POL_STARVE = 3, POL_BURST = 4, POL_CORES = 5 };

struct sim_dec { uint64_t step; uint32_t kind; uint32_t val; };

struct sim_shared {
    // ---- configuration, written by the driver
    uint64_t seed;
    uint32_t replay;        // 1: follow dec[0..ndec) on top of the default schedule
    uint32_t policy;
    uint32_t gap;           // mean number of basic blocks between preemption points
    uint32_t fair;          // a runnable thread runs at least once per this many steps
    uint32_t victim;        // POL_STARVE
    uint32_t nchg;          // POL_PCT change points
    uint64_t est_len;       // POL_PCT/POL_BURST estimated length
    uint64_t burst_at, burst_len;
    uint32_t sync_p;        // /256 probability of a switch at a synchronisation operation
    uint32_t spur_p;        // /65536 probability of a spurious wake-up per scheduling event
    uint64_t frozen;        // bit t: thread t (numbered in creation order) never runs
    uint64_t step_budget;
    uint32_t ncpu;
    uint32_t alloc_persist;
    uint64_t alloc_fail_at; // 1-based index of the allocation that fails, 0: none
    uint64_t alloc_min;     // only allocations of at least this size are counted
    uint32_t thread_fail_at;
    uint32_t thread_persist;
    uint64_t clock_base_ns;
    uint64_t ns_per_step;
    uint32_t clock_jump_p;  // /65536 probability that a clock reading jumps
    uint32_t log_on;
    uint32_t pid;           // process id the program sees (0: the real one)
    uint32_t mem_junk;      // fresh heap memory is filled with this byte - 1 (0: left as it is)
    uint32_t layout, tty;   // where heap, mappings and stack begin (0: as they come); which standard streams are terminals
    // ---- decisions: input when replay=1, otherwise output
    uint32_t ndec;
    uint32_t dec_overflow;
    struct sim_dec dec[SIM_MAX_DEC];
    // ---- results
    uint32_t end;
    uint32_t nthreads;
    uint64_t steps, events, switches, preemptions, spurious, wakes, futex_waits, yields;
    uint64_t clock_reads, clock_jumps, allocs, alloc_failed, thread_failed, rpcs;
    uint64_t sim_ns;
    uint64_t sched_hash;
    uint64_t nguards;
    uint64_t max_runnable;
    int64_t mem_live, mem_peak; // bytes of heap in use since the start, and the most of it
    char msg[256];
    uint8_t cov[SIM_COV];
};

// ---- system-call protocol (CLI mode): one request, one reply, over a stream socket
enum {
    OP_OPEN = 1, OP_READ, OP_PREAD, OP_WRITE, OP_PWRITE, OP_CLOSE, OP_LSEEK, OP_FSYNC, OP_FTRUNCATE,
    OP_FSTAT, OP_STAT, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_RMDIR, OP_LINK, OP_SYMLINK, OP_READLINK,
    OP_ACCESS, OP_CHMOD, OP_READDIR, OP_GETCWD, OP_CHDIR, OP_DUP, OP_FALLOCATE, OP_UNSUPPORTED, OP_UTIME, OP_GETENV, OP_FLOCK
};
struct sim_req { uint32_t op, tid; int64_t a[4]; uint32_t plen, pad; };
struct sim_rep { int64_t ret; int64_t x[4]; uint32_t plen, pad; };
#endif

//! Mirror of simrt/simrt.h, and the schedule configuration built on it.
use crate::jstruct;
use crate::util::*;

pub const MAX_DEC: usize = 60000;
pub const COV: usize = 65536;
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Dec { pub step: u64, pub kind: u32, pub val: u32 }
#[repr(C)]
pub struct Shared {
    pub seed: u64, pub replay: u32, pub policy: u32, pub gap: u32, pub fair: u32, pub victim: u32, pub nchg: u32,
    pub est_len: u64, pub burst_at: u64, pub burst_len: u64, pub sync_p: u32, pub spur_p: u32, pub frozen: u64,
    pub step_budget: u64, pub ncpu: u32, pub alloc_persist: u32, pub alloc_fail_at: u64, pub alloc_min: u64,
    pub thread_fail_at: u32, pub thread_persist: u32, pub clock_base_ns: u64, pub ns_per_step: u64,
    pub clock_jump_p: u32, pub log_on: u32, pub pid: u32, pub mem_junk: u32, pub layout: u32, pub tty: u32,
    pub ndec: u32, pub dec_overflow: u32, pub dec: [Dec; MAX_DEC],
    pub end: u32, pub nthreads: u32,
    pub steps: u64, pub events: u64, pub switches: u64, pub preemptions: u64, pub spurious: u64, pub wakes: u64,
    pub futex_waits: u64, pub yields: u64, pub clock_reads: u64, pub clock_jumps: u64, pub allocs: u64,
    pub alloc_failed: u64, pub thread_failed: u64, pub rpcs: u64, pub sim_ns: u64, pub sched_hash: u64,
    pub nguards: u64, pub max_runnable: u64, pub mem_live: i64, pub mem_peak: i64, pub msg: [u8; 256], pub cov: [u8; COV],
}
pub const END_EXIT: u32 = 1;
pub const END_DEADLOCK: u32 = 2;
pub const END_BUDGET: u32 = 3;
pub const END_UNSUPPORTED: u32 = 4;

extern "C" {
    pub fn simrt_begin(s: *mut Shared);
    pub fn simrt_end();
    pub fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    pub fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
    pub fn munmap(a: *mut u8, n: usize) -> i32;
    pub fn fork() -> i32;
    pub fn dup2(a: i32, b: i32) -> i32;
    #[link_name = "getpid"] pub fn libc_getpid() -> i32;
    pub fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn kill(p: i32, s: i32) -> i32;
    pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    pub fn personality(p: u64) -> i32;
    pub fn sched_setaffinity(pid: i32, n: usize, m: *const u64) -> i32;
    pub fn sched_getaffinity(pid: i32, n: usize, m: *mut u64) -> i32;
    pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
/// Anonymous memory shared with forked children.
pub fn shared_mem(n: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p
}

jstruct! {
/// How the scheduler decides: a seeded policy, or (explicit) a list of decisions on top of the
/// default schedule (run the current thread until it blocks; oldest waiter first; no spurious wake-ups).
pub struct Sched {
    pub seed: u64, pub explicit: bool, pub policy: u32, pub gap: u32, pub fair: u32, pub victim: u32, pub nchg: u32,
    pub est_len: u64, pub burst_at: u64, pub burst_len: u64, pub sync_p: u32, pub spur_p: u32, pub frozen: u64,
    pub budget: u64, pub ncpu: u32, pub alloc_fail_at: u64, pub alloc_min: u64, pub alloc_persist: bool,
    pub thread_fail_at: u32, pub thread_persist: bool, pub clock_base: u64, pub clock_jump_p: u32,
    pub pid: u32, /** fresh heap memory is filled with this byte - 1 (0: left as it is) */ pub mem_junk: u32, /** where heap, mappings and stack begin (0: as they come) */ pub layout: u32,
    /// (step, kind 1 switch / 2 wake / 3 spurious wake-up, thread)
    pub dec: Vec<(u64, u32, u32)>,
}
}
/// Policy under which every thread has a processor of its own and time is the time of that processor.
pub const CORES: u32 = 5;
impl Sched {
    pub fn cores(r: &mut Rng) -> Sched { Sched { seed: r.u64(), policy: CORES, gap: r.pick(&[30, 60, 100, 300, 1000]), ncpu: 16, budget: 400_000_000, clock_base: r.below(1 << 50), pid: 4242, mem_junk: r.pick(&[0, 0xab]), layout: r.below(2) as u32 * r.below(1 << 20) as u32, ..Default::default() } }
    pub fn random(r: &mut Rng, est: u64) -> Sched {
        let mut s = Sched { seed: r.u64(), est_len: est.max(1), ncpu: 4, fair: 20000, ..Default::default() };
        s.policy = r.pick(&[1, 1, 1, 2, 2, 2, 3, 4, 4]);
        s.gap = r.pick(&[1, 2, 4, 10, 25, 60, 150, 400, 1000, 3000]);
        s.nchg = r.below(9) as u32;
        s.victim = r.below(6) as u32;
        s.burst_at = r.below(est.max(1));
        s.burst_len = r.pick(&[20, 100, 400, 2000]);
        if s.policy == 4 { s.gap = r.pick(&[1, 1, 2, 3, 5]); }
        // a switch costs microseconds: at most about half a million of them
        else { s.gap = s.gap.max((est / 500_000) as u32); }
        s.sync_p = r.pick(&[0, 16, 64, 128, 255]);
        s.spur_p = r.pick(&[0, 0, 0, 40, 400, 4000]);
        s.fair = r.pick(&[5000, 20000, 100000]);
        s.clock_base = r.below(1 << 50);
        s.clock_jump_p = r.pick(&[0, 0, 3000, 30000]);
        s.budget = 400_000_000;
        s.pid = r.range(2, 30000) as u32;
        s.mem_junk = r.pick(&[0, 1, 256, 0xab, 0x41]);
        s.layout = r.below(2) as u32 * r.below(1 << 20) as u32;
        s
    }
    pub fn quiet(seed: u64) -> Sched { Sched { seed, ncpu: 4, fair: 100000, budget: 400_000_000, clock_base: 1 << 40, pid: 4242, ..Default::default() } }
    pub fn apply(&self, s: &mut Shared) {
        s.seed = self.seed; s.replay = self.explicit as u32; s.policy = self.policy; s.gap = self.gap; s.fair = self.fair;
        s.victim = self.victim; s.nchg = self.nchg; s.est_len = self.est_len; s.burst_at = self.burst_at; s.burst_len = self.burst_len;
        s.sync_p = self.sync_p; s.spur_p = self.spur_p; s.frozen = self.frozen; s.step_budget = self.budget; s.ncpu = self.ncpu;
        s.alloc_fail_at = self.alloc_fail_at; s.alloc_min = self.alloc_min; s.alloc_persist = self.alloc_persist as u32;
        s.thread_fail_at = self.thread_fail_at; s.thread_persist = self.thread_persist as u32;
        s.clock_base_ns = self.clock_base; s.ns_per_step = 20; s.clock_jump_p = self.clock_jump_p; s.log_on = 1; s.pid = self.pid; s.mem_junk = self.mem_junk; s.layout = self.layout;
        s.ndec = 0; s.dec_overflow = 0;
        if self.explicit {
            for (i, d) in self.dec.iter().take(MAX_DEC).enumerate() { s.dec[i] = Dec { step: d.0, kind: d.1, val: d.2 }; s.ndec = i as u32 + 1; }
        }
        s.end = 0; s.nthreads = 0; s.steps = 0; s.events = 0; s.switches = 0; s.preemptions = 0; s.spurious = 0; s.wakes = 0;
        s.futex_waits = 0; s.yields = 0; s.clock_reads = 0; s.clock_jumps = 0; s.allocs = 0; s.alloc_failed = 0; s.thread_failed = 0;
        s.rpcs = 0; s.sim_ns = 0; s.sched_hash = 0xcbf29ce484222325; s.max_runnable = 0; s.mem_live = 0; s.mem_peak = 0; s.msg = [0; 256];
    }
    /// The same execution as an explicit list of decisions, if the log is complete.
    pub fn as_explicit(&self, s: &Shared) -> Option<Sched> {
        if self.explicit { return Some(self.clone()); }
        if s.dec_overflow != 0 || self.policy == CORES { return None; }
        let mut e = self.clone();
        e.explicit = true;
        e.dec = s.dec[..s.ndec as usize].iter().map(|d| (d.step, d.kind, d.val)).collect();
        Some(e)
    }
}
pub fn msg(s: &Shared) -> String { String::from_utf8_lossy(&s.msg).trim_end_matches('\0').to_string() }

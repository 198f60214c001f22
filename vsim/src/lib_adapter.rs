use crate::lib_world::*;
use crate::runner::*;
use crate::shared::*;
use crate::util::*;
use std::collections::BTreeMap;

pub struct LibW { pub r: LibRunner, again: LibRunner }
impl LibW { pub fn new() -> LibW { LibW { r: LibRunner::new(), again: LibRunner::new() } } }
impl World for LibW {
    type Case = LibCase;
    fn gen(&mut self, prop: &str, seed: u64, thorough: bool) -> LibCase {
        let mut r = Rng::new(seed);
        let mut c = gen(prop, &mut r, if thorough { 40 } else { 20 });
        let total: usize = c.callers.iter().flat_map(|x| &x.ops).map(|o| o.out_len() + 200).sum();
        if total > ARENA / 2 { c.callers.truncate(1); c.callers[0].ops.truncate(1); }
        c
    }
    fn run(&mut self, c: &LibCase) -> Outcome<LibCase> {
        let mut r = self.r.run(c);
        if c.prop == "L09" && r.left > LEFT_SEEN && r.signal.is_none() {
            // what the runtime keeps for later does not grow with the number of calls
            let mut x = c.clone();
            x.sched.explicit = false;
            x.callers[0].reps *= 8;
            x.sched.budget = budget(&x);
            r.left8 = self.again.run(&x).left;
        }
        if c.prop == "L09" && std::env::var_os("VSIM_TRACE").is_some() { eprintln!("left {} {} reps {}", r.left, r.left8, c.callers[0].reps); }
        let sh = self.r.sh();
        let violation = crate::lib_world::check(c, &r);
        let explicit = c.sched.as_explicit(sh).map(|s| LibCase { sched: s, ..c.clone() });
        // a process that dies from a signal does not get to report its last step
        let mut d = fnv(format!("{} {} {:?} {:?} {} {} {:?} {}", r.end, if r.signal.is_some() { 0 } else { r.steps }, r.exit, r.signal, r.switches, r.hash, r.order, r.msg).as_bytes());
        if std::env::var_os("VSIM_TRACE").is_some() { eprintln!("trace: {} {} {:?} {:?} {} {} {:?} {} allocs {} {}", r.end, r.steps, r.exit, r.signal, r.switches, r.hash, r.order, r.msg, sh.allocs, sh.alloc_failed); }
        d = fnv_from(d, &r.status);
        d = fnv_from(d, &r.times.0.to_le_bytes());
        d = fnv_from(d, &r.times.1.to_le_bytes());
        for o in &r.outs { d = fnv_from(d, o); }
        let mut k = BTreeMap::new();
        let mut add = |n: &str, v: u64| { *k.entry(n.to_string()).or_insert(0) += v; };
        add("sim_ns", sh.sim_ns);
        for (n, v) in [("n.scheduling_events", sh.events), ("n.context_switches", sh.switches), ("n.preemptions", sh.preemptions), ("n.futex_waits", sh.futex_waits),
            ("n.wakeups", sh.wakes), ("n.yields", sh.yields), ("n.basic_block_steps", sh.steps), ("n.threads_created", sh.nthreads as u64),
            ("fault.spurious_wakeups", sh.spurious), ("fault.clock_jumps", sh.clock_jumps), ("fault.worker_frozen_for_ever", c.sched.frozen.count_ones() as u64),
            ("fault.worker_starved_runs", (c.sched.policy == 3) as u64)] { add(n, v); }
        let ops: Vec<&LibOp> = c.callers.iter().flat_map(|x| &x.ops).collect();
        if c.prop == "L07" { add("fault.runs_without_heap_and_threads", 1); }
        add("fault.allocation_failures", sh.alloc_failed);
        add("fault.thread_creation_failures", sh.thread_failed);
        if c.prop == "L08" { add(if r.signal.is_some() || r.exit != Some(0) { "kind.process_ended" } else if r.status.iter().any(|&x| x != 1) { "kind.call_failed" } else { "kind.all_calls_completed" }, 1); }
        add("n.calls", ops.len() as u64 * (1 + c.callers[0].reps as u64));
        if c.prop == "L09" { k.insert("max_bytes_left_in_use".into(), r.left.max(0) as u64); k.insert("max_repetitions".into(), c.callers[0].reps as u64); }
        let mut add = |n: &str, v: u64| { *k.entry(n.to_string()).or_insert(0) += v; };
        if c.prop == "L10" && r.times.0 > 0 { let p = r.times.1 * 1000 / r.times.0; add(&format!("kind.share_of_the_time_with_{}_workers_below_{}_percent", team(c), p / 50 * 5 + 5), 1); if std::env::var_os("VSIM_TRACE").is_some() { eprintln!("team {} rows {} t1 {} tw {} permille {} x {}", team(c), (ops[0].h + 3) / 4, r.times.0, r.times.1, p, p * team(c) as u64); } }
        add("fault.short_buffer_calls", ops.iter().filter(|o| o.bad() || o.out_delta < 0).count() as u64);
        add("n.calls_with_larger_buffers", ops.iter().filter(|o| o.in_delta > 0 || o.out_delta > 0).count() as u64);
        add("n.calls_panicked", r.status.iter().filter(|&&s| s == 2).count() as u64);
        add("n.tiles", ops.iter().map(|o| (crate::refdec::tiles(o.w) * crate::refdec::tiles(o.h)) as u64).sum());
        add(["kind.policy_default", "kind.policy_random_walk", "kind.policy_pct", "kind.policy_starve", "kind.policy_burst", "kind.policy_one_processor_per_thread"][c.sched.policy as usize % 6], 1);
        add(&format!("kind.workers_{}", c.workers), 1);
        add(&format!("kind.callers_{}", c.callers.len()), 1);
        for x in &c.callers { add(["kind.ctx_plain", "kind.ctx_scope_tasks", "kind.ctx_private_pool", "kind.ctx_par_iter", "kind.ctx_nested_joins", "kind.ctx_nested_private", "kind.ctx_serial_without_heap"][x.ctx as usize % 7], 1); if x.reuse { add("kind.callers_reusing_their_buffers", 1); } }
        for o in &ops { add(&format!("kind.{}_{}", ["compress", "decompress"][o.kind as usize], FMT[o.fmt as usize]), 1); }
        k.insert("max_steps_in_one_run".into(), sh.steps);
        k.insert("max_steps_permille_of_budget".into(), sh.steps * 1000 / c.sched.budget.max(1));
        k.insert("max_simultaneously_runnable_threads".into(), sh.max_runnable);
        let sample = format!("workers={} policy={} gap={} frozen={:#b}; {}; {} steps, {} switches, {} decisions", c.workers, c.sched.policy, c.sched.gap, c.sched.frozen,
            c.callers.iter().map(|x| format!("ctx{}[{}]", x.ctx, x.ops.iter().map(|o| o.describe()).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(" | "), sh.steps, sh.switches, sh.ndec);
        Outcome { violation, explicit, hash: r.hash ^ fnv(format!("{:?}", c.callers.iter().map(|x| (x.ctx, x.ops.len())).collect::<Vec<_>>()).as_bytes()),
            nontrivial: r.switches >= 4 && sh.max_runnable >= 2 || c.sched.frozen != 0 || c.prop == "L07" || sh.alloc_failed + sh.thread_failed as u64 > 0, digest: d, counters: k, sample }
    }
    fn shrink(&mut self, c: &LibCase) -> Vec<LibCase> {
        let mut v = vec![];
        let mut push = |f: &dyn Fn(&mut LibCase)| { let mut x = c.clone(); f(&mut x); if x != *c && !x.callers.is_empty() && x.callers.iter().all(|k| !k.ops.is_empty()) { x.sched.explicit = false; x.sched.dec.clear(); v.push(x); } };
        for i in 0..c.callers.len() { if c.callers.len() > 1 { push(&|x| { x.callers.remove(i); }); } }
        for i in 0..c.callers.len() {
            for j in 0..c.callers[i].ops.len() { push(&|x| { x.callers[i].ops.remove(j); }); }
            push(&|x| { x.callers[i].reps /= 2; });
            push(&|x| { if x.callers[i].ctx != 6 { x.callers[i].ctx = 0; } });
            push(&|x| { x.callers[i].reuse = false; });
            push(&|x| { x.callers[i].depth = 0; });
            push(&|x| { x.callers[i].pool = 1; });
        }
        push(&|x| { x.ship = false; });
        for n in [1, 2, 3] { if n < c.workers { push(&|x| { x.workers = n; }); } }
        for i in 0..c.callers.len() { for j in 0..c.callers[i].ops.len() {
            for (a, b) in [(1, 2), (3, 4)] {
                push(&|x| { let o = &mut x.callers[i].ops[j]; let bad = o.in_delta; o.w = o.w * a / b; if bad < 0 { o.in_delta = bad.max(-(o.need_in() as i64)); } });
                push(&|x| { let o = &mut x.callers[i].ops[j]; let bad = o.in_delta; o.h = o.h * a / b; if bad < 0 { o.in_delta = bad.max(-(o.need_in() as i64)); } });
            }
            push(&|x| { let o = &mut x.callers[i].ops[j]; if o.w > 0 { o.w -= 1; } });
            push(&|x| { let o = &mut x.callers[i].ops[j]; if o.h > 0 { o.h -= 1; } });
            push(&|x| { x.callers[i].ops[j].huge = 0; });
            push(&|x| { x.callers[i].ops[j].in_delta = 0; });
            push(&|x| { x.callers[i].ops[j].out_delta = 0; });
            push(&|x| { x.callers[i].ops[j].alg = 0; });
            push(&|x| { x.callers[i].ops[j].wba = false; });
            push(&|x| { x.callers[i].ops[j].weights = vec![1.0, 1.0, 1.0]; });
            push(&|x| { x.callers[i].ops[j].fmt = 0; });
        } }
        v
    }
    fn reseed(&mut self, c: &LibCase, salt: u64) -> LibCase {
        let mut x = c.clone();
        let frozen = x.sched.frozen;
        let budget = x.sched.budget;
        let mut r = Rng::derive(c.sched.seed, salt);
        x.sched = if c.sched.policy == CORES { Sched::cores(&mut r) } else { Sched::random(&mut r, if c.sched.est_len > 0 { c.sched.est_len } else { 10000 }) };
        x.sched.frozen = frozen;
        x.sched.budget = budget;
        x.sched.thread_fail_at = c.sched.thread_fail_at; x.sched.thread_persist = c.sched.thread_persist;
        x.sched.alloc_fail_at = c.sched.alloc_fail_at; x.sched.alloc_min = c.sched.alloc_min; x.sched.alloc_persist = c.sched.alloc_persist;
        x
    }
    fn declists(&self, _c: &LibCase) -> usize { 1 }
    fn get_dec(&self, c: &LibCase, _i: usize) -> usize { c.sched.dec.len() }
    fn keep_dec(&self, c: &LibCase, _i: usize, keep: &[usize]) -> LibCase {
        let mut x = c.clone();
        x.sched.dec = keep.iter().map(|&i| c.sched.dec[i]).collect();
        x
    }
    fn cov(&self) -> Option<Vec<u8>> { Some(self.r.sh().cov.to_vec()) }
    fn rule(&self, prop: &str) -> String {
        format!("{}: each run draws a scenario (worker count, calling threads and contexts, calls with sizes, formats, parameters, image or block generators, buffer slack or shortage) and a scheduling policy from its seed and executes the real library in a fresh process. Non-trivial: at least 4 context switches with 2 or more simultaneously runnable threads (or permanently frozen workers, or failed allocations or thread creations; every run of L07). Distinct: the sequence of (thread switched to, program edge at the switch) differs.", prop)
    }
    fn components(&self, _prop: &str) -> Json {
        Json::obj(vec![
            ("real", Json::s("texpresso library built from /repo/lib with feature rayon; rayon, rayon-core, crossbeam-deque/epoch/utils; Rust std (Mutex, Condvar, thread, park)")),
            ("simulated", Json::s("thread scheduling, futex, sched_yield, sleep, clocks, getrandom, processor count (simrt)")),
            ("reference", Json::s("block decoder written from the format definition; single-block compressor of the serial build applied tile by tile (L01, L03, L04); whole serial build (L06)")),
        ])
    }
}

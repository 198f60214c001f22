//! Search, minimisation, replay and evidence, common to library and CLI worlds.
use crate::shared::*;
use crate::util::*;
use std::collections::{BTreeMap, HashSet};
use std::time::Instant;

pub struct Outcome<C> {
    /// (stable class, explanation)
    pub violation: Option<(String, String)>,
    /// the same execution with every decision written out
    pub explicit: Option<C>,
    /// identity of the explored interleaving / history (by the world's own measure)
    pub hash: u64,
    pub nontrivial: bool,
    /// digest of everything observable; equal for two executions of one case
    pub digest: u64,
    pub counters: BTreeMap<String, u64>,
    pub sample: String,
}
pub trait World {
    type Case: J + Clone + PartialEq;
    fn gen(&mut self, prop: &str, seed: u64, thorough: bool) -> Self::Case;
    fn run(&mut self, c: &Self::Case) -> Outcome<Self::Case>;
    /// Smaller cases to try, most drastic first; schedule decisions are handled separately.
    fn shrink(&mut self, c: &Self::Case) -> Vec<Self::Case>;
    /// Same case under another schedule (for re-finding a failure after shrinking).
    fn reseed(&mut self, c: &Self::Case, salt: u64) -> Self::Case;
    /// Lists of decisions that can be thinned out: number of lists, get, set.
    fn declists(&self, c: &Self::Case) -> usize;
    fn get_dec(&self, c: &Self::Case, i: usize) -> usize;
    /// keep only decisions whose index is in `keep`
    fn keep_dec(&self, c: &Self::Case, i: usize, keep: &[usize]) -> Self::Case;
    fn cov(&self) -> Option<Vec<u8>>;
    fn rule(&self, prop: &str) -> String;
    fn components(&self, prop: &str) -> Json;
}

pub struct Plan { pub prop: String, pub tier: String, pub seed: u64, pub runs: u64, pub max_s: u64, pub shards: usize, pub work: String, pub evidence: String, pub replay_dir: String }

#[repr(C)]
struct Ctl { stop: u32, best: u64 }

fn cpus() -> Vec<usize> {
    let mut m = [0u64; 16];
    unsafe { sched_getaffinity(0, 128, m.as_mut_ptr()); }
    let v: Vec<usize> = (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect();
    if v.is_empty() { vec![0] } else { v }
}
pub fn pin(i: usize) {
    let c = cpus();
    let k = c[i % c.len()];
    let mut m = [0u64; 16];
    m[k / 64] |= 1 << (k % 64);
    unsafe { sched_setaffinity(0, 128, m.as_ptr()); }
}
pub fn ncpu() -> usize { cpus().len() }

/// Runs the plan.  Returns the process exit code.
pub fn check<W: World>(mk: &dyn Fn(usize) -> W, plan: &Plan, known: &[(String, String)]) -> i32 {
    let t0 = Instant::now();
    let _ = std::fs::create_dir_all(&plan.work);
    let ctl = shared_mem(4096) as *mut Ctl;
    unsafe { (*ctl).stop = 0; (*ctl).best = u64::MAX; }
    let mut pids = vec![];
    for sh in 0..plan.shards {
        let pid = unsafe { fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0); }
            pin(sh);
            let mut w = mk(sh);
            shard(&mut w, plan, sh, ctl, t0, known);
            unsafe { _exit(0) }
        }
        pids.push(pid);
    }
    let mut bad_shards = vec![];
    for (i, p) in pids.iter().enumerate() {
        let mut st = 0;
        unsafe { while waitpid(*p, &mut st, 0) != *p {} }
        if st != 0 { bad_shards.push((i, st)); }
    }
    // collect
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let (mut runs, mut nontriv) = (0u64, 0u64);
    let mut samples = vec![];
    let mut cov = vec![0u8; COV];
    let mut best: Option<(u64, Json)> = None;
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    let mut det = 0;
    for sh in 0..plan.shards {
        let p = format!("{}/shard{}.json", plan.work, sh);
        let Ok(t) = std::fs::read_to_string(&p) else { continue };
        let Ok(j) = Json::parse(&t) else { continue };
        runs += j.get("runs").unwrap().int() as u64;
        det += j.get("det").unwrap().int() as u64;
        if let Some(Json::Obj(m)) = j.get("counters") { for (k, v) in m { let e = counters.entry(k.clone()).or_default(); if k.starts_with("max_") { *e = (*e).max(v.int() as u64) } else { *e += v.int() as u64 } } }
        if let Some(Json::Obj(m)) = j.get("known") { for (k, v) in m { *knowns.entry(k.clone()).or_default() += v.int() as u64; } }
        if samples.len() < 6 { samples.extend(j.get("samples").unwrap().arr().iter().take(2).cloned()); }
        if let Some(v) = j.get("violation") {
            let i = v.get("index").unwrap().int() as u64;
            if best.as_ref().map_or(true, |b| i < b.0) { best = Some((i, v.clone())); }
        }
        if let Ok(b) = std::fs::read(format!("{}/shard{}.hash", plan.work, sh)) {
            for c in b.chunks_exact(9) { let h = u64::from_le_bytes(c[..8].try_into().unwrap()); if hashes.insert(h) && c[8] == 1 { nontriv += 1; } }
        }
        if let Ok(b) = std::fs::read(format!("{}/shard{}.cov", plan.work, sh)) { for (a, x) in cov.iter_mut().zip(&b) { *a |= x; } }
    }
    let _ = std::fs::remove_dir_all(&plan.work);
    let mut code = 0;
    let mut violations = 0;
    for (k, n) in &knowns { println!("KNOWN-FINDING: property={} {} (met {} times)", plan.prop, k, n); }
    let search_s = t0.elapsed().as_secs_f64();
    let mut viol_json = Json::Null;
    if let Some((idx, v)) = best {
        violations = 1;
        code = 1;
        let mut w = mk(0);
        pin(0);
        let case = W::Case::jfrom(v.get("case").unwrap());
        let class = v.get("class").unwrap().str().to_string();
        let (small, class, msg, tries, ok) = minimise(&mut w, &plan.prop, &case, &class, v.get("message").unwrap().str(), 60.0);
        let path = format!("{}/{}-{}-{}.json", plan.replay_dir, plan.prop, plan.seed, idx);
        let _ = std::fs::create_dir_all(&plan.replay_dir);
        let rep = Json::obj(vec![("property", Json::s(&plan.prop)), ("run_seed", Json::i(plan.seed)), ("run_index", Json::i(idx)), ("class", Json::s(&class)),
            ("message", Json::s(&msg)), ("minimisation_runs", Json::i(tries)), ("reproduced_when_minimised", Json::Bool(ok)), ("case", small.to()), ("original_case", case.to())]);
        std::fs::write(&path, rep.pretty()).expect("cannot write the replay file");
        println!("{}: {}", class, msg);
        println!("VIOLATION property={} replay={}", plan.prop, path);
        viol_json = Json::obj(vec![("class", Json::s(class)), ("message", Json::s(msg)), ("replay", Json::s(path))]);
    }
    if code == 0 && !bad_shards.is_empty() {
        println!("error: simulation shards ended abnormally: {:?}", bad_shards);
        code = 2;
    }
    if code == 0 && runs == 0 { println!("error: no simulated run was completed"); code = 2; }
    let wall = t0.elapsed().as_secs_f64();
    let w = mk(0);
    let take = |c: &BTreeMap<String, u64>, p: &str| Json::Obj(c.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k[p.len()..].to_string(), Json::i(*v))).collect());
    let edges = cov.iter().filter(|&&x| x != 0).count();
    let e = Json::obj(vec![
        ("property", Json::s(&plan.prop)), ("tier", Json::s(&plan.tier)), ("seed", Json::i(plan.seed)), ("level", Json::s("exploration")),
        ("coverage", Json::obj(vec![
            ("evaluations", Json::i(runs)), ("distinct_nontrivial", Json::i(nontriv)), ("rule", Json::s(w.rule(&plan.prop))), ("samples", Json::Arr(samples)),
            ("simulated_runs_per_hour", Json::i((runs as f64 / search_s.max(0.001) * 3600.0) as u64)),
            ("seeds_per_hour", Json::i((runs as f64 / search_s.max(0.001) * 3600.0) as u64)),
            ("simulated_seconds", Json::Num((*counters.get("sim_ns").unwrap_or(&0) as f64 / 1e9 * 1e3).round() / 1e3)),
            ("faults_injected", take(&counters, "fault.")),
            ("distinct_interleavings", Json::u(hashes.len())),
            ("runs_executed_twice_with_identical_history", Json::i(det)),
            ("reached_program_edges", Json::u(edges)),
            ("counts", take(&counters, "n.")), ("maxima", take(&counters, "max_")), ("scenarios", take(&counters, "kind.")),
            ("components", w.components(&plan.prop)), ("known_findings_met", Json::Obj(knowns.into_iter().map(|(k, v)| (k, Json::i(v))).collect())),
            ("violation", viol_json),
        ])),
        ("assumptions", Json::Arr(vec![
            Json::s("Only one simulated thread runs at a time: the search covers sequentially consistent interleavings switching at basic blocks of the instrumented crates and memory accesses of texpresso, not weak-memory reorderings."),
            Json::s("libstd, libm and glibc run as they are; glibc's own locks are taken and released between two scheduling points."),
            Json::s("Seeded search: absence of a violation is evidence for the explored runs, not a proof."),
        ])),
        ("wall_s", Json::Num((wall * 100.0).round() / 100.0)), ("violations", Json::i(violations)),
    ]);
    if let Err(x) = std::fs::write(&plan.evidence, e.pretty()) { println!("error: cannot write {}: {}", plan.evidence, x); if code == 0 { code = 2; } }
    println!("{}: {} simulated runs ({} distinct non-trivial), {} edges, {} known, {} violation(s), {:.1}s", plan.prop, runs, nontriv, edges, "-", violations, wall);
    code
}

fn shard<W: World>(w: &mut W, plan: &Plan, sh: usize, ctl: *mut Ctl, t0: Instant, known: &[(String, String)]) {
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: Vec<u8> = vec![];
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    let mut runs = 0u64;
    let mut det = 0u64;
    let mut viol = None;
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = sh as u64;
    while i < plan.runs {
        unsafe { if std::ptr::read_volatile(&(*ctl).stop) != 0 && std::ptr::read_volatile(&(*ctl).best) < i { break; } }
        if t0.elapsed().as_secs() >= plan.max_s { break; }
        let seed = Rng::derive(plan.seed, i).u64();
        let case = w.gen(&plan.prop, seed, plan.tier == "thorough");
        let o = w.run(&case);
        runs += 1;
        for (k, v) in &o.counters { let e = counters.entry(k.clone()).or_default(); if k.starts_with("max_") { *e = (*e).max(*v) } else { *e += v } }
        if seen.insert(o.hash) { hashes.extend_from_slice(&o.hash.to_le_bytes()); hashes.push(o.nontrivial as u8); }
        if samples.len() < 2 && o.nontrivial { samples.push(Json::s(format!("run {} (seed {:#x}): {}", i, seed, o.sample))); }
        if let Some((class, message)) = o.violation {
            if class == "harness" { eprintln!("error: the simulator cannot model this run: {} (property {} seed {:#x} index {})", message, plan.prop, seed, i); unsafe { _exit(4) } }
            if let Some(k) = known.iter().find(|k| message.contains(&k.0)) { *knowns.entry(k.1.clone()).or_default() += 1; }
            else {
                viol = Some(Json::obj(vec![("index", Json::i(i)), ("class", Json::s(class)), ("message", Json::s(message)), ("case", case.to())]));
                unsafe { if (*ctl).best > i { (*ctl).best = i; } (*ctl).stop = 1; }
                break;
            }
        } else if i / plan.shards as u64 % 64 == 7 {
            // determinism self-check: the same case again, and once more as an explicit list of decisions
            let o2 = w.run(&case);
            let mut why = if o2.digest != o.digest { Some("a second execution of the same seed differs") } else { None };
            if why.is_none() { if let Some(x) = &o.explicit { let o3 = w.run(x); if o3.digest != o.digest { why = Some("the explicit decision list does not reproduce the seeded execution"); } } }
            if let Some(m) = why { eprintln!("error: simulator is not deterministic: {} (property {} seed {:#x} index {}): {}", m, plan.prop, seed, i, case.to().dump()); unsafe { _exit(3) } }
            det += 1;
        }
        i += plan.shards as u64;
    }
    let mut o = vec![("runs", Json::i(runs)), ("det", Json::i(det)), ("counters", Json::Obj(counters.into_iter().map(|(k, v)| (k, Json::i(v))).collect())),
        ("known", Json::Obj(knowns.into_iter().map(|(k, v)| (k, Json::i(v))).collect())), ("samples", Json::Arr(samples))];
    if let Some(v) = viol { o.push(("violation", v)); }
    let _ = std::fs::write(format!("{}/shard{}.hash", plan.work, sh), &hashes);
    if let Some(c) = w.cov() { let _ = std::fs::write(format!("{}/shard{}.cov", plan.work, sh), c); }
    std::fs::write(format!("{}/shard{}.json", plan.work, sh), Json::obj(o).dump()).unwrap();
}

/// Shrinks the scenario, then the schedule and the fault list.
fn minimise<W: World>(w: &mut W, _prop: &str, case: &W::Case, class: &str, message: &str, limit_s: f64) -> (W::Case, String, String, u64, bool) {
    let t0 = Instant::now();
    let mut tries = 0u64;
    let base = |c: &str| c.trim_end_matches(|x: char| x.is_ascii_digit()).to_string();
    let want = base(class);
    let fails = |w: &mut W, c: &W::Case, tries: &mut u64| -> Option<(String, Option<W::Case>)> {
        *tries += 1;
        let o = w.run(c);
        match o.violation { Some((k, m)) if base(&k) == want => Some((m, o.explicit)), _ => None }
    };
    let mut cur = case.clone();
    let mut msg = message.to_string();
    let mut expl = match fails(w, &cur, &mut tries) {
        Some((m, e)) => { msg = m; e }
        None => return (cur, class.into(), msg + " [did not reproduce when run again]", tries, false),
    };
    // every attempt would take minutes
    if class.starts_with("signal9") || class.starts_with("cpu") { return (cur, class.into(), msg, tries, true); }
    // 1. scenario
    'outer: loop {
        if t0.elapsed().as_secs_f64() > limit_s * 0.6 { break; }
        for cand in w.shrink(&cur) {
            if t0.elapsed().as_secs_f64() > limit_s * 0.6 { break 'outer; }
            for salt in 0..12u64 {
                let c2 = if salt == 0 { cand.clone() } else { w.reseed(&cand, salt) };
                if let Some((m, e)) = fails(w, &c2, &mut tries) { cur = c2; msg = m; expl = e; continue 'outer; }
                if t0.elapsed().as_secs_f64() > limit_s * 0.6 { break 'outer; }
            }
        }
        break;
    }
    // 2. explicit decisions, thinned out
    if let Some(e) = expl {
        if let Some((m, _)) = fails(w, &e, &mut tries) {
            cur = e;
            msg = m;
            for l in 0..w.declists(&cur) {
                let mut chunk = (w.get_dec(&cur, l) + 1) / 2;
                if w.get_dec(&cur, l) > 0 {
                    let c2 = w.keep_dec(&cur, l, &[]);
                    if let Some((m, _)) = fails(w, &c2, &mut tries) { cur = c2; msg = m; }
                }
                while chunk >= 1 {
                    let mut at = 0;
                    let mut any = false;
                    while at < w.get_dec(&cur, l) {
                        if t0.elapsed().as_secs_f64() > limit_s { break; }
                        let n = w.get_dec(&cur, l);
                        let keep: Vec<usize> = (0..n).filter(|i| *i < at || *i >= at + chunk).collect();
                        let c2 = w.keep_dec(&cur, l, &keep);
                        if let Some((m, _)) = fails(w, &c2, &mut tries) { cur = c2; msg = m; any = true; } else { at += chunk; }
                    }
                    if t0.elapsed().as_secs_f64() > limit_s { break; }
                    if chunk == 1 && !any { break; }
                    if chunk > 1 { chunk = (chunk + 1) / 2; }
                }
            }
        }
    }
    let ok = fails(w, &cur, &mut tries).is_some();
    (cur, class.to_string(), msg, tries, ok)
}

pub fn replay<W: World>(w: &mut W, j: &Json) -> i32 {
    let case = W::Case::jfrom(j.get("case").expect("no case in replay file"));
    let o = w.run(&case);
    let o2 = w.run(&case);
    let prop = j.get("property").unwrap().str();
    if o.digest != o2.digest { println!("error: two replays differ"); return 2; }
    match o.violation {
        Some((k, m)) => { println!("{}: {}", k, m); println!("VIOLATION property={} replay=(this file)", prop); 1 }
        None => { println!("{}: no violation on this tree", prop); 0 }
    }
}

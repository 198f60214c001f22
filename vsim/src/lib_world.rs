//! Library worlds: the real library on the real rayon, under the simulated scheduler.
//! Every execution happens in a freshly forked child so that no state survives between runs.
use crate::imggen;
use crate::jstruct;
use crate::refdec;
use crate::shared::*;
use crate::util::*;
use rayon::prelude::*;

jstruct! {
/// One whole-image call.
pub struct LibOp {
    /// 0 compress, 1 decompress
    pub kind: u32, pub fmt: u8, pub alg: u8, pub weights: Vec<f32>, pub wba: bool, pub w: usize, pub h: usize,
    pub img: u32, pub seed: u64,
    /// bytes more (or fewer) than needed at the end of the input and of the output buffer
    pub in_delta: i64, pub out_delta: i64,
    /// previous contents of the output buffer
    pub fill: u8,
    /// the call names this size (1-based index into HUGE) instead of w x h
    pub huge: u32,
}
}
jstruct! {
/// A calling thread.  ctx: 0 plain calls one after another, 1 tasks of the global pool (scope),
/// 2 private pool (install), 3 parallel iterator over the calls in the global pool,
/// 4 nested joins to depth `depth`, each leaf making the calls, 5 like 4 inside a private pool,
/// 6 calls of the serial build one after another, without heap and threads
/// reuse: consecutive calls use the same pair of buffers
/// reps: (L09) times the calls are repeated
pub struct Caller { pub reps: u32, pub ctx: u32, pub pool: u32, pub depth: u32, pub reuse: bool, pub ops: Vec<LibOp> }
}
jstruct! {
pub struct LibCase { pub prop: String, pub workers: u32,
    /// the calls are made to the library as it is shipped, without overflow checks
    pub ship: bool, pub callers: Vec<Caller>, pub sched: Sched }
}

pub const FMT: [&str; 5] = ["BC1", "BC2", "BC3", "BC4", "BC5"];
pub fn tfmt(f: u8) -> texpresso::Format { use texpresso::Format::*; [Bc1, Bc2, Bc3, Bc4, Bc5][f as usize] }
pub fn sfmt(f: u8) -> texpresso_serial::Format { use texpresso_serial::Format::*; [Bc1, Bc2, Bc3, Bc4, Bc5][f as usize] }
static SHIP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn hfmt(f: u8) -> texpresso_shipped::Format { use texpresso_shipped::Format::*; [Bc1, Bc2, Bc3, Bc4, Bc5][f as usize] }
/// A call of the parallel build.
fn call(o: &LibOp, w: usize, h: usize, weights: &[f32], input: &[u8], out: &mut [u8]) {
    if SHIP.load(std::sync::atomic::Ordering::Relaxed) {
        use texpresso_shipped::Algorithm::*;
        let p = texpresso_shipped::Params { algorithm: [RangeFit, ClusterFit, IterativeClusterFit][o.alg as usize], weights: [weights[0], weights[1], weights[2]], weigh_colour_by_alpha: o.wba };
        if o.kind == 0 { hfmt(o.fmt).compress(input, w, h, p, out) } else { hfmt(o.fmt).decompress(input, w, h, out) }
    } else {
        use texpresso::Algorithm::*;
        let p = texpresso::Params { algorithm: [RangeFit, ClusterFit, IterativeClusterFit][o.alg as usize], weights: [weights[0], weights[1], weights[2]], weigh_colour_by_alpha: o.wba };
        if o.kind == 0 { tfmt(o.fmt).compress(input, w, h, p, out) } else { tfmt(o.fmt).decompress(input, w, h, out) }
    }
}
pub fn spar(alg: u8, w: &[f32], wba: bool) -> texpresso_serial::Params {
    use texpresso_serial::Algorithm::*;
    texpresso_serial::Params { algorithm: [RangeFit, ClusterFit, IterativeClusterFit][alg as usize], weights: [w[0], w[1], w[2]], weigh_colour_by_alpha: wba }
}

/// Sizes no buffer can be large enough for; the products of some overflow to nothing or to something small.
pub const HUGE: [(usize, usize); 12] = [(1 << 62, 16), (16, 1 << 62), (1 << 32, 1 << 32), (1 << 33, 1 << 33), (usize::MAX, 1), (1, usize::MAX), (usize::MAX - 2, usize::MAX - 2), (1 << 61, 32),
    ((1 << 62) + 4, 16), (1 << 34, (1 << 33) + 4), (1 << 40, 1 << 20), (usize::MAX / 2 + 1, 8)];
impl LibOp {
    fn dims(&self) -> (usize, usize) { if self.huge > 0 { HUGE[(self.huge as usize - 1) % HUGE.len()] } else { (self.w, self.h) } }
    pub fn need_in(&self) -> usize { if self.kind == 0 { self.w * self.h * 4 } else { refdec::data_len(self.fmt, self.w, self.h) } }
    pub fn need_out(&self) -> usize { if self.kind == 0 { refdec::data_len(self.fmt, self.w, self.h) } else { self.w * self.h * 4 } }
    pub fn in_len(&self) -> usize { (self.need_in() as i64 + self.in_delta).max(0) as usize }
    pub fn out_len(&self) -> usize { (self.need_out() as i64 + self.out_delta).max(0) as usize }
    pub fn input(&self) -> Vec<u8> {
        let mut v = if self.kind == 0 { imggen::pixels(self.img, self.seed, self.w, self.h) } else { imggen::blocks(self.img, self.seed, self.fmt, self.w, self.h) };
        let n = self.in_len();
        let mut r = Rng::derive(self.seed, 0x3333);
        while v.len() < n { v.push(r.u8()); }
        v.truncate(n);
        v
    }
    /// too little room for the call to be carried out
    pub fn bad(&self) -> bool { self.huge > 0 || self.in_len() < self.need_in() || (self.kind == 0 && self.out_len() < self.need_out()) }
    pub fn describe(&self) -> String {
        let (w, h) = self.dims();
        format!("{} {} {}x{} alg={} weights={:?} wba={} image={}/{:#x} in{:+} out{:+}", ["compress", "decompress"][self.kind as usize],
            FMT[self.fmt as usize], w, h, ["range", "cluster", "iterative"][self.alg as usize], self.weights, self.wba, self.img, self.seed, self.in_delta, self.out_delta)
    }
    fn blocks(&self) -> u64 { (refdec::tiles(self.w) * refdec::tiles(self.h)) as u64 }
    fn run(&self, input: &[u8], out: &mut [u8]) {
        let (w, h) = self.dims();
        call(self, w, h, &self.weights, input, out)
    }
    fn run_serial(&self, input: &[u8], out: &mut [u8]) {
        let (w, h) = self.dims();
        if self.kind == 0 { sfmt(self.fmt).compress(input, w, h, spar(self.alg, &self.weights, self.wba), out) } else { sfmt(self.fmt).decompress(input, w, h, out) }
    }
    /// The serial build under the simulated scheduler.
    fn run_bare(&self, input: &[u8], out: &mut [u8]) {
        use texpresso_bare::{Algorithm::*, Format::*};
        let (w, h) = self.dims();
        let f = [Bc1, Bc2, Bc3, Bc4, Bc5][self.fmt as usize];
        let p = texpresso_bare::Params { algorithm: [RangeFit, ClusterFit, IterativeClusterFit][self.alg as usize], weights: [self.weights[0], self.weights[1], self.weights[2]], weigh_colour_by_alpha: self.wba };
        if self.kind == 0 { f.compress(input, w, h, p, out) } else { f.decompress(input, w, h, out) }
    }
    /// What the call must leave in its output buffer: tile by tile, or the format definition.
    pub fn expect(&self) -> Result<Vec<u8>, String> {
        let mut out = vec![self.fill; self.out_len()];
        let input = self.input();
        if self.kind == 1 {
            let px = refdec::image(self.fmt, &input, self.w, self.h).ok_or("reference: input too short")?;
            out[..px.len()].copy_from_slice(&px);
        } else {
            let e = compress_tiles(self.fmt, self.alg, &self.weights, self.wba, &input, self.w, self.h, self.seed)?;
            out[..e.len()].copy_from_slice(&e);
        }
        Ok(out)
    }
}
/// Runs a reference computation in a process of its own, so that nothing it leaves behind can make later
/// references depend on earlier ones, and so that a reference that never ends cannot stop the driver.
pub fn isolated(f: impl FnOnce() -> Result<Vec<u8>, String>) -> Result<Vec<u8>, String> {
    const ROOM: usize = 16 << 20;
    static mut MEM: (*mut u8, i32) = (std::ptr::null_mut(), 0);
    unsafe {
        let me = libc_getpid();
        if MEM.1 != me { MEM = (shared_mem(ROOM), me); } // shards must not share it
        let m = MEM.0;
        *m = 9;
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            setrlimit(0, &[60, 60]);
            setrlimit(4, &[0, 0]);
            let (k, v) = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(Ok(v)) => (0, v), Ok(Err(e)) => (1, e.into_bytes()), Err(_) => (1, b"panics".to_vec()) };
            if v.len() + 16 < ROOM {
                std::ptr::copy_nonoverlapping((v.len() as u64).to_le_bytes().as_ptr(), m.add(1), 8);
                std::ptr::copy_nonoverlapping(v.as_ptr(), m.add(16), v.len());
                *m = k;
            }
            _exit(0);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        if *m == 9 { return Err(format!("the reference computation does not end properly (status {:#x})", st)); }
        let mut n = [0u8; 8];
        std::ptr::copy_nonoverlapping(m.add(1), n.as_mut_ptr(), 8);
        let v = std::slice::from_raw_parts(m.add(16), u64::from_le_bytes(n) as usize).to_vec();
        if *m == 0 { Ok(v) } else { Err(String::from_utf8_lossy(&v).into_owned()) }
    }
}
/// Compresses every tile on its own with the single-block interface of the serial build, in an order of
/// its own and with unrelated blocks in between.  Pixels outside the image are masked out and filled with junk.
pub fn compress_tiles(fmt: u8, alg: u8, weights: &[f32], wba: bool, rgba: &[u8], w: usize, h: usize, junk: u64) -> Result<Vec<u8>, String> {
    isolated(|| {
        let mut r = Rng::derive(junk, 0x4444);
        let bs = refdec::block_bytes(fmt);
        let par = spar(alg, weights, wba);
        let (tw, th) = (refdec::tiles(w), refdec::tiles(h));
        let mut out = vec![0u8; tw * th * bs];
        let mut cache: Vec<([[u8; 4]; 16], u32, Vec<u8>)> = vec![];
        let mut order: Vec<usize> = (0..tw * th).collect();
        for i in (1..order.len()).rev() { let j = r.below(i as u64 + 1) as usize; order.swap(i, j); }
        for (k, t) in order.into_iter().enumerate() {
            let (tx, ty) = (t % tw, t / tw);
            let mut tile = [[0u8; 4]; 16];
            let mut mask = 0u32;
            for p in 0..16 {
                let (x, y) = (tx * 4 + p % 4, ty * 4 + p / 4);
                if x < w && y < h {
                    mask |= 1 << p;
                    tile[p].copy_from_slice(&rgba[(y * w + x) * 4..][..4]);
                } else { tile[p] = [r.u8(), r.u8(), r.u8(), r.u8()]; }
            }
            let dst = &mut out[t * bs..(t + 1) * bs];
            if let Some(c) = cache.iter().find(|c| c.0 == tile && c.1 == mask) { dst.copy_from_slice(&c.2); continue; }
            if k < 300 {
                // something else, of every format in turn
                let f2 = (fmt + 1 + k as u8 % 4) % 5;
                let mut other = [[0u8; 4]; 16];
                for p in other.iter_mut().flatten() { *p = r.u8(); }
                let mut b = vec![0u8; refdec::block_bytes(f2)];
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sfmt(f2).compress_block_masked(other, 0xffff, spar(0, &[1.0, 1.0, 1.0], !wba), &mut b)));
            }
            let mut b = vec![0u8; bs];
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sfmt(fmt).compress_block_masked(tile, mask, par, &mut b)));
            if res.is_err() { return Err(format!("single-block compression panics on tile ({},{})", tx, ty)); }
            dst.copy_from_slice(&b);
            if cache.len() < 64 { cache.push((tile, mask, b)); }
        }
        Ok(out)
    })
}

pub const ARENA: usize = 20 << 20;
const GUARD: usize = 64;
pub struct LibRunner { pub sh: *mut Shared, pub arena: *mut u8 }
#[derive(Default, Clone)]
pub struct LibResult {
    pub end: u32, pub msg: String, pub exit: Option<i32>, pub signal: Option<i32>,
    /// per op (flattened over callers): 0 not finished, 1 returned, 2 panicked
    pub status: Vec<u8>, pub outs: Vec<Vec<u8>>, pub guards_ok: bool,
    /// single-step trace of the order in which the calls ended
    pub order: Vec<u8>, /** (L10) simulated time of the call with one worker and with all of them */ pub times: (u64, u64), pub left: i64, /** with eight times the repetitions */ pub left8: i64, pub threads: u32, pub steps: u64, pub switches: u64, pub hash: u64,
}
struct Slot { off: usize, len: usize, idx: usize }

impl LibRunner {
    pub fn new() -> LibRunner {
        LibRunner { sh: shared_mem(std::mem::size_of::<Shared>()) as *mut Shared, arena: shared_mem(ARENA) }
    }
    pub fn sh(&self) -> &mut Shared { unsafe { &mut *self.sh } }
    pub fn run(&self, c: &LibCase) -> LibResult {
        let r = self.run_for(c, 60);
        // out of CPU time: an endless loop, or a slow machine?
        if matches!(r.signal, Some(9 | 24)) { return self.run_for(c, 200); }
        r
    }
    fn run_for(&self, c: &LibCase, cpu: u64) -> LibResult {
        let sh = self.sh();
        c.sched.apply(sh);
        // arena layout: [status bytes 256][order 256][guard out guard ...]
        let mut slots: Vec<Vec<Slot>> = vec![];
        let mut off = 1024;
        let mut idx = 0;
        for cl in &c.callers {
            let mut v = vec![];
            for o in &cl.ops { v.push(Slot { off: off + GUARD, len: o.out_len(), idx }); off += o.out_len() + 2 * GUARD; idx += 1; }
            slots.push(v);
        }
        assert!(off < ARENA, "arena too small for {} bytes", off);
        // inputs start at any address
        let inputs: Vec<Vec<Input>> = c.callers.iter().map(|cl| cl.ops.iter().map(|o| Input::new(&o.input(), o.seed)).collect()).collect();
        unsafe {
            std::ptr::write_bytes(self.arena, 0, 1024);
            for (ci, cl) in c.callers.iter().enumerate() {
                for (oi, o) in cl.ops.iter().enumerate() {
                    let s = &slots[ci][oi];
                    std::ptr::write_bytes(self.arena.add(s.off - GUARD), 0xA5, s.len + 2 * GUARD);
                    std::ptr::write_bytes(self.arena.add(s.off), o.fill, s.len);
                }
            }
        }
        let pid = unsafe { fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            unsafe {
                prctl(1, 9, 0, 0, 0);
                setrlimit(0, &[cpu, cpu]); // a loop outside the instrumented code
                setrlimit(4, &[0, 0]);
            }
            SHIP.store(c.ship, std::sync::atomic::Ordering::Relaxed);
            std::env::set_var("RAYON_NUM_THREADS", c.workers.to_string());
            std::panic::set_hook(Box::new(|_| {}));
            if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
                use std::os::fd::AsRawFd;
                unsafe { dup2(f.as_raw_fd(), 2) };
            }
            unsafe { simrt_begin(self.sh) };
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| child(c, &slots, &inputs, self.arena as usize, self.sh as usize))).is_ok();
            unsafe { simrt_end(); _exit(if ok { 0 } else { 101 }) }
        }
        let mut st = 0;
        unsafe { while waitpid(pid, &mut st, 0) != pid {} }
        let mut r = LibResult { end: sh.end, msg: msg(sh), steps: sh.steps, switches: sh.switches, hash: sh.sched_hash, guards_ok: true, ..Default::default() };
        if st & 0x7f == 0 { r.exit = Some((st >> 8) & 255) } else { r.signal = Some(st & 0x7f) }
        unsafe {
            for v in &slots { for s in v {
                r.status.push(*self.arena.add(s.idx));
                r.outs.push(std::slice::from_raw_parts(self.arena.add(s.off), s.len).to_vec());
                let g1 = std::slice::from_raw_parts(self.arena.add(s.off - GUARD), GUARD);
                let g2 = std::slice::from_raw_parts(self.arena.add(s.off + s.len), GUARD);
                if g1.iter().chain(g2).any(|&b| b != 0xA5) { r.guards_ok = false; }
            } }
            r.left = *(self.arena.add(LEFT) as *const i64);
            r.times = (*(self.arena.add(TIMES) as *const u64), *(self.arena.add(TIMES + 8) as *const u64));
            r.threads = sh.nthreads;
            let n = *self.arena.add(512) as usize;
            r.order = std::slice::from_raw_parts(self.arena.add(513), n.min(200)).to_vec();
        }
        r
    }
}

/// Input that cannot be written.  Some begins at the start of a page (or near it), some ends where nothing may be read.
struct Input { base: *mut u8, room: usize, at: usize, len: usize }
unsafe impl Sync for Input {}
impl Input {
    fn new(v: &[u8], seed: u64) -> Input {
        const PAGE: usize = 4096;
        let pad = (seed % 5) as usize;
        let body = (v.len() + pad).next_multiple_of(PAGE).max(PAGE);
        unsafe {
            let base = mmap(std::ptr::null_mut(), body + PAGE, 3, 0x22, -1, 0);
            assert!(base as isize != -1, "mmap failed");
            std::ptr::write_bytes(base, 0xEE, body);
            let at = if seed & 32 == 0 { pad } else { body - v.len() };
            std::ptr::copy_nonoverlapping(v.as_ptr(), base.add(at), v.len());
            assert!(mprotect(base, body, 1) == 0 && mprotect(base.add(body), PAGE, 0) == 0);
            Input { base, room: body + PAGE, at, len: v.len() }
        }
    }
    fn get(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.base.add(self.at), self.len) } }
}
impl Drop for Input { fn drop(&mut self) { unsafe { munmap(self.base, self.room); } } }
fn one(op: &LibOp, s: &Slot, input: &[u8], arena: usize) {
    let out = unsafe { std::slice::from_raw_parts_mut((arena + s.off) as *mut u8, s.len) };
    one_at(op, s.idx, input, out, arena);
}
fn one_at(op: &LibOp, idx: usize, input: &[u8], out: &mut [u8], arena: usize) {
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| op.run(input, out))).is_ok();
    note(idx, ok, arena);
}
fn note(idx: usize, ok: bool, arena: usize) {
    unsafe {
        let st = (arena + idx) as *mut u8;
        if *st == 0 || *st == 1 { *st = if ok { 1 } else { 2 }; }
        let n = (arena + 512) as *mut u8;
        if *n < 200 { *((arena + 513 + *n as usize) as *mut u8) = idx as u8; *n += 1; }
    }
}
fn nest(depth: u32, f: &(dyn Fn(u32) + Sync), leaf: u32) {
    if depth == 0 { f(leaf) } else { rayon::join(|| nest(depth - 1, f, leaf * 2), || nest(depth - 1, f, leaf * 2 + 1)); }
}
fn pool(n: u32) -> Option<rayon::ThreadPool> { rayon::ThreadPoolBuilder::new().num_threads(n.max(1) as usize).build().ok() }
fn run_caller(cl: &Caller, slots: &[Slot], inputs: &[Input], arena: usize) {
    let n = cl.ops.len();
    let go = |i: usize| one(&cl.ops[i], &slots[i], inputs[i].get(), arena);
    if cl.reuse && matches!(cl.ctx, 0 | 2) {
        // the same two buffers for one call after the other
        let mut src = vec![0u8; inputs.iter().map(|i| i.len).max().unwrap_or(0)];
        let mut dst = vec![0u8; slots.iter().map(|s| s.len).max().unwrap_or(0)];
        let all = || for i in 0..n {
            let (s, input) = (&slots[i], inputs[i].get());
            src[..input.len()].copy_from_slice(input);
            dst[..s.len].fill(cl.ops[i].fill);
            one_at(&cl.ops[i], s.idx, &src[..input.len()], &mut dst[..s.len], arena);
            unsafe { std::ptr::copy_nonoverlapping(dst.as_ptr(), (arena + s.off) as *mut u8, s.len); }
        };
        let mut all = all;
        if cl.ctx == 2 { if let Some(p) = pool(cl.pool) { p.install(all) } else { for s in slots { note(s.idx, false, arena) } } } else { all() }
        return;
    }
    match cl.ctx {
        1 => rayon::scope(|s| for i in 0..n { let go = &go; s.spawn(move |_| go(i)); }),
        2 => {
            let Some(p) = pool(cl.pool) else { for s in slots { note(s.idx, false, arena) } return };
            p.install(|| for i in 0..n { go(i) });
        }
        3 => (0..n).into_par_iter().for_each(|i| go(i)),
        // leaf k runs calls k, k+leaves, ...
        4 => nest(cl.depth, &|l| { let mut i = l as usize; while i < n { go(i); i += 1 << cl.depth; } }, 0),
        5 => {
            let Some(p) = pool(cl.pool) else { for s in slots { note(s.idx, false, arena) } return };
            p.install(|| nest(cl.depth, &|l| { let mut i = l as usize; while i < n { go(i); i += 1 << cl.depth; } }, 0));
        }
        _ => for i in 0..n { go(i) },
    }
}
/// Calls of the serial build on several threads, while every allocation and every thread creation fails.
fn heapless(c: &LibCase, slots: &[Vec<Slot>], inputs: &[Vec<Input>], arena: usize, sh: usize) {
    let n = c.callers.len();
    let gate = std::sync::Barrier::new(n);
    let arm = |on: bool| unsafe {
        let sh = sh as *mut Shared;
        (*sh).alloc_fail_at = if on { (*sh).allocs + 1 } else { 0 };
        (*sh).alloc_persist = on as u32;
        (*sh).thread_fail_at = if on { (*sh).nthreads + 1 } else { 0 };
        (*sh).thread_persist = on as u32;
    };
    let work = |i: usize| {
        gate.wait();
        if i == 0 { arm(true); }
        gate.wait();
        for (k, o) in c.callers[i].ops.iter().enumerate() {
            let s = &slots[i][k];
            let out = unsafe { std::slice::from_raw_parts_mut((arena + s.off) as *mut u8, s.len) };
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| o.run_bare(inputs[i][k].get(), out))).is_ok();
            note(s.idx, ok, arena);
        }
        gate.wait();
        if i == 0 { arm(false); }
        gate.wait();
    };
    std::thread::scope(|s| {
        for i in 0..n { let work = &work; std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, move || work(i)).expect("thread"); }
    });
}
/// Stack of the threads that make calls without heap and threads.
const STACK: usize = 128 << 10;
/// One of the repeated calls, described without heap memory.
struct Weightless<'a> { o: &'a LibOp, w: usize, h: usize, weights: [f32; 3] }
impl Weightless<'_> {
    fn run(&self, input: &[u8], out: &mut [u8]) {
        call(self.o, self.w, self.h, &self.weights, input, out)
    }
}
/// Calls of the same kinds again and again; how much heap memory stays in use is left at the place LEFT.
const LEFT: usize = 800;
const TIMES: usize = 808;
fn repeated(c: &LibCase, slots: &[Vec<Slot>], inputs: &[Vec<Input>], arena: usize, sh: usize) {
    let live = || unsafe { std::ptr::read_volatile(&(*(sh as *const Shared)).mem_live) };
    let (cl, slots, inputs) = (&c.callers[0], &slots[0], &inputs[0]);
    let warm = 4.max(cl.reps / 8);
    // arguments differ from one repetition to the next, so that whatever is remembered about them piles up
    let mut bufs: Vec<Vec<u8>> = inputs.iter().map(|i| i.get().to_vec()).collect();
    let mut r = Rng::derive(cl.reps as u64, c.callers[0].ops[0].seed);
    let mut all = || {
        let mut mark = 0;
        let n = warm + cl.reps;
        for k in 0..n {
            if k == warm { mark = live(); }
            for i in 0..cl.ops.len() {
                let (s, buf) = (&slots[i], &mut bufs[i]);
                let mut o = Weightless { o: &cl.ops[i], w: 0, h: 0, weights: [0.0; 3] };
                (o.w, o.h) = o.o.dims();
                o.weights.copy_from_slice(&o.o.weights);
                if k + 1 == n { buf.copy_from_slice(inputs[i].get()); } else {
                    // flat colours, then one thing or another different in each repetition
                    if r.chance(1, 3) { let v = r.u64().to_le_bytes(); let f = r.pick(&[4, 4, 4, 1, 2, 8]); for (p, b) in buf.iter_mut().enumerate() { *b = v[p % f]; } }
                    else if !buf.is_empty() { for _ in 0..3 { let p = r.below(buf.len() as u64) as usize; buf[p] = r.u8(); } }
                    if !o.o.bad() {
                        if r.chance(1, 2) { for w in &mut o.weights { *w += r.below(1000) as f32 / 1000.0; } }
                        if r.chance(1, 2) && o.w > 1 { o.w -= r.below(o.w as u64) as usize; }
                        if r.chance(1, 4) && o.h > 1 { o.h -= r.below(o.h as u64) as usize; }
                    }
                }
                let out = unsafe { std::slice::from_raw_parts_mut((arena + s.off) as *mut u8, s.len) };
                if o.o.bad() { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| o.run(buf, out))); }
                else { if k + 1 == n { out.fill(o.o.fill); } o.run(buf, out); }
            }
        }
        unsafe { *((arena + LEFT) as *mut i64) = live() - mark; }
    };
    if cl.ctx == 2 { if let Some(p) = pool(cl.pool) { p.install(&mut all) } } else { all() }
    for s in slots { note(s.idx, true, arena); }
}
/// The same call with one worker and with all of them, in the time of a machine that has a processor for each.
fn timed(c: &LibCase, slots: &[Vec<Slot>], inputs: &[Vec<Input>], arena: usize) {
    let (cl, s, input) = (&c.callers[0], &slots[0][0], inputs[0][0].get());
    let op = &cl.ops[0];
    let mut small = op.clone();
    (small.w, small.h, small.in_delta, small.out_delta) = (4, 8, 0, 0);
    let small_in = small.input();
    let mut small_out = vec![0; small.out_len()];
    let mut spare = vec![0; s.len];
    let mut time = |k: usize| {
        small.run(&small_in, &mut small_out); // nothing is used for the first time afterwards
        let out = if k == 0 { &mut spare[..] } else { unsafe { std::slice::from_raw_parts_mut((arena + s.off) as *mut u8, s.len) } };
        let t = std::time::Instant::now();
        op.run(input, out);
        unsafe { *((arena + TIMES + 8 * k) as *mut u64) = t.elapsed().as_nanos() as u64; }
    };
    pool(1).unwrap().install(|| time(0));
    if cl.ctx == 2 { pool(cl.pool).unwrap().install(|| time(1)); } else { time(1); }
    note(s.idx, true, arena);
}
/// Workers that share the work.
pub fn team(c: &LibCase) -> u32 { if c.callers[0].ctx == 2 { c.callers[0].pool } else { c.workers } }
fn child(c: &LibCase, slots: &[Vec<Slot>], inputs: &[Vec<Input>], arena: usize, sh: usize) {
    if c.prop == "L09" { return repeated(c, slots, inputs, arena, sh); }
    if c.prop == "L10" { return timed(c, slots, inputs, arena); }
    if c.prop == "L07" { return heapless(c, slots, inputs, arena, sh); }
    std::thread::scope(|s| {
        let mut hs = vec![];
        for i in 1..c.callers.len() {
            let (cl, sl, inp) = (&c.callers[i], &slots[i], &inputs[i]);
            hs.push(s.spawn(move || run_caller(cl, sl, inp, arena)));
        }
        run_caller(&c.callers[0], &slots[0], &inputs[0], arena);
        for h in hs { let _ = h.join(); }
    });
}

// ------------------------------------------------------------------ generation
fn gen_dims(r: &mut Rng, size: u64) -> (usize, usize) {
    match r.below(100) {
        0..=4 => (r.range(0, 2) as usize, r.range(0, 6) as usize),
        5..=44 => (r.range(1, 4 + size) as usize, r.range(1, 4 + size) as usize),
        45..=64 => (r.range(1, 5) as usize, r.range(5, 16 + 4 * size) as usize),
        65..=79 => (r.range(5, 16 + 4 * size) as usize, r.range(1, 5) as usize),
        80..=93 => (4 * r.range(1, 2 + size / 3) as usize, 4 * r.range(1, 2 + size / 3) as usize),
        94..=97 => (r.range(17, 40 + size) as usize, r.range(17, 40 + size) as usize),
        98 if size >= 8 => (r.range(60, 200) as usize, r.range(60, 200) as usize),
        _ => { // long and thin: many tiles in one direction
            let n = r.pick(&[255, 256, 257, 260, 511, 1023, 1024, 1025, 1030, 2047, 4096, 4100]);
            if r.chance(1, 2) { (n, r.range(1, 5) as usize) } else { (r.range(1, 5) as usize, n) }
        }
    }
}
pub fn gen_op(r: &mut Rng, kind: u32, size: u64) -> LibOp {
    let (w, h) = gen_dims(r, size);
    let big = w * h > 600;
    let weights = if r.chance(1, 12) { r.pick(&[vec![0.0f32, 0.0, 0.0], vec![0.0, 0.0, 1.0], vec![-1.0, 0.5, 2.0], vec![1e30, 1.0, 1e-30], vec![1e-30, 1e-30, 1e-30], vec![-3.0, -3.0, -3.0], vec![f32::INFINITY, 1.0, 1.0], vec![f32::MAX, f32::MAX, f32::MAX], vec![-0.0, 0.0, 1e-42]]) } else { r.pick(&[
        vec![0.2126f32, 0.7152, 0.0722], vec![0.2126, 0.7152, 0.0722], vec![1.0, 1.0, 1.0], vec![1.0, 0.0, 0.0], vec![0.3, 0.59, 0.11], vec![3.0, 0.5, 10.0]]) };
    let mut alg = r.pick(&[0u8, 0, 1, 1, 2]);
    if big { alg = if w * h > 6000 || r.chance(3, 4) { 0 } else { alg.min(1) } }
    if alg == 2 && w * h > 150 && !(w * h <= 600 && r.chance(1, 6)) { alg = 1 }
    let img = if kind == 0 { r.below(imggen::NKINDS) } else { r.below(imggen::NDATA) } as u32;
    LibOp { kind, fmt: r.below(5) as u8, alg, weights, wba: r.chance(1, 3), w, h, img, seed: r.u64(), in_delta: 0, out_delta: 0, fill: r.pick(&[0, 0xff, 0x5a]), huge: 0 }
}
fn slack(r: &mut Rng, o: &mut LibOp) {
    // more room than needed
    let bs = refdec::block_bytes(o.fmt) as i64;
    let row = if o.kind == 0 { refdec::tiles(o.w) as i64 * bs } else { o.w as i64 * 16 };
    if r.chance(1, 3) { o.out_delta = r.pick(&[1, 3, bs, bs + 1, row, row + bs, 3 * row, row - 1, 7]).max(0); }
    if r.chance(1, 3) { o.in_delta = r.pick(&[1, 4, 5, bs, 64, 4 * o.w as i64]); }
}
fn spoil(r: &mut Rng, o: &mut LibOp) -> bool {
    if o.w == 0 || o.h == 0 { o.w = 5; o.h = 9; }
    let ni = o.need_in() as i64;
    let no = o.need_out() as i64;
    if o.kind == 0 && r.chance(1, 12) { o.huge = r.range(1, HUGE.len() as u64) as u32; return true; }
    if o.kind == 0 && r.chance(1, 4) {
        o.out_delta = -r.pick(&[1, 4, refdec::block_bytes(o.fmt) as i64, no / 2, no]).clamp(1, no);
    } else {
        let bs = refdec::block_bytes(o.fmt) as i64;
        o.in_delta = -r.pick(&[1, 2, 4, bs, ni / 2, ni - 1, ni, 4 * o.w as i64]).clamp(1, ni);
    }
    true
}
pub fn gen(prop: &str, r: &mut Rng, tier_size: u64) -> LibCase {
    let many = r.range(9, 48) as u32;
    let workers = if r.chance(1, 14) { many } else { r.pick(&[1u32, 2, 2, 3, 3, 4, 4, 5, 6, 8]) };
    let ship = r.chance(1, 3) && prop != "L06" && prop != "L07";
    let mut c = LibCase { prop: prop.into(), workers, ship, ..Default::default() };
    let size = r.pick(&[4, 8, 8, 16, tier_size]);
    match prop {
        "L01" | "L02" | "L06" => {
            let k = if prop == "L01" { 0 } else { 1 };
            let n = r.pick(&[1, 1, 1, 2]);
            let mut ops = vec![];
            for _ in 0..n {
                let kind = if prop == "L06" { r.below(2) as u32 } else { k };
                let mut o = gen_op(r, kind, size);
                if r.chance(1, 400) { // sides that do not fit in 16 bits
                    let (a, b) = (r.range(65530, 65600) as usize, r.range(1, 5) as usize);
                    (o.w, o.h) = if r.chance(1, 2) { (a, b) } else { (b, a) };
                    o.alg = 0;
                } else if r.chance(1, 3000) { // more than 65535 tiles
                    (o.w, o.h) = r.pick(&[(1024, 1024), (1030, 1021), (2048, 516), (300, 3600)]);
                    o.alg = 0;
                    if o.kind == 0 { o.fmt = 3; }
                } else if r.chance(1, 150) {
                    (o.w, o.h) = (r.range(100, 700) as usize, r.range(1, 40) as usize);
                    if r.chance(1, 3) { (o.w, o.h) = (o.h, o.w); }
                    o.alg = 0;
                }
                slack(r, &mut o);
                if prop == "L06" && r.chance(1, 4) {
                    o.in_delta = 0; o.out_delta = 0;
                    spoil(r, &mut o);
                    if o.kind == 1 && r.chance(1, 2) { o.in_delta = 0; let no = o.need_out() as i64; o.out_delta = -r.pick(&[1, 4, no / 2, no, 16 * o.w as i64]).clamp(1, no.max(1)); }
                }
                ops.push(o);
            }
            c.callers.push(Caller { ctx: r.pick(&[0, 0, 0, 2, 1]), pool: r.range(1, 5) as u32, depth: 0, reuse: r.chance(1, 4), ops, ..Default::default() });
        }
        "L03" => {
            let n = r.pick(&[1, 1, 2, 3]);
            for _ in 0..n {
                let mut ops = vec![];
                for _ in 0..r.range(1, 3) {
                    let kind = r.below(2) as u32;
                    let mut o = gen_op(r, kind, size.min(12));
                    if r.chance(1, 2) { spoil(r, &mut o); } else if r.chance(1, 4) { slack(r, &mut o) }
                    ops.push(o);
                }
                c.callers.push(Caller { ctx: r.pick(&[0, 0, 0, 1, 2, 3]), pool: r.range(1, 4) as u32, depth: 0, reuse: r.chance(1, 3), ops, ..Default::default() });
            }
            if !c.callers.iter().any(|x| x.ops.iter().any(|o| o.bad())) { let o = &mut c.callers[0].ops[0]; o.in_delta = 0; o.out_delta = 0; spoil(r, o); }
            // and a correct call afterwards
            let kind = r.below(2) as u32;
            let o = gen_op(r, kind, size.min(12));
            c.callers[0].ops.push(o);
        }
        "L04" => {
            let n = r.pick(&[1, 2, 2, 2, 3, 4]);
            // calls often share everything but one argument, so that confusing them would show
            let proto = { let k = r.below(2) as u32; gen_op(r, k, size.min(10)) };
            for _ in 0..n {
                let mut ops = vec![];
                for _ in 0..r.range(if n == 1 { 2 } else { 1 }, 3) {
                    let mut o = if r.chance(1, 2) { let k = r.below(2) as u32; gen_op(r, k, size.min(10)) } else { proto.clone() };
                    match r.below(8) {
                        0 => { o.seed = r.u64(); }
                        1 => { o.fmt = r.below(5) as u8; }
                        2 => { o.alg = if o.w * o.h > 200 { 0 } else { r.below(2) as u8 }; }
                        3 => { o.wba = !o.wba; }
                        4 => { o.weights = r.pick(&[vec![1.0f32, 1.0, 1.0], vec![0.2126, 0.7152, 0.0722], vec![0.1, 0.1, 5.0]]); }
                        5 => { std::mem::swap(&mut o.w, &mut o.h); }
                        6 => { slack(r, &mut o); }
                        _ => {}
                    }
                    ops.push(o);
                }
                c.callers.push(Caller { ctx: r.pick(&[0, 0, 0, 1, 2, 3, 4]), pool: r.range(1, 4) as u32, depth: r.range(0, 2) as u32, reuse: r.chance(1, 2), ops, ..Default::default() });
            }
        }
        "L07" => {
            let n = r.pick(&[1, 2, 2, 3]);
            for _ in 0..n {
                let mut ops = vec![];
                for _ in 0..r.range(1, 4) {
                    let kind = r.below(2) as u32;
                    let mut o = gen_op(r, kind, if n == 1 { size } else { size.min(6) });
                    if n > 1 && o.w * o.h > 600 { (o.w, o.h) = (o.w.min(40), o.h.min(16)); }
                    slack(r, &mut o);
                    ops.push(o);
                }
                c.callers.push(Caller { ctx: 6, ops, ..Default::default() });
            }
        }
        "L08" => {
            let mut ops = vec![];
            for _ in 0..r.range(1, 3) { let kind = r.below(2) as u32; let mut o = gen_op(r, kind, size.min(16)); slack(r, &mut o); ops.push(o); }
            c.callers.push(Caller { ctx: r.pick(&[0, 0, 0, 1, 2, 3, 4, 5]), pool: r.range(1, 5) as u32, depth: r.range(0, 2) as u32, reuse: r.chance(1, 4), ops, ..Default::default() });
        }
        "L10" => {
            let many = r.chance(1, 4);
            let team = |r: &mut Rng| if many { r.range(9, 32) as u32 } else { r.range(2, 8) as u32 };
            c.workers = team(r);
            let (ctx, pool) = (r.pick(&[0, 2]), team(r));
            let team = if ctx == 2 { pool } else { c.workers } as u64;
            let kind = r.below(2) as u32;
            let mut o = gen_op(r, kind, 4);
            if o.alg == 2 { o.alg = 1; }
            // rows of about equal work, and enough of it
            o.img = if kind == 0 { r.pick(&[0, 2, 5, 8, 10]) } else { r.below(imggen::NDATA) as u32 };
            let rows = r.range(16 * team, 40 * team);
            o.h = (4 * rows - r.below(4)) as usize;
            let per_tile = if kind == 1 { 250 } else { [2500, 9000][o.alg as usize] };
            o.w = (r.range(400_000, 1_000_000) / (rows * per_tile)).clamp(1, 60) as usize * 4 + r.below(4) as usize;
            slack(r, &mut o);
            c.callers.push(Caller { ctx, pool, ops: vec![o], ..Default::default() });
            c.sched = Sched::cores(r);
            c.sched.ncpu = if many { 40 } else { 16 };
            c.sched.budget = budget(&c);
            return c;
        }
        "L09" => {
            let mut ops = vec![];
            let n = r.range(1, 3);
            // many small calls, or some larger ones
            let small = r.chance(1, 2);
            for _ in 0..n {
                let kind = r.below(2) as u32;
                let mut o = gen_op(r, kind, size.min(8));
                if small { o.w = small_side(r); o.h = small_side(r); } else if o.w * o.h > 1500 { o.w = o.w.min(100); o.h = o.h.min(12); }
                o.alg = if small { o.alg.min(1) } else { 0 };
                slack(r, &mut o);
                if r.chance(1, 5) { spoil(r, &mut o); }
                ops.push(o);
            }
            let cost: u64 = ops.iter().map(|o| 800 + o.blocks() * if o.kind == 1 { 250 } else { [2500, 9000, 40000][o.alg as usize] }).sum();
            let (ctx, mut pool) = (r.pick(&[0, 2]), r.range(1, 4) as u32);
            // one thread at work: fewer steps are spent on taking turns
            let alone = r.chance(1, 2);
            if alone { pool = 1; c.workers = 1; }
            let reps = (r.pick(&[1, 1, 2, 6]) * if alone { 6_000_000 } else { 1_500_000 } / cost).clamp(8, 5000) as u32;
            c.callers.push(Caller { ctx, pool, reps, ops, ..Default::default() });
        }
        _ if r.chance(1, 5) => { // L05, many small calls as tasks: a worker that waits in one takes up the next
            let mut ops = vec![];
            for _ in 0..r.range(6, 40) {
                let kind = r.below(2) as u32;
                let mut o = gen_op(r, kind, 4);
                (o.w, o.h, o.alg) = (r.range(1, 6) as usize, 4 * r.range(2, 8) as usize - r.below(4) as usize, o.alg.min(1));
                ops.push(o);
            }
            c.workers = r.pick(&[2, 2, 3, 4, 6]);
            c.callers.push(Caller { ctx: r.pick(&[1, 1, 3, 3, 4, 5]), pool: r.range(2, 5) as u32, depth: r.range(3, 5) as u32, ops, ..Default::default() });
        }
        _ => { // L05
            let n = r.pick(&[1, 1, 1, 2, 3]);
            for _ in 0..n {
                let mut ops = vec![];
                let ctx = r.pick(&[0, 0, 1, 2, 3, 4, 4, 5]);
                let depth = r.range(0, 4) as u32;
                let leaves = if ctx >= 4 { 1 << depth } else { 1 };
                for _ in 0..r.range(1, if ctx >= 4 { leaves.min(8) } else { 3 }) {
                    let kind = r.below(2) as u32;
                    let mut o = gen_op(r, kind, size.min(12));
                    slack(r, &mut o);
                    ops.push(o);
                }
                c.callers.push(Caller { ctx, pool: r.range(1, 5) as u32, depth, reuse: r.chance(1, 4), ops, ..Default::default() });
            }
        }
    }
    let est: u64 = c.callers.iter().flat_map(|x| &x.ops).map(|o| 200 + o.blocks() * if o.kind == 1 { 250 } else { [2500, 9000, 40000][o.alg as usize] }).sum::<u64>() * (1 + c.callers[0].reps as u64);
    c.sched = Sched::random(r, est + 2000);
    // bounded progress: far above what any correct execution needs
    c.sched.budget = budget(&c);
    if prop == "L08" {
        if r.chance(1, 2) {
            c.sched.thread_fail_at = 1 + r.below(c.workers.max(c.callers[0].pool) as u64 + 1) as u32;
            c.sched.thread_persist = r.chance(1, 2);
        } else {
            c.sched.alloc_min = r.pick(&[1, 1, 1, 64, 1024]);
            c.sched.alloc_fail_at = 1 + r.below(match c.sched.alloc_min { 1 => 150, 64 => 60, _ => 12 });
            c.sched.alloc_persist = r.chance(1, 3);
        }
    }
    if prop == "L05" && r.chance(1, 2) {
        // all workers but one never run: threads are numbered in creation order, so only
        // shapes with a single pool whose workers are threads 1..=n can be frozen
        c.callers.truncate(1);
        let cl = &mut c.callers[0];
        let n = if cl.ctx == 2 || cl.ctx == 5 { cl.pool } else { c.workers };
        let keep = 1 + r.below(n as u64);
        for t in 1..=n as u64 { if t != keep { c.sched.frozen |= 1 << t; } }
    }
    c
}
fn small_side(r: &mut Rng) -> usize { let n = r.range(1, 9) as usize; r.pick(&[4, 8, n]) }
/// (L10) Calls that take less simulated time (20 ns for each basic block and access) are not judged; what waking up may cost.
const L10_MIN: u64 = 4_000_000;
const L10_EXTRA: u64 = 400_000;
/// Reason to look closer.
pub const LEFT_SEEN: i64 = 4 << 10;
/// Room for what rayon and crossbeam keep for later: queue blocks and deferred destruction.
pub const LEFT_MAX: i64 = 24 << 10;
pub fn budget(c: &LibCase) -> u64 {
    let b: u64 = c.callers.iter().flat_map(|x| &x.ops).map(|o| o.blocks() + 4).sum::<u64>() * (1 + c.callers[0].reps as u64 * 5 / 4);
    3_000_000 + 1_500_000 * b + c.workers as u64 * 200_000
}

// ------------------------------------------------------------------ oracles
/// A violation of the case's property, as (stable class, explanation).
pub fn check(c: &LibCase, r: &LibResult) -> Option<(String, String)> {
    let ops: Vec<&LibOp> = c.callers.iter().flat_map(|x| &x.ops).collect();
    // the run as a whole
    if r.end == END_UNSUPPORTED { return Some(("harness".into(), format!("simulator cannot model this execution: {}", r.msg))); }
    if r.end == END_DEADLOCK { return Some(("deadlock".into(), format!("calls never complete: {}", r.msg))); }
    if r.end == END_BUDGET { return Some(("budget".into(), format!("calls did not complete within {} steps", c.sched.budget))); }
    if c.prop == "L08" && (r.signal == Some(6) || r.signal.is_none() && r.exit != Some(0)) { return None; } // failed visibly
    if let Some(s) = r.signal {
        return Some((format!("signal{}", s), format!("process died from signal {}{}", s, if s == 24 || s == 9 { " (endless loop: CPU limit)" } else { "" })));
    }
    if r.end != END_EXIT || r.exit != Some(0) { return Some(("exit".into(), format!("process ended early (exit {:?})", r.exit))); }
    for (i, o) in ops.iter().enumerate() {
        if r.status[i] == 0 { if c.prop == "L08" { continue; } return Some(("lost".into(), format!("call {} ({}) neither returned nor panicked", i, o.describe()))); }
    }
    if c.prop == "L05" {
        return None; // completion is the property
    }
    if c.prop == "L10" {
        let (o, n, (t1, t)) = (ops[0], team(c) as u64, r.times);
        // scaled down until one row is a large part of it, nothing can be said
        if n < 2 || (o.h as u64) < 16 * 4 * n - 3 || t1 < L10_MIN { return None; }
        let most = t1 * 160 / 100 / n + t1 * 12 / 100 + L10_EXTRA;
        if t > most { return Some(("slow".into(), format!("{} workers take {} ns of simulated time for a call ({}) that takes one worker {} ns; at most {} are allowed", n, t, o.describe(), t1, most))); }
        return None;
    }
    if !r.guards_ok { return Some(("guard".into(), "bytes outside the output buffer were modified".into())); }
    if c.prop == "L09" {
        let cl = &c.callers[0];
        let most = if cl.ctx == 2 { cl.pool } else { c.workers };
        if r.threads > most { return Some(("threads".into(), format!("{} threads were started for calls that run in a pool of {}", r.threads, most))); }
        if r.left > LEFT_SEEN && r.left8 > LEFT_MAX.max(4 * r.left) { return Some(("memory".into(), format!("{} repetitions of {} call(s) left {} more bytes of heap memory in use, eight times as many {}", cl.reps, ops.len(), r.left, r.left8))); }
    }
    for (i, o) in ops.iter().enumerate() {
        if c.prop == "L09" && o.bad() { continue; }
        if c.prop == "L06" {
            let input = o.input();
            let mut out = vec![o.fill; o.out_len()];
            let res = isolated(|| { let mut out = vec![o.fill; o.out_len()]; o.run_serial(&input, &mut out); Ok(out) });
            if let Err(e) = &res { if e != "panics" { return Some(("serial".into(), format!("call {} ({}): serial build: {}", i, o.describe(), e))); } }
            let ok = res.is_ok();
            if let Ok(v) = res { out = v; }
            if ok != (r.status[i] == 1) {
                return Some((format!("outcome{}", i), format!("call {} ({}): serial build {}, parallel build {}", i, o.describe(),
                    if ok { "returns" } else { "panics" }, if r.status[i] == 1 { "returns" } else { "panics" })));
            }
            if ok && out != r.outs[i] { return Some((format!("differ{}", i), diff(i, o, &r.outs[i], &out, "parallel build", "serial build"))); }
            continue;
        }
        if o.bad() {
            if r.status[i] == 1 { return Some((format!("nopanic{}", i), format!("call {} ({}) returned normally although its buffers are too short", i, o.describe()))); }
            continue;
        }
        if r.status[i] == 2 && c.prop == "L08" { continue; }
        if r.status[i] == 2 { return Some((format!("panic{}", i), format!("call {} ({}) panicked", i, o.describe()))); }
        match o.expect() {
            Err(e) => return Some(("reference".into(), e)),
            Ok(e) => if e != r.outs[i] { return Some((format!("wrong{}", i), diff(i, o, &r.outs[i], &e, "got", "expected"))); }
        }
    }
    None
}
fn diff(i: usize, o: &LibOp, got: &[u8], exp: &[u8], a: &str, b: &str) -> String {
    let n = got.iter().zip(exp).filter(|(x, y)| x != y).count();
    let p = got.iter().zip(exp).position(|(x, y)| x != y).unwrap_or(0);
    let unit = if o.kind == 0 { refdec::block_bytes(o.fmt) } else { 4 };
    let s = p / unit * unit;
    let e = (s + unit).min(got.len());
    let place = if o.kind == 0 { format!("tile {}", p / unit) } else { format!("pixel ({},{})", (p / 4) % o.w.max(1), p / 4 / o.w.max(1)) };
    let beyond = if p >= o.need_out() { " (beyond the required size)" } else { "" };
    format!("call {} ({}): {} of {} bytes differ, first at byte {} = {}{}: {} {:02x?}, {} {:02x?}", i, o.describe(), n, exp.len(), p, place, beyond, a, &got[s..e], b, &exp[s..e])
}

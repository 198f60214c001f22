//! Running the real command-line tool as real processes under the simulated OS: this side owns the
//! disk, answers every system call, injects the faults and interleaves concurrent processes.
use crate::fs::*;
use crate::jstruct;
use crate::shared::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::CString;
use std::io::{Read, Seek, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::net::UnixStream;

extern "C" {
    fn execve(p: *const i8, a: *const *const i8, e: *const *const i8) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn memfd_create(n: *const i8, f: u32) -> i32;
    fn ftruncate(fd: i32, n: i64) -> i32;
    fn open(p: *const i8, f: i32, ...) -> i32;
}

jstruct! {
/// A command line.  kind 0 compress, 1 decompress, 2 literal arguments (extra only)
/// style: 1 format name in capitals, 2 options joined to or separated from their values the other way, 4 input first, 8 "--" before the input
pub struct Cmd { pub kind: u32, pub infile: String, pub outfile: String, pub fmt: u8, pub alg: u8, pub weights: Vec<f32>, pub wba: bool, pub longopt: bool, pub style: u32, pub extra: Vec<String> }
}
jstruct! {
/// Something that goes wrong at the `at`-th system call of a process (see `Server::serve`).
/// kinds: 1 error once, 2 error from then on, 3 one short transfer, 4 short transfers from then on,
/// 5 killed before, 6 killed after, 7 killed in the middle of a write, 8 bit flipped in data read,
/// 9 end of file from then on, 10 interrupted calls, 11 writes accept nothing, 12 power lost
pub struct Fault { pub at: u64, pub kind: u32, pub arg: i64, pub arg2: i64 }
}
jstruct! {
/// env: further environment variables.  streams: bit 0 writes to standard output fail, bit 1 to standard error;
/// the error is in the bits above.  console: bits 0 to 2 standard streams that are terminals, above what standard input
/// says (0 nothing and ends, 1 nothing and stays open, 2 and 3 an answer)
pub struct Proc { pub cmd: Cmd, pub sched: Sched, pub workers: u32, pub env: Vec<String>, pub streams: u32, pub console: u32, pub faults: Vec<Fault> }
}
jstruct! {
/// Processes that run at the same time.  room: bytes the disk still has (-1: plenty).
pub struct Step { pub procs: Vec<Proc>, pub room: i64, pub order_seed: u64, pub order_gap: u32, pub order_explicit: bool, /** (event, process, 0) */ pub order: Vec<(u64, u32, u32)>, /** the first calls are left to the first process */ pub head: u64 }
}
pub const R: i64 = 1;
pub const W: i64 = 2;
pub const O: i64 = 4;
pub const M: i64 = 8;

/// A file name is kept as text in which U+F8FF stands for the byte 0xff, which no UTF-8 text contains.
pub fn raw_bytes(s: &str) -> Vec<u8> { let mut v = vec![]; for c in s.chars() { if c == '\u{F8FF}' { v.push(0xff) } else { v.extend(c.to_string().bytes()) } } v }
pub fn from_raw(b: &[u8]) -> String { b.split(|&c| c == 0xff).map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>().join("\u{F8FF}") }

/// Not part of what a user keeps files in.
const SYSTEM: [&str; 6] = ["/proc/", "/sys/", "/dev/", "/etc/ld", "/etc/localtime", "/usr/lib"];

impl Cmd {
    pub fn args(&self) -> Vec<String> {
        if self.kind == 2 { return self.extra.clone(); }
        let mut v = vec![["compress", "decompress"][self.kind as usize].to_string()];
        let apart = self.style & 2 != 0;
        let opt = |v: &mut Vec<String>, s: &str, l: &str, x: String| match (self.longopt, apart && !x.starts_with('-')) {
            (true, false) => v.push(format!("{}={}", l, x)),
            (true, true) => { v.push(l.into()); v.push(x) }
            (false, false) => { v.push(s.into()); v.push(x) }
            (false, true) => v.push(format!("{}{}", s, x)),
        };
        if self.style & 12 == 4 { v.push(self.infile.clone()); }
        if self.kind == 0 {
            opt(&mut v, "-f", "--format", format!("{}{}", if self.style & 1 != 0 { "BC" } else { "bc" }, self.fmt + 1));
            if !(self.alg == 1 && self.longopt) { opt(&mut v, "-p", "--profile", ["speed", "balanced", "quality"][self.alg as usize].into()); }
            for w in &self.weights { opt(&mut v, "-w", "--weights", format!("{}", w)); }
            if self.wba { v.push("--weigh-colour-by-alpha".into()); }
        }
        if !self.outfile.is_empty() { opt(&mut v, "-o", "--output", self.outfile.clone()); }
        if self.style & 8 != 0 { v.push("--".into()); }
        if self.style & 12 != 4 { v.push(self.infile.clone()); }
        v.extend(self.extra.iter().cloned());
        v
    }
    pub fn out_path(&self) -> String {
        if !self.outfile.is_empty() { return norm("/w", &self.outfile); }
        let base = self.infile.rsplit('/').next().unwrap();
        let stem = match base.rfind('.') { Some(i) if i > 0 => &base[..i], _ => base };
        norm("/w", &format!("{}.{}", stem, ["dds", "png"][self.kind as usize % 2]))
    }
    pub fn describe(&self) -> String { self.args().join(" ") }
}

#[derive(Clone, Default, Debug)]
pub struct Res {
    /// exit status, or minus the signal
    pub code: i32, pub end: u32, pub msg: String, pub killed: bool, pub hung: bool, pub op_bound: bool,
    pub ops: u64, pub trace: Vec<(u32, i64)>, pub steps: u64, pub err: String, pub out: String, pub hash: u64,
    pub fired: BTreeMap<&'static str, u64>, pub sched: Option<Sched>, pub fault_hit: bool, pub stream_failed: bool, pub switches: u64, pub max_runnable: u64, pub mem_peak: u64, pub trace_hash: u64,
    /** environment variables the program asked for, and files it looked for that do not exist */ pub asked: BTreeSet<String>, pub missed: BTreeSet<String>,
}
impl Res { pub fn ok(&self) -> bool { self.code == 0 } }

/// An advisory lock of a file by an open file of a process.
struct Lock { ino: usize, slot: usize, file: usize, excl: bool }
const ANSWERS: [&[u8]; 4] = [b"", b"", b"n\n", b"y\ny\n"];
struct Fd { file: Option<usize>, stdio: u32 }
struct Srv {
    pid: i32, sock: UnixStream, fds: BTreeMap<i64, Fd>, files: Vec<OpenFile>, cwd: String, pending: Option<(u32, [i64; 4], Vec<u8>)>, alive: bool, res: Res, written: Vec<usize>, heard: usize,
}
pub struct CliRunner { slots: Vec<(i32, *mut Shared)>, /** what the C library itself says on standard error */ errs: Vec<std::fs::File>, pub counters: BTreeMap<String, u64>, null: i32, locks: Vec<Lock>, exe: CString, pub op_limit: u64 }

impl CliRunner {
    pub fn new() -> CliRunner {
        CliRunner { locks: vec![], slots: vec![], errs: vec![], counters: BTreeMap::new(), null: unsafe { open(c"/dev/null".as_ptr(), 2) }, exe: CString::new("/verif/target/cli/release/texpresso").unwrap(), op_limit: 3_000_000 }
    }
    fn slot(&mut self, i: usize) -> (i32, *mut Shared) {
        while self.slots.len() <= i {
            unsafe {
                let fd = memfd_create(c"sim".as_ptr(), 1);
                let n = std::mem::size_of::<Shared>();
                assert!(fd >= 0 && ftruncate(fd, n as i64) == 0);
                let p = mmap(std::ptr::null_mut(), n, 3, 1, fd, 0);
                assert!(p as isize != -1);
                self.slots.push((fd, p as *mut Shared));
                let fd = memfd_create(c"err".as_ptr(), 1);
                assert!(fd >= 0);
                self.errs.push(std::fs::File::from_raw_fd(fd));
            }
        }
        self.slots[i]
    }
    pub fn cov(&self) -> Vec<u8> {
        let mut v = vec![0u8; COV];
        for s in &self.slots { for (a, b) in v.iter_mut().zip(unsafe { &(*s.1).cov }.iter()) { *a |= b; } }
        v
    }
    fn bump(&mut self, k: &str, n: u64) { *self.counters.entry(k.into()).or_default() += n; }
    fn spawn(&mut self, i: usize, p: &Proc) -> Srv {
        let (memfd, sh) = self.slot(i);
        p.sched.apply(unsafe { &mut *sh });
        unsafe { (*sh).tty = p.console & 7; }
        let (a, b) = UnixStream::pair().expect("socketpair");
        a.set_read_timeout(Some(std::time::Duration::from_secs(120))).unwrap();
        let args: Vec<CString> = std::iter::once("texpresso".to_string()).chain(p.cmd.args()).map(|s| CString::new(raw_bytes(&s)).unwrap()).collect();
        let mut av: Vec<*const i8> = args.iter().map(|s| s.as_ptr() as *const i8).collect();
        av.push(std::ptr::null());
        let mut envs = vec!["LD_PRELOAD=/verif/target/libsimrt.so".to_string(), "SIMRT_CLI=1".into(), "RUST_BACKTRACE=0".into(), "PATH=/bin".into()];
        if p.workers > 0 { envs.push(format!("RAYON_NUM_THREADS={}", p.workers)); }
        if p.sched.layout > 0 { envs.push(format!("SIMRT_PAD={}", "x".repeat(p.sched.layout as usize % 5003))); }
        envs.extend(p.env.iter().cloned());
        let envs: Vec<CString> = envs.into_iter().map(|s| CString::new(s).unwrap()).collect();
        let mut ev: Vec<*const i8> = envs.iter().map(|s| s.as_ptr() as *const i8).collect();
        ev.push(std::ptr::null());
        let bfd = b.as_raw_fd();
        self.errs[i].set_len(0).unwrap();
        self.errs[i].rewind().unwrap();
        let errfd = self.errs[i].as_raw_fd();
        let pid = unsafe { fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            unsafe {
                prctl(1, 9, 0, 0, 0);
                dup2(self.null, 0); dup2(self.null, 1); dup2(errfd, 2);
                dup2(bfd, 900); dup2(memfd, 901);
                setrlimit(0, &[60, 60]);
                setrlimit(4, &[0, 0]);
                setrlimit(9, &[4 << 30, 4 << 30]);
                personality(0x0040000);
                execve(self.exe.as_ptr() as *const i8, av.as_ptr(), ev.as_ptr());
                _exit(97)
            }
        }
        let mut fds = BTreeMap::new();
        for k in 0..3 { fds.insert(k, Fd { file: None, stdio: k as u32 + 1 }); }
        Srv { pid, sock: a, fds, files: vec![], cwd: "/w".into(), pending: None, alive: true, res: Res { trace_hash: 99, ..Default::default() }, written: vec![], heard: 0 }
    }
    fn reap(&mut self, i: usize, s: &mut Srv) {
        let mut st = 0;
        unsafe { while waitpid(s.pid, &mut st, 0) != s.pid {} }
        s.alive = false;
        self.locks.retain(|l| l.slot != i);
        { let mut t = vec![]; let _ = self.errs[i].rewind().and_then(|_| self.errs[i].read_to_end(&mut t)); s.res.err.push_str(&String::from_utf8_lossy(&t)); }
        let sh = unsafe { &*self.slots[i].1 };
        s.res.code = if st & 0x7f == 0 { (st >> 8) & 255 } else { -(st & 0x7f) };
        s.res.end = sh.end;
        s.res.msg = msg(sh);
        s.res.steps = sh.steps;
        s.res.hash = sh.sched_hash;
        s.res.switches = sh.switches;
        s.res.max_runnable = sh.max_runnable;
        s.res.mem_peak = sh.mem_peak.max(0) as u64;
        if s.res.code == 98 || s.res.code == 99 || s.res.code == 97 { s.res.end = END_UNSUPPORTED; s.res.msg = format!("control failure {}", s.res.code); }
        for (k, v) in [("sim_ns", if sh.sim_ns > 0 { sh.sim_ns } else { sh.steps * 20 }), ("n.processes", 1), ("n.system_calls", s.res.ops), ("n.scheduling_events", sh.events), ("n.context_switches", sh.switches), ("n.preemptions", sh.preemptions),
            ("n.basic_block_steps", sh.steps), ("n.futex_waits", sh.futex_waits), ("n.threads_created", sh.nthreads as u64), ("fault.spurious_wakeups", sh.spurious), ("fault.clock_jumps", sh.clock_jumps), ("fault.allocation_failed", sh.alloc_failed), ("fault.thread_creation_failed", sh.thread_failed)] { self.bump(k, v); }
        if sh.alloc_failed + sh.thread_failed > 0 { s.res.fault_hit = true; }
        let f = s.res.fired.clone();
        for (k, v) in f { self.bump(&format!("fault.{}", k), v); }
    }
    fn kill9(&mut self, i: usize, s: &mut Srv) { unsafe { kill(s.pid, 9); } s.res.killed = true; self.reap(i, s); }
    /// Waits for the next system call of the process; reaps it if there is none.
    fn pump(&mut self, i: usize, s: &mut Srv) {
        if !s.alive || s.pending.is_some() { return; }
        let mut h = [0u8; 48];
        match s.sock.read_exact(&mut h) {
            Ok(()) => {
                let g = |o: usize| i64::from_le_bytes(h[o..o + 8].try_into().unwrap());
                let op = u32::from_le_bytes(h[0..4].try_into().unwrap());
                let n = u32::from_le_bytes(h[40..44].try_into().unwrap()) as usize;
                let mut pl = vec![0u8; n];
                if n > 0 && s.sock.read_exact(&mut pl).is_err() { unsafe { kill(s.pid, 9); } self.reap(i, s); return; }
                s.pending = Some((op, [g(8), g(16), g(24), g(32)], pl));
            }
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => { unsafe { kill(s.pid, 9); } s.res.hung = true; self.reap(i, s); }
            Err(_) => self.reap(i, s),
        }
    }
    /// Runs a step to its end on the given disk.
    pub fn step(&mut self, disk: &mut Disk, st: &Step) -> (Vec<Res>, Vec<(u64, u32, u32)>) {
        disk.room = if st.room >= 0 { Some(st.room) } else { None };
        let mut v: Vec<Srv> = st.procs.iter().enumerate().map(|(i, p)| self.spawn(i, p)).collect();
        let mut rng = Rng::new(st.order_seed);
        let mut made = vec![];
        self.locks.clear();
        let (mut event, mut cur, mut next_switch, mut oi) = (0u64, 0usize, 0u64, 0usize);
        loop {
            for i in 0..v.len() { self.pump(i, &mut v[i]); }
            let live: Vec<usize> = (0..v.len()).filter(|&i| v[i].pending.is_some() && !self.waits(i, &v[i], &st.procs[i])).collect();
            if live.is_empty() {
                // whoever waits, waits for ever
                let Some(i) = (0..v.len()).find(|&i| v[i].pending.is_some()) else { break };
                v[i].pending = None;
                unsafe { kill(v[i].pid, 9); }
                v[i].res.hung = true;
                self.reap(i, &mut v[i]);
                continue;
            }
            event += 1;
            let def = if live.contains(&cur) { cur } else { live[0] };
            let mut pick = def;
            if st.order_explicit {
                while oi < st.order.len() && st.order[oi].0 < event { oi += 1; }
                if oi < st.order.len() && st.order[oi].0 == event && live.contains(&(st.order[oi].1 as usize)) { pick = st.order[oi].1 as usize; }
            } else if event <= st.head && live.contains(&0) {
                pick = 0;
            } else if live.len() > 1 && (event >= next_switch || def != cur) {
                pick = live[rng.below(live.len() as u64) as usize];
                next_switch = event + 1 + rng.below(2 * st.order_gap.max(1) as u64 - 1);
            }
            if pick != def { made.push((event, pick as u32, 0)); }
            cur = pick;
            self.serve(pick, &mut v[pick], disk, &st.procs[pick]);
        }
        disk.room = None;
        let mut out = vec![];
        for (i, mut s) in v.into_iter().enumerate() {
            let sh = unsafe { &*self.slots[i].1 };
            s.res.sched = st.procs[i].sched.as_explicit(sh);
            out.push(s.res);
        }
        (out, made)
    }
    /// The pending call cannot return yet.
    fn waits(&self, i: usize, s: &Srv, p: &Proc) -> bool {
        let Some((op, a, _)) = &s.pending else { return false };
        let Some(f) = s.fds.get(&a[0]) else { return false };
        match op {
            2 => f.stdio == 1 && p.console >> 3 & 3 == 1,
            29 => a[1] & 4 == 0 && f.file.is_some_and(|n| self.locked(i, s, n, a[1])),
            _ => false,
        }
    }
    fn locked(&self, i: usize, s: &Srv, f: usize, op: i64) -> bool { op & 8 == 0 && self.locks.iter().any(|l| l.ino == s.files[f].ino && (l.slot, l.file) != (i, f) && (l.excl || op & 2 != 0)) }
    fn serve(&mut self, i: usize, s: &mut Srv, disk: &mut Disk, p: &Proc) {
        let (op, a, pl) = s.pending.take().unwrap();
        let path = |s: &Srv, b: &[u8]| norm(&s.cwd, &from_raw(b.split(|&c| c == 0).next().unwrap_or(&[])));
        // standard streams: recorded, never faulted, and not counted
        let is_fd_op = matches!(op, 2 | 3 | 4 | 5 | 6 | 7 | 8 | 9 | 10 | 24 | 25);
        if is_fd_op { if let Some(f) = s.fds.get(&a[0]) { if f.stdio > 0 && op != 24 {
            let r = match op {
                4 if p.streams & if f.stdio == 3 { 2 } else { 1 } != 0 => { *s.res.fired.entry("standard_stream_broken").or_default() += 1; s.res.stream_failed = true; -(p.streams as i64 >> 2) }
                4 => { let t = String::from_utf8_lossy(&pl).to_string(); if f.stdio == 3 { s.res.err.push_str(&t) } else { s.res.out.push_str(&t) } pl.len() as i64 }
                2 => {
                    let t = ANSWERS[(p.console >> 3 & 3) as usize];
                    let t = &t[s.heard..t.len().min(s.heard + a[1].max(0) as usize)];
                    s.heard += t.len();
                    Self::reply(s, t.len() as i64, t);
                    return;
                }
                10 => { let mut d = vec![]; for x in [0o020666u64, 0, 1, 1, 0, 0, 0, 0] { d.extend_from_slice(&x.to_le_bytes()); } Self::reply(s, 0, &d); return; }
                6 => 0,
                _ => -29,
            };
            Self::reply(s, r, &[]);
            return;
        } } }
        if op == 28 { s.res.asked.insert(String::from_utf8_lossy(&pl).trim_end_matches('\0').to_string()); Self::reply(s, 0, &[]); return; }
        s.res.ops += 1;
        let k = s.res.ops;
        let class = match op { 1 => O, 2 | 3 => R, 4 | 5 | 9 | 25 => W, _ => M };
        let size = match op { 2 | 3 => a[1], 4 | 5 => pl.len() as i64, _ => 0 };
        s.res.trace.push((op, size));
        s.res.trace_hash = fnv_from(fnv_from(s.res.trace_hash, &[op as u8]), &size.to_le_bytes());
        if k > self.op_limit { s.res.op_bound = true; unsafe { kill(s.pid, 9); } self.reap(i, s); return; }
        let mut fail: Option<i64> = None;
        let mut limit = i64::MAX;
        let (mut kill_after, mut flip, mut mid) = (false, None, None);
        let hit = |s: &mut Srv, n: &'static str| { *s.res.fired.entry(n).or_default() += 1; s.res.fault_hit = true; };
        for f in &p.faults {
            match f.kind {
                1 if f.at == k => { fail = Some(f.arg); hit(s, if f.arg == EINTR { "interrupted_call" } else { match class { 1 => "read_error", 2 => "write_error", 4 => "open_error", _ => "other_call_error" } }); }
                2 if k >= f.at && class & f.arg2 != 0 => { fail = Some(f.arg); hit(s, "persistent_error"); }
                3 if f.at == k => { limit = limit.min(f.arg.max(1)); hit(s, if class == R { "short_read" } else { "short_write" }); }
                4 if k >= f.at => { limit = limit.min(1 + (Rng::derive(f.arg2 as u64, k).u64() % f.arg.max(1) as u64) as i64); if limit < size { hit(s, if class == R { "short_read" } else { "short_write" }); } }
                5 if f.at == k => { hit(s, "killed_between_calls"); self.kill9(i, s); return; }
                6 if f.at == k => { hit(s, "killed_between_calls"); kill_after = true; }
                7 if f.at == k => { if class == W { hit(s, "killed_within_a_write"); } else { hit(s, "killed_between_calls"); } mid = Some(f.arg); }
                12 if f.at == k => { hit(s, "power_lost"); mid = Some(f.arg); }
                8 if f.at == k && class == R => { flip = Some(f.arg); hit(s, "bit_flipped_in_read"); }
                9 if k >= f.at && class == R => { limit = 0; hit(s, "early_end_of_file"); }
                10 if k >= f.at && (k - f.at) < 4096 && class & (R | W | O) != 0 && fail.is_none() => { let mut r = Rng::derive(f.arg2 as u64, k); if r.below(256) < f.arg as u64 { fail = Some(EINTR); hit(s, "interrupted_call"); } }
                11 if k >= f.at && class == W => { limit = 0; hit(s, "write_accepts_nothing"); }
                _ => {}
            }
        }
        if let Some(n) = mid {
            if class == W && (op == 4 || op == 5) {
                let n = (n.max(0) as usize).min(pl.len());
                let _ = self.write(s, disk, op, &a, &pl[..n]);
            }
            // power loss: of everything written since the last fsync only a prefix survives
            if let Some(f) = p.faults.iter().find(|f| f.kind == 12 && f.at == k) {
                for w in s.written.clone() {
                    let ino = &mut disk.inodes[w];
                    let keep = ino.synced + ((ino.data.len() - ino.synced.min(ino.data.len())) as i64 * f.arg2.clamp(0, 256) / 256) as usize;
                    ino.data.truncate(keep);
                }
            }
            self.kill9(i, s);
            return;
        }
        if let Some(e) = fail { Self::reply(s, -e, &[]); return; }
        let mut data: Vec<u8> = vec![];
        let file = |s: &Srv| -> Result<usize, i64> { s.fds.get(&a[0]).and_then(|f| f.file).ok_or(EBADF) };
        let stat = |disk: &Disk, i: usize| {
            let n = &disk.inodes[i];
            let mode = (if n.dir { 0o040000 } else if n.link.is_some() { 0o120000 } else if n.kind == Kind::Pipe { 0o010000 } else { 0o100000 }) | n.mode as u64;
            let mut d = vec![];
            for x in [mode, if n.kind == Kind::Plain { n.data.len() as u64 } else { 0 }, i as u64 + 1, 1, n.mtime, 0, 0, 0] { d.extend_from_slice(&x.to_le_bytes()); }
            d
        };
        let r: Result<i64, i64> = (|| -> Result<i64, i64> { match op {
            1 => {
                let pth = path(s, &pl);
                if s.fds.len() > 60 { return Err(EMFILE); }
                let f = disk.open(&pth, a[0], a[1] as u32)?;
                s.files.push(f);
                let fd = (1000..).find(|n| !s.fds.contains_key(n)).unwrap();
                s.fds.insert(fd, Fd { file: Some(s.files.len() - 1), stdio: 0 });
                if a[0] & 3 != 0 { let ino = s.files.last().unwrap().ino; s.written.push(ino); }
                Ok(fd)
            }
            2 | 3 => {
                let f = file(s)?;
                let ino = s.files[f].ino;
                let pipe = disk.inodes[ino].kind == Kind::Pipe;
                if pipe && op == 3 { return Err(ESPIPE); }
                let pos = if pipe { disk.inodes[ino].taken } else if op == 2 { s.files[f].pos } else { a[2] as usize };
                let n = (a[1].max(0)).min(limit).min(1 << 24) as usize;
                data = disk.read(&s.files[f], pos, n)?.to_vec();
                if let (Some(b), true) = (flip, !data.is_empty()) { let b = b as usize % (data.len() * 8); data[b / 8] ^= 1 << (b % 8); }
                if pipe { disk.inodes[ino].taken += data.len(); } else if op == 2 { s.files[f].pos += data.len(); }
                Ok(data.len() as i64)
            }
            4 | 5 => { let n = (pl.len() as i64).min(limit) as usize; if n == 0 { file(s)?; return Ok(0); } self.write(s, disk, op, &a, &pl[..n]) }
            6 => {
                let f = s.fds.remove(&a[0]).ok_or(EBADF)?;
                if !s.fds.values().any(|g| g.file == f.file) { self.locks.retain(|l| l.slot != i || Some(l.file) != f.file); }
                Ok(0)
            }
            29 => {
                let f = file(s)?;
                if self.locked(i, s, f, a[1]) { return Err(11); }
                self.locks.retain(|l| (l.slot, l.file) != (i, f));
                if a[1] & 8 == 0 { self.locks.push(Lock { ino: s.files[f].ino, slot: i, file: f, excl: a[1] & 2 != 0 }); }
                Ok(0)
            }
            7 => {
                let f = file(s)?;
                let n = &disk.inodes[s.files[f].ino];
                if n.kind == Kind::Pipe { return Err(ESPIPE); }
                if n.kind == Kind::Unsized && a[2] == 2 { return Err(EINVAL); }
                let len = n.data.len() as i64;
                let p = match a[2] { 0 => a[1], 1 => s.files[f].pos as i64 + a[1], 2 => len + a[1], _ => return Err(EINVAL) };
                if p < 0 { return Err(EINVAL); }
                s.files[f].pos = p as usize;
                Ok(p)
            }
            8 => { let f = file(s)?; let n = &mut disk.inodes[s.files[f].ino]; if n.kind == Kind::Pipe { return Err(EINVAL); } n.synced = n.data.len(); Ok(0) }
            9 => {
                let ino = if a[0] == -1 { disk.lookup(&path(s, &pl), false)? } else { let f = file(s)?; if s.files[f].flags & 3 == 0 { return Err(EINVAL); } s.files[f].ino };
                disk.truncate(ino, a[1].max(0) as usize).map(|_| 0)
            }
            10 => { let f = file(s)?; data = stat(disk, s.files[f].ino); Ok(0) }
            11 => { let i = disk.lookup(&path(s, &pl), a[0] != 0)?; data = stat(disk, i); Ok(0) }
            12 | 16 | 17 => {
                let (x, y) = pl.split_at(a[0] as usize);
                let (px, py) = (path(s, x), path(s, y));
                match op { 12 => disk.rename(&px, &py), 16 => disk.link(&px, &py), _ => disk.symlink(&from_raw(x.split(|&c| c == 0).next().unwrap()), &py) }.map(|_| 0)
            }
            13 => disk.unlink(&path(s, &pl), false).map(|_| 0),
            14 => disk.mkdir(&path(s, &pl)).map(|_| 0),
            15 => disk.unlink(&path(s, &pl), true).map(|_| 0),
            18 => { let i = disk.lookup(&path(s, &pl), true)?; let t = disk.inodes[i].link.clone().ok_or(EINVAL)?; data = raw_bytes(&t); data.truncate(a[0] as usize); Ok(data.len() as i64) }
            19 => disk.lookup(&path(s, &pl), false).map(|_| 0),
            20 => { let i = if a[1] >= 0 { let f = s.fds.get(&a[1]).and_then(|f| f.file).ok_or(EBADF)?; s.files[f].ino } else { disk.lookup(&path(s, &pl), false)? }; disk.chmod_ino(i, a[0] as u32); Ok(0) }
            21 => {
                let d = path(s, &pl);
                let i = disk.lookup(&d, false)?;
                if !disk.inodes[i].dir { return Err(ENOTDIR); }
                let pre = if d == "/" { "/".to_string() } else { format!("{}/", d) };
                for (k, &j) in &disk.names { if let Some(n) = k.strip_prefix(&pre) { if !n.is_empty() && !n.contains('/') { data.push(if disk.inodes[j].dir { b'd' } else { b'f' }); data.extend_from_slice(&raw_bytes(n)); data.push(0); } } }
                Ok(data.len() as i64)
            }
            22 => { data = s.cwd.clone().into_bytes(); data.push(0); Ok(data.len() as i64) }
            23 => { let d = path(s, &pl); let i = disk.lookup(&d, false)?; if !disk.inodes[i].dir { return Err(ENOTDIR); } s.cwd = d; Ok(0) }
            24 => {
                let (f, st) = { let f = s.fds.get(&a[0]).ok_or(EBADF)?; (f.file, f.stdio) };
                let fd = if a[1] >= 0 { a[1] } else { (1000..).find(|n| !s.fds.contains_key(n)).unwrap() };
                s.fds.insert(fd, Fd { file: f, stdio: st });
                Ok(fd)
            }
            25 => { let f = file(s)?; let ino = s.files[f].ino; if disk.inodes[ino].kind == Kind::Pipe { return Err(ESPIPE); } let end = (a[2] + a[3]) as usize; if a[1] & 1 == 0 && end > disk.inodes[ino].data.len() { disk.truncate(ino, end)?; } Ok(0) }
            27 => Ok(0),
            _ => Err(ENOSYS),
        } })();
        if r == Err(ENOENT) && matches!(op, 1 | 11 | 19) { let q = path(s, &pl); if !SYSTEM.iter().any(|x| q.starts_with(x)) && q != norm("/w", &p.cmd.infile) && q != p.cmd.out_path() { s.res.missed.insert(q); } }
        if r == Err(ENOSPC) { *s.res.fired.entry("disk_full").or_default() += 1; s.res.fault_hit = true; }
        // killed after the call took effect: it never learns the result
        if kill_after { self.kill9(i, s); return; }
        match r { Ok(n) => Self::reply(s, n, &data), Err(e) => Self::reply(s, -e, &[]) }
    }
    fn write(&mut self, s: &mut Srv, disk: &mut Disk, op: u32, a: &[i64; 4], b: &[u8]) -> Result<i64, i64> {
        let f = s.fds.get(&a[0]).and_then(|f| f.file).ok_or(EBADF)?;
        let len = disk.inodes[s.files[f].ino].data.len();
        let pipe = disk.inodes[s.files[f].ino].kind == Kind::Pipe;
        if pipe && op == 5 { return Err(ESPIPE); }
        let pos = if op == 5 { a[1] as usize } else if pipe || s.files[f].flags & 0o2000 != 0 { len } else { s.files[f].pos };
        let n = disk.write(&s.files[f], pos, b)?;
        if n < b.len() { *s.res.fired.entry("disk_full").or_default() += 1; s.res.fault_hit = true; }
        if op == 4 { s.files[f].pos = pos + n; }
        Ok(n as i64)
    }
    fn reply(s: &mut Srv, r: i64, data: &[u8]) {
        let mut b = Vec::with_capacity(48 + data.len());
        b.extend_from_slice(&r.to_le_bytes());
        b.extend_from_slice(&[0; 32]);
        b.extend_from_slice(&(data.len() as u32).to_le_bytes());
        b.extend_from_slice(&[0; 4]);
        b.extend_from_slice(data);
        let _ = s.sock.write_all(&b);
    }
}

//! Command-line worlds: scenario generation, oracles, shrinking.
use crate::cli_run::*;
use crate::fs::*;
use crate::imggen;
use crate::jstruct;
use crate::lib_world::compress_tiles;
use crate::media::*;
use crate::refdec;
use crate::runner::*;
use crate::shared::*;
use crate::util::*;
use std::collections::BTreeMap;

jstruct! {
/// kind 1 cut at pos, 2 xor byte at pos with val, 3 append val pseudo-random bytes
pub struct Damage { pub kind: u32, pub pos: u64, pub val: u32 }
}
jstruct! {
/// A file present before the first step.  special: 0 the picture, 1 a directory, 2 unreadable, 3 read-only,
/// 4 a symbolic link to the picture, 5 read-only in a read-only directory, 6 a file whose length nobody knows
/// before reading it (as in /proc), 7 a pipe that delivers the picture, 8 an empty pipe
pub struct FileDef { pub path: String, pub pic: Pic, pub damage: Vec<Damage>, pub special: u32, /** contents in hexadecimal, instead of the picture */ pub hold: String }
}
jstruct! {
pub struct CliCase { pub prop: String, pub scenario: String, pub files: Vec<FileDef>, pub steps: Vec<Step> }
}
pub const PERCEPTUAL: [f32; 3] = [0.2126, 0.7152, 0.0722];

impl FileDef {
    pub fn bytes(&self) -> Vec<u8> {
        if !self.hold.is_empty() { return (0..self.hold.len() / 2).map(|i| u8::from_str_radix(&self.hold[2 * i..2 * i + 2], 16).unwrap_or(0)).collect(); }
        damaged(make(&self.pic).bytes, &self.damage)
    }
}
pub fn damaged(mut b: Vec<u8>, d: &[Damage]) -> Vec<u8> {
    for x in d {
        match x.kind {
            1 => b.truncate(x.pos as usize),
            2 => if let Some(p) = b.get_mut(x.pos as usize) { *p ^= x.val as u8 },
            3 => { let mut r = Rng::derive(x.pos, 5); for _ in 0..x.val { b.push(r.u8()); } }
            _ => {}
        }
    }
    b
}
fn disk_of(files: &[FileDef]) -> Disk {
    let mut d = Disk::new();
    for f in files {
        let held = f.bytes();
        if f.special == 1 { d.add_dir(&norm("/w", &f.path)); continue; }
        let p = norm("/w", &f.path);
        if f.special == 5 { let dir = &p[..p.rfind('/').unwrap()]; if !d.names.contains_key(dir) { d.add_dir(dir); d.chmod(dir, 0o555); } }
        if f.special == 4 {
            if !d.names.contains_key("/store") { d.add_dir("/store"); }
            let blob = format!("/store/blob{}", d.names.len());
            d.put(&blob, &f.bytes());
            let _ = d.symlink(&blob, &p);
            continue;
        }
        d.put(&f.path, if f.special == 8 { &[] } else { &held });
        match f.special { 6 => d.kind(&f.path, Kind::Unsized), 7 | 8 => d.kind(&f.path, Kind::Pipe), _ => {} }
        match f.special { 2 => d.chmod(&f.path, 0), 3 | 5 => d.chmod(&f.path, 0o444), _ => {} }
    }
    d.touched.clear();
    d
}
pub enum Want { Dds { w: usize, h: usize, fmt: u8, blocks: Result<Vec<u8>, String> }, Png { w: usize, h: usize, rgba: Vec<u8> }, /** not a conversion of a picture this oracle knows */ Unknown }

/// The file a command would read, if it was put there by the scenario.
fn input_of<'a>(c: &'a CliCase, cmd: &Cmd) -> Option<&'a FileDef> { let p = norm("/w", &cmd.infile); c.files.iter().find(|f| norm("/w", &f.path) == p) }
/// Does an earlier step of the history have this command's input as its output?
fn wrote_before(c: &CliCase, i: usize, cmd: &Cmd) -> bool { let p = norm("/w", &cmd.infile); c.steps[..i].iter().any(|s| s.procs.iter().any(|q| q.cmd.out_path() == p)) }
fn plain(f: &FileDef) -> bool { f.special != 1 && f.special != 2 && f.damage.iter().all(|d| d.kind == 3 || (d.kind == 2 && d.val == 0)) }
fn want_from(cmd: &Cmd, p: &Pic) -> Want {
    let m = make(p);
    let ext = cmd.infile.rsplit('.').next().unwrap_or("").to_lowercase();
    match cmd.kind {
        0 if (p.kind == 0 && ext == "png") || (p.kind == 1 && (ext == "jpg" || ext == "jpeg")) => {
            let w: Vec<f32> = if cmd.weights.is_empty() { PERCEPTUAL.to_vec() } else if cmd.weights.len() == 3 { cmd.weights.clone() } else { return Want::Unknown };
            Want::Dds { w: m.w, h: m.h, fmt: cmd.fmt, blocks: compress_tiles(cmd.fmt, cmd.alg, &w, cmd.wba, &m.rgba, m.w, m.h, p.seed) }
        }
        1 if p.kind == 2 => Want::Png { w: m.w, h: m.h, rgba: m.rgba },
        _ => Want::Unknown,
    }
}
/// Is this exactly the output the command must produce?
fn verify(want: &Want, got: Option<&[u8]>) -> Result<(), String> {
    let Some(d) = got else { return Err("there is no output file".into()) };
    match want {
        Want::Unknown => Err("succeeded on an input that cannot be converted".into()),
        Want::Dds { w, h, fmt, blocks } => {
            let (gw, gh, gf, data) = read_dds(d)?;
            if (gw, gh) != (*w, *h) { return Err(format!("DDS says {}x{}, picture is {}x{}", gw, gh, w, h)); }
            if gf != *fmt { return Err(format!("DDS says BC{}, requested BC{}", gf + 1, fmt + 1)); }
            let b = blocks.as_ref().map_err(|e| e.clone())?;
            if data.len() != b.len() { return Err(format!("DDS holds {} bytes of block data instead of {}", data.len(), b.len())); }
            if let Some(i) = data.iter().zip(b).position(|(a, b)| a != b) { let k = refdec::block_bytes(*fmt); let s = i / k * k; return Err(format!("block {} differs: {:02x?} instead of {:02x?}", i / k, &data[s..s + k], &b[s..s + k])); }
            Ok(())
        }
        Want::Png { w, h, rgba } => {
            let (gw, gh, px) = read_png_rgba(d)?;
            if (gw, gh) != (*w, *h) { return Err(format!("PNG is {}x{}, picture is {}x{}", gw, gh, w, h)); }
            if let Some(i) = px.iter().zip(rgba).position(|(a, b)| a != b) { let p = i / 4; return Err(format!("pixel ({},{}) is {:?} instead of {:?}", p % w, p / w, &px[p * 4..p * 4 + 4], &rgba[p * 4..p * 4 + 4])); }
            Ok(())
        }
    }
}
/// Largest number of pixels any frame header in these bytes may announce.
fn jpeg_pixels(b: &[u8]) -> u64 {
    (0..b.len().saturating_sub(9)).filter(|&i| b[i] == 0xff && (0xc0..=0xcf).contains(&b[i + 1])).map(|i| u64::from(b[i + 5]) << 8 | u64::from(b[i + 6])).zip(
    (0..b.len().saturating_sub(9)).filter(|&i| b[i] == 0xff && (0xc0..=0xcf).contains(&b[i + 1])).map(|i| u64::from(b[i + 7]) << 8 | u64::from(b[i + 8]))).map(|(h, w)| w * h).max().unwrap_or(0)
}
/// Memory any run may use, before what its picture needs.
const MEM_BASE: u64 = 768 << 10;
/// Pixels of the picture that these bytes hold (DDS, where the data itself tells) or announce.
fn announced(b: &[u8]) -> u64 {
    if b.starts_with(b"\x89PNG") && b.len() > 24 { let n = |i: usize| u32::from_be_bytes(b[i..i + 4].try_into().unwrap()) as u64; return n(16).saturating_mul(n(20)).min(1 << 40); }
    if b.starts_with(b"DDS ") { return 2 * b.len() as u64; } // eight bytes for sixteen pixels at best
    jpeg_pixels(b)
}
fn status(r: &Res) -> String {
    if r.killed { return "was killed by the simulator".into(); }
    let e = r.err.lines().filter(|l| !l.trim().is_empty() && !l.starts_with("note:")).collect::<Vec<_>>().join(" / ");
    let e: String = e.chars().take(220).collect();
    match r.end { END_DEADLOCK | END_BUDGET => format!("did not finish ({})", r.msg), _ if r.code < 0 => format!("died from signal {} [{}]", -r.code, e), _ => format!("exited with status {} [{}]", r.code, e) }
}

pub struct CliW { pub r: CliRunner, log: Vec<Res>, hashes: u64, orders: Vec<Vec<(u64, u32, u32)>>, kinds: BTreeMap<String, u64>, switches: u64, peak: u64 }
impl CliW {
    pub fn new() -> CliW { CliW { r: CliRunner::new(), log: vec![], hashes: 0, orders: vec![], kinds: BTreeMap::new(), switches: 0, peak: 0 } }
    fn one(&mut self, disk: &mut Disk, cmd: &Cmd) -> Res {
        let p = Proc { cmd: cmd.clone(), sched: Sched::quiet(1), workers: 2, ..Default::default() };
        let st = Step { procs: vec![p], room: -1, order_gap: 1, ..Default::default() };
        self.r.step(disk, &st).0.pop().unwrap()
    }
    /// Output of a first, undisturbed run of the command on these input bytes.
    fn clean(&mut self, cmd: &Cmd, input: &[u8]) -> (Res, Option<Vec<u8>>) {
        let mut d = Disk::new();
        d.put(&cmd.infile, input);
        let r = self.one(&mut d, cmd);
        (r, d.get(&cmd.out_path()).map(|x| x.to_vec()))
    }
    fn main_step(&mut self, disk: &mut Disk, st: &Step) -> Vec<Res> {
        let (r, o) = self.r.step(disk, st);
        self.orders.push(o);
        for x in &r { self.hashes = fnv_from(self.hashes, &x.hash.to_le_bytes()); self.hashes = fnv_from(self.hashes, &x.trace_hash.to_le_bytes()); self.switches += x.switches; }
        for e in self.orders.last().unwrap() { self.hashes = fnv_from(self.hashes, &e.0.to_le_bytes()); self.hashes = fnv_from(self.hashes, &[e.1 as u8]); }
        self.log.extend(r.iter().cloned());
        r
    }
    fn kind(&mut self, k: &str) { *self.kinds.entry(k.into()).or_default() += 1; }

    // -------------------------------------------------------------- oracles
    fn judge(&mut self, c: &CliCase) -> Option<(String, String)> {
        let mut disk = disk_of(&c.files);
        let bad = |k: &str, m: String| Some((k.to_string(), m));
        macro_rules! only_outputs { ($d:expr, $st:expr, $cl:expr) => {{
            // a link at the output path stands for the file it leads to
            let outs: Vec<String> = $st.procs.iter().flat_map(|p| { let o = p.cmd.out_path(); [$d.follow(&o), o] }).collect();
            if let Some(x) = $d.touched.iter().find(|t| !outs.contains(t)) { return bad($cl, format!("{}: touched {}, which is not its output file", $st.procs.iter().map(|p| p.cmd.describe()).collect::<Vec<_>>().join(" & "), x)); }
        }}; }
        match c.prop.as_str() {
            "C01" => {
                let mut prev: Option<(String, Vec<u8>)> = None;
                for st in &c.steps {
                    let cmd = &st.procs[0].cmd;
                    // a link or a pipe at the output path stands for what it leads to
                    let behind = disk.lookup(&cmd.out_path(), false).ok().filter(|&i| disk.inodes[i].kind == Kind::Pipe || disk.follow(&cmd.out_path()) != cmd.out_path());
                    let r = self.main_step(&mut disk, st).pop().unwrap();
                    self.kind(if r.ok() { "exit_0" } else { "exit_nonzero" });
                    if r.end == END_UNSUPPORTED { return bad("harness", r.msg); }
                    if r.ok() {
                        // the input is a scenario file, or what an earlier step left
                        let left = prev.as_ref().filter(|p| p.0 == norm("/w", &cmd.infile));
                        let want = if let (Some(f), None) = (input_of(c, cmd), left) { if plain(f) { want_from(cmd, &f.pic) } else { Want::Unknown } }
                            else if let Some((_, b)) = left {
                                match (cmd.kind, read_dds(b)) {
                                    (1, Ok((w, h, f, d))) => Want::Png { w, h, rgba: refdec::image(f, d, w, h).unwrap_or_default() },
                                    _ => match (cmd.kind, read_png_rgba(b)) { (0, Ok((w, h, px))) => Want::Dds { w, h, fmt: cmd.fmt, blocks: compress_tiles(cmd.fmt, cmd.alg, if cmd.weights.len() == 3 { &cmd.weights } else { &PERCEPTUAL }, cmd.wba, &px, w, h, 1) }, _ => Want::Unknown },
                                }
                            } else { Want::Unknown };
                        let got = behind.map_or(disk.get(&cmd.out_path()), |i| Some(&disk.inodes[i].data));
                        if let Err(e) = verify(&want, got) { return bad("wrong-output", format!("{} exited with status 0, but {}{}", cmd.describe(), if behind.is_some() { "behind the link or pipe at the output path: " } else { "" }, e)); }
                    }
                    let o = cmd.out_path();
                    prev = disk.get(&o).map(|b| (o.clone(), b.to_vec()));
                    if !r.ok() { break; }
                }
                None
            }
            "C02" => {
                let st = &c.steps[0];
                let cmd = &st.procs[0].cmd;
                let f = input_of(c, cmd).unwrap();
                let (b, base) = self.clean(cmd, &f.bytes());
                if !b.ok() { return bad("base", format!("{} with nothing out of the ordinary {}", cmd.describe(), status(&b))); }
                let r = self.main_step(&mut disk, st).pop().unwrap();
                if r.end == END_UNSUPPORTED { return bad("harness", r.msg); }
                let eintr = r.fired.contains_key("interrupted_call");
                if !r.ok() {
                    if eintr { self.kind("interrupted_and_failed"); return None; }
                    return bad("fails", format!("{} {} although only the environment differs", cmd.describe(), status(&r)));
                }
                let got = disk.get(&cmd.out_path());
                if got != base.as_deref() {
                    let (g, b) = (got.unwrap_or(&[]), base.as_deref().unwrap_or(&[]));
                    let p = g.iter().zip(b).position(|(x, y)| x != y).unwrap_or(g.len().min(b.len()));
                    return bad("differs", format!("{}: output differs from that of the undisturbed run at byte {} (sizes {} and {})", cmd.describe(), p, g.len(), b.len()));
                }
                None
            }
            "C03" => {
                let st = &c.steps[0];
                let cmd = &st.procs[0].cmd;
                let before = disk.snapshot();
                let r = self.main_step(&mut disk, st).pop().unwrap();
                if r.end == END_UNSUPPORTED { return bad("harness", r.msg); }
                only_outputs!(disk, st, "other-file");
                let must_fail = c.scenario.starts_with("bad");
                if c.scenario == "write-faults" { return None; }
                if r.ok() {
                    if must_fail { return bad("accepted", format!("{} exited with status 0 on an input that cannot be converted ({})", cmd.describe(), c.scenario)); }
                    let f = input_of(c, cmd).unwrap();
                    let want = want_from(cmd, &f.pic);
                    if let Err(e) = verify(&want, disk.get(&cmd.out_path())) { return bad("wrong-output", format!("{} could not read its input properly ({}), exited with status 0, but {}", cmd.describe(), c.scenario, e)); }
                    self.kind("survived");
                    return None;
                }
                self.kind("rejected");
                if !disk.touched.is_empty() || disk.snapshot() != before {
                    return bad("touched", format!("{} {} ({}), but the output path was {}", cmd.describe(), status(&r), c.scenario, if before.contains_key(&cmd.out_path()) { "overwritten" } else { "created" }));
                }
                None
            }
            "C04" => {
                if c.steps.len() == 1 {
                    // the opposite command reads the file while it is being written
                    let st = &c.steps[0];
                    if st.procs.len() < 2 { return None; }
                    let (cmd, cmd2) = (&st.procs[0].cmd, &st.procs[1].cmd);
                    let rs = self.main_step(&mut disk, st);
                    if let Some(r) = rs.iter().find(|r| r.end == END_UNSUPPORTED) { return bad("harness", r.msg.clone()); }
                    let f = input_of(c, cmd).unwrap();
                    let (b, full) = self.clean(cmd, &f.bytes());
                    let Some(full) = full.filter(|_| b.ok()) else { return bad("base", format!("{} with nothing out of the ordinary {}", cmd.describe(), status(&b))) };
                    if rs[0].ok() && disk.get(&cmd.out_path()) != Some(&full[..]) { return bad("writer", format!("{} writes another file while {} reads it", cmd.describe(), cmd2.describe())); }
                    if rs[1].ok() {
                        let (b2, exact) = self.clean(cmd2, &full);
                        if !b2.ok() { return bad("base", format!("{} on the complete file {}", cmd2.describe(), status(&b2))); }
                        if disk.get(&cmd2.out_path()) != exact.as_deref() { return bad("mistaken-early", format!("{}, while {} is still writing its input, ends with status 0 and produces a different picture than from the complete file", cmd2.describe(), cmd.describe())); }
                        self.kind("read_while_written_accepted_exactly");
                    } else {
                        self.kind("read_while_written_rejected");
                        let o = norm("/w", &cmd2.out_path());
                        if disk.touched.iter().any(|t| t.contains(&o)) || disk.get(&o) != disk_of(&c.files).get(&o) { return bad("touched", format!("{} rejects the file that {} is writing but touched {:?}", cmd2.describe(), cmd.describe(), disk.touched)); }
                    }
                    return None;
                }
                // step 0: the disturbed run; step 1: the opposite command on what it left
                let (s0, s1) = (&c.steps[0], &c.steps[1]);
                let (cmd, cmd2) = (&s0.procs[0].cmd, &s1.procs[0].cmd);
                let out = cmd.out_path();
                let old = disk.get(&out).map(|x| x.to_vec());
                let r = self.main_step(&mut disk, s0).pop().unwrap();
                if r.end == END_UNSUPPORTED { return bad("harness", r.msg); }
                let left = disk.get(&out).map(|x| x.to_vec());
                if left.is_none() || left == old { self.kind("nothing_left"); return None; }
                let f = input_of(c, cmd).unwrap();
                let (b, full) = self.clean(cmd, &f.bytes());
                let Some(full) = full.filter(|_| b.ok()) else { return bad("base", format!("{} with nothing out of the ordinary {}", cmd.describe(), status(&b))) };
                let left = left.unwrap();
                self.kind(if left == full { "left_complete" } else if left.is_empty() { "left_empty" } else { "left_partial" });
                let before = disk.snapshot();
                disk.touched.clear();
                let r2 = self.main_step(&mut disk, s1).pop().unwrap();
                if r2.end == END_UNSUPPORTED { return bad("harness", r2.msg); }
                if r2.ok() {
                    let (b2, exact) = self.clean(cmd2, &full);
                    if !b2.ok() { return bad("base", format!("{} on the complete file {}", cmd2.describe(), status(&b2))); }
                    if disk.get(&cmd2.out_path()) != exact.as_deref() {
                        return bad("mistaken", format!("{} {}, leaving {} bytes instead of {}; {} then accepts this file and produces a different picture", cmd.describe(), status(&r), left.len(), full.len(), cmd2.describe()));
                    }
                    self.kind("leftover_accepted_exactly");
                } else {
                    self.kind("leftover_rejected");
                    if left == full { return bad("rejects-complete", format!("{} {} on a complete file", cmd2.describe(), status(&r2))); }
                    if !disk.touched.is_empty() || disk.snapshot() != before { return bad("touched", format!("{} rejects the half-written file but touched {:?}", cmd2.describe(), disk.touched)); }
                }
                None
            }
            "C05" => {
                let n = c.steps.len();
                for (i, st) in c.steps.iter().enumerate() {
                    let rs = self.main_step(&mut disk, st);
                    if let Some(r) = rs.iter().find(|r| r.end == END_UNSUPPORTED) { return bad("harness", r.msg.clone()); }
                    let cmd = &st.procs[0].cmd;
                    // scenario "round-trip": the last two steps are clean, otherwise only the last
                    let clean = i + 1 == n || (c.scenario == "round-trip" && i + 2 == n);
                    if !clean { self.kind(if rs[0].killed { "history_killed" } else if rs[0].ok() { "history_success" } else { "history_failed" }); continue; }
                    let r = &rs[0];
                    if !r.ok() { return bad("still-fails", format!("after {} earlier step(s), {} without any fault {}", i, cmd.describe(), status(r))); }
                    // what the command reads is what is at its input path now; commands never change their input
                    let input = disk.get(&cmd.infile).map(|x| x.to_vec()).unwrap_or_default();
                    if let Some(f) = input_of(c, cmd) { if !wrote_before(c, i, cmd) && f.bytes() != input { return bad("input-changed", format!("after {} earlier step(s), the input of {} is no longer what it was", i, cmd.describe())); } }
                    let (b, full) = self.clean(cmd, &input);
                    if !b.ok() { return bad("base", format!("{} in an empty directory {}", cmd.describe(), status(&b))); }
                    if disk.get(&cmd.out_path()) != full.as_deref() {
                        let g = disk.get(&cmd.out_path()).unwrap_or(&[]);
                        let f = full.as_deref().unwrap_or(&[]);
                        let p = g.iter().zip(f).position(|(x, y)| x != y).unwrap_or(g.len().min(f.len()));
                        return bad("not-repaired", format!("after {} earlier step(s), {} leaves a file that differs at byte {} from that of a first run (sizes {} and {})", i, cmd.describe(), p, g.len(), f.len()));
                    }
                    if let (Some(f), 0, false) = (input_of(c, cmd), cmd.kind, wrote_before(c, i, cmd)) { if i + 2 == n && c.scenario == "round-trip" {
                        // what the second command must give for this picture
                        let m = make(&f.pic);
                        let w: &[f32] = if cmd.weights.len() == 3 { &cmd.weights } else { &PERCEPTUAL };
                        let Ok(bl) = compress_tiles(cmd.fmt, cmd.alg, w, cmd.wba, &m.rgba, m.w, m.h, 3) else { return bad("reference", "block compressor panics".into()) };
                        let rgba = refdec::image(cmd.fmt, &bl, m.w, m.h).unwrap();
                        let cmd2 = &c.steps[n - 1].procs[0].cmd;
                        let rs = self.main_step(&mut disk, &c.steps[n - 1]);
                        if !rs[0].ok() { return bad("still-fails", format!("{} on a freshly compressed picture {}", cmd2.describe(), status(&rs[0]))); }
                        if let Err(e) = verify(&Want::Png { w: m.w, h: m.h, rgba }, disk.get(&cmd2.out_path())) { return bad("round-trip", format!("{} then {}: {}", cmd.describe(), cmd2.describe(), e)); }
                        return None;
                    } }
                }
                None
            }
            "C06" => {
                let st = &c.steps[0];
                let start = disk.clone();
                let rs = self.main_step(&mut disk, st);
                if let Some(r) = rs.iter().find(|r| r.end == END_UNSUPPORTED) { return bad("harness", r.msg.clone()); }
                for (i, p) in st.procs.iter().enumerate() {
                    let mut d = start.clone();
                    let solo = Step { procs: vec![p.clone()], room: -1, order_gap: 1, ..Default::default() };
                    let r = self.r.step(&mut d, &solo).0.pop().unwrap();
                    let o = p.cmd.out_path();
                    let ctx = || format!("{} (next to {})", p.cmd.describe(), st.procs.iter().enumerate().filter(|x| x.0 != i).map(|x| format!("{} [{}]", x.1.cmd.describe(), status(&rs[x.0]))).collect::<Vec<_>>().join(" & "));
                    if (r.code, r.killed) != (rs[i].code, rs[i].killed) { return bad("status", format!("{} {}, but alone it {}", ctx(), status(&rs[i]), status(&r))); }
                    if d.get(&o) != disk.get(&o) { return bad("output", format!("{}: output file differs from that of the same run alone ({:?} and {:?} bytes)", ctx(), disk.get(&o).map(|x| x.len()), d.get(&o).map(|x| x.len()))); }
                    self.kind(if r.killed { "neighbour_killed" } else if r.ok() { "ok" } else { "neighbour_failed" });
                }
                None
            }
            "C07" => {
                let st = &c.steps[0];
                let cmd = &st.procs[0].cmd;
                let f = input_of(c, cmd).unwrap().clone();
                let before = disk.snapshot();
                let r = self.main_step(&mut disk, st).pop().unwrap();
                if r.end == END_UNSUPPORTED { return bad("harness", r.msg); }
                let what = || f.damage.iter().map(|d| match d.kind { 1 => format!("cut at byte {}", d.pos), 2 => format!("byte {} xor {:#04x}", d.pos, d.val), _ => format!("{} bytes appended", d.val) }).collect::<Vec<_>>().join(", ");
                if r.ok() {
                    let (b, exact) = self.clean(cmd, &make(&f.pic).bytes);
                    if !b.ok() { return bad("base", format!("{} on the undamaged file {}", cmd.describe(), status(&b))); }
                    self.kind("decoded_exactly");
                    if disk.get(&cmd.out_path()) != exact.as_deref() { return bad("altered", format!("{}: input damaged ({}), accepted, and the output differs from that of the undamaged file", cmd.describe(), what())); }
                } else {
                    self.kind("rejected");
                    if f.damage.iter().all(|d| d.kind == 3) { return bad("tail", format!("{} {} because of bytes after the image data", cmd.describe(), status(&r))); }
                    if !disk.touched.is_empty() || disk.snapshot() != before { return bad("touched", format!("{}: input damaged ({}), {}, but the output path was touched", cmd.describe(), what(), status(&r))); }
                }
                None
            }
            "C09" => {
                let st = &c.steps[0];
                let (p, cmd) = (&st.procs[0], &st.procs[0].cmd);
                let r = self.main_step(&mut disk, st).pop().unwrap();
                if r.end == END_UNSUPPORTED { return bad("harness", r.msg); }
                if r.killed || r.hung || r.op_bound || r.end == END_DEADLOCK || r.end == END_BUDGET || matches!(r.code, -9 | -24) { self.kind("no_end_of_its_own"); return None; } // C08
                if r.ok() {
                    self.kind("exit_0");
                    if c.scenario.starts_with("bad") { return bad("accepted", format!("{} exited with status 0 although it cannot do what it was asked to ({})", cmd.describe(), c.scenario)); }
                    if let Some(f) = input_of(c, cmd).filter(|f| plain(f) && !p.faults.iter().any(|f| matches!(f.kind, 8 | 9))) {
                        if let Err(e) = verify(&want_from(cmd, &f.pic), disk.get(&cmd.out_path())) { return bad("wrong-output", format!("{} exited with status 0 and without a word, but {}", cmd.describe(), e)); }
                    }
                    return None;
                }
                self.kind(if p.streams & 2 != 0 { "failed_without_standard_error" } else { "failed" });
                if p.streams & 2 == 0 && r.err.trim().is_empty() { return bad("silent", format!("{} {} ({}) and says nothing on standard error", cmd.describe(), status(&r), c.scenario)); }
                None
            }
            "C10" => {
                let st = &c.steps[0];
                let cmd = &st.procs[0].cmd;
                let r = self.main_step(&mut disk, st).pop().unwrap();
                if r.end == END_UNSUPPORTED { return bad("harness", r.msg); }
                let (len, px, what) = match input_of(c, cmd) {
                    Some(f) if f.special != 1 => { let b = f.bytes(); let px = announced(&b); (b.len() as u64, px, format!("{} bytes of input and {} pixels", b.len(), px)) }
                    _ => (0, 0, "no input".into()),
                };
                self.kind(if r.ok() { "exit_0" } else { "exit_nonzero" });
                self.peak = self.peak.max((r.mem_peak.saturating_sub(256 << 10)) * 100 / (px + len + 4096));
                let bound = MEM_BASE + 48 * px + 8 * len;
                if r.mem_peak > bound { return bad("memory", format!("{} ({}) used {} bytes of memory for {}, more than {}", cmd.describe(), c.scenario, r.mem_peak, what, bound)); }
                None
            }
            _ => { // C08
                let st = &c.steps[0];
                // a damaged JPEG header may announce a picture of gigabytes; the bound on the work then is, too
                if let Some(f) = input_of(c, &st.procs[0].cmd) { if f.special == 0 && f.pic.kind == 1 && jpeg_pixels(&f.bytes()) > 300_000 { self.kind("announces_a_huge_picture"); return None; } }
                let rs = self.main_step(&mut disk, st);
                for (r, p) in rs.iter().zip(&st.procs) {
                    if r.end == END_UNSUPPORTED { return bad("harness", r.msg.clone()); }
                    if r.end == END_DEADLOCK || r.end == END_BUDGET { return bad("no-end", format!("{} {}", p.cmd.describe(), status(r))); }
                    if r.hung { return bad("hang", format!("{} waits or computes for ever", p.cmd.describe())); }
                    if r.op_bound { return bad("calls", format!("{} made more than {} system calls", p.cmd.describe(), r.ops - 1)); }
                    if !r.killed && (r.code == -24 || r.code == -9) { return bad("cpu", format!("{} computes without end", p.cmd.describe())); }
                    let len: u64 = input_of(c, &p.cmd).map(|f| f.bytes().len() as u64).unwrap_or(0);
                    // transfers of single bytes, every one of them interrupted several times, stay below this
                    let px: u64 = input_of(c, &p.cmd).map(|f| if f.pic.kind == 1 { jpeg_pixels(&f.bytes()) } else { (f.pic.w * f.pic.h) as u64 }).unwrap_or(0);
                    if r.ops > 20 * len + 40 * px + 6000 { return bad("calls", format!("{} made {} system calls for {} bytes of input and {} pixels", p.cmd.describe(), r.ops, len, px)); }
                    if !r.fault_hit && !r.stream_failed && !r.killed && !r.ok() && c.scenario == "valid" { return bad("fails", format!("{} {} although nothing went wrong", p.cmd.describe(), status(r))); }
                    self.kind(if r.killed { "killed" } else if r.ok() { "exit_0" } else if r.code < 0 { "aborted" } else { "exit_nonzero" });
                }
                None
            }
        }
    }

    // -------------------------------------------------------------- generation
    fn dry(&mut self, files: &[FileDef], cmd: &Cmd) -> Res { let mut d = disk_of(files); self.one(&mut d, cmd) }
    fn proc_of(&mut self, r: &mut Rng, cmd: &Cmd, est: u64) -> Proc {
        let mut s = if r.chance(1, 5) { Sched::quiet(r.u64()) } else { Sched::random(r, est) };
        s.budget = 600_000_000;
        s.ncpu = if r.chance(1, 10) { r.pick(&[3, 16, 17, 33, 64]) } else { r.pick(&[1, 2, 4, 8]) };
        let mut p = Proc { cmd: cmd.clone(), sched: s, workers: if r.chance(1, 20) { r.range(9, 40) as u32 } else { r.pick(&[0, 1, 2, 2, 3, 4, 8]) }, ..Default::default() };
        if r.chance(1, 3) { for e in ENV { if r.chance(1, 4) { p.env.push(e.to_string()); } } }
        if p.workers == 0 && r.chance(1, 8) { p.env.push("RAYON_NUM_THREADS=many".into()); }
        if r.chance(1, 12) { p.streams = r.range(1, 3) as u32 | r.pick(&[32, 5, 28]) << 2; }
        if r.chance(1, 4) { p.console = r.below(8) as u32 | (r.below(4) as u32) << 3; }
        p
    }
}
const ENV: [&str; 20] = ["LANG=de_DE.UTF-8", "LC_ALL=C", "LC_ALL=tr_TR.UTF-8", "TZ=Pacific/Auckland", "HOME=/nonexistent", "TMPDIR=/tmp", "TMPDIR=/nonexistent", "COLUMNS=20", "NO_COLOR=1", "CLICOLOR_FORCE=1", "TERM=dumb",
    "RUST_LOG=trace", "SOURCE_DATE_EPOCH=12", "PWD=/tmp", "OLDPWD=/w/sub", "USER=nobody", "XDG_CACHE_HOME=/tmp", "RAYON_RS_NUM_CPUS=3", "MALLOC_ARENA_MAX=1", "OMP_NUM_THREADS=1"];
const ERRS_R: [i64; 6] = [EIO, 116, ENOMEM, EBADF, 11, 110];
const ERRS_W: [i64; 9] = [ENOSPC, EIO, EDQUOT, EFBIG, EROFS, 116, 32, 11, 110];
const ERRS_O: [i64; 12] = [EACCES, EMFILE, 23, ENOSPC, EROFS, EIO, ENOMEM, EINTR, 1, 26, 40, 11];

fn size_of(r: &mut Rng, small: bool) -> (usize, usize) {
    let m = if small { 10 } else { 22 };
    // larger than the buffers on the way to the disk
    if !small && r.chance(1, 12) { return if r.chance(1, 6) { (r.range(100, 300) as usize, r.range(60, 200) as usize) } else { (r.range(30, 110) as usize, r.range(30, 110) as usize) }; }
    // the usual sizes of textures
    if !small && r.chance(1, 40) { return (r.pick(&[16, 32, 64, 128, 256]), r.pick(&[16, 32, 64, 128, 256])); }
    match r.below(12) { 0 => (1, 1), 1 => (r.range(1, 60) as usize, r.range(1, 4) as usize), 2 => (r.range(1, 4) as usize, r.range(1, 60) as usize), 3 => (4, 4), _ => (r.range(1, m) as usize, r.range(1, m) as usize) }
}
fn gen_pic(r: &mut Rng, kind: u32, small: bool) -> Pic {
    let (w, h) = size_of(r, small);
    let mut p = Pic { kind, w, h, seed: r.u64(), ..Default::default() };
    match kind {
        0 => {
            p.img = r.below(imggen::NKINDS) as u32;
            p.ct = r.pick(&[0, 2, 2, 3, 4, 6, 6, 6, 6]);
            p.depth = match p.ct { 0 => r.pick(&[1, 2, 4, 8, 8, 16]), 3 => r.pick(&[1, 2, 4, 8, 8]), _ => r.pick(&[8, 8, 8, 16]) };
            for b in [1, 2, 4, 8, 16] { if r.chance(1, 3) { p.opt |= b; } }
            for b in [32, 64, 128] { if r.chance(1, 10) { p.opt |= b; } }
            for b in [256, 1024] { if r.chance(1, 100) { p.opt |= b; } }
            p.idat = r.pick(&[3, 17, 60, 300, 8192, 1 << 20]);
            // in pieces of three bytes, a large picture read byte by byte would take millions of calls
            if p.w * p.h > 4000 { p.idat = p.idat.max(8192); }
        }
        1 => { p.img = r.below(imggen::NKINDS) as u32; p.fmt = r.pick(&[0, 0, 1, 4, 5, 6, 8, 9]); p.ct = r.pick(&[0, 0, 1, 3]); p.w = p.w.min(20); p.h = p.h.min(20); }
        _ => { p.img = r.below(imggen::NDATA) as u32; p.fmt = r.below(5) as u8; p.opt = if r.chance(1, 2) { 0 } else { r.below(16) as u32 }; }
    }
    p
}
fn gen_cmd(r: &mut Rng, pic: &Pic, infile: &str) -> Cmd {
    let mut c = Cmd { kind: (pic.kind == 2) as u32, infile: infile.into(), fmt: r.below(5) as u8, longopt: r.chance(1, 3), ..Default::default() };
    c.alg = r.pick(&[0, 0, 1, 1, 2]);
    if pic.w * pic.h > 150 { c.alg = r.pick(&[0, 0, 1]); }
    if pic.w * pic.h > 1000 { c.alg = 0; }
    if r.chance(1, 4) { c.style = r.below(16) as u32; }
    if r.chance(1, 4) { c.weights = r.pick(&[vec![1.0f32, 1.0, 1.0], vec![0.299, 0.587, 0.114], vec![1.0, 0.0, 0.0]]); }
    c.wba = r.chance(1, 4);
    let ext = ["dds", "png"][c.kind as usize];
    if r.chance(2, 3) { c.outfile = match r.below(5) { 0 => format!("sub/result.{}", ext), 1 => format!("/tmp/o.{}", ext), 2 => "noextension".into(), _ => format!("out.{}", ext) }; }
    c
}
fn gen_name(r: &mut Rng, pic: &Pic, i: usize) -> String {
    let ext = match pic.kind { 0 => r.pick(&["png", "png", "PNG", "Png"]), 1 => r.pick(&["jpg", "jpeg", "JPG"]), _ => r.pick(&["dds", "dds", "DDS", "tex"]) };
    let dir = r.pick(&["", "", "", "sub/", "/w/", "../w/", "./"]);
    let stem = r.pick(&["pic", "pic", "a.b", "übung", "with space", ".hidden", "caf\u{F8FF}"]);
    format!("{}{}{}.{}", dir, stem, i, ext)
}
fn pic_kind(r: &mut Rng) -> u32 { r.pick(&[0, 0, 0, 1, 2, 2, 2]) }
/// Something at the output path before the run.
fn stale(r: &mut Rng, path: &str) -> FileDef {
    let pic = match r.below(4) { 0 => { let mut p = gen_pic(r, 2, true); p.w += 8; p.h += 8; p } 1 => gen_pic(r, 0, true), 2 => Pic { kind: 3, w: r.range(0, 400) as usize, seed: r.u64(), ..Default::default() }, _ => Pic { kind: 3, w: r.range(2000, 9000) as usize, seed: r.u64(), ..Default::default() } };
    FileDef { path: path.into(), pic, ..Default::default() }
}
fn pipe_at(cmd: &Cmd) -> FileDef { FileDef { path: cmd.out_path(), special: 8, pic: Pic { kind: 3, ..Default::default() }, ..Default::default() } }
fn op_at(r: &mut Rng, t: &[(u32, i64)]) -> u64 {
    // the end of a run and its openings are where mistakes hide; otherwise anywhere
    let n = t.len() as u64;
    let pickw = |r: &mut Rng, f: &dyn Fn(u32) -> bool| -> u64 { let v: Vec<u64> = t.iter().enumerate().filter(|x| f(x.1 .0)).map(|x| x.0 as u64 + 1).collect(); if v.is_empty() { 1 + r.below(n.max(1)) } else { r.pick(&v) } };
    match r.below(8) {
        0 => pickw(r, &|o| o == 1),
        1 | 2 => pickw(r, &|o| o == 2 || o == 3),
        3 | 4 => pickw(r, &|o| o == 4 || o == 5),
        5 => n.saturating_sub(r.below(4)).max(1),
        6 => { let v: Vec<u64> = t.iter().enumerate().filter(|x| x.1 .0 == 4).map(|x| x.0 as u64 + 1).collect(); if v.is_empty() { n } else { v[v.len() - 1 - (r.below(3) as usize).min(v.len() - 1)] } }
        _ => 1 + r.below(n.max(1)),
    }
}
fn err_for(r: &mut Rng, op: u32) -> i64 { match op { 1 => r.pick(&ERRS_O), 2 | 3 => r.pick(&ERRS_R), 4 | 5 => r.pick(&ERRS_W), _ => r.pick(&[EIO, EACCES, ENOMEM, EINVAL]) } }
fn gen_fault(r: &mut Rng, t: &[(u32, i64)], eintr_all: bool) -> Fault {
    let at = op_at(r, t);
    let (op, len) = t.get(at as usize - 1).copied().unwrap_or((4, 1));
    match r.below(10) {
        0..=2 => Fault { at, kind: 1, arg: err_for(r, op), arg2: 0 },
        3 | 4 => Fault { at, kind: 2, arg: loop { let e = err_for(r, op); if e != EINTR { break e; } }, arg2: match op { 1 => r.pick(&[O, R | W | O, 15]), 2 | 3 => r.pick(&[R, R | W | O]), 4 | 5 => r.pick(&[W, W, R | W | O]), _ => r.pick(&[M, 15]) } },
        5 => Fault { at, kind: 3, arg: 1 + r.below(len.max(1) as u64) as i64, arg2: 0 },
        6 | 7 => Fault { at: r.pick(&[1, at]), kind: 4, arg: r.pick(&[1, 2, 7, 64, 1000]), arg2: (r.u64() >> 1) as i64 },
        8 if eintr_all => Fault { at: r.pick(&[1, at]), kind: 10, arg: r.pick(&[20, 100, 200]), arg2: (r.u64() >> 1) as i64 },
        8 => Fault { at, kind: 1, arg: EINTR, arg2: 0 },
        _ => Fault { at, kind: 11, arg: 0, arg2: 0 },
    }
}
fn resource_fault(r: &mut Rng, p: &mut Proc) {
    if r.chance(2, 3) {
        p.sched.alloc_min = r.pick(&[1, 1, 64, 1024, 8192]);
        p.sched.alloc_fail_at = 1 + r.below(match p.sched.alloc_min { 1 => 400, 64 => 120, 1024 => 20, _ => 8 });
        p.sched.alloc_persist = r.chance(1, 3);
    } else {
        p.sched.thread_fail_at = 1 + r.below(4) as u32;
        p.sched.thread_persist = r.chance(1, 2);
    }
}
impl CliW {
    fn generate(&mut self, prop: &str, seed: u64, _thorough: bool) -> CliCase {
        let mut r = Rng::new(seed);
        let r = &mut r;
        let mut c = CliCase { prop: prop.into(), scenario: "valid".into(), ..Default::default() };
        if matches!(prop, "C09" | "C10") {
            // failing and succeeding runs of all the other kinds
            let sub = r.pick(if prop == "C09" { &["C01", "C03", "C03", "C07", "C08", "C08"] } else { &["C01", "C03", "C03", "C08"] });
            let mut c = self.generate(sub, r.u64(), _thorough);
            c.prop = prop.into();
            c.steps.truncate(1);
            let p = &mut c.steps[0].procs[0];
            if prop == "C09" { p.streams = if r.chance(1, 3) { r.range(1, 3) as u32 | r.pick(&[32, 5, 28]) << 2 } else { 0 }; }
            if prop == "C10" && r.chance(1, 15) && c.files[0].pic.kind == 0 && c.files[0].damage.is_empty() {
                let f = &mut c.files[0];
                for b in [256, 256, 512, 1024, 2048] { if r.chance(1, 4) { f.pic.opt |= b; } }
                if f.pic.opt & 1024 != 0 && r.chance(1, 2) { (f.pic.w, f.pic.h) = (r.range(80, 300) as usize, r.range(80, 300) as usize); f.pic.img = 1; p.cmd.alg = 0; }
                f.pic.idat = f.pic.idat.max(8192);
                for f in &mut p.faults { if f.kind == 4 { f.arg += 1000; } if f.kind == 10 { f.kind = 3; } }
            } else if prop == "C10" && r.chance(1, 9) {
                // larger pictures
                let f = &mut c.files[0];
                if c.scenario == "valid" && f.pic.kind != 1 && f.damage.is_empty() && (p.cmd.kind == 1) == (f.pic.kind == 2) {
                    (f.pic.w, f.pic.h) = (r.range(80, 600) as usize, r.range(80, 400) as usize);
                    if r.chance(1, 3) { // a long strip
                        (f.pic.w, f.pic.h) = (r.range(600, 20_000) as usize, r.range(1, 8) as usize);
                        if r.chance(1, 2) { (f.pic.w, f.pic.h) = (f.pic.h, f.pic.w); }
                    }
                    f.pic.img = r.below(3) as u32;
                    f.pic.idat = f.pic.idat.max(8192);
                    p.cmd.alg = 0;
                    for f in &mut p.faults { if f.kind == 4 { f.arg += 1000; } if f.kind == 10 { f.kind = 3; } }
                }
            }
            return c;
        }
        let pic = { let k = pic_kind(r); gen_pic(r, k, false) };
        let mut pic = pic;
        let wide = prop == "C01" && pic.kind != 1 && r.chance(1, 500);
        if wide { pic.img = r.below(imggen::NDATA.min(imggen::NKINDS)) as u32; (pic.w, pic.h) = (r.range(65_530, 66_000) as usize, r.range(1, 3) as usize); if r.chance(1, 2) { (pic.w, pic.h) = (pic.h, pic.w); } pic.idat = 8192; }
        // more than any buffer on the way holds
        let big = matches!(prop, "C01" | "C02") && !wide && pic.kind != 1 && r.chance(1, 900);
        if big { pic.img = r.below(imggen::NDATA.min(imggen::NKINDS)) as u32; (pic.w, pic.h) = if r.chance(1, 3) { (1024, 1024) } else { (r.range(900, 1150) as usize, r.range(900, 1150) as usize) }; pic.idat = r.pick(&[8192, 1 << 20, 1 << 23]); }
        let wide = wide || big;
        let mut name = gen_name(r, &pic, 1);
        let single = matches!(prop, "C01" | "C02" | "C08");
        let special = if prop != "C03" && r.chance(1, 8) { if single { r.pick(&[3, 4, 5, 6, 7, 7]) } else { r.pick(&[3, 4, 5, 6]) } } else { 0 };
        if special == 5 { name = format!("ro/{}", name.rsplit('/').next().unwrap()); }
        let mut cmd = gen_cmd(r, &pic, &name);
        // over its own input
        let onto_itself = special == 0 && matches!(prop, "C01" | "C02" | "C03") && r.chance(1, 25);
        if onto_itself { cmd.outfile = name.clone(); }
        // or into a pipe
        let into_pipe = !onto_itself && single && r.chance(1, 25);
        let file = FileDef { path: name.clone(), pic: pic.clone(), special, ..Default::default() };
        let step1 = |p: Proc| Step { procs: vec![p], room: -1, order_gap: 1, ..Default::default() };
        match prop {
            "C01" => {
                c.files.push(file);
                if r.chance(1, 10) { let n = r.range(1, 40) as u32; c.files[0].damage.push(Damage { kind: 3, pos: r.u64() >> 1, val: n }); }
                if into_pipe { c.files.push(pipe_at(&cmd)); }
                else if r.chance(1, 3) { let mut f = stale(r, &cmd.out_path()); if r.chance(1, 5) { f.special = 4; } if norm("/w", &f.path) != norm("/w", &name) { c.files.push(f); } }
                let d = self.dry(&c.files, &cmd);
                let mut p = self.proc_of(r, &cmd, d.steps);
                for _ in 0..r.pick(&[0, 0, 1, 1, 1, 1, 2, 3]) { let f = gen_fault(r, &d.trace, true); p.faults.push(f); }
                if r.chance(1, 8) && pic.kind != 1 { let f = Fault { at: op_at(r, &d.trace), kind: 9, ..Default::default() }; p.faults.push(f); }
                if r.chance(1, 6) { resource_fault(r, &mut p); }
                if wide { for f in &mut p.faults { if f.kind == 4 { f.arg = 1000 + f.arg % 7; } if f.kind == 10 { f.kind = 3; } } }
                let mut st = step1(p);
                if r.chance(1, 6) { st.room = r.range(0, 1 + d.trace.iter().filter(|t| t.0 == 4).map(|t| t.1 as u64).sum::<u64>()) as i64; }
                c.steps.push(st);
                if r.chance(1, 4) {
                    // and the opposite direction on the result
                    let out = cmd.out_path();
                    if cmd.kind == 0 || out.ends_with(".png") {
                        let mut c2 = gen_cmd(r, &Pic { kind: if cmd.kind == 0 { 2 } else { 0 }, w: 13, h: 13, ..Default::default() }, &out);
                        if pic.w * pic.h > 150 && c2.alg == 2 || pic.w * pic.h > 1000 { c2.alg = 0 }
                        if c2.outfile.is_empty() || c2.out_path() == out { c2.outfile = format!("second.{}", ["dds", "png"][c2.kind as usize]); }
                        let mut p2 = self.proc_of(r, &c2, d.steps);
                        for _ in 0..r.below(2) { let f = gen_fault(r, &d.trace, true); p2.faults.push(f); }
                        c.steps.push(step1(p2));
                    }
                }
            }
            "C02" => {
                c.files.push(file);
                if into_pipe { c.files.push(pipe_at(&cmd)); }
                else if r.chance(1, 6) { let mut f = stale(r, &cmd.out_path()); f.pic.w += 1; if r.chance(1, 4) { f.special = 4; } if norm("/w", &f.path) != norm("/w", &name) { c.files.push(f); } }
                let d = self.dry(&c.files, &cmd);
                let mut p = self.proc_of(r, &cmd, d.steps);
                // whatever else the program looks for is there, too
                for v in &d.asked { if !["RUST_", "RAYON_", "LD_", "MALLOC_", "GLIBC_"].iter().any(|x| v.starts_with(x)) && r.chance(1, 2) { p.env.retain(|e| !e.starts_with(&format!("{}=", v))); p.env.push(format!("{}={}", v, r.pick(&TEXTS))); self.kind("variable_asked_for"); } }
                for f in &d.missed { if r.chance(1, 2) {
                    let dir = f[..f.rfind('/').unwrap()].to_string();
                    let pic = match r.below(4) { 0 => gen_pic(r, pic.kind, true), 1 => { let k = 2 - pic.kind.min(2); let mut p = gen_pic(r, k, true); (p.w, p.h) = (pic.w, pic.h); p } _ => Pic { kind: 4, seed: r.below(1000), ..Default::default() } };
                    if !dir.is_empty() && !c.files.iter().any(|x| x.path == dir) { c.files.push(FileDef { path: dir, special: 1, ..Default::default() }); }
                    c.files.push(FileDef { path: f.clone(), pic, ..Default::default() });
                    self.kind("file_looked_for");
                } }
                if r.chance(3, 4) { p.faults.push(Fault { at: 1, kind: 4, arg: r.pick(&[1, 1, 2, 3, 16, 100, 1000]), arg2: (r.u64() >> 1) as i64 }); }
                for _ in 0..r.below(3) { let at = op_at(r, &d.trace); let len = d.trace.get(at as usize - 1).map_or(1, |x| x.1.max(1)); p.faults.push(Fault { at, kind: 3, arg: 1 + r.below(len as u64) as i64, arg2: 0 }); }
                if r.chance(1, 3) { p.faults.push(if r.chance(1, 2) { Fault { at: op_at(r, &d.trace), kind: 1, arg: EINTR, arg2: 0 } } else { Fault { at: 1, kind: 10, arg: r.pick(&[10, 60, 160]), arg2: (r.u64() >> 1) as i64 } }); for f in &mut p.faults { if f.kind == 1 { let (op, _) = d.trace.get(f.at as usize - 1).copied().unwrap_or((2, 0)); if !matches!(op, 1..=5) { f.kind = 3; f.arg = 1; } } } }
                if wide { for f in &mut p.faults { if f.kind == 4 { f.arg = 1000 + f.arg; } if f.kind == 10 { f.kind = 3; } } }
                c.steps.push(step1(p));
            }
            "C03" => {
                let mut cmd = cmd;
                let mut file = file;
                let mut damage = true;
                let m = make(&pic);
                let n = m.bytes.len() as u64;
                let mut faults = vec![];
                match r.below(18) {
                    17 => {
                        c.scenario = "no place for the output".into();
                        let dir = match r.below(4) { 0 => cmd.infile.clone(), 1 => "/tmp/gone".into(), 2 => "gone/and/deep".into(), _ => "gone".into() };
                        cmd.outfile = format!("{}/o.{}", dir, ["dds", "png"][cmd.kind as usize]);
                    }
                    0 => { c.scenario = "bad: no such file".into(); damage = false; cmd.infile = "missing/".to_string() + &cmd.infile.replace('/', "_"); if r.chance(1, 2) { cmd.infile = cmd.infile.replace("missing/", "not") } }
                    1 => { c.scenario = "bad: input is a directory".into(); file.special = 1; }
                    2 => { c.scenario = "bad: input is unreadable".into(); file.special = 2; }
                    3 | 4 => {
                        // cut off before the image data is complete
                        let need = if pic.kind == 2 { (m.data_end as u64).saturating_sub(1) } else if pic.kind == 0 { m.critical.last().unwrap().0 as u64 - 1 } else { 120 };
                        file.damage.push(Damage { kind: 1, pos: r.below(need + 1), val: 0 });
                        c.scenario = "bad: input ends early".into();
                        // a PNG whose last data chunk only is missing may still hold every pixel
                        if pic.kind == 0 && file.damage[0].pos as usize > m.critical[m.critical.len().saturating_sub(2)].0 { c.scenario = "input ends early".into(); }
                        if pic.kind == 0 && m.critical.iter().filter(|x| x.0 > 40).count() > 1 { c.scenario = "input ends early".into(); }
                    }
                    5 => { c.scenario = "bad: input is junk".into(); file.pic = Pic { kind: 3, w: r.range(0, 600) as usize, seed: r.u64(), ..Default::default() }; }
                    6 => {
                        c.scenario = "bad: input of an unsupported kind".into();
                        if cmd.kind == 0 && r.chance(1, 3) { let mut p = gen_pic(r, 1, true); p.fmt = r.pick(&[2, 2, 7]); file.pic = p; cmd.infile = r.pick(&["cmyk.jpg", "cmyk.jpeg", "cmyk.JPG"]).into(); file.path = cmd.infile.clone(); if !cmd.outfile.is_empty() { cmd.outfile = "o.dds".into(); } }
                        else if cmd.kind == 0 { let x = r.pick(&["bmp", "dds", "", "txt", "pn"]); let base = cmd.infile.rsplit_once('.').unwrap().0.to_string(); let nm = if x.is_empty() { "picture".to_string() } else { format!("{}.{}", base, x) }; cmd.infile = nm.clone(); file.path = nm; }
                        else { file.pic = gen_pic(r, 0, true); }
                    }
                    7 => { // contents of the other kind
                        c.scenario = "bad: extension and contents differ".into();
                        let k = match pic.kind { 0 => r.pick(&[1, 2]), 1 => r.pick(&[0, 2]), _ => r.pick(&[0, 1]) };
                        file.pic = gen_pic(r, k, true);
                    }
                    8 | 9 => {
                        c.scenario = "bad: DDS contents that are not supported".into();
                        let mut p = gen_pic(r, 2, true);
                        p.opt &= !1;
                        let nm = "unsup.dds".to_string();
                        cmd.kind = 1; cmd.infile = nm.clone(); file.path = nm; file.pic = p.clone();
                        if !cmd.outfile.is_empty() { cmd.outfile = "o.png".into(); }
                        let o = make(&p).bytes;
                        let set = |f: &mut FileDef, at: usize, v: u32| for (i, b) in v.to_le_bytes().iter().enumerate() { let x = b ^ o[at + i]; if x != 0 { f.damage.push(Damage { kind: 2, pos: (at + i) as u64, val: x as u32 }); } };
                        match r.below(7) {
                            5 => { set(&mut file, 16, r.range(1000, 60000) as u32); set(&mut file, 12, r.range(1000, 60000) as u32); }
                            0 => set(&mut file, 128, r.pick(&[28, 98, 95, 2, 87, 81, 84])),
                            1 => set(&mut file, 132, r.pick(&[2, 4])),
                            2 => set(&mut file, 16, 0),
                            3 => set(&mut file, 12, 0),
                            4 => { set(&mut file, 16, p.w as u32 + 4 * r.range(1, 3000) as u32); if p.opt & 6 != 0 { set(&mut file, 12, p.h as u32 + 400) } }
                            _ => { set(&mut file, 16, u32::MAX - r.below(4) as u32); set(&mut file, 12, u32::MAX - r.below(4) as u32); }
                        }
                    }
                    10 => {
                        if pic.kind == 0 {
                            c.scenario = "input damaged".into();
                            let x = r.pick(&m.critical);
                            file.damage.push(Damage { kind: 2, pos: r.range(x.0 as u64, x.1 as u64 - 1), val: r.range(1, 255) as u32 });
                        } else if pic.kind == 2 { c.scenario = "bad: not a DDS file".into(); file.damage.push(Damage { kind: 2, pos: r.below(4), val: r.range(1, 255) as u32 }); }
                        else { c.scenario = "bad: not a JPEG file".into(); file.damage.push(Damage { kind: 2, pos: r.below(2), val: r.range(1, 255) as u32 }); }
                    }
                    11 => {
                        c.scenario = "bad: arguments".into(); damage = false;
                        match r.below(4) { 0 => { cmd.kind = 0; cmd.weights = vec![1.0; r.pick(&[1, 2, 4, 7])]; } 1 => cmd.extra = vec!["--nonsense".into()], 2 => cmd.extra = vec!["surplus".into()], _ => { let mut a = cmd.args(); a[0] = "convert".into(); cmd.extra = a; cmd.kind = 2; } }
                    }
                    12..=14 => {
                        c.scenario = "reads fail".into();
                        let d = self.dry(&[file.clone()], &cmd);
                        let reads: Vec<u64> = d.trace.iter().enumerate().filter(|x| x.1 .0 == 2 || x.1 .0 == 1).map(|x| x.0 as u64 + 1).collect();
                        let first_create = d.trace.iter().enumerate().filter(|x| x.1 .0 == 1).nth(1).map_or(u64::MAX, |x| x.0 as u64 + 1);
                        let reads: Vec<u64> = reads.into_iter().filter(|x| *x < first_create).collect();
                        let at = if reads.is_empty() { 1 } else { r.pick(&reads) };
                        faults.push(match r.below(4) {
                            0 => Fault { at, kind: 1, arg: r.pick(&ERRS_R), arg2: 0 },
                            1 if pic.kind != 1 => Fault { at, kind: 9, ..Default::default() },
                            _ => Fault { at, kind: 2, arg: r.pick(&ERRS_R), arg2: R },
                        });
                        if r.chance(1, 3) { faults.push(Fault { at: 1, kind: 4, arg: r.pick(&[1, 5, 100]), arg2: 9 }); }
                    }
                    _ => {
                        c.scenario = "write-faults".into(); damage = false;
                        let d = self.dry(&[file.clone()], &cmd);
                        for _ in 0..r.range(0, 2) { let f = gen_fault(r, &d.trace, true); faults.push(f); }
                        if r.chance(1, 4) { faults.push(Fault { at: op_at(r, &d.trace), kind: r.pick(&[5, 6, 7]), arg: r.below(100) as i64, arg2: 0 }); }
                    }
                }
                let _ = (n, damage);
                if file.special == 0 && !onto_itself && r.chance(1, 10) { file.special = r.pick(&[3, 4]); }
                c.files.push(file);
                if c.scenario != "no place for the output" && r.chance(1, 2) && cmd.kind < 2 { let f = stale(r, &cmd.out_path()); if !c.files.iter().any(|x| norm("/w", &x.path) == f.path) { c.files.push(f); } }
                // innocent bystanders, with names a careless program might use
                for x in ["pic1.png", "pic1.dds", "out.png", "out.dds.tmp", "texpresso.tmp", "/tmp/x"] { if r.chance(1, 4) && !c.files.iter().any(|y| norm("/w", &y.path) == norm("/w", x)) && norm("/w", x) != cmd.out_path() && norm("/w", x) != norm("/w", &cmd.infile) { c.files.push(FileDef { path: x.into(), pic: Pic { kind: 3, w: 9, seed: 1, ..Default::default() }, ..Default::default() }); } }
                let mut p = self.proc_of(r, &cmd, 400_000);
                p.faults = faults;
                let mut st = step1(p);
                if c.scenario == "write-faults" && r.chance(1, 3) { st.room = r.range(0, 900) as i64; }
                c.steps.push(st);
            }
            "C04" => {
                c.files.push(file);
                let mut cmd = cmd;
                if cmd.kind == 1 && !cmd.out_path().ends_with(".png") { cmd.outfile = "out.png".into(); }
                if pic.w * pic.h <= 150 && r.chance(1, 3) { cmd.alg = 2; }
                if r.chance(1, 3) { let mut f = stale(r, &cmd.out_path()); if r.chance(1, 2) { f.pic = gen_pic(r, if cmd.kind == 0 { 2 } else { 0 }, false); f.pic.w += 12; f.pic.h += 12; } if norm("/w", &f.path) != norm("/w", &name) { c.files.push(f); } }
                let d = self.dry(&c.files, &cmd);
                let writes: Vec<u64> = d.trace.iter().enumerate().filter(|x| x.1 .0 == 4 || x.1 .0 == 5).map(|x| x.0 as u64 + 1).collect();
                let create = d.trace.iter().enumerate().filter(|x| x.1 .0 == 1).nth(1).map_or(1, |x| x.0 as u64 + 1);
                if r.chance(1, 5) {
                    // read while it is written for the first time
                    c.files.truncate(1);
                    let mut p = self.proc_of(r, &cmd, d.steps);
                    if r.chance(1, 2) { p.faults.push(Fault { at: create, kind: 4, arg: r.pick(&[1, 5, 40, 200]), arg2: 1 }); }
                    let out = cmd.out_path();
                    let mut c2 = gen_cmd(r, &Pic { kind: if cmd.kind == 0 { 2 } else { 0 }, w: pic.w, h: pic.h, ..Default::default() }, &out);
                    c2.outfile = format!("second.{}", ["dds", "png"][c2.kind as usize]);
                    if r.chance(1, 3) { let f = stale(r, &c2.out_path()); c.files.push(f); }
                    let p2 = self.proc_of(r, &c2, d.steps);
                    c.scenario = "watched".into();
                    c.steps.push(Step { procs: vec![p, p2], room: -1, order_seed: r.u64(), order_gap: r.pick(&[1, 1, 2, 3, 6]), head: r.range(create, d.trace.len() as u64 + 3), ..Default::default() });
                    return c;
                }
                let total: u64 = d.trace.iter().filter(|t| t.0 == 4).map(|t| t.1 as u64).sum();
                let biggest = writes.iter().copied().max_by_key(|&w| d.trace[w as usize - 1].1).unwrap_or(create);
                let at = match r.below(5) { 0 => biggest, 1 => if writes.is_empty() { create } else { r.pick(&writes) }, 2 | 3 => r.range(create, d.trace.len() as u64), _ => d.trace.len() as u64 - r.below(3).min(d.trace.len() as u64 - 1) };
                let len = d.trace.get(at as usize - 1).map_or(1, |x| x.1.max(1)) as u64;
                let mut p = self.proc_of(r, &cmd, d.steps);
                let mut room = -1;
                match r.below(8) {
                    0 => p.faults.push(Fault { at, kind: 5, ..Default::default() }),
                    1 => p.faults.push(Fault { at, kind: 6, ..Default::default() }),
                    2 | 3 => p.faults.push(Fault { at, kind: 7, arg: r.below(len + 1) as i64, arg2: 0 }),
                    4 => room = r.below(total + 1) as i64,
                    5 => p.faults.push(Fault { at, kind: r.pick(&[1, 2]), arg: r.pick(&ERRS_W), arg2: W }),
                    6 => p.faults.push(Fault { at, kind: 12, arg: r.below(len + 1) as i64, arg2: r.range(0, 256) as i64 }),
                    _ => { p.faults.push(Fault { at: create, kind: 4, arg: r.pick(&[1, 5, 40]), arg2: 1 }); p.faults.push(Fault { at: r.range(create, create + total.min(3000)), kind: r.pick(&[5, 2]), arg: EIO, arg2: W }); }
                }
                let mut st = step1(p);
                st.room = room;
                c.steps.push(st);
                let out = cmd.out_path();
                let mut c2 = gen_cmd(r, &Pic { kind: if cmd.kind == 0 { 2 } else { 0 }, w: pic.w, h: pic.h, ..Default::default() }, &out);
                c2.outfile = format!("second.{}", ["dds", "png"][c2.kind as usize]);
                if r.chance(1, 3) { let f = stale(r, &c2.out_path()); c.files.push(f); }
                let p2 = self.proc_of(r, &c2, d.steps);
                c.steps.push(step1(p2));
            }
            "C05" => {
                let mut cmd = cmd;
                // a small input whose output is often shorter than what is there already
                c.files.push(file);
                if cmd.kind == 0 && r.chance(1, 2) { c.scenario = "round-trip".into(); if !cmd.out_path().to_lowercase().ends_with(".dds") { cmd.outfile = "mid.dds".into(); } }
                let mut hist: Vec<Step> = vec![];
                for i in 0..r.range(0, 3) {
                    // an earlier run: of the same command, or of another picture to the same output
                    let mut h = cmd.clone();
                    if r.chance(1, 2) {
                        let mut p2 = gen_pic(r, pic.kind, false);
                        p2.w += r.below(12) as usize;
                        let nm = gen_name(r, &p2, 10 + i as usize);
                        h = gen_cmd(r, &p2, &nm);
                        if h.alg == 2 { h.alg = 0 }
                        h.outfile = if cmd.outfile.is_empty() { cmd.out_path() } else { cmd.outfile.clone() };
                        if norm("/w", &nm) == cmd.out_path() { continue; }
                        c.files.push(FileDef { path: nm, pic: p2, ..Default::default() });
                    }
                    let d = self.dry(&c.files, &h);
                    let mut p = self.proc_of(r, &h, d.steps);
                    for _ in 0..r.pick(&[0, 1, 1, 2]) { let f = gen_fault(r, &d.trace, true); p.faults.push(f); }
                    if r.chance(1, 2) { p.faults.push(Fault { at: op_at(r, &d.trace), kind: r.pick(&[5, 6, 7, 12]), arg: r.below(300) as i64, arg2: r.range(0, 256) as i64 }); }
                    if r.chance(1, 8) { resource_fault(r, &mut p); }
                    let mut st = step1(p);
                    if r.chance(1, 5) { st.room = r.below(800) as i64; }
                    hist.push(st);
                }
                // or there is something that looks very much like the result: a good file with a flaw, or that of another picture
                if r.chance(1, 4) && c.files.len() < 3 && norm("/w", &c.files[0].path) != cmd.out_path() {
                    let mut p2 = c.files[0].pic.clone();
                    if r.chance(1, 2) { p2.seed ^= 1 + r.below(9); if r.chance(1, 2) { p2.img = r.below(4) as u32; } }
                    if let (b, Some(mut o)) = self.clean(&cmd, &make(&p2).bytes) { if b.ok() && o.len() > 8 {
                        let n = o.len() as u64;
                        match r.below(6) {
                            0 => o.truncate(r.below(n) as usize),
                            1 => { let k = (n - 1 - r.below(n.min(40))) as usize; for x in &mut o[k..] { *x = 0; } }
                            2 => { let k = r.below(n) as usize; for x in &mut o[k..] { *x = 0; } }
                            3 => { let k = r.below(n) as usize; o[k] ^= r.range(1, 255) as u8; }
                            4 => { for _ in 0..r.range(1, 20) { o.push(r.u8()); } }
                            _ => {}
                        }
                        c.files.push(FileDef { path: cmd.out_path(), pic: Pic { kind: 3, ..Default::default() }, hold: o.iter().map(|x| format!("{:02x}", x)).collect(), ..Default::default() });
                    } }
                }
                if hist.is_empty() || r.chance(1, 2) { let f = stale(r, &cmd.out_path()); if !c.files.iter().any(|x| norm("/w", &x.path) == f.path) { c.files.push(f); } }
                // leftovers with names a program might use for temporary files
                for x in [format!("{}.tmp", cmd.out_path()), "texpresso.tmp".into(), format!("{}.part", cmd.out_path())] { if r.chance(1, 6) { c.files.push(FileDef { path: x, pic: Pic { kind: 3, w: r.range(0, 5000) as usize, seed: 2, ..Default::default() }, ..Default::default() }); } }
                c.steps = hist;
                let p = self.proc_of(r, &cmd, 400_000);
                c.steps.push(step1(p));
                if c.scenario == "round-trip" {
                    let c2 = Cmd { kind: 1, infile: cmd.out_path(), outfile: "back.png".into(), ..Default::default() };
                    if r.chance(1, 3) { let f = stale(r, "/w/back.png"); c.files.push(f); }
                    let p2 = self.proc_of(r, &c2, 200_000);
                    c.steps.push(step1(p2));
                }
            }
            "C06" => {
                let n = r.pick(&[2, 2, 2, 3, 3, 4]);
                let mut st = Step { room: -1, order_seed: r.u64(), order_gap: r.pick(&[1, 1, 2, 4, 10, 30]), ..Default::default() };
                let mut outs: Vec<String> = vec![];
                // names that are easily taken for one another
                let family: Vec<&str> = match r.below(5) {
                    0 => vec!["out.dds", "sub/out.dds", "/tmp/out.dds"],
                    1 => vec!["out.dds", "out.png", "out", "out.tex"],
                    2 => vec!["out.dds", "OUT.dds", "Out.dds", "out.DDS"],
                    3 => vec!["out.dds", "out.dds.dds", "out.dds.tmp", ".out.dds"],
                    _ => vec![],
                };
                for i in 0..n {
                    let (pic, nm, mut cm);
                    if i > 0 && r.chance(1, 2) {
                        let f = r.pick(&c.files);
                        pic = f.pic.clone();
                        nm = f.path.clone();
                        cm = gen_cmd(r, &pic, &nm);
                    } else {
                        pic = { let k = pic_kind(r); gen_pic(r, k, true) };
                        nm = gen_name(r, &pic, i);
                        cm = gen_cmd(r, &pic, &nm);
                        c.files.push(FileDef { path: nm.clone(), pic: pic.clone(), ..Default::default() });
                    }
                    // different outputs, none of them anybody's input
                    let ext = ["dds", "png"][cm.kind as usize];
                    if outs.contains(&cm.out_path()) || r.chance(1, 2) { cm.outfile = r.pick(&[format!("out{}.{}", i, ext), format!("sub/out{}.{}", i, ext), format!("out.{}", i)]); }
                    if let Some(x) = family.get(i) { cm.outfile = x.to_string(); }
                    outs.push(cm.out_path());
                    let d = self.dry(&c.files, &cm);
                    let mut p = self.proc_of(r, &cm, d.steps);
                    if r.chance(1, 3) { let f = gen_fault(r, &d.trace, true); p.faults.push(f); }
                    if r.chance(1, 6) { p.faults.push(Fault { at: op_at(r, &d.trace), kind: r.pick(&[5, 6, 7]), arg: r.below(300) as i64, arg2: 0 }); }
                    if r.chance(1, 6) { p.faults.push(Fault { at: 1, kind: 4, arg: r.pick(&[1, 20]), arg2: 3 }); }
                    p.sched.pid = 100 + r.below(5) as u32; // identifiers may collide across machines or be reused
                    st.procs.push(p);
                }
                let ins: Vec<String> = c.files.iter().map(|f| norm("/w", &f.path)).collect();
                for p in &mut st.procs { if ins.contains(&p.cmd.out_path()) { let s = p.cmd.out_path(); p.cmd.outfile = format!("{}.out", s); } }
                // make sure they still differ
                let mut seen: Vec<String> = vec![];
                for (i, p) in st.procs.iter_mut().enumerate() { if seen.contains(&p.cmd.out_path()) { p.cmd.outfile = format!("unique{}", i); } seen.push(p.cmd.out_path()); }
                if r.chance(1, 3) { let s = r.pick(&seen); let f = stale(r, &s); c.files.push(f); }
                c.steps.push(st);
            }
            "C07" => {
                let k = if r.chance(1, 3) { 2 } else { 0 };
                let mut pic = gen_pic(r, k, true);
                if pic.kind == 2 { pic.opt &= 9; }
                if pic.kind == 0 && pic.idat < 17 { pic.idat = 17; }
                let nm = gen_name(r, &pic, 1);
                let mut cmd = gen_cmd(r, &pic, &nm);
                if cmd.alg == 2 { cmd.alg = 0; }
                let m = make(&pic);
                let mut f = FileDef { path: nm, pic: pic.clone(), ..Default::default() };
                let n = m.bytes.len() as u64;
                match (pic.kind, r.below(8)) {
                    (2, 0..=5) => f.damage.push(Damage { kind: 1, pos: if r.chance(1, 3) { n - 1 - r.below(n.min(20)) } else { r.below(n) }, val: 0 }),
                    (_, 0 | 1) => f.damage.push(Damage { kind: 1, pos: if r.chance(1, 2) { n - 1 - r.below(n.min(40)) } else { r.below(n) }, val: 0 }),
                    (_, 6 | 7) => f.damage.push(Damage { kind: 3, pos: r.u64() >> 1, val: r.pick(&[1, 2, 7, 100, 5000]) }),
                    _ => {
                        // a burst of at most 32 bits within one chunk; short chunks as likely as long ones
                        let x = if r.chance(1, 2) { r.pick(&m.critical) } else { r.pick(&chunks(&m.bytes)) };
                        // the length field and type are damaged in half of the cases
                        let (lo, hi) = if r.chance(1, 3) { (x.0, x.0 + 8) } else if r.chance(1, 4) { (x.1 - 4, x.1) } else { (x.0 + 8, x.1 - 4) };
                        let (lo, hi) = if lo < hi { (lo, hi) } else { (x.0, x.1) };
                        let len = r.pick(&[1, 1, 1, 2, 3, 8, 16, 32]);
                        let bits = (hi - lo) as u64 * 8;
                        let s = lo as u64 * 8 + r.below(bits);
                        let mut m = 1u64 | if len > 1 { (r.u64() & ((1 << (len - 1)) - 1)) | 1 << (len - 1) } else { 0 };
                        if len == 32 && r.chance(1, 2) { m = 0xffffffff; }
                        for b in 0..len { if m >> b & 1 == 1 { let p = s + b; if (p / 8) < x.1 as u64 { f.damage.push(Damage { kind: 2, pos: p / 8, val: 1 << (7 - p % 8) }); } } }
                    }
                }
                // several damages of one byte into one
                let mut v: Vec<Damage> = vec![];
                for d in f.damage { if let Some(o) = v.iter_mut().find(|o| d.kind == 2 && o.kind == 2 && o.pos == d.pos) { o.val ^= d.val; } else { v.push(d); } }
                f.damage = v;
                c.scenario = "damaged".into();
                c.files.push(f);
                if r.chance(1, 2) { let f = stale(r, &cmd.out_path()); if norm("/w", &f.path) != norm("/w", &cmd.infile) { c.files.push(f); } }
                let p = self.proc_of(r, &cmd, 300_000);
                c.steps.push(step1(p));
            }
            _ => { // C08
                c.files.push(file);
                if into_pipe { c.files.push(pipe_at(&cmd)); }
                let mut cmd = cmd;
                match r.below(6) {
                    0 => { c.scenario = "damaged".into(); let n = c.files[0].bytes().len() as u64; for _ in 0..r.range(1, 4) { let d = if r.chance(1, 3) { Damage { kind: 1, pos: r.below(n), val: 0 } } else { Damage { kind: 2, pos: { let m = r.pick(&[30, 200, 1 << 30]); r.below(n.min(m)) }, val: r.range(1, 255) as u32 } }; c.files[0].damage.push(d); } }
                    1 if r.chance(1, 3) => { c.scenario = "junk".into(); c.files[0].pic = Pic { kind: 3, w: r.below(500) as usize, seed: r.u64(), ..Default::default() }; }
                    2 if r.chance(1, 4) => { c.scenario = "bad".into(); cmd.infile = "nope.png".into(); }
                    _ => {}
                }
                if cmd.kind == 0 && r.chance(1, 10) { cmd.longopt = true; cmd.weights = (0..3).map(|_| r.pick(&[0.0f32, -1.0, f32::INFINITY, f32::NEG_INFINITY, 1e38, 1e-40, 1.0])).collect(); }
                let d = self.dry(&c.files, &cmd);
                let mut p = self.proc_of(r, &cmd, d.steps);
                for _ in 0..r.pick(&[0, 1, 1, 1, 2, 3]) {
                    let mut f = gen_fault(r, &d.trace, true);
                    if r.chance(1, 2) && matches!(f.kind, 1 | 3) { let (op, _) = d.trace.get(f.at as usize - 1).copied().unwrap_or((4, 0)); let e = loop { let e = err_for(r, op); if e != EINTR { break e; } }; f = Fault { at: f.at, kind: 2, arg: e, arg2: r.pick(&[R, W, O, M, 15, R | M]) }; }
                    if r.chance(1, 8) { f = Fault { at: f.at, kind: 9, ..Default::default() }; }
                    p.faults.push(f);
                }
                if r.chance(1, 3) { resource_fault(r, &mut p); }
                let mut st = step1(p);
                if r.chance(1, 6) { st.room = r.below(600) as i64; }
                c.steps.push(st);
            }
        }
        c
    }
}

impl World for CliW {
    type Case = CliCase;
    fn gen(&mut self, prop: &str, seed: u64, thorough: bool) -> CliCase { let c = self.generate(prop, seed, thorough); self.r.counters.clear(); c }
    fn run(&mut self, c: &CliCase) -> Outcome<CliCase> {
        self.log.clear(); self.orders.clear(); self.kinds.clear(); self.hashes = 5; self.switches = 0; self.peak = 0;
        self.r.counters.clear();
        let violation = self.judge(c);
        if matches!(c.prop.as_str(), "C03" | "C07") { for f in &c.files { self.hashes = fnv_from(self.hashes, &f.bytes()); } self.hashes = fnv_from(self.hashes, c.steps[0].procs[0].cmd.describe().as_bytes()); }
        let mut d = fnv(format!("{:?} {}", violation, self.hashes).as_bytes());
        for r in &self.log { d = fnv_from(d, format!("{} {} {} {} {} {} {} {}", r.code, r.end, r.killed, r.steps, r.ops, r.trace_hash, r.err, r.out).as_bytes()); }
        // the main steps, in order, with every decision written out
        let mut e = c.clone();
        let mut k = 0;
        let mut ok = true;
        for (si, st) in e.steps.iter_mut().enumerate() {
            if si >= self.orders.len() { break; }
            if !st.order_explicit { st.order = self.orders[si].clone(); st.order_explicit = true; }
            for p in &mut st.procs { match self.log[k].sched.clone() { Some(s) => p.sched = s, None => ok = false } k += 1; }
        }
        let mut counters = self.r.counters.clone();
        for (k, v) in &self.kinds { counters.insert(format!("kind.{}", k), *v); }
        *counters.entry(format!("kind.scenario_{}", c.scenario.replace(' ', "_").replace(':', ""))).or_default() += 1;
        for st in &c.steps { for p in &st.procs { *counters.entry(format!("kind.{}", match p.cmd.kind { 0 => "compress", 1 => "decompress", _ => "arguments" })).or_default() += 1; } }
        for f in &c.files { if let Some(n) = ["", "directory", "unreadable", "read_only", "symbolic_link", "in_read_only_directory", "of_unknown_length", "input_pipe", "output_pipe"].get(f.special as usize).filter(|n| !n.is_empty()) { *counters.entry(format!("kind.file_{}", n)).or_default() += 1; } }
        if std::env::var_os("VSIM_MEM").is_some() { for (i, x) in self.log.iter().enumerate() { if i == 0 { let f = &c.files[0]; let t = format!("mem {} {} {} {} {} {} {}\n", x.mem_peak, f.bytes().len(), f.pic.w * f.pic.h, f.pic.kind, x.code, f.damage.len(), c.scenario.replace(' ', "_")); eprint!("{}", t); } } }
        if c.prop == "C10" { counters.insert("max_bytes_per_hundred_pixels_and_input_bytes".into(), self.peak); counters.insert("max_heap_bytes_of_one_process".into(), self.log.iter().map(|r| r.mem_peak).max().unwrap_or(0)); }
        counters.insert("max_system_calls_of_one_process".into(), self.log.iter().map(|r| r.ops).max().unwrap_or(0));
        counters.insert("max_steps_of_one_process".into(), self.log.iter().map(|r| r.steps).max().unwrap_or(0));
        counters.insert("max_simultaneously_runnable_threads".into(), self.log.iter().map(|r| r.max_runnable).max().unwrap_or(0));
        let sample = format!("[{}] {}", c.scenario, c.steps.iter().map(|s| format!("{{{}{}}}", s.procs.iter().map(|p| format!("{} faults={:?}", p.cmd.describe(), p.faults.iter().map(|f| (f.at, f.kind, f.arg, f.arg2)).collect::<Vec<_>>())).collect::<Vec<_>>().join(" & "), if s.room >= 0 { format!(" room={}", s.room) } else { String::new() })).collect::<Vec<_>>().join(" ; "));
        let nontrivial = self.log.iter().any(|r| r.fault_hit || r.killed) || self.switches > 4 || c.files.iter().any(|f| !f.damage.is_empty() || f.special > 0) || c.scenario.starts_with("bad");
        Outcome { violation, explicit: if ok { Some(e) } else { None }, hash: self.hashes, nontrivial, digest: d, counters, sample }
    }
    fn shrink(&mut self, c: &CliCase) -> Vec<CliCase> {
        let mut v = vec![];
        let mut push = |f: &dyn Fn(&mut CliCase)| { let mut x = c.clone(); f(&mut x); if x != *c { v.push(x); } };
        let fixed_tail = match c.prop.as_str() { "C04" => if c.scenario == "watched" { 1 } else { 2 }, "C05" => if c.scenario == "round-trip" { 2 } else { 1 }, _ => 1 };
        for i in 0..c.steps.len().saturating_sub(fixed_tail) { push(&|x| { x.steps.remove(i); }); }
        if c.prop == "C01" && c.steps.len() > 1 { push(&|x| { x.steps.pop(); }); }
        for (i, st) in c.steps.iter().enumerate() {
            if st.procs.len() > 1 { for j in 0..st.procs.len() { push(&|x| { x.steps[i].procs.remove(j); x.steps[i].order.clear(); x.steps[i].order_explicit = false; }); } }
            push(&|x| { x.steps[i].room = -1; });
            for (j, p) in st.procs.iter().enumerate() {
                push(&|x| { let s = &mut x.steps[i].procs[j].sched; let (a, m, ap, t, tp) = (s.alloc_fail_at, s.alloc_min, s.alloc_persist, s.thread_fail_at, s.thread_persist); let b = s.budget; *s = Sched::quiet(1); s.alloc_fail_at = a; s.alloc_min = m; s.alloc_persist = ap; s.thread_fail_at = t; s.thread_persist = tp; s.budget = b; });
                push(&|x| { x.steps[i].procs[j].sched.alloc_fail_at = 0; });
                push(&|x| { x.steps[i].procs[j].sched.thread_fail_at = 0; });
                push(&|x| { x.steps[i].procs[j].sched.mem_junk = 0; });
                push(&|x| { x.steps[i].procs[j].sched.layout = 0; });
                push(&|x| { x.steps[i].procs[j].workers = 1; });
                push(&|x| { x.steps[i].procs[j].streams = 0; });
                push(&|x| { x.steps[i].procs[j].console = 0; });
                for k in 0..p.env.len() { push(&|x| { x.steps[i].procs[j].env.remove(k); }); }
                for k in 0..p.faults.len() { push(&|x| { x.steps[i].procs[j].faults.remove(k); }); }
                push(&|x| { x.steps[i].procs[j].cmd.weights.clear(); });
                push(&|x| { x.steps[i].procs[j].cmd.wba = false; });
                push(&|x| { x.steps[i].procs[j].cmd.longopt = false; });
                push(&|x| { x.steps[i].procs[j].cmd.style = 0; });
                push(&|x| { x.steps[i].procs[j].cmd.alg = 0; });
                push(&|x| { x.steps[i].procs[j].cmd.fmt = 0; });
            }
        }
        for i in 0..c.files.len() {
            if i > 0 { push(&|x| { x.files.remove(i); }); }
            for k in 0..c.files[i].damage.len() { push(&|x| { x.files[i].damage.remove(k); }); }
            // changing the picture moves the places of its damage; keep those cases
            if c.files[i].damage.is_empty() {
                push(&|x| { let p = &mut x.files[i].pic; if p.kind < 3 { p.w = (p.w / 2).max(1); } else { p.w /= 2; } });
                push(&|x| { let p = &mut x.files[i].pic; p.h = (p.h / 2).max(1); });
                push(&|x| { let p = &mut x.files[i].pic; if p.kind < 3 && p.w > 1 { p.w -= 1; } });
                push(&|x| { let p = &mut x.files[i].pic; if p.kind < 3 && p.h > 1 { p.h -= 1; } });
                push(&|x| { let p = &mut x.files[i].pic; if p.kind == 0 { p.ct = 6; p.depth = 8; p.opt = 0; p.idat = 8192; } else if p.kind == 2 { p.opt = 0; } });
                push(&|x| { let p = &mut x.files[i].pic; if p.kind < 3 { p.img = 0; } });
            }
        }
        v
    }
    fn reseed(&mut self, c: &CliCase, salt: u64) -> CliCase {
        let mut x = c.clone();
        let mut r = Rng::derive(salt, 0x7777);
        for st in &mut x.steps {
            st.order_explicit = false; st.order.clear(); st.order_seed = r.u64();
            for p in &mut st.procs {
                let old = p.sched.clone();
                if old == Sched::quiet(1) || old.seed == 1 { continue; }
                p.sched = Sched::random(&mut r, old.est_len.max(1000));
                p.sched.budget = old.budget; p.sched.alloc_fail_at = old.alloc_fail_at; p.sched.alloc_min = old.alloc_min; p.sched.alloc_persist = old.alloc_persist;
                p.sched.thread_fail_at = old.thread_fail_at; p.sched.thread_persist = old.thread_persist; p.sched.pid = old.pid; p.sched.mem_junk = old.mem_junk; p.sched.layout = old.layout;
            }
        }
        x
    }
    fn declists(&self, c: &CliCase) -> usize { c.steps.iter().map(|s| 1 + s.procs.len()).sum() }
    fn get_dec(&self, c: &CliCase, i: usize) -> usize { let mut i = i; for s in &c.steps { if i == 0 { return s.order.len(); } i -= 1; if i < s.procs.len() { return s.procs[i].sched.dec.len(); } i -= s.procs.len(); } 0 }
    fn keep_dec(&self, c: &CliCase, i: usize, keep: &[usize]) -> CliCase {
        let mut x = c.clone();
        let mut i = i;
        for s in &mut x.steps {
            if i == 0 { s.order = keep.iter().map(|&k| s.order[k]).collect(); break; }
            i -= 1;
            if i < s.procs.len() { let d = &mut s.procs[i].sched.dec; *d = keep.iter().map(|&k| d[k]).collect(); break; }
            i -= s.procs.len();
        }
        x
    }
    fn cov(&self) -> Option<Vec<u8>> { Some(self.r.cov()) }
    fn rule(&self, prop: &str) -> String {
        format!("{}: each run draws input files, command lines, damage, a history of steps, and for every process a thread schedule and a list of faults at chosen system calls (chosen from a fault-free dry run of the same command), and executes the real tool as real processes on the simulated disk. Non-trivial: a fault or kill took effect, an input was damaged or unusable, or more than 4 context switches happened. Distinct: the combination of thread interleaving, system-call sequence and interleaving of the processes' calls differs{}.", prop, if matches!(prop, "C03" | "C07") { ", or the input bytes or the command line" } else { "" })
    }
    fn components(&self, _prop: &str) -> Json {
        Json::obj(vec![
            ("real", Json::s("the texpresso executable built from /repo/cli and /repo/lib: argument parsing, clap, png, jpeg-decoder, ddsfile, flate2, texpresso, rayon, Rust std")),
            ("simulated", Json::s("file system, process kill and power loss, thread scheduling, futex, clocks, getrandom, process id, memory contents, allocation and thread-creation failure (simrt and vsim)")),
            ("reference", Json::s("own PNG/DDS writers and strict readers, BCn decoder written from the format definition, single-block compressor of the serial build; JPEG pixel values from jpeg-decoder without threads")),
        ])
    }
}

//! The simulated disk: a small in-memory file system that the tool's system calls act upon.

use std::collections::{BTreeMap, BTreeSet};

pub const ENOENT: i64 = 2;
pub const EINTR: i64 = 4;
pub const EIO: i64 = 5;
pub const EBADF: i64 = 9;
pub const ENOMEM: i64 = 12;
pub const EACCES: i64 = 13;
pub const EEXIST: i64 = 17;
pub const ENOTDIR: i64 = 20;
pub const EISDIR: i64 = 21;
pub const EINVAL: i64 = 22;
pub const EMFILE: i64 = 24;
pub const EFBIG: i64 = 27;
pub const ENOSPC: i64 = 28;
pub const ESPIPE: i64 = 29;
pub const EROFS: i64 = 30;
pub const ENOSYS: i64 = 38;
pub const ENOTEMPTY: i64 = 39;
pub const EDQUOT: i64 = 122;

/// Unsized: a file whose length nobody knows before it has been read, as in /proc.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Plain, Unsized, Pipe }
#[derive(Clone, Debug, PartialEq)]
pub struct Inode { pub dir: bool, pub link: Option<String>, pub data: Vec<u8>, pub mode: u32, /** length at the last fsync */ pub synced: usize, /** seconds since 1970 */ pub mtime: u64, pub kind: Kind, /** read from a pipe so far */ pub taken: usize }
#[derive(Clone)]
pub struct Disk {
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<String, usize>,
    /// bytes that may still be allocated, if the disk is limited
    pub room: Option<i64>,
    /// every path created, modified, renamed or deleted since the log was cleared
    pub touched: BTreeSet<String>,
    /// changes so far; times of last modification advance with it
    pub tick: u64,
}
#[derive(Clone)]
pub struct OpenFile { pub ino: usize, pub pos: usize, pub flags: i64 }

pub fn norm(cwd: &str, p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", cwd, p) };
    let mut v: Vec<&str> = vec![];
    for c in full.split('/') { match c { "" | "." => {} ".." => { v.pop(); } c => v.push(c) } }
    format!("/{}", v.join("/"))
}
fn parent(p: &str) -> &str { let i = p.rfind('/').unwrap(); if i == 0 { "/" } else { &p[..i] } }

impl Disk {
    pub fn new() -> Disk {
        let mut d = Disk { inodes: vec![], names: BTreeMap::new(), room: None, touched: BTreeSet::new(), tick: 0 };
        for p in ["/", "/w", "/w/sub", "/tmp"] { d.add_dir(p); }
        d
    }
    pub fn add_dir(&mut self, p: &str) { self.names.insert(p.into(), self.inodes.len()); self.inodes.push(Inode { dir: true, link: None, data: vec![], mode: 0o755, synced: 0, mtime: 1_400_000_000, kind: Kind::Plain, taken: 0 }); }
    pub fn put(&mut self, p: &str, data: &[u8]) {
        let p = norm("/w", p);
        // some of these files are older than anything the processes write, some newer
        let mtime = 1_460_000_000 + crate::util::fnv(p.as_bytes()) % 50_000_000;
        self.names.insert(p, self.inodes.len());
        self.inodes.push(Inode { dir: false, link: None, data: data.to_vec(), mode: 0o644, synced: data.len(), mtime, kind: Kind::Plain, taken: 0 });
    }
    pub fn get(&self, p: &str) -> Option<&[u8]> {
        let i = *self.names.get(&self.follow(&norm("/w", p)))?;
        if self.inodes[i].dir { None } else { Some(&self.inodes[i].data) }
    }
    pub fn kind(&mut self, p: &str, k: Kind) { let i = self.names[&norm("/w", p)]; self.inodes[i].kind = k; }
    pub fn chmod(&mut self, p: &str, mode: u32) { let i = self.names[&norm("/w", p)]; self.inodes[i].mode = mode; }
    /// everything visible by name
    pub fn snapshot(&self) -> BTreeMap<String, (bool, u32, Vec<u8>)> {
        self.names.iter().map(|(k, &i)| (k.clone(), (self.inodes[i].dir, self.inodes[i].mode, self.inodes[i].data.clone()))).collect()
    }
    fn now(&mut self) -> u64 { self.tick += 1; 1_500_000_000 + self.tick / 4 }
    fn touch(&mut self, ino: usize) { self.inodes[ino].mtime = self.now(); let v: Vec<String> = self.names.iter().filter(|(_, &i)| i == ino).map(|(k, _)| k.clone()).collect(); self.touched.extend(v); }
    pub fn follow(&self, p: &str) -> String {
        let mut q = p.to_string();
        for _ in 0..8 {
            match self.names.get(&q).and_then(|&i| self.inodes[i].link.clone()) { Some(t) => q = norm(parent(&q), &t), None => break }
        }
        q
    }
    fn parent_ok(&self, p: &str) -> Result<(), i64> {
        match self.names.get(parent(p)) { None => Err(ENOENT), Some(&i) if !self.inodes[i].dir => Err(ENOTDIR), Some(&i) if self.inodes[i].mode & 0o200 == 0 => Err(EACCES), _ => Ok(()) }
    }
    pub fn open(&mut self, path: &str, flags: i64, mode: u32) -> Result<OpenFile, i64> {
        let (acc, creat, excl, trunc) = (flags & 3, flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0);
        let dirflag = flags & 0o200000 != 0;
        let tmpfile = flags & 0o20200000 == 0o20200000;
        if tmpfile { return Err(95); }
        let path = self.follow(path);
        if path.len() > 4000 { return Err(36); }
        // a component that is a file
        let mut q = parent(&path).to_string();
        while q != "/" { if let Some(&i) = self.names.get(&q) { if !self.inodes[i].dir { return Err(ENOTDIR); } } q = parent(&q).to_string(); }
        if let Some(&i) = self.names.get(&path) {
            if creat && excl { return Err(EEXIST); }
            let n = &self.inodes[i];
            if n.dir { if acc != 0 || creat { return Err(EISDIR); } }
            else if dirflag { return Err(ENOTDIR); }
            if !n.dir && acc != 1 && n.mode & 0o400 == 0 { return Err(EACCES); }
            if !n.dir && acc != 0 && n.mode & 0o200 == 0 { return Err(EACCES); }
            if trunc && acc != 0 && !n.dir && n.kind != Kind::Pipe {
                let old = self.inodes[i].data.len();
                self.inodes[i].data.clear();
                self.inodes[i].synced = 0;
                if let Some(r) = &mut self.room { *r += old as i64; }
                self.touch(i);
            }
            return Ok(OpenFile { ino: i, pos: 0, flags });
        }
        if !creat { return Err(ENOENT); }
        self.parent_ok(&path)?;
        self.names.insert(path.clone(), self.inodes.len());
        self.touched.insert(path.clone());
        let mtime = self.now();
        self.inodes.push(Inode { dir: false, link: None, data: vec![], mode: mode & 0o777 & !0o022, synced: 0, mtime, kind: Kind::Plain, taken: 0 });
        Ok(OpenFile { ino: self.inodes.len() - 1, pos: 0, flags })
    }
    pub fn read(&self, f: &OpenFile, pos: usize, n: usize) -> Result<&[u8], i64> {
        if f.flags & 3 == 1 { return Err(EBADF); }
        let i = &self.inodes[f.ino];
        if i.dir { return Err(EISDIR); }
        let s = pos.min(i.data.len());
        Ok(&i.data[s..(s.saturating_add(n)).min(i.data.len())])
    }
    pub fn write(&mut self, f: &OpenFile, pos: usize, buf: &[u8]) -> Result<usize, i64> {
        if f.flags & 3 == 0 { return Err(EBADF); }
        if buf.is_empty() { return Ok(0); }
        if pos + buf.len() > 1 << 30 { return Err(EFBIG); }
        let len = self.inodes[f.ino].data.len();
        let mut n = buf.len();
        let grow = (pos + n).saturating_sub(len) as i64;
        if let Some(r) = self.room {
            if grow > r {
                let keep = n as i64 - (grow - r.max(0));
                if keep <= 0 { return Err(ENOSPC); }
                n = keep as usize;
            }
        }
        let grow = (pos + n).saturating_sub(len) as i64;
        if let Some(r) = &mut self.room { *r -= grow; }
        let d = &mut self.inodes[f.ino].data;
        if d.len() < pos + n { d.resize(pos + n, 0); }
        d[pos..pos + n].copy_from_slice(&buf[..n]);
        let s = &mut self.inodes[f.ino].synced;
        *s = (*s).min(pos);
        self.touch(f.ino);
        Ok(n)
    }
    pub fn truncate(&mut self, ino: usize, n: usize) -> Result<(), i64> {
        if self.inodes[ino].kind == Kind::Pipe { return Err(EINVAL); }
        if n > 1 << 30 { return Err(EFBIG); }
        let d = n as i64 - self.inodes[ino].data.len() as i64;
        if let Some(r) = &mut self.room { if d > *r { return Err(ENOSPC); } *r -= d; }
        self.inodes[ino].data.resize(n, 0);
        self.inodes[ino].synced = self.inodes[ino].synced.min(n);
        self.touch(ino);
        Ok(())
    }
    pub fn rename(&mut self, a: &str, b: &str) -> Result<(), i64> {
        let i = *self.names.get(a).ok_or(ENOENT)?;
        self.parent_ok(b)?;
        if let Some(&j) = self.names.get(b) { if self.inodes[j].dir { return Err(if self.inodes[i].dir { ENOTEMPTY } else { EISDIR }); } if i == j { return Ok(()); } }
        if self.inodes[i].dir { return Err(EINVAL); }
        self.names.remove(a);
        self.names.insert(b.into(), i);
        self.touched.insert(a.into());
        self.touched.insert(b.into());
        Ok(())
    }
    pub fn unlink(&mut self, p: &str, dir: bool) -> Result<(), i64> {
        let i = *self.names.get(p).ok_or(ENOENT)?;
        if self.inodes[i].dir != dir { return Err(if dir { ENOTDIR } else { EISDIR }); }
        if dir && self.names.keys().any(|k| k.starts_with(&format!("{}/", p))) { return Err(ENOTEMPTY); }
        self.parent_ok(p)?;
        self.names.remove(p);
        self.touched.insert(p.into());
        Ok(())
    }
    pub fn mkdir(&mut self, p: &str) -> Result<(), i64> {
        if self.names.contains_key(p) { return Err(EEXIST); }
        self.parent_ok(p)?;
        self.add_dir(p);
        self.touched.insert(p.into());
        Ok(())
    }
    pub fn link(&mut self, a: &str, b: &str) -> Result<(), i64> {
        let i = *self.names.get(a).ok_or(ENOENT)?;
        if self.names.contains_key(b) { return Err(EEXIST); }
        self.parent_ok(b)?;
        self.names.insert(b.into(), i);
        self.touched.insert(b.into());
        Ok(())
    }
    pub fn symlink(&mut self, target: &str, p: &str) -> Result<(), i64> {
        if self.names.contains_key(p) { return Err(EEXIST); }
        self.parent_ok(p)?;
        self.names.insert(p.into(), self.inodes.len());
        self.inodes.push(Inode { dir: false, link: Some(target.into()), data: vec![], mode: 0o777, synced: 0, mtime: 1_400_000_000, kind: Kind::Plain, taken: 0 });
        self.touched.insert(p.into());
        Ok(())
    }
    pub fn lookup(&self, p: &str, nofollow: bool) -> Result<usize, i64> {
        let q = if nofollow { p.to_string() } else { self.follow(p) };
        self.names.get(&q).copied().ok_or(ENOENT)
    }
    pub fn chmod_ino(&mut self, i: usize, mode: u32) { self.inodes[i].mode = mode & 0o7777; self.touch(i); }
}

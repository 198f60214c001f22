//! File formats written and read without the crates the tool uses: PNG, DDS, and a baseline JPEG
//! encoder.  These make the inputs and judge the outputs.
use crate::imggen;
use crate::jstruct;
use crate::util::*;

// ------------------------------------------------------------------ checksums
pub fn crc32(data: &[u8]) -> u32 {
    static TABLE: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = TABLE.get_or_init(|| std::array::from_fn(|i| { let mut c = i as u32; for _ in 0..8 { c = if c & 1 == 1 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 } } c }));
    let mut c = !0u32;
    for &b in data { c = t[((c ^ b as u32) & 255) as usize] ^ (c >> 8); }
    !c
}
fn adler(data: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for &x in data { a = (a + x as u32) % 65521; b = (b + a) % 65521; }
    b << 16 | a
}
// ------------------------------------------------------------------ deflate
struct BitW { out: Vec<u8>, acc: u32, n: u32 }
impl BitW {
    fn put(&mut self, v: u32, n: u32) { for i in 0..n { self.acc |= ((v >> i) & 1) << self.n; self.n += 1; if self.n == 8 { self.out.push(self.acc as u8); self.acc = 0; self.n = 0; } } }
    fn huff(&mut self, code: u32, n: u32) { for i in (0..n).rev() { self.put((code >> i) & 1, 1); } }
    fn flush(&mut self) { if self.n > 0 { self.out.push(self.acc as u8); self.acc = 0; self.n = 0; } }
}
fn fixed_lit(w: &mut BitW, s: u32) {
    match s {
        0..=143 => w.huff(0x30 + s, 8),
        144..=255 => w.huff(0x190 + s - 144, 9),
        256..=279 => w.huff(s - 256, 7),
        _ => w.huff(0xC0 + s - 280, 8),
    }
}
/// mode 0: stored blocks, 1: fixed codes with literals and short runs, 2: the same and long runs of a byte
pub fn zlib(data: &[u8], mode: u32) -> Vec<u8> {
    let mut out = vec![0x78, 0x01];
    if mode == 0 {
        let mut chunks: Vec<&[u8]> = data.chunks(1000).collect();
        if chunks.is_empty() { chunks.push(&[]); }
        let n = chunks.len();
        for (i, c) in chunks.into_iter().enumerate() {
            out.push((i + 1 == n) as u8);
            out.extend_from_slice(&(c.len() as u16).to_le_bytes());
            out.extend_from_slice(&(!(c.len() as u16)).to_le_bytes());
            out.extend_from_slice(c);
        }
    } else {
        let mut w = BitW { out: vec![], acc: 0, n: 0 };
        w.put(1, 1);
        w.put(1, 2);
        let mut i = 0;
        while i < data.len() {
            // runs: distance 1 (same byte) or 4, length 3..=10 (codes 257..=264 have no extra bits)
            let mut done = false;
            while mode == 2 && i > 0 && i + 258 <= data.len() && data[i - 1..i + 258].iter().all(|&b| b == data[i]) { fixed_lit(&mut w, 285); w.huff(0, 5); i += 258; }
            if i >= data.len() { break; }
            for (dist, dcode) in [(1usize, 0u32), (4, 3), (3, 2)] {
                if i >= dist {
                    let mut l = 0;
                    while l < 10 && i + l < data.len() && data[i + l] == data[i + l - dist] { l += 1; }
                    if l >= 3 { fixed_lit(&mut w, 257 + l as u32 - 3); w.huff(dcode, 5); i += l; done = true; break; }
                }
            }
            if !done { fixed_lit(&mut w, data[i] as u32); i += 1; }
        }
        fixed_lit(&mut w, 256);
        w.flush();
        out.extend_from_slice(&w.out);
    }
    out.extend_from_slice(&adler(data).to_be_bytes());
    out
}
struct BitR<'a> { d: &'a [u8], pos: usize }
impl<'a> BitR<'a> {
    fn bit(&mut self) -> Result<u32, String> {
        let b = *self.d.get(self.pos / 8).ok_or("deflate stream ends early")?;
        let r = (b >> (self.pos % 8)) & 1;
        self.pos += 1;
        Ok(r as u32)
    }
    fn bits(&mut self, n: u32) -> Result<u32, String> { let mut v = 0; for i in 0..n { v |= self.bit()? << i; } Ok(v) }
}
struct Huff { count: [u16; 16], sym: Vec<u16> }
impl Huff {
    fn new(len: &[u8]) -> Huff {
        let mut count = [0u16; 16];
        for &l in len { count[l as usize] += 1; }
        count[0] = 0;
        let mut offs = [0u16; 16];
        for i in 1..16 { offs[i] = offs[i - 1] + count[i - 1]; }
        let mut sym = vec![0u16; len.len()];
        for (s, &l) in len.iter().enumerate() { if l != 0 { sym[offs[l as usize] as usize] = s as u16; offs[l as usize] += 1; } }
        Huff { count, sym }
    }
    fn get(&self, r: &mut BitR) -> Result<u16, String> {
        let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
        for l in 1..16 {
            code |= r.bit()? as i32;
            let c = self.count[l] as i32;
            if code - c < first { return Ok(self.sym[(index + code - first) as usize]); }
            index += c;
            first = (first + c) << 1;
            code <<= 1;
        }
        Err("bad huffman code".into())
    }
}
pub fn unzlib(d: &[u8]) -> Result<Vec<u8>, String> {
    if d.len() < 6 || d[0] & 15 != 8 || (d[0] as u32 * 256 + d[1] as u32) % 31 != 0 || d[1] & 32 != 0 { return Err("bad zlib header".into()); }
    let mut r = BitR { d, pos: 16 };
    let mut out = vec![];
    const LB: [u16; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
    const LE: [u32; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
    const DB: [u16; 30] = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577];
    loop {
        let last = r.bit()?;
        match r.bits(2)? {
            0 => {
                r.pos = (r.pos + 7) / 8 * 8;
                let n = r.bits(16)? as usize;
                let m = r.bits(16)? as usize;
                if n != !m & 0xffff { return Err("bad stored block".into()); }
                let s = r.pos / 8;
                out.extend_from_slice(d.get(s..s + n).ok_or("stored block ends early")?);
                r.pos += n * 8;
            }
            t @ (1 | 2) => {
                let (lit, dist);
                if t == 1 {
                    let mut l = [8u8; 288];
                    for i in 144..256 { l[i] = 9; }
                    for i in 256..280 { l[i] = 7; }
                    lit = Huff::new(&l);
                    dist = Huff::new(&[5; 30]);
                } else {
                    let (nl, nd, nc) = (r.bits(5)? as usize + 257, r.bits(5)? as usize + 1, r.bits(4)? as usize + 4);
                    let mut cl = [0u8; 19];
                    for i in 0..nc { cl[[16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15][i]] = r.bits(3)? as u8; }
                    let h = Huff::new(&cl);
                    let mut l: Vec<u8> = vec![];
                    while l.len() < nl + nd {
                        match h.get(&mut r)? {
                            s @ 0..=15 => l.push(s as u8),
                            16 => { let p = *l.last().ok_or("bad repeat")?; for _ in 0..3 + r.bits(2)? { l.push(p); } }
                            17 => for _ in 0..3 + r.bits(3)? { l.push(0); },
                            _ => for _ in 0..11 + r.bits(7)? { l.push(0); },
                        }
                    }
                    lit = Huff::new(&l[..nl]);
                    dist = Huff::new(&l[nl..nl + nd]);
                }
                loop {
                    let s = lit.get(&mut r)? as usize;
                    if s < 256 { out.push(s as u8); continue; }
                    if s == 256 { break; }
                    if s > 285 { return Err("bad length code".into()); }
                    let len = LB[s - 257] as usize + r.bits(LE[s - 257])? as usize;
                    let ds = dist.get(&mut r)? as usize;
                    if ds > 29 { return Err("bad distance code".into()); }
                    let dd = DB[ds] as usize + r.bits(if ds < 2 { 0 } else { ds as u32 / 2 - 1 })? as usize;
                    if dd > out.len() { return Err("distance too far".into()); }
                    for _ in 0..len { out.push(out[out.len() - dd]); }
                }
            }
            _ => return Err("bad block type".into()),
        }
        if last == 1 { break; }
    }
    let p = (r.pos + 7) / 8;
    if d.len() < p + 4 || u32::from_be_bytes(d[p..p + 4].try_into().unwrap()) != adler(&out) { return Err("zlib checksum wrong or missing".into()); }
    if d.len() != p + 4 { return Err("bytes after the zlib stream".into()); }
    Ok(out)
}
// ------------------------------------------------------------------ PNG
fn chunk(out: &mut Vec<u8>, ty: &[u8; 4], data: &[u8]) {
    out.extend_from_slice(&(data.len() as u32).to_be_bytes());
    let s = out.len();
    out.extend_from_slice(ty);
    out.extend_from_slice(data);
    let c = crc32(&out[s..]);
    out.extend_from_slice(&c.to_be_bytes());
}
fn paeth(a: u8, b: u8, c: u8) -> u8 {
    let (a, b, c) = (a as i32, b as i32, c as i32);
    let p = a + b - c;
    let (pa, pb, pc) = ((p - a).abs(), (p - b).abs(), (p - c).abs());
    (if pa <= pb && pa <= pc { a } else if pb <= pc { b } else { c }) as u8
}
const ADAM7: [(usize, usize, usize, usize); 7] = [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)];

jstruct! {
/// An input picture.  kind 0 PNG, 1 JPEG, 2 DDS, 3 raw bytes / other
pub struct Pic {
    pub kind: u32, pub w: usize, pub h: usize, pub img: u32, pub seed: u64,
    /// PNG: colour type (0 grey, 2 rgb, 3 palette, 4 grey+alpha, 6 rgba), bit depth, options bits
    /// (1 interlaced, 2 stored deflate, 4 tRNS, 8 ancillary chunks, 16 one filter for all rows, 32 colour profiles and other optional chunks, 64 animation, 128 empty IDAT chunks,
    /// 256 a profile and texts that expand to megabytes, 512 thousands of texts, 1024 an animation of many frames, 2048 megabytes of image data too many), IDAT size
    pub ct: u32, pub depth: u32, pub opt: u32, pub idat: usize,
    /// JPEG: 1 or 3 components, restart interval in ct; DDS: fmt 0..4, opt 1 legacy header, 2 mip levels, 4 array layers, 8 odd flags
    pub fmt: u8,
    /// extra bytes appended
    pub tail: usize,
}
}
/// (file bytes, width, height, RGBA pixels as the format defines them)
pub struct Made { pub bytes: Vec<u8>, pub w: usize, pub h: usize, pub rgba: Vec<u8>,
    /// byte ranges of critical PNG chunks (length field to checksum), and the end of the last IDAT chunk
    pub critical: Vec<(usize, usize)>, pub data_end: usize }

/// What one might find in a settings file or variable.
pub const TEXTS: [&str; 24] = ["1", "0", "", "true", "yes", "speed", "quality", "balanced", "fast", "best", "bc1", "BC3", "1 0 0", "0.1,0.8,0.1", "1,1,1", "perceptual", "uniform", "profile = speed\n", "profile=\"quality\"\n", "format=bc1\nprofile=speed\nweights=1 1 1\n", "{}", "-p speed", "4", "/tmp"];
pub fn make(p: &Pic) -> Made {
    let mut m = match p.kind { 0 => make_png(p), 1 => make_jpeg(p), 2 => make_dds(p), 4 => Made { bytes: TEXTS[p.seed as usize % TEXTS.len()].bytes().collect(), w: 0, h: 0, rgba: vec![], critical: vec![], data_end: 0 }, _ => { let mut r = Rng::derive(p.seed, 77); Made { bytes: (0..p.w).map(|_| r.u8()).collect(), w: 0, h: 0, rgba: vec![], critical: vec![], data_end: 0 } } };
    let mut r = Rng::derive(p.seed, 78);
    for _ in 0..p.tail { m.bytes.push(r.u8()); }
    m
}
fn make_png(p: &Pic) -> Made {
    let (w, h) = (p.w, p.h);
    let mut r = Rng::derive(p.seed, 0x5555);
    let src = imggen::pixels(p.img, p.seed, w, h);
    let ch = match p.ct { 0 | 3 => 1, 2 => 3, 4 => 2, _ => 4 };
    let depth = p.depth as usize;
    let maxv = (1u32 << depth) - 1;
    let npal = if p.ct == 3 { (1usize << depth).min(200).max(2) } else { 0 };
    let pal: Vec<[u8; 3]> = (0..npal).map(|_| [r.u8(), r.u8(), r.u8()]).collect();
    let palpha: Vec<u8> = (0..npal.min(r.range(1, 40) as usize)).map(|_| r.u8()).collect();
    let trns = p.opt & 4 != 0 && p.ct == 3;
    // samples, per pixel and channel, and the RGBA they mean
    let mut samp = vec![0u32; w * h * ch];
    let mut rgba = vec![255u8; w * h * 4];
    for i in 0..w * h {
        let s = &src[i * 4..i * 4 + 4];
        let at = |k: usize, r: &mut Rng| -> u32 {
            match depth { 16 => (s[k] as u32) << 8 | r.below(256) as u32, 8 => s[k] as u32, d => (s[k] as u32) >> (8 - d) }
        };
        let up = |v: u32| -> u8 { match depth { 16 => (v >> 8) as u8, 8 => v as u8, _ => (v * 255 / maxv) as u8 } };
        match p.ct {
            0 => { let v = at(0, &mut r); samp[i] = v; let g = up(v); rgba[i * 4..i * 4 + 3].copy_from_slice(&[g, g, g]); }
            2 => for k in 0..3 { let v = at(k, &mut r); samp[i * 3 + k] = v; rgba[i * 4 + k] = up(v); },
            3 => {
                let v = s[0] as usize % npal;
                samp[i] = v as u32;
                rgba[i * 4..i * 4 + 3].copy_from_slice(&pal[v]);
                if trns { rgba[i * 4 + 3] = *palpha.get(v).unwrap_or(&255); }
            }
            4 => { let v = at(0, &mut r); let a = at(3, &mut r); samp[i * 2] = v; samp[i * 2 + 1] = a; let g = up(v); rgba[i * 4..i * 4 + 4].copy_from_slice(&[g, g, g, up(a)]); }
            _ => for k in 0..4 { let v = at(k, &mut r); samp[i * 4 + k] = v; rgba[i * 4 + k] = up(v); },
        }
    }
    // one colour declared transparent (grey and rgb, 8 bits)
    let mut key: Option<Vec<u8>> = None;
    if p.opt & 4 != 0 && (p.ct == 0 || p.ct == 2) {
        let i = r.below((w * h) as u64) as usize;
        let k: Vec<u32> = samp[i * ch..i * ch + ch].to_vec();
        for j in 0..w * h { if samp[j * ch..j * ch + ch] == k[..] { rgba[j * 4 + 3] = 0; } }
        key = Some(k.iter().flat_map(|v| (*v as u16).to_be_bytes()).collect());
    }
    // scan lines
    let bpp = (ch * depth + 7) / 8;
    let mut raw = vec![];
    let fixed_filter = r.below(5) as u8;
    let passes: Vec<(usize, usize, usize, usize)> = if p.opt & 1 != 0 { ADAM7.to_vec() } else { vec![(0, 0, 1, 1)] };
    for (x0, y0, dx, dy) in passes {
        if x0 >= w || y0 >= h { continue; }
        let pw = (w - x0 + dx - 1) / dx;
        let ph = (h - y0 + dy - 1) / dy;
        let rb = (pw * ch * depth + 7) / 8;
        let mut prev = vec![0u8; rb];
        for py in 0..ph {
            let mut line = vec![0u8; rb];
            let mut bit = 0;
            for px in 0..pw {
                let i = (y0 + py * dy) * w + x0 + px * dx;
                for k in 0..ch {
                    let v = samp[i * ch + k];
                    if depth == 16 { line[bit / 8] = (v >> 8) as u8; line[bit / 8 + 1] = v as u8; }
                    else { line[bit / 8] |= (v << (8 - depth - bit % 8)) as u8; }
                    bit += depth;
                }
            }
            let f = if p.opt & 16 != 0 { fixed_filter } else { r.below(5) as u8 };
            raw.push(f);
            for i in 0..rb {
                let a = if i >= bpp { line[i - bpp] } else { 0 };
                let b = prev[i];
                let c = if i >= bpp { prev[i - bpp] } else { 0 };
                raw.push(line[i].wrapping_sub(match f { 0 => 0, 1 => a, 2 => b, 3 => ((a as u16 + b as u16) / 2) as u8, _ => paeth(a, b, c) }));
            }
            prev = line;
        }
    }
    if p.opt & 2048 != 0 { raw.resize(raw.len() + 3_000_000, 0); }
    let z = zlib(&raw, if p.opt & 2048 != 0 { 2 } else if p.opt & 2 != 0 { 0 } else { 1 });
    let mut o = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let mut critical = vec![];
    let mut crit = |o: &mut Vec<u8>, ty: &[u8; 4], d: &[u8]| { let s = o.len(); chunk(o, ty, d); critical.push((s, o.len())); };
    let mut ihdr = vec![];
    ihdr.extend_from_slice(&(w as u32).to_be_bytes());
    ihdr.extend_from_slice(&(h as u32).to_be_bytes());
    ihdr.extend_from_slice(&[depth as u8, p.ct as u8, 0, 0, (p.opt & 1) as u8]);
    crit(&mut o, b"IHDR", &ihdr);
    if p.opt & 8 != 0 { chunk(&mut o, b"gAMA", &45455u32.to_be_bytes()); chunk(&mut o, b"tEXt", b"Comment\0made by vsim"); }
    if p.opt & 32 != 0 {
        chunk(&mut o, b"cHRM", &[0, 0, 122, 38, 0, 0, 128, 132, 0, 0, 250, 0, 0, 0, 128, 232, 0, 0, 117, 48, 0, 0, 234, 96, 0, 0, 58, 152, 0, 0, 23, 112]);
        if p.opt & 256 != 0 {} else if p.seed & 64 == 0 { let mut b = b"vsim\0\0".to_vec(); b.extend(zlib(&[7; 300], 0)); chunk(&mut o, b"iCCP", &b); } else { chunk(&mut o, b"sRGB", &[0]); }
        chunk(&mut o, b"sBIT", &match p.ct { 0 => vec![1], 4 => vec![5, 3], 6 => vec![5, 6, 5, 1], _ => vec![5, 6, 5] });
        chunk(&mut o, b"vsIm", b"PLTE");
    }
    if p.opt & 256 != 0 {
        let z = zlib(&vec![p.seed as u8; 1_500_000 + p.seed as usize % 1_500_000], 2);
        let mut text = |ty: &[u8; 4], head: &[u8]| chunk(&mut o, ty, &[head, &z].concat());
        text(b"iCCP", b"vsim\0\0");
        text(b"zTXt", b"Comment\0\0");
        text(b"iTXt", b"Comment\0\x01\0en\0\0");
    }
    if p.opt & 512 != 0 { for i in 0..if p.seed & 512 == 0 { 4000 } else { 16_500 } { if p.seed & 256 == 0 { chunk(&mut o, b"iTXt", b"x\0\0\0\0\0"); } else { chunk(&mut o, b"tEXt", &[b'x', 0, b'a' + i as u8 % 20]); } } }
    let frames = if p.opt & 1024 != 0 { 20 + p.seed as u32 % 30 } else if p.opt & 64 != 0 { 1 + p.seed as u32 % 3 } else { 0 };
    let mut seq = 0u32;
    let fctl = |o: &mut Vec<u8>, w: usize, h: usize, seq: &mut u32| {
        let mut b = vec![];
        for v in [*seq, w as u32, h as u32, 0, 0] { b.extend_from_slice(&v.to_be_bytes()); }
        b.extend_from_slice(&[0, 1, 0, 10, (p.seed >> 3) as u8 % 3, (p.seed >> 5) as u8 & 1]);
        chunk(o, b"fcTL", &b);
        *seq += 1;
    };
    if frames > 0 { let mut b = frames.to_be_bytes().to_vec(); b.extend_from_slice(&[0; 4]); chunk(&mut o, b"acTL", &b); }
    if p.ct == 3 { crit(&mut o, b"PLTE", &pal.concat()); if trns { chunk(&mut o, b"tRNS", &palpha); } }
    if let Some(k) = &key { chunk(&mut o, b"tRNS", k); }
    if p.opt & 8 != 0 { chunk(&mut o, b"pHYs", &[0, 0, 1, 0, 0, 0, 1, 0, 1]); }
    if p.opt & 32 != 0 {
        let grey = [0, 5];
        chunk(&mut o, b"bKGD", match p.ct { 0 | 4 => &grey[..], 3 => &[1], _ => &[0, 9, 0, 3, 0, 1] });
        chunk(&mut o, b"eXIf", b"MM\0*\0\0\0\x08\0\x01\x01\x12\0\x03\0\0\0\x01\0\x06\0\0\0\0\0\0");
        chunk(&mut o, b"iTXt", b"Title\0\0\0en\0\0IDAT");
    }
    // the picture itself is the first frame of the animation, or not part of it
    let first = frames > 0 && p.seed & 16 == 0;
    if first { fctl(&mut o, w, h, &mut seq); }
    for (i, c) in z.chunks(p.idat.max(1)).enumerate() { crit(&mut o, b"IDAT", c); if p.opt & 128 != 0 && i < 5 { crit(&mut o, b"IDAT", &[]); } }
    let data_end = o.len();
    for f in first as u32..frames {
        let (fw, fh) = if (p.seed >> 20).wrapping_add(f as u64) % 2 == 0 { (w, h) } else { (1.max(w / 2), 1.max(h / 2)) };
        fctl(&mut o, fw, fh, &mut seq);
        let line = 1 + (fw * ch * depth + 7) / 8;
        let mut b = seq.to_be_bytes().to_vec();
        seq += 1;
        b.extend(zlib(&(0..line * fh).map(|i| if i % line == 0 { 0 } else { (i * 7 + f as usize) as u8 % 2 * (p.opt & 1024 == 0) as u8 }).collect::<Vec<_>>(), if p.opt & 1024 != 0 { 2 } else { 1 }));
        chunk(&mut o, b"fdAT", &b);
    }
    if p.opt & 8 != 0 { chunk(&mut o, b"tIME", &[7, 230, 1, 1, 0, 0, 0]); }
    chunk(&mut o, b"IEND", &[]);
    Made { bytes: o, w, h, rgba, critical, data_end }
}
/// Where the chunks of a well-formed PNG lie.
pub fn chunks(d: &[u8]) -> Vec<(usize, usize)> {
    let (mut p, mut v) = (8, vec![]);
    while p + 12 <= d.len() {
        let e = p + 12 + u32::from_be_bytes(d[p..p + 4].try_into().unwrap()) as usize;
        if e > d.len() { break; }
        v.push((p, e));
        p = e;
    }
    v
}
/// Strict reading of a PNG that must be 8-bit RGBA.
pub fn read_png_rgba(d: &[u8]) -> Result<(usize, usize, Vec<u8>), String> {
    if d.len() < 8 || d[..8] != [0x89, b'P', b'N', b'G', 13, 10, 26, 10] { return Err("not a PNG".into()); }
    let mut p = 8;
    let (mut w, mut h) = (0usize, 0usize);
    let mut z = vec![];
    let mut end = false;
    let mut interlace = 0;
    while p < d.len() {
        if end { return Err("bytes after IEND".into()); }
        if p + 12 > d.len() { return Err("PNG ends inside a chunk".into()); }
        let n = u32::from_be_bytes(d[p..p + 4].try_into().unwrap()) as usize;
        if p + 12 + n > d.len() { return Err("PNG ends inside a chunk".into()); }
        let ty = &d[p + 4..p + 8];
        let body = &d[p + 8..p + 8 + n];
        if crc32(&d[p + 4..p + 8 + n]) != u32::from_be_bytes(d[p + 8 + n..p + 12 + n].try_into().unwrap()) { return Err("chunk checksum wrong".into()); }
        match ty {
            b"IHDR" => {
                if n != 13 { return Err("IHDR size".into()); }
                w = u32::from_be_bytes(body[..4].try_into().unwrap()) as usize;
                h = u32::from_be_bytes(body[4..8].try_into().unwrap()) as usize;
                if body[8..12] != [8, 6, 0, 0] { return Err(format!("not 8-bit RGBA: depth {} colour type {}", body[8], body[9])); }
                interlace = body[12];
            }
            b"IDAT" => z.extend_from_slice(body),
            b"IEND" => end = true,
            t if t[0] & 32 == 0 => return Err(format!("unexpected critical chunk {:?}", String::from_utf8_lossy(t))),
            _ => {}
        }
        p += 12 + n;
    }
    if !end { return Err("no IEND chunk".into()); }
    if interlace != 0 { return Err("interlaced output".into()); }
    let raw = unzlib(&z)?;
    if raw.len() != (w * 4 + 1) * h { return Err(format!("image data has {} bytes instead of {}", raw.len(), (w * 4 + 1) * h)); }
    let mut px = vec![0u8; w * h * 4];
    for y in 0..h {
        let row = &raw[y * (w * 4 + 1)..(y + 1) * (w * 4 + 1)];
        for i in 0..w * 4 {
            let a = if i >= 4 { px[y * w * 4 + i - 4] } else { 0 };
            let b = if y > 0 { px[(y - 1) * w * 4 + i] } else { 0 };
            let c = if i >= 4 && y > 0 { px[(y - 1) * w * 4 + i - 4] } else { 0 };
            px[y * w * 4 + i] = row[1 + i].wrapping_add(match row[0] { 0 => 0, 1 => a, 2 => b, 3 => ((a as u16 + b as u16) / 2) as u8, 4 => paeth(a, b, c), f => return Err(format!("filter {}", f)) });
        }
    }
    Ok((w, h, px))
}
// ------------------------------------------------------------------ DDS
pub const DXGI: [u32; 5] = [72, 75, 78, 80, 83]; // BC1_UNORM_SRGB, BC2_.., BC3_.., BC4_UNORM, BC5_UNORM
fn make_dds(p: &Pic) -> Made {
    let mut r = Rng::derive(p.seed, 0x6666);
    let blocks = imggen::blocks(p.img, p.seed, p.fmt, p.w, p.h);
    let legacy = p.opt & 1 != 0 && p.fmt < 3;
    let mips = if p.opt & 2 != 0 { 3u32 } else { 1 };
    let layers = if p.opt & 4 != 0 && !legacy { 2u32 } else { 1 };
    let mut o = vec![];
    let u = |o: &mut Vec<u8>, v: u32| o.extend_from_slice(&v.to_le_bytes());
    u(&mut o, 0x20534444);
    u(&mut o, 124);
    let mut flags = 0x1007 | 0x80000 | if mips > 1 { 0x20000 } else { 0 };
    if p.opt & 8 != 0 { flags |= 8; }
    u(&mut o, flags);
    u(&mut o, p.h as u32);
    u(&mut o, p.w as u32);
    u(&mut o, blocks.len() as u32);
    u(&mut o, 0);
    u(&mut o, mips);
    for _ in 0..11 { u(&mut o, if p.opt & 8 != 0 { r.u64() as u32 } else { 0 }); }
    u(&mut o, 32);
    u(&mut o, 4);
    u(&mut o, u32::from_le_bytes(*if legacy { [b"DXT1", b"DXT3", b"DXT5"][p.fmt as usize] } else { b"DX10" }));
    for _ in 0..5 { u(&mut o, 0); }
    u(&mut o, 0x1000 | if mips > 1 { 0x400008 } else { 0 });
    for _ in 0..4 { u(&mut o, 0); }
    if !legacy { u(&mut o, DXGI[p.fmt as usize]); u(&mut o, 3); u(&mut o, 0); u(&mut o, layers); u(&mut o, 0); }
    o.extend_from_slice(&blocks);
    let data_end = o.len();
    // further mip levels and layers
    let extra = if mips > 1 { blocks.len() / 4 + 16 } else { 0 } + (layers as usize - 1) * blocks.len();
    for _ in 0..extra { o.push(r.u8()); }
    let rgba = crate::refdec::image(p.fmt, &blocks, p.w, p.h).unwrap();
    Made { bytes: o, w: p.w, h: p.h, rgba, critical: vec![], data_end }
}
/// Strict reading of the DDS files the tool writes: (w, h, fmt, block data).
pub fn read_dds(d: &[u8]) -> Result<(usize, usize, u8, &[u8]), String> {
    if d.len() < 148 { return Err(format!("DDS has only {} bytes", d.len())); }
    let u = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap());
    if u(0) != 0x20534444 { return Err("no DDS magic".into()); }
    if u(4) != 124 || u(76) != 32 { return Err("header sizes wrong".into()); }
    if u(8) & 0x1007 != 0x1007 { return Err(format!("required header flags missing: {:#x}", u(8))); }
    if u(80) & 4 == 0 || &d[84..88] != b"DX10" { return Err("no DX10 pixel format".into()); }
    if u(108) & 0x1000 == 0 { return Err("texture capability missing".into()); }
    let f = DXGI.iter().position(|&x| x == u(128)).ok_or(format!("DXGI format {}", u(128)))?;
    if u(132) != 3 { return Err(format!("resource dimension {}", u(132))); }
    if u(140) != 1 { return Err(format!("array size {}", u(140))); }
    if u(112) & 0x200 != 0 { return Err("claims to be a cube map".into()); }
    Ok((u(16) as usize, u(12) as usize, f as u8, &d[148..]))
}
// ------------------------------------------------------------------ JPEG
/// fmt: 1 grey, 2 four components, 4 colours at half resolution, 5 progressive, 6 progressive grey,
/// 7 lossless with 16 bits per sample, 8 components are RGB (Adobe marker), 9 with comment and Exif orientation, else YCbCr.
fn make_jpeg(p: &Pic) -> Made {
    let (w, h) = (p.w, p.h);
    let src = imggen::pixels(p.img, p.seed, w, h);
    let nc = match p.fmt { 1 | 6 | 7 => 1, 2 => 4, _ => 3 };
    let progressive = matches!(p.fmt, 5 | 6);
    let sub = if p.fmt == 4 { 2 } else { 1 };
    let restart = if p.fmt == 7 { 0 } else { p.ct as usize };
    const Q: u8 = 12;
    const ZZ: [usize; 64] = [0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63];
    let mut o = vec![0xFF, 0xD8];
    if p.fmt == 8 { o.extend_from_slice(&[0xFF, 0xEE, 0, 14]); o.extend_from_slice(b"Adobe\0\x64\0\0\0\0\0"); }
    else { o.extend_from_slice(&[0xFF, 0xE0, 0, 16, b'J', b'F', b'I', b'F', 0, 1, 1, 0, 0, 1, 0, 1, 0, 0]); }
    if p.fmt == 9 {
        o.extend_from_slice(&[0xFF, 0xE1, 0, 34]);
        o.extend_from_slice(b"Exif\0\0MM\0*\0\0\0\x08\0\x01\x01\x12\0\x03\0\0\0\x01\0\x06\0\0\0\0\0\0");
        o.extend_from_slice(&[0xFF, 0xFE, 0, 7]);
        o.extend_from_slice(b"hello");
    }
    // (categories of) Huffman codes: DC with equally long codes, AC with every (run,size) as 8-bit codes
    let lossless = p.fmt == 7;
    let (dcn, dcbits) = if lossless { (17u8, 5u32) } else { (12, 4) };
    if !lossless { o.extend_from_slice(&[0xFF, 0xDB, 0, 67, 0]); o.extend_from_slice(&[Q; 64]); }
    o.extend_from_slice(&[0xFF, if lossless { 0xC3 } else if progressive { 0xC2 } else { 0xC0 }, 0, 8 + 3 * nc as u8, if lossless { 16 } else { 8 }, (h >> 8) as u8, h as u8, (w >> 8) as u8, w as u8, nc as u8]);
    let id = |c: usize| if p.fmt == 8 { b"RGB"[c] } else { c as u8 + 1 };
    for c in 0..nc { o.extend_from_slice(&[id(c), if c == 0 && sub == 2 { 0x22 } else { 0x11 }, 0]); }
    o.extend_from_slice(&[0xFF, 0xC4, 0, 19 + dcn, 0x00]);
    let mut bits = [0u8; 16];
    bits[dcbits as usize - 1] = dcn;
    o.extend_from_slice(&bits);
    o.extend(0..dcn);
    let mut syms: Vec<u8> = vec![0x00, 0xF0];
    for run in 0..16u8 { for size in 1..=10u8 { syms.push(run << 4 | size); } }
    if !lossless {
        let mut bits = [0u8; 16];
        bits[7] = syms.len() as u8;
        let n = 2 + 17 + syms.len();
        o.extend_from_slice(&[0xFF, 0xC4, (n >> 8) as u8, n as u8, 0x10]);
        o.extend_from_slice(&bits);
        o.extend_from_slice(&syms);
    }
    if restart > 0 { o.extend_from_slice(&[0xFF, 0xDD, 0, 4, 0, restart as u8]); }

    let mut acc = 0u64;
    let mut nb = 0u32;
    fn put(o: &mut Vec<u8>, acc: &mut u64, nb: &mut u32, v: u32, n: u32) {
        *acc = *acc << n | (v as u64 & ((1 << n) - 1));
        *nb += n;
        while *nb >= 8 { let b = (*acc >> (*nb - 8)) as u8; o.push(b); if b == 0xFF { o.push(0); } *nb -= 8; }
    }
    fn fill(o: &mut Vec<u8>, acc: &mut u64, nb: &mut u32) { if *nb > 0 { let k = 8 - *nb; put(o, acc, nb, (1 << k) - 1, k); } }
    let size = |v: i32| 32 - v.unsigned_abs().leading_zeros();
    let val = |v: i32, n: u32| if v < 0 { (v - 1) as u32 & ((1u32 << n) - 1) } else { v as u32 };
    if lossless {
        o.extend_from_slice(&[0xFF, 0xDA, 0, 8, 1, 1, 0x00, 1, 0, 0]);
        let at = |x: usize, y: usize| { let q = &src[(y * w + x) * 4..]; (q[0] as i32) << 8 | q[1] as i32 };
        for y in 0..h {
            for x in 0..w {
                let pred = if x > 0 { at(x - 1, y) } else if y == 0 { 1 << 15 } else { at(0, y - 1) };
                let d = (at(x, y) - pred) as i16 as i32;
                let n = if d == -32768 { 16 } else { size(d) };
                put(&mut o, &mut acc, &mut nb, n, dcbits);
                if n > 0 && n < 16 { put(&mut o, &mut acc, &mut nb, val(d, n), n); }
            }
        }
        fill(&mut o, &mut acc, &mut nb);
        let data_end = o.len();
        o.extend_from_slice(&[0xFF, 0xD9]);
        return Made { bytes: o, w, h, rgba: vec![], critical: vec![], data_end };
    }
    // coefficients of all blocks
    let m = 8 * sub;
    let (mw, mh) = ((w + m - 1) / m, (h + m - 1) / m);
    let step = |c: usize| if c == 0 { 1 } else { sub };
    let across = |c: usize| mw * sub / step(c);
    let mut coef: Vec<Vec<[i32; 64]>> = vec![];
    for c in 0..nc {
        let mut all = vec![];
        for by in 0..mh * sub / step(c) { for bx in 0..across(c) {
            let mut s = [0f64; 64];
            for y in 0..8 { for x in 0..8 {
                let (px, py) = (((bx * 8 + x) * step(c)).min(w - 1), ((by * 8 + y) * step(c)).min(h - 1));
                let q = &src[(py * w + px) * 4..][..3];
                let (r, g, b) = (q[0] as f64, q[1] as f64, q[2] as f64);
                s[y * 8 + x] = match (nc, c) {
                    (1, _) => r - 128.0,
                    (4, c) => [r, g, b, 255.0][c] - 128.0,
                    (_, c) if p.fmt == 8 => [r, g, b][c] - 128.0,
                    (_, 0) => 0.299 * r + 0.587 * g + 0.114 * b - 128.0,
                    (_, 1) => -0.168736 * r - 0.331264 * g + 0.5 * b,
                    _ => 0.5 * r - 0.418688 * g - 0.081312 * b,
                };
            } }
            let mut f = [0i32; 64];
            for v in 0..8 { for u in 0..8 {
                let mut t = 0.0;
                for y in 0..8 { for x in 0..8 {
                    t += s[y * 8 + x] * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos() * ((2 * y + 1) as f64 * v as f64 * std::f64::consts::PI / 16.0).cos();
                } }
                let cu = if u == 0 { std::f64::consts::FRAC_1_SQRT_2 } else { 1.0 };
                let cv = if v == 0 { std::f64::consts::FRAC_1_SQRT_2 } else { 1.0 };
                f[v * 8 + u] = (t * cu * cv / 4.0 / Q as f64).round() as i32;
            } }
            all.push(f);
        } }
        coef.push(all);
    }
    // scans: (components, first and last coefficient)
    let scans: Vec<(Vec<usize>, usize, usize)> = if progressive {
        let mut s = vec![((0..nc).collect(), 0, 0)];
        for c in 0..nc { s.push((vec![c], 1, 20)); }
        for c in (0..nc).rev() { s.push((vec![c], 21, 63)); }
        s
    } else { vec![((0..nc).collect(), 0, 63)] };
    let mut data_end = 0;
    for (comps, ss, se) in scans {
        o.extend_from_slice(&[0xFF, 0xDA, 0, 6 + 2 * comps.len() as u8, comps.len() as u8]);
        for &c in &comps { o.extend_from_slice(&[id(c), 0x00]); }
        o.extend_from_slice(&[ss as u8, se as u8, 0]);
        let mut pred = [0i32; 4];
        let mut rst = 0u8;
        for mcu in 0..mw * mh {
            if restart > 0 && mcu > 0 && mcu % restart == 0 {
                fill(&mut o, &mut acc, &mut nb);
                o.extend_from_slice(&[0xFF, 0xD0 + rst]);
                rst = (rst + 1) % 8;
                pred = [0; 4];
            }
            for &c in &comps {
                let n = sub / step(c);
                for b in 0..n * n {
                    let (bx, by) = (mcu % mw * n + b % n, mcu / mw * n + b / n);
                    let f = &coef[c][by * across(c) + bx];
                    if ss == 0 {
                        let d = f[0] - pred[c];
                        pred[c] = f[0];
                        let n = size(d);
                        put(&mut o, &mut acc, &mut nb, n, dcbits);
                        if n > 0 { put(&mut o, &mut acc, &mut nb, val(d, n), n); }
                    }
                    if se == 0 { continue; }
                    let mut run = 0;
                    for k in ss.max(1)..=se {
                        let v = f[ZZ[k]];
                        if v == 0 { run += 1; continue; }
                        while run > 15 { put(&mut o, &mut acc, &mut nb, 1, 8); run -= 16; }
                        let n = size(v);
                        let sym = (run << 4 | n) as u8;
                        let code = syms.iter().position(|&x| x == sym).unwrap() as u32;
                        put(&mut o, &mut acc, &mut nb, code, 8);
                        put(&mut o, &mut acc, &mut nb, val(v, n), n);
                        run = 0;
                    }
                    if run > 0 { put(&mut o, &mut acc, &mut nb, 0, 8); }
                }
            }
        }
        fill(&mut o, &mut acc, &mut nb);
        data_end = o.len();
    }
    o.extend_from_slice(&[0xFF, 0xD9]);
    // pixels: decoded by the jpeg-decoder crate built without threads (trusted for the pixel values only)
    let mut dec = jpeg_decoder::Decoder::new(&o[..]);
    let px = dec.decode().expect("own JPEG does not decode");
    let rgba = if nc == 4 { vec![] } else if nc == 1 { px.iter().flat_map(|&l| [l, l, l, 255]).collect() } else { px.chunks(3).flat_map(|c| [c[0], c[1], c[2], 255]).collect() };
    Made { bytes: o, w, h, rgba, critical: vec![], data_end }
}
#[test]
fn jpegs() {
    for fmt in [0, 1, 2, 4, 5, 6, 7, 8, 9] { for (w, h) in [(1, 1), (7, 9), (16, 16), (17, 20), (33, 18)] { for ct in [0, 1, 3] { for img in 0..imggen::NKINDS as u32 {
        let p = Pic { kind: 1, w, h, fmt, ct, img, seed: 7 + img as u64, ..Default::default() };
        let m = make(&p);
        let mut d = jpeg_decoder::Decoder::new(&m.bytes[..]);
        let px = d.decode().unwrap_or_else(|e| panic!("{:?}: {}", (fmt, w, h, ct), e));
        let src = imggen::pixels(img, p.seed, w, h);
        if fmt == 7 { for i in 0..w * h { assert_eq!(u16::from_ne_bytes([px[2 * i], px[2 * i + 1]]), (src[4 * i] as u16) << 8 | src[4 * i + 1] as u16, "{:?}", (i, w, h, ct, d.info())); } }
        else if fmt != 4 && fmt != 2 && img == 0 { let n = px.len() / w / h; for i in 0..w * h { let e = (px[n * i] as i32 - src[4 * i] as i32).abs(); assert!(e < 60, "{:?} {} {}", (fmt, w, h, ct, i), px[n * i], src[4 * i]); } }
    } } } }
}

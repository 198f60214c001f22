//! An independent decoder for the BCn formats, written from the format definition (Direct3D
//! "Block Compression" pages), with interpolated values rounded down.  Works on whole images.

fn c565(v: u16) -> [u32; 3] {
    let (r, g, b) = ((v >> 11) as u32, ((v >> 5) & 63) as u32, (v & 31) as u32);
    // widen by repeating the top bits
    [r * 8 + r / 4, g * 4 + g / 16, b * 8 + b / 4]
}
fn colour(block: &[u8], bc1: bool) -> [[u8; 4]; 16] {
    let w0 = block[0] as u16 | (block[1] as u16) << 8;
    let w1 = block[2] as u16 | (block[3] as u16) << 8;
    let (e0, e1) = (c565(w0), c565(w1));
    let idx = u32::from_le_bytes([block[4], block[5], block[6], block[7]]);
    let mut out = [[0u8; 4]; 16];
    for p in 0..16 {
        let k = (idx >> (2 * p)) & 3;
        let opaque = |f: &dyn Fn(usize) -> u32| [f(0) as u8, f(1) as u8, f(2) as u8, 255];
        out[p] = if k == 0 { opaque(&|c| e0[c]) }
        else if k == 1 { opaque(&|c| e1[c]) }
        else if bc1 && w0 <= w1 {
            if k == 2 { opaque(&|c| (e0[c] + e1[c]) / 2) } else { [0, 0, 0, 0] }
        } else if k == 2 { opaque(&|c| (2 * e0[c] + e1[c]) / 3) }
        else { opaque(&|c| (e0[c] + 2 * e1[c]) / 3) };
    }
    out
}
fn gradient(block: &[u8]) -> [u8; 16] {
    let (a0, a1) = (block[0] as u32, block[1] as u32);
    let mut bits = 0u64;
    for i in 0..6 { bits |= (block[2 + i] as u64) << (8 * i); }
    let mut out = [0u8; 16];
    for p in 0..16 {
        let k = ((bits >> (3 * p)) & 7) as u32;
        out[p] = match k {
            0 => a0,
            1 => a1,
            _ if a0 > a1 => ((8 - k) * a0 + (k - 1) * a1) / 7,
            6 => 0,
            7 => 255,
            _ => ((6 - k) * a0 + (k - 1) * a1) / 5,
        } as u8;
    }
    out
}
/// fmt: 0..=4 for BC1..=BC5
pub fn block(fmt: u8, b: &[u8]) -> [[u8; 4]; 16] {
    match fmt {
        0 => colour(b, true),
        1 => {
            let mut c = colour(&b[8..16], false);
            for p in 0..16 { let n = (b[p / 2] >> (4 * (p % 2))) & 15; c[p][3] = n * 17; }
            c
        }
        2 => {
            let mut c = colour(&b[8..16], false);
            let a = gradient(b);
            for p in 0..16 { c[p][3] = a[p]; }
            c
        }
        3 => { let a = gradient(b); let mut c = [[0; 4]; 16]; for p in 0..16 { c[p] = [a[p], a[p], a[p], 255]; } c }
        _ => { let (r, g) = (gradient(b), gradient(&b[8..])); let mut c = [[0; 4]; 16]; for p in 0..16 { c[p] = [r[p], g[p], 0, 255]; } c }
    }
}
pub fn block_bytes(fmt: u8) -> usize { if fmt == 0 || fmt == 3 { 8 } else { 16 } }
pub fn tiles(n: usize) -> usize { n / 4 + (n % 4 != 0) as usize }
pub fn data_len(fmt: u8, w: usize, h: usize) -> usize { tiles(w) * tiles(h) * block_bytes(fmt) }

/// RGBA pixels of a whole image; None if the data is too short.
pub fn image(fmt: u8, data: &[u8], w: usize, h: usize) -> Option<Vec<u8>> {
    let bs = block_bytes(fmt);
    if data.len() < data_len(fmt, w, h) { return None; }
    let mut out = vec![0u8; w * h * 4];
    for ty in 0..tiles(h) {
        for tx in 0..tiles(w) {
            let o = (ty * tiles(w) + tx) * bs;
            let px = block(fmt, &data[o..o + bs]);
            for y in ty * 4..(ty * 4 + 4).min(h) {
                for x in tx * 4..(tx * 4 + 4).min(w) {
                    out[(y * w + x) * 4..][..4].copy_from_slice(&px[(y % 4) * 4 + x % 4]);
                }
            }
        }
    }
    Some(out)
}

//! Generators of pixel data and of compressed data.
use crate::refdec;
use crate::util::*;

pub const NKINDS: u64 = 13;
/// RGBA pixels of the given kind.
pub fn pixels(kind: u32, seed: u64, w: usize, h: usize) -> Vec<u8> {
    let mut r = Rng::derive(seed, 0x1111);
    let mut v = vec![0u8; w * h * 4];
    let base = [r.u8(), r.u8(), r.u8(), r.u8()];
    let other = [r.u8(), r.u8(), r.u8(), r.u8()];
    let gx = [r.u8() % 9, r.u8() % 9, r.u8() % 9, r.u8() % 5];
    let gy = [r.u8() % 9, r.u8() % 9, r.u8() % 9, r.u8() % 5];
    let mut pal = vec![];
    for _ in 0..r.range(2, 6) { pal.push([r.u8(), r.u8(), r.u8(), r.u8()]); }
    if kind == 12 { return patchwork(&mut r, w, h); }
    for y in 0..h {
        for x in 0..w {
            let o = (y * w + x) * 4;
            let p: [u8; 4] = match kind {
                0 => [r.u8(), r.u8(), r.u8(), r.u8()],                      // noise
                1 => base,                                                   // flat
                2 => if (x + y) % 2 == 0 { base } else { other },            // checkerboard
                3 => std::array::from_fn(|c| (base[c] as usize + gx[c] as usize * x + gy[c] as usize * y) as u8), // gradient
                4 => pal[r.below(pal.len() as u64) as usize],                // few colours
                5 => { let g = r.u8(); [g, g, g, 255] }                      // grey noise, opaque
                6 => [r.u8(), r.u8(), r.u8(), if r.chance(1, 2) { 0 } else { 255 }], // punch-through
                7 => { let t = ((x / 4 + (y / 4) * 3) % 5) as u8; [t.wrapping_mul(51), 255 - t * 40, t * 13, 255 - t * 60] } // every tile flat, tiles differ
                8 => [r.u8(), r.u8(), r.u8(), 255],                          // opaque noise
                9 => std::array::from_fn(|c| if r.chance(1, 4) { [0, 255][r.below(2) as usize] } else { base[c].wrapping_add(r.u8() % 16) }), // extremes
                10 => [base[0].wrapping_add(r.u8() % 4), base[1].wrapping_add(r.u8() % 4), base[2].wrapping_add(r.u8() % 4), base[3].wrapping_add(r.u8() % 4)], // near flat
                _ => { let t = (x / 4 * 7 + y / 4 * 13) as u8; [t.wrapping_mul(17) ^ (r.u8() & 31), t.wrapping_mul(29) ^ (r.u8() & 31), t.wrapping_mul(53), t.wrapping_mul(71) ^ (r.u8() & 63)] }
            };
            v[o..o + 4].copy_from_slice(&p);
        }
    }
    v
}
/// The same tile over and over, here and there with a small difference.
fn patchwork(r: &mut Rng, w: usize, h: usize) -> Vec<u8> {
    let few = r.chance(1, 3);
    let pal: [[u8; 4]; 3] = std::array::from_fn(|_| [r.u8(), r.u8(), r.u8(), r.pick(&[255, 255, 0, 100])]);
    let base: [[u8; 4]; 16] = std::array::from_fn(|_| if few { pal[r.below(3) as usize] } else { [r.u8(), r.u8(), r.u8(), r.u8()] });
    let mut v = vec![0u8; w * h * 4];
    for ty in 0..h.div_ceil(4) {
        for tx in 0..w.div_ceil(4) {
            let mut t = base;
            let (i, j, c) = (r.below(16) as usize, r.below(16) as usize, r.below(4) as usize);
            match r.below(14) {
                0 => t[i][c] = r.u8(),
                1 => t[i][3] = r.u8(),
                2 => t.swap(i, j),
                3 => t.reverse(),
                4 => for p in &mut t { p.swap(0, 2); },
                5 => for y in 0..4 { for x in 0..y { t.swap(4 * y + x, 4 * x + y); } },
                6 => t[i] = t[j],
                7 => t[15][c] ^= 1 << r.below(8),
                8 => { t[i][c] = t[i][c].wrapping_add(1); t[j][c] = t[j][c].wrapping_sub(1); }
                _ => {}
            }
            for i in 0..16 {
                let (x, y) = (4 * tx + i % 4, 4 * ty + i / 4);
                if x < w && y < h { v[(y * w + x) * 4..][..4].copy_from_slice(&t[i]); }
            }
        }
    }
    v
}
pub const NDATA: u64 = 8;
/// Compressed data covering w x h, of the given kind.
pub fn blocks(kind: u32, seed: u64, fmt: u8, w: usize, h: usize) -> Vec<u8> {
    let mut r = Rng::derive(seed, 0x2222);
    let n = refdec::tiles(w) * refdec::tiles(h);
    let bs = refdec::block_bytes(fmt);
    let mut v = Vec::with_capacity(n * bs);
    let fixed: Vec<u8> = (0..16).map(|_| r.u8()).collect();
    for i in 0..n {
        for half in 0..bs / 8 {
            let is_colour = fmt == 0 || ((fmt == 1 || fmt == 2) && half == 1);
            let mut b: [u8; 8] = std::array::from_fn(|_| r.u8());
            match kind {
                0 => {}
                1 => { // equal endpoints
                    if is_colour { b[2] = b[0]; b[3] = b[1]; } else { b[1] = b[0]; }
                }
                2 => { // forced order of the endpoints, both ways
                    if is_colour {
                        let (x, y) = (u16::from_le_bytes([b[0], b[1]]), u16::from_le_bytes([b[2], b[3]]));
                        let (hi, lo) = (x.max(y), x.min(y));
                        let (x, y) = if i % 2 == 0 { (hi, lo) } else { (lo, hi) };
                        b[..2].copy_from_slice(&x.to_le_bytes()); b[2..4].copy_from_slice(&y.to_le_bytes());
                    } else { let (hi, lo) = (b[0].max(b[1]), b[0].min(b[1])); if i % 2 == 0 { b[0] = hi; b[1] = lo } else { b[0] = lo; b[1] = hi } }
                }
                3 => b = [0; 8],
                4 => b = [255; 8],
                7 => { // the same block over and over, with small differences
                    b = std::array::from_fn(|k| fixed[k + 8 * half]);
                    match r.below(8) {
                        0 => b[r.below(8) as usize] ^= 1 << r.below(8),
                        1 => b[r.below(8) as usize] = r.u8(),
                        2 => { let (i, j) = (r.below(8) as usize, r.below(8) as usize); b.swap(i, j) }
                        3 => if is_colour { b.swap(0, 2); b.swap(1, 3); } else { b.swap(0, 1) },
                        _ => {}
                    }
                }
                5 => { for k in 0..8 { b[k] = fixed[k + 8 * half]; } if is_colour { b[0] = b[0].wrapping_add(i as u8) } else { b[0] = i as u8 } }
                _ => { // extreme endpoints, every index value
                    let e = [[0, 0, 255, 255], [255, 255, 0, 0], [0, 248, 31, 0], [224, 7, 0, 0]][(i % 4) as usize];
                    if is_colour { b[..4].copy_from_slice(&e); b[4..7].copy_from_slice(&[0x1B, 0xE4, 0x93]); }
                    else { b[0] = [0, 255, 0, 128, 255, 1][i % 6]; b[1] = [255, 0, 0, 128, 254, 2][i % 6]; b[2..5].copy_from_slice(&[0x88, 0xC6, 0xFA]); }
                }
            }
            v.extend_from_slice(&b);
        }
    }
    v
}

L="lib/src/lib.rs"
PRE=r'''
use texpresso::*;
fn noise(n: usize, mut s: u64) -> Vec<u8> { (0..n).map(|_| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 40) as u8 }).collect() }
#[allow(dead_code)]
fn par(alg: Algorithm) -> Params { Params { algorithm: alg, weights: COLOUR_WEIGHTS_PERCEPTUAL, weigh_colour_by_alpha: false } }
/// every tile on its own
#[allow(dead_code)]
fn tiles(f: Format, px: &[u8], w: usize, h: usize, p: Params) -> Vec<u8> {
    let bs = f.block_size();
    let mut out = vec![];
    for ty in 0..(h + 3) / 4 { for tx in 0..(w + 3) / 4 {
        let (mut t, mut m) = ([[0u8; 4]; 16], 0u32);
        for i in 0..16 { let (x, y) = (tx * 4 + i % 4, ty * 4 + i / 4); if x < w && y < h { m |= 1 << i; t[i].copy_from_slice(&px[(y * w + x) * 4..][..4]); } }
        let mut b = vec![0; bs];
        f.compress_block_masked(t, m, p, &mut b);
        out.extend(b);
    } }
    out
}
#[allow(dead_code)]
fn untile(f: Format, d: &[u8], w: usize, h: usize) -> Vec<u8> {
    let (bs, bw) = (f.block_size(), (w + 3) / 4);
    let mut out = vec![0; w * h * 4];
    for y in 0..h { for x in 0..w { let b = (y / 4 * bw + x / 4) * bs; let r = f.decompress_block(&d[b..b + bs]); out[(y * w + x) * 4..][..4].copy_from_slice(&r[y % 4 * 4 + x % 4]); } }
    out
}
#[allow(dead_code)]
fn watchdog(s: u64) { std::thread::spawn(move || { std::thread::sleep(std::time::Duration::from_secs(s)); println!("no progress"); std::process::exit(1) }); }
'''
bug("L01-row-ticket", prop="L01",
  needs="two workers whose block rows start in another order than the rows have in the image (a stolen right half starting before the left half is done)",
  breaks="block rows take their position from a shared counter instead of their index, so with a reordering schedule rows of the compressed image are exchanged",
  edits=[(L,'''        output_rows.enumerate().for_each(|(y, output_row)| {
            let mut source_rgba = [[0u8; 4]; 16];''','''        // hand out block rows in order
        let next_row = core::sync::atomic::AtomicUsize::new(0);
        output_rows.for_each(|output_row| {
            let y = next_row.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
            let mut source_rgba = [[0u8; 4]; 16];''')],
  rs=PRE+r'''
fn main() {
    let (w, h) = (64, 256);
    let px = noise(w * h * 4, 7);
    let want = tiles(Format::Bc1, &px, w, h, par(Algorithm::RangeFit));
    for n in [2, 4, 8, 16] {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
        for _ in 0..300 {
            let mut out = vec![0; want.len()];
            pool.install(|| Format::Bc1.compress(&px, w, h, par(Algorithm::RangeFit), &mut out));
            if out != want { println!("compressed image differs with {} threads", n); std::process::exit(1) }
        }
    }
}
''')
bug("L01-stale-edge", prop="L01",
  needs="a width that is not a multiple of four and, in the last column, tile contents that differ from the previous tile of the same row",
  breaks="the last tile of a row is compressed with all sixteen pixels enabled, so pixels left over from the tile before it leak into the block at the right edge of the image",
  edits=[(L,'''                        if sx < width && sy < height {
                            // copy pixel value''','''                        if sy < height {
                            mask |= 1 << index;
                        }
                        if sx < width && sy < height {
                            // copy pixel value'''),
         (L,'''
                            // enable pixel
                            mask |= 1 << index;
''','')],
  rs=PRE+r'''
fn main() {
    for (w, h) in [(8, 8), (10, 8), (13, 5)] {
        let px = noise(w * h * 4, 3);
        for f in [Format::Bc1, Format::Bc3, Format::Bc4] {
            let want = tiles(f, &px, w, h, par(Algorithm::RangeFit));
            let mut out = vec![0; want.len()];
            f.compress(&px, w, h, par(Algorithm::RangeFit), &mut out);
            if out != want { println!("{:?} {}x{} differs from its tiles", f, w, h); std::process::exit(1) }
        }
    }
}
''')
bug("L02-row-pairs", prop="L02",
  needs="an image of more than 256 rows of blocks (small images keep the simple path) whose number of block rows is odd",
  breaks="for tall images two rows of blocks are decoded per work item to reduce overhead; the second half of the last, incomplete pair is taken from the wrong blocks",
  edits=[(L,'''        let output_rows = output.par_chunks_mut(width * 4 * 4);
        #[cfg(not(feature = "rayon"))]
        let output_rows = output.chunks_mut(width * 4 * 4);
''','''        let output_rows = output.par_chunks_mut(width * 4 * 4 * per_item);
        #[cfg(not(feature = "rayon"))]
        let output_rows = output.chunks_mut(width * 4 * 4 * per_item);
'''),(L,'''        output_rows.enumerate().for_each(|(y, output_row)| {
            for x in 0..blocks_wide {
                // decompress the block''','''        output_rows.enumerate().for_each(|(item, output_item)| {
            let rows_here = num_blocks(output_item.len() / (width * 4));
            for (i, output_row) in output_item.chunks_mut(width * 4 * 4).enumerate() {
            let y = item * rows_here + i;
            for x in 0..blocks_wide {
                // decompress the block'''),
    (L,'''                            for i in 0..4 {
                                output_row[4 * (sx + sy * width) + i] = rgba[px + py * 4][i];
                            }
                        }
                    }
                }
            }
        });''','''                            for i in 0..4 {
                                output_row[4 * (sx + sy * width) + i] = rgba[px + py * 4][i];
                            }
                        }
                    }
                }
            }
            }
        });'''),
    (L,'''        let blocks_wide = num_blocks(width);
        let block_size = self.block_size();

        // the buffer may''','''        let blocks_wide = num_blocks(width);
        let block_size = self.block_size();
        // fewer, larger work items for tall images
        let per_item = if num_blocks(height) > 256 { 2 } else { 1 };

        // the buffer may''')],
  rs=PRE+r'''
fn main() {
    for (w, h) in [(8, 64), (5, 1024), (4, 1029), (8, 1027)] {
        let d = noise((w + 3) / 4 * ((h + 3) / 4) * 16, 5);
        let mut out = vec![0; w * h * 4];
        Format::Bc3.decompress(&d, w, h, &mut out);
        if out != untile(Format::Bc3, &d, w, h) { println!("{}x{} decoded wrongly", w, h); std::process::exit(1) }
    }
}
''')
bug("L02-equal-ends", prop="L02",
  needs="BC1 data in which a block has two equal end points and uses index 3 (the encoder of this library never writes it)",
  breaks="blocks with equal end points are decoded as four-colour blocks: index 3 gives an opaque colour instead of transparent black",
  edits=[("lib/src/colourblock.rs",'''    codes[12 + 3] = if is_bc1 && (a <= b)''','''    codes[12 + 3] = if is_bc1 && (a < b)''')],
  rs=PRE+r'''
fn main() {
    let d = [0x10, 0x84, 0x10, 0x84, 0xff, 0xff, 0xff, 0xff];
    let mut out = vec![7; 64];
    Format::Bc1.decompress(&d, 4, 4, &mut out);
    if out[3] != 0 { println!("alpha is {}", out[3]); std::process::exit(1) }
}
''')
bug("L03-poison", prop="L03",
  needs="a failing decompress call, followed (or accompanied) by a correct one in the same process",
  breaks="a counter of active calls that serialises very large numbers of calls is not decremented when a call panics, so after four failures every later call waits for ever",
  edits=[(L,'''        // loop over blocks
        output_rows''','''        // do not let too many images compete for the caches
        use core::sync::atomic::{AtomicUsize, Ordering};
        static ACTIVE: AtomicUsize = AtomicUsize::new(0);
        while ACTIVE.fetch_add(1, Ordering::AcqRel) >= 4 {
            ACTIVE.fetch_sub(1, Ordering::AcqRel);
            core::hint::spin_loop();
        }

        // loop over blocks
        output_rows'''),
    (L,'''                                output_row[4 * (sx + sy * width) + i] = rgba[px + py * 4][i];
                            }
                        }
                    }
                }
            }
        });
    }''','''                                output_row[4 * (sx + sy * width) + i] = rgba[px + py * 4][i];
                            }
                        }
                    }
                }
            }
        });
        ACTIVE.fetch_sub(1, Ordering::AcqRel);
    }''')],
  rs=PRE+r'''
fn main() {
    watchdog(20);
    let d = noise(64, 5);
    for _ in 0..6 {
        let r = std::panic::catch_unwind(|| { let mut out = vec![0; 8 * 8 * 4]; Format::Bc3.decompress(&d[..40], 8, 8, &mut out); });
        assert!(r.is_err());
    }
    let mut out = vec![0; 8 * 8 * 4];
    Format::Bc3.decompress(&d, 8, 8, &mut out);
    if out != untile(Format::Bc3, &d, 8, 8) { std::process::exit(1) }
}
''')
bug("L03-pad", prop="L03",
  needs="input that is too short by less than one row of pixels, in an image of several block rows",
  breaks="compress silently repeats the last available pixel when the last row of the input is cut short instead of failing",
  edits=[(L,'''                            source_rgba[index].copy_from_slice(&rgba[src_index..src_index + 4]);''','''                            let src_index = if sy + 1 == height && sy > 0 {
                                src_index.min(rgba.len() / 4 * 4 - 4)
                            } else {
                                src_index
                            };
                            source_rgba[index].copy_from_slice(&rgba[src_index..src_index + 4]);''')],
  rs=PRE+r'''
fn main() {
    let px = noise(12 * 12 * 4, 5);
    let r = std::panic::catch_unwind(|| { let mut out = vec![0; 9 * 8]; Format::Bc1.compress(&px[..px.len() - 20], 12, 12, par(Algorithm::RangeFit), &mut out); });
    if r.is_ok() { println!("returned although the input is too short"); std::process::exit(1) }
}
''')

bug("L04-last-tile", prop="L04",
  needs="two calls handled by the same thread, whose consecutive tiles have equal pixels, with parameters that differ only in weigh_colour_by_alpha",
  breaks="each thread remembers the last colour block it compressed and reuses it for an equal tile; the key leaves out weigh_colour_by_alpha, so a later call returns the block made with another setting",
  edits=[(L,'#![no_std]','#![no_std]\nextern crate std;'),
   (L,"""                // create the minimal point set
                let colours =""","""                // flat areas repeat the same tile over and over
                let key = (rgba, mask, self, params.algorithm, params.weights);
                if let Some(block) = LAST_TILE.with(|t| t.borrow().as_ref().filter(|t| t.0 == key).map(|t| t.1)) {
                    let colour_offset = if self == Format::Bc1 { 0 } else { 8 };
                    output[colour_offset..colour_offset + 8].copy_from_slice(&block);
                    return;
                }

                // create the minimal point set
                let colours ="""),
   (L,"""                    let mut fit = ClusterFit::new(&colours, self, params.weights, iterate);
                    fit.compress(colour_block);
                }
""","""                    let mut fit = ClusterFit::new(&colours, self, params.weights, iterate);
                    fit.compress(colour_block);
                }
                let mut block = [0u8; 8];
                block.copy_from_slice(colour_block);
                LAST_TILE.with(|t| *t.borrow_mut() = Some((key, block)));
"""),
   (L,"""/// Returns number of blocks needed for an image of given dimension""","""type TileKey = ([[u8; 4]; 16], u32, Format, Algorithm, [f32; 3]);
std::thread_local! {
    static LAST_TILE: core::cell::RefCell<Option<(TileKey, [u8; 8])>> = const { core::cell::RefCell::new(None) };
}

/// Returns number of blocks needed for an image of given dimension"""),
   ],
  rs=PRE+r"""
fn main() {
    let px = noise(4 * 4 * 4, 11);
    let p = |w| Params { algorithm: Algorithm::RangeFit, weights: COLOUR_WEIGHTS_PERCEPTUAL, weigh_colour_by_alpha: w };
    let alone = |w| { let px = px.clone(); std::thread::spawn(move || { let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap(); pool.install(|| { let mut o = vec![0; 16]; Format::Bc3.compress(&px, 4, 4, p(w), &mut o); o }) }).join().unwrap() };
    let (a, b) = (alone(false), alone(true));
    assert!(a != b);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    let r = pool.install(|| [false, true].map(|w| { let mut o = vec![0; 16]; Format::Bc3.compress(&px, 4, 4, p(w), &mut o); o }));
    if r != [a, b] { println!("the second call returns the result of the first"); std::process::exit(1) }
}
""")
bug("L04-shared-palette", prop="L04",
  needs="two threads inside the alpha decoder at once, one of them preempted between storing its palette and the last of its sixteen loads",
  breaks="the alpha palette lives in one static array of atomics, so blocks decoded at the same time by other workers or other calls overwrite it",
  edits=[("lib/src/alpha.rs","""    // decode the indices
    let mut indices = [0u8; 16];
    for i in 0..2 {
        // grab 3 bytes""","""    // keep one palette instead of a copy on every stack
    for (slot, &code) in PALETTE.iter().zip(codes.iter()) {
        slot.store(code, Ordering::Relaxed);
    }

    // decode the indices
    let mut indices = [0u8; 16];
    for i in 0..2 {
        // grab 3 bytes"""),
   ("lib/src/alpha.rs","        pixel[channel] = codes[index as usize];","        pixel[channel] = PALETTE[index as usize].load(Ordering::Relaxed);"),
   ("lib/src/alpha.rs","use crate::math::f32_to_i32_clamped;","use core::sync::atomic::{AtomicU8, Ordering};\n\nuse crate::math::f32_to_i32_clamped;\n\nstatic PALETTE: [AtomicU8; 8] = [const { AtomicU8::new(0) }; 8];")],
  rs=PRE+r"""
fn main() {
    let (w, h) = (512, 512);
    let d = noise(w * h, 5);
    let want = untile(Format::Bc3, &d, w, h);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(8).build().unwrap();
    for _ in 0..60 {
        let mut out = vec![0; w * h * 4];
        pool.install(|| Format::Bc3.decompress(&d, w, h, &mut out));
        if out != want { println!("pixels mixed up"); std::process::exit(1) }
    }
}
""")
bug("L05-one-at-a-time", prop="L05",
  needs="calls made from inside the caller's own parallel tasks: a worker waiting for its rows steals another task that makes a call",
  breaks="a global spin lock is held across the parallel loop of compress to keep calls from competing for caches; a worker that steals another call while it waits spins on the lock it holds itself",
  edits=[(L,"""        output_rows.enumerate().for_each(|(y, output_row)| {
            let mut source_rgba = [[0u8; 4]; 16];""","""        // one image at a time, they would only compete for the cache
        while BUSY.swap(true, core::sync::atomic::Ordering::Acquire) {
            core::hint::spin_loop();
        }
        struct Release;
        impl Drop for Release {
            fn drop(&mut self) {
                BUSY.store(false, core::sync::atomic::Ordering::Release);
            }
        }
        let _release = Release;

        output_rows.enumerate().for_each(|(y, output_row)| {
            let mut source_rgba = [[0u8; 4]; 16];"""),
   (L,"/// Returns number of blocks needed for an image of given dimension","static BUSY: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);\n\n/// Returns number of blocks needed for an image of given dimension")],
  rs=PRE+r"""
use rayon::prelude::*;
fn main() {
    watchdog(40);
    let px = noise(64 * 64 * 4, 5);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(4).build().unwrap();
    let want = tiles(Format::Bc1, &px, 64, 64, par(Algorithm::RangeFit));
    for _ in 0..200 {
        let ok = pool.install(|| (0..16).into_par_iter().all(|_| { let mut o = vec![0; want.len()]; Format::Bc1.compress(&px, 64, 64, par(Algorithm::RangeFit), &mut o); o == want }));
        if !ok { std::process::exit(1) }
    }
    // a worker that must wait for its own other half
    let two = rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap();
    for _ in 0..400 { two.install(|| rayon::join(|| { let mut o = vec![0; want.len()]; Format::Bc1.compress(&px, 64, 64, par(Algorithm::RangeFit), &mut o); }, || { let mut o = vec![0; want.len()]; Format::Bc1.compress(&px, 64, 64, par(Algorithm::RangeFit), &mut o); })); }
}
""")
bug("L05-wake-all", prop="L05",
  needs="an image of at least twelve block rows while some worker of the pool is kept busy by something that waits for this call",
  breaks="decompress first runs an empty task on every worker to wake them up; it then waits for workers that never get to run",
  edits=[(L,"""        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(width * 4 * 4);""","""        // wake up the workers before handing out the rows
        #[cfg(feature = "rayon")]
        if num_blocks(height) >= 12 {
            rayon::broadcast(|_| {});
        }

        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(width * 4 * 4);""")],
  rs=PRE+r"""
fn main() {
    watchdog(20);
    let (w, h) = (8, 64);
    let d = noise(w * h, 5);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    let (up, is_up) = std::sync::mpsc::channel();
    pool.spawn(move || { up.send(()).unwrap(); rx.recv().unwrap() });
    is_up.recv().unwrap();
    let out = pool.install(|| { let mut out = vec![0; w * h * 4]; Format::Bc3.decompress(&d, w, h, &mut out); out });
    tx.send(()).unwrap();
    if out != untile(Format::Bc3, &d, w, h) { std::process::exit(1) }
}
""")
bug("L06-exact-rows", prop="L06",
  needs="the build without the parallel feature and an image whose height is not a multiple of four",
  breaks="the serial build of decompress leaves out the incomplete last row of blocks",
  edits=[(L,"""        let output_rows = output.chunks_mut(width * 4 * 4);""","""        let output_rows = output.chunks_exact_mut(width * 4 * 4);""")],
  feat='',
  rs=PRE+r"""
fn main() {
    let (w, h) = (9, 14);
    let d = noise(12 * 16, 5);
    let mut out = vec![0; w * h * 4];
    Format::Bc3.decompress(&d, w, h, &mut out);
    if out != untile(Format::Bc3, &d, w, h) { println!("last rows are missing"); std::process::exit(1) }
}
""")
bug("L06-wide-split", prop="L06",
  needs="the parallel build, and an image with one row of blocks that is at least 32 blocks wide",
  breaks="the parallel build cuts a single long row of blocks into pieces to share it between workers, and takes the source columns of every piece from the start of the row",
  edits=[(L,"""        let output_rows = output.par_chunks_mut(blocks_wide * block_size);
        #[cfg(not(feature = "rayon"))]
        let output_rows = output.chunks_mut(blocks_wide * block_size);
""","""        let split = if height <= 4 && blocks_wide >= 32 { (blocks_wide + 1) / 2 } else { blocks_wide };
        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(split * block_size);
        #[cfg(not(feature = "rayon"))]
        let output_rows = output.chunks_mut(blocks_wide * block_size);
        #[cfg(not(feature = "rayon"))]
        let split = blocks_wide;
"""),(L,"""            let output_blocks = output_row.chunks_mut(block_size);
""","""            let output_blocks = output_row.chunks_mut(block_size);
            let (y, first) = (y * split / blocks_wide, y * split % blocks_wide / split);
""")
   ,(L,"""                        let sx = 4 * x + px;
                        let sy = 4 * y + py;
""","""                        let sx = 4 * (x + first) + px;
                        let sy = 4 * y + py;
""")],
  rs=PRE+r"""
fn main() {
    for w in [64, 124, 128, 250] {
        let h = 3;
        let px = noise(w * h * 4, 5);
        let want = tiles(Format::Bc1, &px, w, h, par(Algorithm::RangeFit));
        let mut o = vec![0; want.len()];
        Format::Bc1.compress(&px, w, h, par(Algorithm::RangeFit), &mut o);
        if o != want { println!("differs at width {}", w); std::process::exit(1) }
    }
}
""")
OOM=r"""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicBool, Ordering::SeqCst};
struct A;
/// number of allocations that still succeed; negative: all do
static LEFT: AtomicI64 = AtomicI64::new(-1);
static SEEN: AtomicI64 = AtomicI64::new(0);
static STICKY: AtomicBool = AtomicBool::new(true);
#[allow(dead_code)]
fn refuse() -> bool {
    SEEN.fetch_add(1, SeqCst);
    let n = LEFT.load(SeqCst);
    if n < 0 { return false }
    if n > 0 { LEFT.fetch_sub(1, SeqCst); return false }
    if !STICKY.load(SeqCst) { LEFT.store(-1, SeqCst); }
    true
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if refuse() { core::ptr::null_mut() } else { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
"""
bug("L07-heap-rows", prop="L07", feat="",
  needs="the serial build on a system without heap memory to spare, and an image whose width or height is not a multiple of four",
  breaks="decompressing an image with partial tiles first builds full rows of tiles in a buffer on the heap, so without heap memory the call ends the process",
  edits=[(L,"""#![no_std]
""","""#![no_std]

extern crate alloc;
"""),(L,"""        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(width * 4 * 4);
""","""        // partial tiles: decompress into an image that is padded to full tiles, then crop it
        if width % 4 != 0 || height % 4 != 0 {
            let (padded_w, padded_h) = (blocks_wide * 4, num_blocks(height) * 4);
            let mut padded = alloc::vec![0u8; padded_w * padded_h * 4];
            self.decompress(data, padded_w, padded_h, &mut padded);
            let rows = padded.chunks(padded_w * 4);
            for (to, from) in output.chunks_mut(width * 4).zip(rows) {
                to.copy_from_slice(&from[..to.len()]);
            }
            return;
        }

        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(width * 4 * 4);
""")],
  rs=PRE+OOM+r"""
fn main() {
    for (w, h) in [(16, 16), (13, 16), (16, 5), (1, 1), (30, 30)] {
        for f in [Format::Bc1, Format::Bc3, Format::Bc4] {
            let d = noise(f.compressed_size(w, h), 11);
            let want = untile(f, &d, w, h);
            let mut out = vec![0; want.len()];
            LEFT.store(0, SeqCst);
            f.decompress(&d, w, h, &mut out);
            LEFT.store(-1, SeqCst);
            if out != want { println!("differs at {}x{}", w, h); std::process::exit(1) }
        }
    }
}
""")
bug("L07-helper-thread", prop="L07", feat="",
  needs="the serial build, an image of at least 12 rows of blocks, and a system on which no further thread can be started",
  breaks="the serial build compresses the lower half of a tall image on a helper thread and leaves that half empty when the thread cannot be started",
  edits=[(L,"""#![no_std]
""","""#![no_std]

#[cfg(not(feature = "rayon"))]
extern crate std;
"""),(L,"""        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(blocks_wide * block_size);
""","""        // a tall image: let a helper thread take the lower half
        #[cfg(not(feature = "rayon"))]
        if num_blocks(height) >= 12 {
            let half = num_blocks(height) / 2;
            let (upper, lower) = output.split_at_mut(half * blocks_wide * block_size);
            let (above, below) = rgba.split_at(half * 4 * width * 4);
            std::thread::scope(|s| {
                let helper = std::thread::Builder::new().spawn_scoped(s, move || {
                    self.compress(below, width, height - half * 4, params, lower)
                });
                self.compress(above, width, half * 4, params, upper);
                if let Ok(helper) = helper {
                    helper.join().unwrap();
                }
            });
            return;
        }

        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(blocks_wide * block_size);
""")],
  rs=PRE+r"""
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
static ARMED: AtomicBool = AtomicBool::new(false);
// no thread can be started
#[no_mangle]
pub extern "C" fn pthread_create(_: *mut u8, _: *const u8, _: *const u8, _: *mut u8) -> i32 { ARMED.store(true, SeqCst); 11 }
fn main() {
    for (w, h) in [(16, 16), (16, 64), (5, 90)] {
        for f in [Format::Bc1, Format::Bc3, Format::Bc4] {
            let px = noise(w * h * 4, 3);
            let want = tiles(f, &px, w, h, par(Algorithm::RangeFit));
            let mut out = vec![0; want.len()];
            f.compress(&px, w, h, par(Algorithm::RangeFit), &mut out);
            if out != want { println!("differs at {}x{}", w, h); std::process::exit(1) }
        }
    }
}
""")
bug("L08-silent-scratch", prop="L08",
  needs="the failure of one particular allocation: that of the scratch buffer for the tiles of a block row",
  breaks="every block row is first expanded into a scratch buffer on the heap; when that buffer cannot be allocated the row is skipped and the call returns normally with those rows missing",
  edits=[(L,"""#![no_std]
""","""#![no_std]

#[cfg(feature = "rayon")]
extern crate alloc;
"""),(L,"""            for x in 0..blocks_wide {
                // decompress the block
                let bidx = (x + y * blocks_wide) * block_size;
                let rgba = self.decompress_block(&data[bidx..bidx + block_size]);
""","""            // decode all tiles of the row before scattering them
            #[cfg(feature = "rayon")]
            let tiles = {
                let mut tiles = alloc::vec::Vec::<[[u8; 4]; 16]>::new();
                if tiles.try_reserve_exact(blocks_wide).is_err() {
                    return;
                }
                for x in 0..blocks_wide {
                    let bidx = (x + y * blocks_wide) * block_size;
                    tiles.push(self.decompress_block(&data[bidx..bidx + block_size]));
                }
                tiles
            };
            for x in 0..blocks_wide {
                // decompress the block
                #[cfg(feature = "rayon")]
                let rgba = tiles[x];
                #[cfg(not(feature = "rayon"))]
                let bidx = (x + y * blocks_wide) * block_size;
                #[cfg(not(feature = "rayon"))]
                let rgba = self.decompress_block(&data[bidx..bidx + block_size]);
""")],
  rs=PRE+OOM+r"""
fn main() {
    // in a pool that is already running, let every allocation fail once, in children as the failure may end the process
    if let Some(k) = std::env::args().nth(1) {
        let k: i64 = k.parse().unwrap();
        let pool = rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap();
        let (w, h) = (24, 24);
        let d = noise(Format::Bc1.compressed_size(w, h), 5);
        let want = untile(Format::Bc1, &d, w, h);
        pool.install(|| {
            let mut out = vec![0; want.len()];
            STICKY.store(false, SeqCst);
            LEFT.store(k, SeqCst);
            Format::Bc1.decompress(&d, w, h, &mut out);
            LEFT.store(-1, SeqCst);
            if out != want { println!("allocation {} failed and the call returned normally with a wrong image", k); std::process::exit(77) }
        });
        return;
    }
    let me = std::env::current_exe().unwrap();
    for k in 0..12 {
        let s = std::process::Command::new(&me).arg(k.to_string()).stderr(std::process::Stdio::null()).status().unwrap();
        if s.code() == Some(77) { std::process::exit(1) }
    }
}
""")
bug("L08-serial-fallback", prop="L08",
  needs="worker threads that cannot be started, and an image whose height is not a multiple of four",
  breaks="when the global thread pool cannot be started, compress works through the rows itself, but that fallback loops over the full rows of blocks only and leaves out the partial row at the bottom",
  edits=[(L,"""#![no_std]
""","""#![no_std]

#[cfg(feature = "rayon")]
extern crate std;
"""),(L,"""        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(blocks_wide * block_size);
""","""        // no worker threads to be had: do the work here, one row of blocks after the other
        #[cfg(feature = "rayon")]
        {
            static POOL: std::sync::OnceLock<Option<rayon::ThreadPool>> = std::sync::OnceLock::new();
            let pool = POOL.get_or_init(|| rayon::ThreadPoolBuilder::new().build().ok());
            if rayon::current_thread_index().is_none() && pool.is_none() {
                for y in 0..height / 4 {
                    for x in 0..blocks_wide {
                        let mut tile = [[0u8; 4]; 16];
                        let mut mask = 0u32;
                        for i in 0..16 {
                            let (sx, sy) = (4 * x + i % 4, 4 * y + i / 4);
                            if sx < width {
                                mask |= 1 << i;
                                tile[i].copy_from_slice(&rgba[4 * (width * sy + sx)..][..4]);
                            }
                        }
                        let to = (y * blocks_wide + x) * block_size;
                        self.compress_block_masked(tile, mask, params, &mut output[to..to + block_size]);
                    }
                }
                return;
            }
        }

        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(blocks_wide * block_size);
""")],
  rs=PRE+r"""
// no thread can be started
#[no_mangle]
pub extern "C" fn pthread_create(_: *mut u8, _: *const u8, _: *const u8, _: *mut u8) -> i32 { 11 }
fn main() {
    for (w, h) in [(16, 16), (16, 13), (7, 3)] {
        for f in [Format::Bc1, Format::Bc3, Format::Bc4] {
            let px = noise(w * h * 4, 3);
            let want = tiles(f, &px, w, h, par(Algorithm::RangeFit));
            let mut out = vec![0; want.len()];
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.compress(&px, w, h, par(Algorithm::RangeFit), &mut out))).is_ok();
            if ok && out != want { println!("returned normally with a wrong result at {}x{}", w, h); std::process::exit(1) }
        }
    }
}
""")
bug("L09-colour-cache", prop="L09",
  needs="many calls in one process on images that contain uniform tiles, each time of other colours",
  breaks="the parallel build remembers every uniform colour block it has compressed in a global table that is never trimmed, so each call on a picture with new colours leaves memory behind",
  edits=[(L,'#![no_std]','#![no_std]\n#[cfg(feature = "rayon")]\nextern crate std;'),
   (L,"""                    let mut fit = SingleColourFit::new(&colours, self);
                    fit.compress(colour_block);
""","""                    // the search for the best end points is expensive and uniform tiles are common
                    #[cfg(feature = "rayon")]
                    {
                        let p = colours.points()[0];
                        let key = (self as u8, colours.is_transparent(), [p.x().to_bits(), p.y().to_bits(), p.z().to_bits()]);
                        let known = UNIFORM.lock().unwrap().get(&key).copied();
                        if let (Some(block), 0xFFFF) = (known, mask) {
                            colour_block.copy_from_slice(&block);
                            return;
                        }
                        let mut fit = SingleColourFit::new(&colours, self);
                        fit.compress(colour_block);
                        if mask == 0xFFFF && !colours.is_transparent() {
                            let mut block = [0u8; 8];
                            block.copy_from_slice(colour_block);
                            UNIFORM.lock().unwrap().insert(key, block);
                        }
                        return;
                    }
                    #[cfg(not(feature = "rayon"))]
                    {
                        let mut fit = SingleColourFit::new(&colours, self);
                        fit.compress(colour_block);
                    }
"""),
   (L,"""/// Returns number of blocks needed for an image of given dimension""","""#[cfg(feature = "rayon")]
static UNIFORM: std::sync::Mutex<std::collections::BTreeMap<(u8, bool, [u32; 3]), [u8; 8]>> =
    std::sync::Mutex::new(std::collections::BTreeMap::new());

/// Returns number of blocks needed for an image of given dimension""")],
  rs=PRE+r"""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct A;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut mark = 0;
    for k in 0..22000u32 {
        let px: Vec<u8> = (0..64).map(|i| [k as u8, (k >> 8) as u8, 7, 255][i % 4]).collect();
        let mut o = [0; 8];
        Format::Bc1.compress(&px, 4, 4, par(Algorithm::RangeFit), &mut o);
        if k == 2000 { mark = LIVE.load(SeqCst); }
    }
    let left = LIVE.load(SeqCst) - mark;
    if left > 100_000 { println!("20000 calls left {} bytes in use", left); std::process::exit(1) }
}
""")
bug("L09-lower-half", prop="L09",
  needs="the parallel build, called from a pool of the caller's own that is meant to limit the number of threads, and an image of at least 16 rows of blocks",
  breaks="decompress starts a thread of its own for the lower half of larger images, next to the pool it was called in",
  edits=[(L,'#![no_std]','#![no_std]\n#[cfg(feature = "rayon")]\nextern crate std;'),
   (L,"""        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(width * 4 * 4);
""","""        // two halves at a time hide the latency of getting the pool to work
        #[cfg(feature = "rayon")]
        if num_blocks(height) >= 16 {
            let rows = num_blocks(height) / 2;
            let (upper, lower) = output.split_at_mut(rows * 4 * width * 4);
            std::thread::scope(|s| {
                let rest = s.spawn(|| {
                    self.decompress(&data[rows * blocks_wide * block_size..], width, height - rows * 4, lower)
                });
                self.decompress(data, width, rows * 4, upper);
                if let Err(e) = rest.join() {
                    std::panic::resume_unwind(e);
                }
            });
            return;
        }

        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(width * 4 * 4);
""")],
  rs=PRE+r"""
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static STARTED: AtomicUsize = AtomicUsize::new(0);
extern "C" { fn dlsym(h: *mut u8, n: *const u8) -> *mut u8; }
#[no_mangle]
pub unsafe extern "C" fn pthread_create(a: *mut u8, b: *mut u8, c: *mut u8, d: *mut u8) -> i32 {
    STARTED.fetch_add(1, SeqCst);
    let real: extern "C" fn(*mut u8, *mut u8, *mut u8, *mut u8) -> i32 = std::mem::transmute(dlsym(usize::MAX as *mut u8, b"pthread_create\0".as_ptr()));
    real(a, b, c, d)
}
fn main() {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    pool.install(|| ());
    for (w, h) in [(16, 16), (5, 64), (40, 201)] {
        let d = noise(Format::Bc3.compressed_size(w, h), 3);
        let mut o = vec![0; w * h * 4];
        pool.install(|| Format::Bc3.decompress(&d, w, h, &mut o));
        if o != untile(Format::Bc3, &d, w, h) { println!("wrong"); std::process::exit(1) }
    }
    let n = STARTED.load(SeqCst);
    if n > 1 { println!("{} threads started, the pool has one", n); std::process::exit(1) }
}
""")
SHARE=r'''
/// Largest part of the work of `f` that one of the pool's threads has done, by the time each spent on a processor.
fn share(threads: usize, f: impl Fn() + Sync + Send) -> f64 {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
    let times = || -> std::collections::BTreeMap<String, f64> {
        std::fs::read_dir("/proc/self/task").unwrap().filter_map(|e| { let p = e.ok()?.path(); let s = std::fs::read_to_string(p.join("schedstat")).ok()?; Some((p.display().to_string(), s.split(' ').next()?.parse().ok()?)) }).collect()
    };
    let a = times();
    pool.install(&f);
    let b = times();
    let d: Vec<f64> = b.iter().map(|(k, v)| v - a.get(k).unwrap_or(&0.0)).collect();
    d.iter().cloned().fold(0.0, f64::max) / d.iter().sum::<f64>()
}
'''
bug("L10-coarse", prop="L10",
  needs="an image of some dozens to some hundreds of rows of blocks",
  breaks="rows of blocks are handed out in portions of at least 96, so most workers have nothing to do on images that are less than 384 pixels per worker high",
  edits=[(L,'''        let output_rows = output.par_chunks_mut(width * 4 * 4);
''','''        let output_rows = output.par_chunks_mut(width * 4 * 4).with_min_len(96);
''')],
  rs=PRE+SHARE+r'''
fn main() {
    let (w, h) = (8192, 640);
    let d = noise(w * h / 2, 5);
    for _ in 0..8 {
        let s = share(4, || for _ in 0..4 { let mut out = vec![0; w * h * 4]; Format::Bc1.decompress(&d, w, h, &mut out) });
        println!("largest share {:.2}", s);
        if s < 0.52 { return }
    }
    std::process::exit(1)
}
''')
bug("L10-uneven-height", prop="L10",
  needs="the parallel build and an image whose height is not a multiple of four",
  breaks="compress works in parallel on images of full rows of blocks only; any other image is compressed by the calling thread alone",
  edits=[(L,'''        let output_rows = output.par_chunks_mut(blocks_wide * block_size);
        #[cfg(not(feature = "rayon"))]
        let output_rows = output.chunks_mut(blocks_wide * block_size);
''','''        let full = height - height % 4;
        #[cfg(feature = "rayon")]
        if full != height && full > 0 {
            for (y, rows) in (0..height).step_by(4).zip(output.chunks_mut(blocks_wide * block_size)) {
                let rgba = &rgba[y * width * 4..];
                self.compress(rgba, width, (height - y).min(4), params, rows);
            }
            return;
        }
        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(blocks_wide * block_size);
        #[cfg(not(feature = "rayon"))]
        let output_rows = output.chunks_mut(blocks_wide * block_size);
''')],
  rs=PRE+SHARE+r'''
fn main() {
    for h in [512, 511] {
        let w = 1024;
        let px = noise(w * h * 4, 5);
        let mut best = 1.0f64;
        for _ in 0..8 { best = best.min(share(4, || { let mut out = vec![0; w * h]; Format::Bc1.compress(&px, w, h, par(Algorithm::RangeFit), &mut out) })); }
        println!("height {}: largest share {:.2}", h, best);
        if best > 0.55 { std::process::exit(1) }
    }
}
''')
bug("L02-two-words", prop="L02",
  needs="a thread switch between two neighbouring memory accesses (no branch and no call in between) in one worker while another one decodes a block with other end points",
  breaks="the intermediate colours of the last block are kept in two words, one that says whose they are and one with the colours; a thread that is interrupted between the two leaves one block's colours under another block's end points",
  edits=[("lib/src/colourblock.rs",'''use core::{mem, u8};
''','''use core::sync::atomic::{AtomicU64, Ordering};
use core::{mem, u8};
'''),("lib/src/colourblock.rs",'''pub fn decompress(bytes: &[u8], is_bc1: bool) -> [[u8; 4]; 16] {
    assert!(bytes.len() == 8);
''','''/// End points of the last block, and the colours in between
static LAST: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];

pub fn decompress(bytes: &[u8], is_bc1: bool) -> [[u8; 4]; 16] {
    assert!(bytes.len() == 8);
'''),("lib/src/colourblock.rs",'''    // generate intermediate values
    for i in 0..4 {''','''    // generate intermediate values
    let ends = u64::from(a) | u64::from(b) << 16 | u64::from(is_bc1) << 32 | 1 << 40;
    let (key, colours) = (LAST[0].load(Ordering::Acquire), LAST[1].load(Ordering::Acquire));
    if key == ends {
        codes[8..16].copy_from_slice(&colours.to_le_bytes());
    } else {
    for i in 0..4 {'''),("lib/src/colourblock.rs",'''    codes[12 + 3] = if is_bc1 && (a <= b) { 0u8 } else { u8::MAX };
''','''    codes[12 + 3] = if is_bc1 && (a <= b) { 0u8 } else { u8::MAX };
    let mut colours = [0u8; 8];
    colours.copy_from_slice(&codes[8..16]);
    LAST[1].store(u64::from_le_bytes(colours), Ordering::Release);
    LAST[0].store(ends, Ordering::Release);
    }
''')],
  rs=PRE+r'''
fn main() {
    let (w, h) = (512, 512);
    let n = w * h / 16;
    // noise with few different end points
    let mut d = noise(n * 8, 3);
    for i in 0..n { let k = d[i * 8] % 5; for j in 0..4 { d[i * 8 + j] = (k + 1).wrapping_mul(37 + 20 * j as u8); } }
    let want = untile(Format::Bc1, &d, w, h);
    for n in [2, 4, 8] {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
        for _ in 0..500 {
            let mut out = vec![0; want.len()];
            pool.install(|| Format::Bc1.decompress(&d, w, h, &mut out));
            if out != want { println!("decompressed image differs with {} threads", n); std::process::exit(1) }
        }
    }
}
''')
bug("L10-four-parts", prop="L10",
  needs="a pool of more than eight workers",
  breaks="compress cuts the image into four parts at most, so further workers have nothing to do",
  edits=[(L,'''        let output_rows = output.par_chunks_mut(blocks_wide * block_size);
''','''        let output_rows = output
            .par_chunks_mut(blocks_wide * block_size)
            .with_min_len(num_blocks(height) / 4);
''')],
  rs=PRE+SHARE+r'''
fn main() {
    let (w, h) = (1024, 1024);
    let px = noise(w * h * 4, 5);
    let mut best = 1.0f64;
    for _ in 0..12 { best = best.min(share(16, || { let mut out = vec![0; w * h]; Format::Bc1.compress(&px, w, h, par(Algorithm::RangeFit), &mut out) })); }
    println!("largest share {:.2}", best);
    if best > 0.245 { std::process::exit(1) }
}
''')
bug("L04-worker-slots", prop="L04",
  needs="two calls at the same time whose threads have the same index: workers of different pools, or a worker and a thread outside of any pool",
  breaks="the palette of a block is kept in a slot that belongs to the index of the worker; workers of different pools share slots and overwrite each other's palette",
  edits=[("lib/src/alpha.rs",'''use crate::math::f32_to_i32_clamped;
''','''use core::sync::atomic::{AtomicU8, Ordering};

use crate::math::f32_to_i32_clamped;

/// One palette for each worker
static PALETTES: [[AtomicU8; 8]; 64] = [const { [const { AtomicU8::new(0) }; 8] }; 64];

#[cfg(feature = "rayon")]
fn palette() -> &'static [AtomicU8; 8] {
    &PALETTES[rayon::current_thread_index().unwrap_or(0) % 64]
}

#[cfg(not(feature = "rayon"))]
fn palette() -> &'static [AtomicU8; 8] {
    &PALETTES[0]
}
'''),("lib/src/alpha.rs",'''    // decode the indices
    let mut indices = [0u8; 16];
    for i in 0..2 {''','''    let palette = palette();
    for (slot, &code) in palette.iter().zip(codes.iter()) {
        slot.store(code, Ordering::Relaxed);
    }

    // decode the indices
    let mut indices = [0u8; 16];
    for i in 0..2 {'''),("lib/src/alpha.rs",'''        pixel[channel] = codes[index as usize];
''','''        pixel[channel] = palette[index as usize].load(Ordering::Relaxed);
''')],
  rs=PRE+r'''
fn main() {
    let (w, h) = (256, 256);
    let d: Vec<u8> = noise(w * h, 3);
    let want = untile(Format::Bc3, &d, w, h);
    let bad = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| for _ in 0..4 { s.spawn(|| {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap();
        for _ in 0..600 {
            let mut out = vec![0; want.len()];
            pool.install(|| Format::Bc3.decompress(&d, w, h, &mut out));
            if out != want { bad.store(true, std::sync::atomic::Ordering::Relaxed); return }
        }
    }); });
    if bad.into_inner() { println!("results differ when several pools are at work"); std::process::exit(1) }
}
''')
bug("L07-row-on-stack", prop="L07", feat="",
  needs="a caller with a small stack (an embedded task); an ordinary main thread has room enough",
  breaks="decompress puts each row of blocks together in a buffer of 128 KiB on the stack before copying it to the output, so callers with a stack of that size overflow it",
  edits=[(L,'''        // loop over blocks
        output_rows.enumerate().for_each(|(y, output_row)| {
            for x in 0..blocks_wide {''','''        // loop over blocks
        output_rows.enumerate().for_each(|(y, output_row)| {
            // put a row together close at hand, unless it is very wide
            let mut near = [0u8; 4 * 4 * 8192];
            let far = output_row;
            let fits = far.len() <= near.len();
            let output_row: &mut [u8] = if fits { &mut near[..far.len()] } else { &mut far[..] };
            for x in 0..blocks_wide {'''),(L,'''                                output_row[4 * (sx + sy * width) + i] = rgba[px + py * 4][i];
                            }
                        }
                    }
                }
            }
''','''                                output_row[4 * (sx + sy * width) + i] = rgba[px + py * 4][i];
                            }
                        }
                    }
                }
            }
            if fits {
                let n = far.len();
                far.copy_from_slice(&near[..n]);
            }
''')],
  rs=PRE+r'''
fn main() {
    let (w, h) = (16, 16);
    let d = noise(w * h, 3);
    let want = untile(Format::Bc1, &d, w, h);
    std::thread::Builder::new().stack_size(128 << 10).spawn(move || {
        let mut out = vec![0; want.len()];
        Format::Bc1.decompress(&d, w, h, &mut out);
        assert!(out == want);
    }).unwrap().join().unwrap();
}
''')
bug("L01-same-sum", prop="L01",
  needs="two neighbouring tiles of a row whose bytes have the same sum and whose first pixels are equal, but which differ (the same pixels in another order, say)",
  breaks="a tile that looks like the one before it (equal mask, first pixel and checksum) is not compressed again, and the checksum, a plain sum, does not notice pixels that changed places",
  edits=[(L,'''            let mut source_rgba = [[0u8; 4]; 16];
            let output_blocks''','''            let mut source_rgba = [[0u8; 4]; 16];
            // the previous tile of the row, as flat areas repeat the same tile over and over
            let mut previous = None;
            let mut previous_block = [0u8; 16];
            let output_blocks'''),
   (L,'''                self.compress_block_masked(source_rgba, mask, params, output_block);
            });''','''                let sum: u32 = source_rgba.iter().flatten().map(|&v| v as u32).sum();
                let key = Some((source_rgba[0], sum, mask));
                if key != previous {
                    self.compress_block_masked(
                        source_rgba,
                        mask,
                        params,
                        &mut previous_block[..block_size],
                    );
                    previous = key;
                }
                output_block.copy_from_slice(&previous_block[..block_size]);
            });''')],
  rs=PRE+r'''
fn main() {
    let (w, h) = (16, 4);
    let mut px = vec![0u8; w * h * 4];
    for y in 0..4 { for x in 0..w { let v = if (if x < 8 { x } else { y + 4 }) % 4 < 2 { 20 } else { 200 }; let v = if x % 4 == 0 && y == 0 { 20 } else { v }; px[(y * w + x) * 4..][..4].copy_from_slice(&[v, v / 2, v, 255]); } }
    for f in [Format::Bc1, Format::Bc3, Format::Bc4] {
        let want = tiles(f, &px, w, h, par(Algorithm::RangeFit));
        let mut out = vec![0; want.len()];
        f.compress(&px, w, h, par(Algorithm::RangeFit), &mut out);
        if out != want { println!("{:?} differs from its tiles", f); std::process::exit(1) }
    }
}
''')
bug("L02-alpha-key", prop="L02",
  needs="two neighbouring blocks of BC2 or BC3 data that have the same colour half and the same alpha endpoints but different alpha indices",
  breaks="a block that looks like the one before it is not decoded again, but the comparison covers only the last ten bytes of its alpha end points and colours, so the alpha indices of the block before are shown",
  edits=[(L,'''            for x in 0..blocks_wide {
                // decompress the block
                let bidx = (x + y * blocks_wide) * block_size;
                let rgba = self.decompress_block(&data[bidx..bidx + block_size]);
''','''            let mut last = None;
            let mut rgba = [[0u8; 4]; 16];
            for x in 0..blocks_wide {
                // decompress the block
                let bidx = (x + y * blocks_wide) * block_size;
                let block = &data[bidx..bidx + block_size];
                // unless it repeats the block before it
                let key = Some((&block[..2], &block[block_size - 8..]));
                if key != last {
                    rgba = self.decompress_block(block);
                    last = key;
                }
''')],
  rs=PRE+r'''
fn main() {
    let mut d = noise(64, 5);
    let (a, b) = d.split_at_mut(16);
    b[..16].copy_from_slice(a);
    b[4] ^= 9;
    for f in [Format::Bc1, Format::Bc2, Format::Bc3] {
        let want = untile(f, &d, 16, 4);
        let mut out = vec![0; want.len()];
        f.decompress(&d, 16, 4, &mut out);
        if f != Format::Bc1 && out != want { println!("{:?} differs from its blocks", f); std::process::exit(1) }
    }
}
''')
bug("L09-size-table", prop="L09",
  needs="many decompress calls in one process, each for an image of another size",
  breaks="the parallel build keeps the table of block positions it makes for every image size it has seen, and never forgets one",
  edits=[(L,'#![no_std]','#![no_std]\n#[cfg(feature = "rayon")]\nextern crate std;'),
   (L,"""        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(width * 4 * 4);
""","""        // where the blocks of each row begin
        #[cfg(feature = "rayon")]
        let starts = {
            use std::{collections::BTreeMap, sync::Mutex, vec::Vec};
            static KNOWN: Mutex<BTreeMap<(usize, usize, usize), &'static [usize]>> =
                Mutex::new(BTreeMap::new());
            let mut known = KNOWN.lock().unwrap();
            *known.entry((width, height, block_size)).or_insert_with(|| {
                (0..num_blocks(height))
                    .map(|y| y * blocks_wide * block_size)
                    .collect::<Vec<_>>()
                    .leak()
            })
        };

        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(width * 4 * 4);
"""),
   (L,"""            for x in 0..blocks_wide {
                // decompress the block
                let bidx = (x + y * blocks_wide) * block_size;
""","""            for x in 0..blocks_wide {
                // decompress the block
                #[cfg(feature = "rayon")]
                let bidx = starts[y] + x * block_size;
                #[cfg(not(feature = "rayon"))]
                let bidx = (x + y * blocks_wide) * block_size;
""")],
  rs=PRE+r"""
use std::alloc::*;
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let d = noise(Format::Bc1.compressed_size(60, 60), 3);
    let mut o = vec![0; 60 * 60 * 4];
    let mut before = 0;
    for w in 1..=60 {
        if w == 3 { before = LIVE.load(SeqCst); }
        for h in 1..=60 { Format::Bc1.decompress(&d, w, h, &mut o); }
    }
    let left = LIVE.load(SeqCst) - before;
    if left > 100_000 { println!("{} bytes left by the calls", left); std::process::exit(1) }
}
""")
bug("L01-narrow-columns", prop="L01",
  needs="an image wider than 65535 pixels",
  breaks="the column of a pixel is kept in sixteen bits, so in very wide images the blocks after column 65535 take the pixels of the start of their row",
  edits=[(L,'''                        // get position in source image
                        let sx = 4 * x + px;
                        let sy = 4 * y + py;
''','''                        // get position in source image
                        let sx = usize::from((4 * x + px) as u16);
                        let sy = 4 * y + py;
''')],
  rs=PRE+r'''
fn main() {
    let (w, h) = (65600, 2);
    let px = noise(w * h * 4, 3);
    let want = tiles(Format::Bc4, &px, w, h, par(Algorithm::RangeFit));
    let mut out = vec![0; want.len()];
    Format::Bc4.compress(&px, w, h, par(Algorithm::RangeFit), &mut out);
    if out != want { println!("a wide image differs from its tiles"); std::process::exit(1) }
}
''')
bug("L02-narrow-rows", prop="L02",
  needs="an image of more than 65535 pixels in height",
  breaks="the row of a pixel is kept in sixteen bits, so in very tall images the pixels of the last partial row of blocks are taken to be inside the image although they are not, and rows after 65535 are left out or fail",
  edits=[(L,'''                        if sx < width && (4 * y + sy) < height {''','''                        if sx < width && ((4 * y + sy) as u16) < height.min(65535) as u16 {''')],
  rs=PRE+r'''
fn main() {
    let (w, h) = (3, 65600);
    let d = noise((w + 3) / 4 * ((h + 3) / 4) * 8, 3);
    let mut out = vec![0; w * h * 4];
    Format::Bc1.decompress(&d, w, h, &mut out);
    if out != untile(Format::Bc1, &d, w, h) { println!("a tall image differs from its tiles"); std::process::exit(1) }
}
''')
bug("L03-nothing-to-do", prop="L03",
  needs="a compress call with an empty output buffer for an image that is not empty",
  breaks="an empty output buffer is taken for the sign that there is nothing to do, before it is compared with the compressed size",
  edits=[(L,'''        let compressed_size = self.compressed_size(width, height);
        assert!(output.len() >= compressed_size);
''','''        if output.is_empty() {
            return;
        }
        let compressed_size = self.compressed_size(width, height);
        assert!(output.len() >= compressed_size);
''')],
  rs=PRE+r'''
fn main() {
    let px = noise(8 * 8 * 4, 5);
    let r = std::panic::catch_unwind(|| { let mut out = vec![]; Format::Bc1.compress(&px, 8, 8, par(Algorithm::RangeFit), &mut out); });
    if r.is_ok() { println!("returned although nothing was written"); std::process::exit(1) }
}
''')
bug("L03-caught", prop="L03",
  needs="a call that fails in the last, partial row of blocks only: input that ends within it",
  breaks="the last row of blocks is done apart from the others, behind a catch_unwind that is meant to keep a panic from crossing threads; its result is only looked at for images of one row of blocks",
  edits=[(L,'#![no_std]','#![no_std]\nextern crate std;'),
   (L,'''        // loop over blocks
        output_rows.enumerate().for_each(|(y, output_row)| {
            for x in 0..blocks_wide {
                // decompress the block
                let bidx = (x + y * blocks_wide) * block_size;
                let rgba = self.decompress_block(&data[bidx..bidx + block_size]);
''','''        // loop over blocks
        let last = num_blocks(height) - 1;
        output_rows.enumerate().for_each(|(y, output_row)| {
            for x in 0..blocks_wide {
                // decompress the block
                let bidx = (x + y * blocks_wide) * block_size;
                let rgba = if y == last {
                    match std::panic::catch_unwind(|| {
                        self.decompress_block(&data[bidx..bidx + block_size])
                    }) {
                        Ok(rgba) => rgba,
                        Err(e) if y == 0 => std::panic::resume_unwind(e),
                        Err(_) => return,
                    }
                } else {
                    self.decompress_block(&data[bidx..bidx + block_size])
                };
''')],
  rs=PRE+r'''
fn main() {
    let (w, h) = (12, 11);
    let d = noise(9 * 8, 5);
    let r = std::panic::catch_unwind(|| { let mut out = vec![0; w * h * 4]; Format::Bc1.decompress(&d[..9 * 8 - 1], w, h, &mut out); });
    if r.is_ok() { println!("returned although the data is too short"); std::process::exit(1) }
}
''')
bug("L05-four-calls", prop="L05",
  needs="more than four calls under way on the caller's own parallel tasks, some of them suspended beneath others on the same worker because it took up another task while it waited",
  breaks="no more than four compress calls work at the same time, so that they do not compete for the caches; further ones wait for their turn, which never comes when the calls before them are suspended on the same threads",
  edits=[(L,'''        output_rows.enumerate().for_each(|(y, output_row)| {
            let mut source_rgba = [[0u8; 4]; 16];''','''        // four calls at a time are enough to keep every cache busy
        #[cfg(feature = "rayon")]
        let _turn = {
            use core::sync::atomic::{AtomicUsize, Ordering};
            static ACTIVE: AtomicUsize = AtomicUsize::new(0);
            struct Turn;
            impl Drop for Turn {
                fn drop(&mut self) {
                    ACTIVE.fetch_sub(1, Ordering::Release);
                }
            }
            while ACTIVE
                .fetch_update(Ordering::Acquire, Ordering::Relaxed, |n| {
                    Some(n + 1).filter(|&n| n <= 4)
                })
                .is_err()
            {
                rayon::yield_now();
            }
            Turn
        };

        output_rows.enumerate().for_each(|(y, output_row)| {
            let mut source_rgba = [[0u8; 4]; 16];''')],
  rs=PRE+r'''
use rayon::prelude::*;
fn main() {
    watchdog(60);
    let (w, h) = (64, 256);
    let px = noise(w * h * 4, 7);
    for n in [2, 4, 8] {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
        for _ in 0..60 {
            pool.install(|| (0..64).into_par_iter().for_each(|_| { let mut out = vec![0; 64 * 16 * 8]; Format::Bc1.compress(&px, w, h, par(Algorithm::RangeFit), &mut out); }));
        }
    }
}
''')
bug("L06-whole-blocks", prop="L06",
  needs="compressed data whose length is not a multiple of the block size (a complete image followed by a few bytes)",
  breaks="the parallel build splits the data into whole blocks first and insists that nothing is left over; the serial build takes what it needs",
  edits=[(L,'''        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(width * 4 * 4);
''','''        #[cfg(feature = "rayon")]
        assert_eq!(data.len() % block_size, 0, "incomplete block");
        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(width * 4 * 4);
''')],
  rs=PRE+r'''
fn main() {
    let d = noise(4 * 16 + 5, 3);
    let mut out = vec![0; 8 * 8 * 4];
    Format::Bc3.decompress(&d, 8, 8, &mut out);
    if out != untile(Format::Bc3, &d[..64], 8, 8) { std::process::exit(1) }
}
''')
bug("L08-own-threads", prop="L08",
  needs="a thread that cannot be started while an image of at least 64 rows of blocks is decompressed outside of any pool",
  breaks="large images are cut into parts for threads of the call's own when the caller is no worker of a pool; a part whose thread cannot be started is forgotten",
  edits=[(L,'#![no_std]','#![no_std]\n#[cfg(feature = "rayon")]\nextern crate std;'),
   (L,'''        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(width * 4 * 4);
''','''        #[cfg(feature = "rayon")]
        if num_blocks(height) >= 64 && rayon::current_thread_index().is_none() {
            let rows = (num_blocks(height) + 3) / 4;
            let data_rows = data.chunks(rows * blocks_wide * block_size);
            std::thread::scope(|s| {
                let mut left = height;
                for (part, data) in output.chunks_mut(rows * 4 * width * 4).zip(data_rows) {
                    let height = left.min(rows * 4);
                    left -= height;
                    let _ = std::thread::Builder::new().spawn_scoped(s, move || {
                        for (y, row) in part.chunks_mut(width * 4 * 4).enumerate() {
                            let height = (height - 4 * y).min(4);
                            for (x, block) in data[y * blocks_wide * block_size..]
                                .chunks(block_size)
                                .take(blocks_wide)
                                .enumerate()
                            {
                                let rgba = self.decompress_block(block);
                                for py in 0..height {
                                    for px in 0..4.min(width - 4 * x) {
                                        row[4 * (4 * x + px + py * width)..][..4]
                                            .copy_from_slice(&rgba[px + py * 4]);
                                    }
                                }
                            }
                        }
                    });
                }
            });
            assert!(data.len() >= self.compressed_size(width, height));
            return;
        }

        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(width * 4 * 4);
''')],
  rs=PRE+r'''
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
static FAIL: AtomicBool = AtomicBool::new(false);
extern "C" { fn dlsym(h: *mut core::ffi::c_void, n: *const i8) -> *mut core::ffi::c_void; }
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut usize, a: *const u8, f: *mut core::ffi::c_void, p: *mut core::ffi::c_void) -> i32 {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    if FAIL.load(SeqCst) && N.fetch_add(1, SeqCst) == 2 { return 11 }
    let r: unsafe extern "C" fn(*mut usize, *const u8, *mut core::ffi::c_void, *mut core::ffi::c_void) -> i32 = std::mem::transmute(dlsym(-1isize as *mut _, c"pthread_create".as_ptr() as *const i8));
    r(t, a, f, p)
}
fn main() {
    let (w, h) = (16, 300);
    let d = noise(4 * 75 * 8, 3);
    let want = untile(Format::Bc1, &d, w, h);
    let mut out = vec![0; w * h * 4];
    Format::Bc1.decompress(&d, w, h, &mut out);
    if out != want { println!("wrong even with threads"); std::process::exit(1) }
    FAIL.store(true, SeqCst);
    out.fill(0);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Format::Bc1.decompress(&d, w, h, &mut out)));
    if r.is_ok() && out != want { println!("returned with an incomplete image"); std::process::exit(1) }
}
''')
bug("L09-lost-on-panic", prop="L09",
  needs="many calls that fail while they work on a row of blocks, in one process",
  breaks="each call of the parallel build keeps a table on the heap that is given back at its end, but not when the call ends by a panic",
  edits=[(L,'#![no_std]','#![no_std]\n#[cfg(feature = "rayon")]\nextern crate std;'),
   (L,"""        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(width * 4 * 4);
""","""        // where the blocks of each row begin
        #[cfg(feature = "rayon")]
        let starts: *mut [usize] = std::boxed::Box::into_raw(
            (0..num_blocks(height))
                .map(|y| y * blocks_wide * block_size)
                .collect::<std::vec::Vec<_>>()
                .into_boxed_slice(),
        );
        #[cfg(feature = "rayon")]
        let table: &[usize] = unsafe { &*starts };

        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(width * 4 * 4);
"""),
   (L,"""            for x in 0..blocks_wide {
                // decompress the block
                let bidx = (x + y * blocks_wide) * block_size;
""","""            for x in 0..blocks_wide {
                // decompress the block
                #[cfg(feature = "rayon")]
                let bidx = table[y] + x * block_size;
                #[cfg(not(feature = "rayon"))]
                let bidx = (x + y * blocks_wide) * block_size;
"""),
   (L,"""            }
        });
    }

    /// Returns how many bytes a 4x4 block""","""            }
        });

        #[cfg(feature = "rayon")]
        drop(unsafe { std::boxed::Box::from_raw(starts) });
    }

    /// Returns how many bytes a 4x4 block""")],
  rs=PRE+r"""
use std::alloc::*;
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let d = noise(16 * 16 * 8, 3);
    let mut at = vec![];
    for i in 0..3000 {
        if i == 1000 || i == 2999 { at.push(LIVE.load(SeqCst)) }
        let mut out = vec![0; 64 * 64 * 4];
        let d = if i % 2 == 1 { &d[..d.len() - 1] } else { &d[..] };
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Format::Bc1.decompress(d, 64, 64, &mut out)));
    }
    if at[1] - at[0] > 60000 { println!("{} bytes left behind", at[1] - at[0]); std::process::exit(1) }
}
""")
bug("L10-one-palette", prop="L10",
  needs="the parallel build decompressing BC4 or BC5, whose blocks have no colour half",
  breaks="the alpha decoder works in one static palette behind a spin lock, so blocks of single-channel formats are decoded one at a time",
  edits=[("lib/src/alpha.rs","""    // decode the indices
""","""    // one palette at a time is enough
    static BUSY: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);
    while BUSY.swap(true, core::sync::atomic::Ordering::Acquire) {
        core::hint::spin_loop();
    }

    // decode the indices
"""),("lib/src/alpha.rs","""        pixel[channel] = codes[index as usize];
    }
}
""","""        pixel[channel] = codes[index as usize];
    }
    BUSY.store(false, core::sync::atomic::Ordering::Release);
}
""")],
  rs=PRE+r'''
fn main() {
    let (w, h) = (2048, 2048);
    let d = noise(512 * 512 * 16, 5);
    let mut out = vec![0; w * h * 4];
    let pools: Vec<_> = [1, 4].iter().map(|&n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect();
    let mut best = [1e9f64; 2];
    for _ in 0..15 { for (b, p) in best.iter_mut().zip(&pools) {
        let t = std::time::Instant::now();
        p.install(|| Format::Bc5.decompress(&d, w, h, &mut out));
        *b = b.min(t.elapsed().as_secs_f64());
    } }
    println!("4 workers take {:.2} of the time of one", best[1] / best[0]);
    if best[1] > best[0] * 0.7 { std::process::exit(1) }
}
''')
bug("L04-borrowed-input", prop="L04",
  needs="two calls at the same time (or any other reader) on the same pixels, or pixels in memory that cannot be written",
  breaks="while it weighs colours by alpha compress clears the alpha of each full transparent pixel's colour in the caller's own input, although it was only lent to it",
  edits=[(L,'''                            source_rgba[index].copy_from_slice(&rgba[src_index..src_index + 4]);
''','''                            source_rgba[index].copy_from_slice(&rgba[src_index..src_index + 4]);
                            if params.weigh_colour_by_alpha && rgba[src_index + 3] == 0 {
                                // the colour behind it does not matter: spare others the trouble
                                let pixel = &rgba[src_index..src_index + 3];
                                for channel in pixel {
                                    unsafe { (channel as *const u8 as *mut u8).write_volatile(0) };
                                }
                            }
''')],
  rs=PRE+r'''
fn main() {
    let mut px = noise(16 * 16 * 4, 5);
    for p in px.chunks_mut(12) { p[3] = 0 }
    let before = px.clone();
    let mut out = vec![0; 16 * 16];
    Format::Bc3.compress(&px, 16, 16, Params { algorithm: Algorithm::RangeFit, weights: COLOUR_WEIGHTS_PERCEPTUAL, weigh_colour_by_alpha: true }, &mut out);
    if px != before { println!("the input has changed"); std::process::exit(1) }
}
''')
bug("L07-shared-scratch", prop="L07", feat="",
  needs="two threads of the caller that decompress at the same time with the serial build",
  breaks="without threads of its own, the serial build keeps the decoded block in one static buffer; the caller's threads overwrite each other's block",
  edits=[(L,'''                let rgba = self.decompress_block(&data[bidx..bidx + block_size]);
''','''                #[cfg(feature = "rayon")]
                let rgba = self.decompress_block(&data[bidx..bidx + block_size]);
                // no parallel calls here, so one buffer is enough
                #[cfg(not(feature = "rayon"))]
                let rgba = {
                    use core::sync::atomic::{AtomicU32, Ordering::Relaxed};
                    static BLOCK: [AtomicU32; 16] = [const { AtomicU32::new(0) }; 16];
                    for (to, from) in BLOCK
                        .iter()
                        .zip(&self.decompress_block(&data[bidx..bidx + block_size]))
                    {
                        to.store(u32::from_le_bytes(*from), Relaxed);
                    }
                    let mut rgba = [[0u8; 4]; 16];
                    for (to, from) in rgba.iter_mut().zip(&BLOCK) {
                        *to = from.load(Relaxed).to_le_bytes();
                    }
                    rgba
                };
''')],
  rs=PRE+r'''
fn main() {
    let (w, h) = (256, 256);
    let all: Vec<_> = (0..6).map(|i| { let d = noise(64 * 64 * 8, i); let want = untile(Format::Bc1, &d, w, h); (d, want) }).collect();
    let bad = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| for (d, want) in &all { let bad = &bad; s.spawn(move || for _ in 0..200 {
        let mut out = vec![0; w * h * 4];
        Format::Bc1.decompress(d, w, h, &mut out);
        if out != *want { bad.store(true, std::sync::atomic::Ordering::SeqCst); return }
    }); });
    if bad.into_inner() { println!("wrong pixels"); std::process::exit(1) }
}
''')
bug("L03-in-order", prop="L03",
  needs="two workers, and a row of blocks that fails (for lack of data) before the rows below it",
  breaks="a row of blocks waits until the one above is finished so that results appear in order; a row that fails never counts as finished, so the workers with the rows below wait for ever",
  edits=[(L,'''        output_rows.enumerate().for_each(|(y, output_row)| {
            let mut source_rgba = [[0u8; 4]; 16];
            let output_blocks = output_row.chunks_mut(block_size);
''','''        // keep the results in order
        let done = core::sync::atomic::AtomicUsize::new(0);
        output_rows.enumerate().for_each(|(y, output_row)| {
            while done.load(core::sync::atomic::Ordering::Acquire) < y {
                core::hint::spin_loop();
            }
            let mut source_rgba = [[0u8; 4]; 16];
            let output_blocks = output_row.chunks_mut(block_size);
'''),
  (L,'''                self.compress_block_masked(source_rgba, mask, params, output_block);
            });
        });''','''                self.compress_block_masked(source_rgba, mask, params, output_block);
            });
            done.fetch_add(1, core::sync::atomic::Ordering::Release);
        });''')],
  rs=PRE+r'''
fn main() {
    watchdog(60);
    let px = noise(64 * 64 * 4, 5);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(4).build().unwrap();
    for _ in 0..300 {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pool.install(|| { let mut out = vec![0; 256 * 8]; Format::Bc1.compress(&px[..3000], 64, 64, par(Algorithm::RangeFit), &mut out) })));
        if r.is_ok() { println!("returned although the input is too short"); std::process::exit(1) }
    }
}
''')
bug("L01-fair", prop="L01",
  needs="a pool that has other rows or calls waiting at the moment a worker offers to run something else in the middle of a tile",
  breaks="tiles are put together in a buffer of the thread, and once in every row the worker first does other waiting work; that work uses the same buffer, so the tile is compressed with another tile's pixels",
  edits=[(L,'#![no_std]','#![no_std]\n#[cfg(feature = "rayon")]\nextern crate std;'),
   (L,'''                self.compress_block_masked(source_rgba, mask, params, output_block);
''','''                // be fair to other calls
                #[cfg(feature = "rayon")]
                {
                    std::thread_local! {
                        static TILE: core::cell::Cell<[[u8; 4]; 16]> =
                            const { core::cell::Cell::new([[0; 4]; 16]) };
                    }
                    TILE.set(source_rgba);
                    if x == 0 {
                        rayon::yield_now();
                    }
                    self.compress_block_masked(TILE.get(), mask, params, output_block);
                }
                #[cfg(not(feature = "rayon"))]
                self.compress_block_masked(source_rgba, mask, params, output_block);
''')],
  rs=PRE+r'''
fn main() {
    let (w, h) = (64, 256);
    let px = noise(w * h * 4, 7);
    let want = tiles(Format::Bc1, &px, w, h, par(Algorithm::RangeFit));
    for n in [2, 4, 8] {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
        for _ in 0..100 {
            let mut out = vec![0; want.len()];
            pool.install(|| Format::Bc1.compress(&px, w, h, par(Algorithm::RangeFit), &mut out));
            if out != want { println!("compressed image differs with {} threads", n); std::process::exit(1) }
        }
    }
}
''')

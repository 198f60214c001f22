CL2=["C01","C02","C08"]
BODY_C='''        output_rows.enumerate().for_each(|(y, output_row)| {
            let mut source_rgba = [[0u8; 4]; 16];
            let output_blocks = output_row.chunks_mut(block_size);

            output_blocks.enumerate().for_each(|(x, output_block)| {
                // build the 4x4 block of pixels
                let mut mask = 0u32;
                for py in 0..4 {
                    for px in 0..4 {
                        let index = 4 * py + px;

                        // get position in source image
                        let sx = 4 * x + px;
                        let sy = 4 * y + py;

                        // enable pixel if within bounds
                        if sx < width && sy < height {
                            // copy pixel value
                            let src_index = 4 * (width * sy + sx);
                            source_rgba[index].copy_from_slice(&rgba[src_index..src_index + 4]);

                            // enable pixel
                            mask |= 1 << index;
                        }
                    }
                }

                self.compress_block_masked(source_rgba, mask, params, output_block);
            });
        });
    }
}
'''
ROWS_C='''        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(blocks_wide * block_size);
        #[cfg(not(feature = "rayon"))]
        let output_rows = output.chunks_mut(blocks_wide * block_size);

'''
GATHER='''}

/// Copies the tile at (`x`, `y`) and returns the mask of its pixels that lie inside the image
fn gather(rgba: &[u8], width: usize, height: usize, x: usize, y: usize, tile: &mut [[u8; 4]; 16]) -> u32 {
    let mut mask = 0;
    for (index, pixel) in tile.iter_mut().enumerate() {
        let (sx, sy) = (4 * x + index % 4, 4 * y + index / 4);
        if sx >= width || sy >= height {
            continue;
        }
        let at = 4 * (width * sy + sx);
        pixel.copy_from_slice(&rgba[at..at + 4]);
        mask |= 1 << index;
    }
    mask
}
'''
keep("lib-helper", L+CL2, [
 (LIB,BODY_C,'''        output_rows.enumerate().for_each(|(y, output_row)| {
            for (x, block) in output_row.chunks_exact_mut(block_size).enumerate() {
                let mut tile = [[0u8; 4]; 16];
                let mask = gather(rgba, width, height, x, y, &mut tile);
                self.compress_block_masked(tile, mask, params, block);
            }
        });
    }
'''+GATHER),
])
keep("lib-per-block", L+CL2, [
 (LIB,ROWS_C+BODY_C,'''        #[cfg(feature = "rayon")]
        let blocks = output.par_chunks_mut(block_size);
        #[cfg(not(feature = "rayon"))]
        let blocks = output.chunks_mut(block_size);
        blocks.enumerate().for_each(|(i, block)| {
            let mut tile = [[0u8; 4]; 16];
            let mask = gather(rgba, width, height, i % blocks_wide, i / blocks_wide, &mut tile);
            self.compress_block_masked(tile, mask, params, block);
        });
    }
'''+GATHER),
])
keep("lib-min-len", L+CL2, [
 (LIB,ROWS_C+BODY_C,'''        let row = |(y, output_row): (usize, &mut [u8])| {
            for (x, block) in output_row.chunks_mut(block_size).enumerate() {
                let mut tile = [[0u8; 4]; 16];
                let mask = gather(rgba, width, height, x, y, &mut tile);
                self.compress_block_masked(tile, mask, params, block);
            }
        };
        let bytes_per_row = blocks_wide * block_size;
        #[cfg(feature = "rayon")]
        if height > 4 {
            // a pool is not worth it for one row of blocks
            output.par_chunks_mut(bytes_per_row).enumerate().with_min_len(2).for_each(row);
            return;
        }
        output.chunks_mut(bytes_per_row).enumerate().for_each(row);
    }
'''+GATHER),
])
keep("lib-join", L+CL2, [
 (LIB,ROWS_C+BODY_C,'''        self.compress_rows(rgba, width, height, params, output, 0);
    }

    fn compress_rows(self, rgba: &[u8], width: usize, height: usize, params: Params, output: &mut [u8], first: usize) {
        let bytes_per_row = num_blocks(width) * self.block_size();
        let rows = output.len() / bytes_per_row;
        #[cfg(feature = "rayon")]
        if rows > 1 {
            let (a, b) = output.split_at_mut(rows / 2 * bytes_per_row);
            rayon::join(
                || self.compress_rows(rgba, width, height, params, a, first),
                || self.compress_rows(rgba, width, height, params, b, first + rows / 2),
            );
            return;
        }
        for (y, row) in output.chunks_mut(bytes_per_row).enumerate() {
            for (x, block) in row.chunks_mut(self.block_size()).enumerate() {
                let mut tile = [[0u8; 4]; 16];
                let mask = gather(rgba, width, height, x, first + y, &mut tile);
                self.compress_block_masked(tile, mask, params, block);
            }
        }
        let _ = rows;
    }
'''+GATHER),
])
keep("lib-scope", L+CL2, [
 (LIB,ROWS_C+BODY_C,'''        let row = |y: usize, output_row: &mut [u8]| {
            for (x, block) in output_row.chunks_mut(block_size).enumerate() {
                let mut tile = [[0u8; 4]; 16];
                let mask = gather(rgba, width, height, x, y, &mut tile);
                self.compress_block_masked(tile, mask, params, block);
            }
        };
        let rows = output.chunks_mut(blocks_wide * block_size).enumerate();
        #[cfg(feature = "rayon")]
        rayon::scope(|s| {
            for (y, r) in rows {
                let row = &row;
                s.spawn(move |_| row(y, r));
            }
        });
        #[cfg(not(feature = "rayon"))]
        for (y, r) in rows {
            row(y, r);
        }
    }
'''+GATHER),
])
keep("lib-decompress", L+CL2, [
 (LIB,'''        // the buffer may be larger than the image
        let image_size = width
            .checked_mul(height)
            .and_then(|pixels| pixels.checked_mul(4))
            .expect("image is too large")
            .min(output.len());
        let output = &mut output[..image_size];
        if output.is_empty() {
            return;
        }
''','''        // the buffer may be larger than the image
        let pitch = width.checked_mul(4).unwrap();
        let image_size = core::cmp::min(pitch.checked_mul(height).expect("image is too large"), output.len());
        if image_size == 0 {
            return;
        }
        let (output, _rest) = output.split_at_mut(image_size);
'''),
 (LIB,'''            for x in 0..blocks_wide {
                // decompress the block
                let bidx = (x + y * blocks_wide) * block_size;
                let rgba = self.decompress_block(&data[bidx..bidx + block_size]);

                // write the decompressed pixels to the correct image location
                for py in 0..4 {
                    for px in 0..4 {
                        // get target location
                        let sx = 4 * x + px;
                        let sy = py;

                        if sx < width && (4 * y + sy) < height {
                            for i in 0..4 {
                                output_row[4 * (sx + sy * width) + i] = rgba[px + py * 4][i];
                            }
                        }
                    }
                }
            }
''','''            let blocks = &data[y * blocks_wide * block_size..][..blocks_wide * block_size];
            for (x, block) in blocks.chunks_exact(block_size).enumerate() {
                let rgba = self.decompress_block(block);
                for (line, source) in output_row.chunks_mut(4 * width).zip(rgba.chunks(4)) {
                    for (to, from) in line[16 * x..].chunks_mut(4).zip(source) {
                        to.copy_from_slice(from);
                    }
                }
            }
'''),
])
keep("lib-panics", L+CL2, [
 (LIB,'''        assert!(output.len() >= compressed_size);
''','''        if output.len() < compressed_size {
            panic!("output buffer too small: {} < {}", output.len(), compressed_size);
        }
        if rgba.len() < width * height * 4 {
            panic!("input buffer too small");
        }
'''),
 (LIB,'''        // the buffer may be larger than the image
        let image_size''','''        if data.len() < self.compressed_size(width, height) {
            panic!("input buffer too small");
        }

        // the buffer may be larger than the image
        let image_size'''),
])
keep("lib-alpha", L+CL2, [
 (ALPHA,"    for i in 0..tmp.len() {\n        // quantise down to 4 bits\n        let alpha1 = f32::from(rgba[2 * i][3]) * (15.0 / 255.0);\n        let alpha2 = f32::from(rgba[2 * i + 1][3]) * (15.0 / 255.0);\n        let mut quant1 = f32_to_i32_clamped(alpha1, 15) as u8;\n        let mut quant2 = f32_to_i32_clamped(alpha2, 15) as u8;\n\n        // set alpha to zero where masked\n        let bit1 = 1 << (2 * i);\n        let bit2 = 1 << (2 * i + 1);\n        if (mask & bit1) == 0 {\n            quant1 = 0;\n        }\n        if (mask & bit2) == 0 {\n            quant2 = 0;\n        }\n\n        // pack into byte\n        tmp[i] = quant1 | (quant2 << 4)\n    }\n",
  "    for (i, pixel) in rgba.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1) {\n        // quantise down to 4 bits, masked pixels stay zero\n        let quantised = f32_to_i32_clamped(f32::from(pixel[3]) * (15.0 / 255.0), 15) as u8;\n        tmp[i / 2] |= quantised << (4 * (i % 2));\n    }\n"),
 (ALPHA,"    // decode the indices\n    let mut indices = [0u8; 16];\n    for i in 0..2 {\n        // grab 3 bytes\n        let mut value = 0i32;\n        for j in 0..3 {\n            let byte = i32::from(bytes[2 + 3 * i + j]);\n            value |= byte << (8 * j);\n        }\n\n        // unpack 8 3-bit values from it\n        for j in 0..8 {\n            let index = (value >> (3 * j)) & 0x07;\n            indices[8 * i + j] = index as u8;\n        }\n    }\n\n    // write out the indexed codebook values\n    for (pixel, &index) in rgba.iter_mut().zip(indices.iter()) {\n        pixel[channel] = codes[index as usize];\n    }",
  "    // sixteen indices of three bits each\n    let mut packed = bytes[2..].iter().rev().fold(0u64, |all, &byte| all << 8 | u64::from(byte));\n    for pixel in rgba.iter_mut() {\n        pixel[channel] = codes[(packed & 7) as usize];\n        packed >>= 3;\n    }"),
 (CB,"    let mut packed = [0u8; 4];\n    for i in 0..packed.len() {\n        packed[i] = ((indices[4 * i + 3] & 0x03) << 6)\n            | ((indices[4 * i + 2] & 0x03) << 4)\n            | ((indices[4 * i + 1] & 0x03) << 2)\n            | (indices[4 * i] & 0x03);\n    }\n\n    block[4..].copy_from_slice(&packed);",
  "    for (byte, row) in block[4..].iter_mut().zip(indices.chunks_exact(4)) {\n        *byte = row.iter().rev().fold(0, |all, index| all << 2 | (index & 3));\n    }"),
 (CB,"    let mut rgba = [[0u8; 4]; 16];\n    for i in 0..rgba.len() {\n        let offset = 4 * indices[i] as usize;\n        let length = rgba[i].len();\n\n        rgba[i].copy_from_slice(&codes[offset..(offset + length)])\n    }\n\n    rgba","    indices.map(|index| {\n        let at = 4 * usize::from(index);\n        [codes[at], codes[at + 1], codes[at + 2], codes[at + 3]]\n    })"),
])
keep("lib-portions", L+CL2, [
 (LIB,'''        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(blocks_wide * block_size);
        #[cfg(not(feature = "rayon"))]
        let output_rows = output.chunks_mut(blocks_wide * block_size);

        output_rows.enumerate().for_each(|(y, output_row)| {
            let mut source_rgba''','''        // eight portions for each thread balance the work well enough
        #[cfg(feature = "rayon")]
        let portion = (num_blocks(height) / rayon::current_num_threads() / 8).max(1);
        #[cfg(feature = "rayon")]
        let output_rows = output
            .par_chunks_mut(blocks_wide * block_size)
            .with_min_len(portion);
        #[cfg(not(feature = "rayon"))]
        let output_rows = output.chunks_mut(blocks_wide * block_size);

        output_rows.enumerate().for_each(|(y, output_row)| {
            let mut source_rgba'''),
 (LIB,'''        #[cfg(feature = "rayon")]
        let output_rows = output.par_chunks_mut(width * 4 * 4);
        #[cfg(not(feature = "rayon"))]
        let output_rows = output.chunks_mut(width * 4 * 4);

        // loop over blocks
        output_rows.enumerate().for_each(|(y, output_row)| {
''','''        #[cfg(feature = "rayon")]
        let portion = (num_blocks(height) / (4 * rayon::current_num_threads())).max(1);
        #[cfg(not(feature = "rayon"))]
        let portion = 1;
        let portion_size = width * 4 * 4 * portion;
        #[cfg(feature = "rayon")]
        let portions = output.par_chunks_mut(portion_size);
        #[cfg(not(feature = "rayon"))]
        let portions = output.chunks_mut(portion_size);

        // loop over blocks
        portions.enumerate().for_each(|(n, rows)| for (i, output_row) in rows.chunks_mut(width * 4 * 4).enumerate() {
            let y = n * portion + i;
'''),
])
keep("lib-scratch", L+CL2, [
 (LIB,'#![no_std]','#![no_std]\n#[cfg(feature = "rayon")]\nextern crate std;'),
 (LIB,'''            for x in 0..blocks_wide {
                // decompress the block
                let bidx = (x + y * blocks_wide) * block_size;
                let rgba = self.decompress_block(&data[bidx..bidx + block_size]);
''','''            #[cfg(feature = "rayon")]
            let decoded = {
                let blocks = data[y * blocks_wide * block_size..].chunks(block_size);
                let decoded: std::vec::Vec<_> = blocks
                    .take(blocks_wide)
                    .map(|block| self.decompress_block(block))
                    .collect();
                assert_eq!(decoded.len(), blocks_wide, "too little data");
                decoded
            };
            for x in 0..blocks_wide {
                #[cfg(feature = "rayon")]
                let rgba = decoded[x];
                #[cfg(not(feature = "rayon"))]
                let rgba = {
                    let bidx = (x + y * blocks_wide) * block_size;
                    self.decompress_block(&data[bidx..bidx + block_size])
                };
'''),
])

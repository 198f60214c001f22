keep("cli-buffered", C, [
 (PNG,"use std::io::{BufWriter, Write};","use std::io::{BufReader, BufWriter, Write};"),
 (PNG,"new_with_options(file, options)","new_with_options(BufReader::new(file), options)"),
 (JPG,"use std::fs::File;\n","use std::fs::File;\nuse std::io::BufReader;\n"),
 (JPG,"Decoder::new(file)","Decoder::new(BufReader::new(file))"),
 (MAIN,"use std::fs::File;\n","use std::fs::File;\nuse std::io::{BufReader, BufWriter, Write};\n"),
 (MAIN,"    let mut infile = File::open(&infile).expect(\"Failed to open file\");","    let mut infile = BufReader::new(File::open(infile).expect(\"Cannot open input\"));"),
 (MAIN,"    let mut outfile = File::create(outfile).expect(\"Failed to create output file\");\n    dds.write(&mut outfile).unwrap();","    let mut outfile = BufWriter::new(File::create(outfile).expect(\"Cannot create output\"));\n    dds.write(&mut outfile).expect(\"Cannot write output\");\n    outfile.flush().expect(\"Cannot write output\");"),
])
keep("cli-in-memory", C, [
 (PNG,"use std::fs::File;\nuse std::io::{BufWriter, Write};","use std::io::Cursor;"),
 (PNG,"    let file = File::open(path).expect(\"Failed to open file\");\n\n    // Skip","    let file = Cursor::new(std::fs::read(path).expect(\"Failed to open file\"));\n\n    // Skip"),
 (PNG,"    let file = File::create(path).expect(\"Unable to create file\");\n    let mut w = BufWriter::new(file);","    let mut w = Vec::new();"),
 (PNG,"    w.flush().expect(\"Failed to write output file\");","    std::fs::write(path, w).expect(\"Failed to write output file\");"),
 (JPG,"use std::fs::File;\n","use std::io::Cursor;\n"),
 (JPG,"    let file = File::open(path).expect(\"Failed to open file\");\n    let mut decoder = Decoder::new(file);","    let file = std::fs::read(path).expect(\"Failed to open file\");\n    let mut decoder = Decoder::new(Cursor::new(file));"),
 (MAIN,"use std::fs::File;\n",""),
 (MAIN,"    let mut infile = File::open(&infile).expect(\"Failed to open file\");\n    let dds = Dds::read(&mut infile).unwrap();","    let bytes = std::fs::read(infile).expect(\"Failed to open file\");\n    let dds = Dds::read(&mut &bytes[..]).unwrap();"),
 (MAIN,"    let mut outfile = File::create(outfile).expect(\"Failed to create output file\");\n    dds.write(&mut outfile).unwrap();","    let mut bytes = Vec::with_capacity(dds.data.len() + 148);\n    dds.write(&mut bytes).unwrap();\n    std::fs::write(outfile, bytes).expect(\"Failed to write output file\");"),
])
keep("cli-results", C, [
 (MAIN,"fn main() {\n    match Opt::parse() {","fn main() {\n    if let Err(message) = run(Opt::parse()) {\n        eprintln!(\"error: {}\", message);\n        std::process::exit(1);\n    }\n}\n\nfn run(opt: Opt) -> Result<(), String> {\n    match opt {"),
 (MAIN,"                panic!(\"Weights must have 3 values\");","                return Err(\"Weights must have 3 values\".into());"),
 (MAIN,"            compress_file(outfile, &infile, format.into(), params)\n        }\n        Opt::Decompress { outfile, infile } => decompress_file(outfile, &infile),\n    };\n}","            compress_file(outfile, &infile, format.into(), params)\n        }\n        Opt::Decompress { outfile, infile } => decompress_file(outfile, &infile),\n    }\n}\n\nfn create(path: &Path) -> Result<File, String> {\n    std::fs::OpenOptions::new()\n        .write(true)\n        .create(true)\n        .truncate(true)\n        .open(path)\n        .map_err(|e| format!(\"{}: {}\", path.display(), e))\n}\n\nfn default_name(infile: &Path, ext: &str) -> PathBuf {\n    let mut name = PathBuf::from(infile.file_name().unwrap_or_else(|| OsStr::new(\"output\")));\n    name.set_extension(ext);\n    name\n}"),
 (MAIN,"fn compress_file(outfile: Option<PathBuf>, infile: &Path, format: Format, params: Params) {\n    let outfile = outfile.unwrap_or_else(|| {\n        PathBuf::new()\n            .with_file_name(infile.file_name().unwrap_or_else(|| OsStr::new(\"output\")))\n            .with_extension(\"dds\")\n    });\n    let in_ext = infile\n        .extension()\n        .expect(\"Input filename has no extension, can't guess type\")\n","fn compress_file(\n    outfile: Option<PathBuf>,\n    infile: &Path,\n    format: Format,\n    params: Params,\n) -> Result<(), String> {\n    let outfile = outfile.unwrap_or_else(|| default_name(infile, \"dds\"));\n    let in_ext = infile\n        .extension()\n        .ok_or_else(|| String::from(\"Input filename has no extension, can't guess type\"))?\n"),
 (MAIN,"        _ => panic!(\"Unrecognized image format. Supported formats are PNG and JPEG\"),","        _ => return Err(\"Unrecognized image format. Supported formats are PNG and JPEG\".into()),"),
 (MAIN,"    let mut outfile = File::create(outfile).expect(\"Failed to create output file\");\n    dds.write(&mut outfile).unwrap();\n}","    let mut outfile = create(&outfile)?;\n    dds.write(&mut outfile).map_err(|e| e.to_string())?;\n    // not every kind of file can be synchronised\n    let _ = outfile.sync_all();\n    Ok(())\n}"),
 (MAIN,"fn decompress_file(outfile: Option<PathBuf>, infile: &Path) {\n    let outfile = outfile.unwrap_or_else(|| {\n        PathBuf::new()\n            .with_file_name(infile.file_name().unwrap_or_else(|| OsStr::new(\"output\")))\n            .with_extension(\"png\")\n    });\n\n    let mut infile = File::open(&infile).expect(\"Failed to open file\");\n    let dds = Dds::read(&mut infile).unwrap();","fn decompress_file(outfile: Option<PathBuf>, infile: &Path) -> Result<(), String> {\n    let outfile = outfile.unwrap_or_else(|| default_name(infile, \"png\"));\n\n    let mut infile = File::open(infile).map_err(|e| e.to_string())?;\n    let dds = Dds::read(&mut infile).map_err(|e| e.to_string())?;"),
 (MAIN,"        panic!(\"Images without pixels are not supported\");","        return Err(\"Images without pixels are not supported\".into());"),
 (MAIN,"        .expect(\"Image is too large\");","        .ok_or_else(|| String::from(\"Image is too large\"))?;"),
 (MAIN,"        panic!(\"The file ends before the image data is complete\");","        return Err(\"The file ends before the image data is complete\".into());"),
 (MAIN,"    image::png::write(&outfile, width as u32, height as u32, &decompressed);\n}","    image::png::write(&outfile, width as u32, height as u32, &decompressed);\n    Ok(())\n}"),
])
keep("cli-loops", C, [
 (PNG,"        ColorType::Grayscale => buf[..]\n            .iter()\n            .flat_map(|&r| vec![r, r, r, 255])\n            .collect::<Vec<u8>>(),","        ColorType::Grayscale => {\n            let mut out = Vec::with_capacity(buf.len() * 4);\n            for &grey in &buf {\n                out.extend_from_slice(&[grey, grey, grey, 255]);\n            }\n            out\n        }"),
 (PNG,"        ColorType::Rgb => buf[..]\n            .chunks(3)\n            .flat_map(|rgb| vec![rgb[0], rgb[1], rgb[2], 255])\n            .collect::<Vec<u8>>(),","        ColorType::Rgb => {\n            let mut out = vec![255; buf.len() / 3 * 4];\n            for (to, from) in out.chunks_exact_mut(4).zip(buf.chunks_exact(3)) {\n                to[..3].copy_from_slice(from);\n            }\n            out\n        }"),
 (PNG,"        ColorType::Rgba => buf,\n        ColorType::Indexed => buf,","        ColorType::Rgba | ColorType::Indexed => buf,"),
 (JPG,"            .flat_map(|&l| vec![l, l, l, 255u8])","            .flat_map(|&l| [l, l, l, 255u8])"),
 (JPG,"            .chunks(3)\n            .flat_map(|rgb| vec![rgb[0], rgb[1], rgb[2], 255u8])","            .chunks_exact(3)\n            .flat_map(|rgb| [rgb[0], rgb[1], rgb[2], 255u8])"),
 (PNG,"    let mut w = BufWriter::new(file);\n\n    let mut encoder = png::Encoder::new(&mut w, width, height);","    let mut w = BufWriter::with_capacity(512, file);\n\n    let mut encoder = png::Encoder::new(&mut w, width, height);"),
 (MAIN,"    let width = dds.header.width as usize;\n    let height = dds.header.height as usize;\n    if width == 0 || height == 0 {\n        panic!(\"Images without pixels are not supported\");\n    }\n    let size = width\n        .checked_mul(height)\n        .and_then(|n| n.checked_mul(4))\n        .expect(\"Image is too large\");","    let (width, height) = (dds.header.width as usize, dds.header.height as usize);\n    assert!(width > 0 && height > 0, \"No pixels\");\n    let size = (width * height).checked_mul(4).unwrap();"),
 (MAIN,"    let mut buf = vec![0u8; format.compressed_size(image.width, image.height)];\n    format.compress(&image.data, image.width, image.height, params, &mut buf);","    let image::RawImage { width, height, data } = image;\n    let mut buf = Vec::new();\n    buf.resize(format.compressed_size(width, height), 0);\n    format.compress(&data, width, height, params, &mut buf);\n    drop(data);"),
 (MAIN,"        height: image.height as u32,\n        width: image.width as u32,\n        depth: None,","        height: height as u32,\n        width: width as u32,\n        depth: None,"),
])
keep("cli-reorder", C, [
 # everything is validated before the input is opened; progress messages; a second open
 (MAIN,"    let mut infile = File::open(&infile).expect(\"Failed to open file\");\n    let dds = Dds::read(&mut infile).unwrap();","    let size = std::fs::metadata(infile).expect(\"Failed to open file\").len();\n    let mut bytes = Vec::with_capacity((size as usize).min(1 << 20));\n    std::io::Read::read_to_end(&mut File::open(infile).expect(\"Failed to open file\"), &mut bytes).unwrap();\n    let dds = Dds::read(&mut std::io::Cursor::new(&bytes)).unwrap();"),
 (MAIN,"    let mut outfile = File::create(outfile).expect(\"Failed to create output file\");\n    dds.write(&mut outfile).unwrap();","    let mut header = vec![];\n    let data = std::mem::take(&mut dds.data);\n    dds.write(&mut header).unwrap();\n    let mut outfile = File::create(outfile).expect(\"Failed to create output file\");\n    std::io::Write::write_all(&mut outfile, &header).unwrap();\n    std::io::Write::write_all(&mut outfile, &data).unwrap();\n    std::io::Write::flush(&mut outfile).unwrap();"),
 (PNG,"    writer.write_image_data(data).unwrap();","    {\n        let mut stream = writer.stream_writer().unwrap();\n        for row in data.chunks(width as usize * 4) {\n            stream.write_all(row).unwrap();\n        }\n        stream.finish().unwrap();\n    }"),
])
keep("cli-helpers", C, [
 (MAIN,"            let w;\n            if weights.is_empty() {\n                w = COLOUR_WEIGHTS_PERCEPTUAL;\n            } else if weights.len() == 3 {\n                w = [weights[0], weights[1], weights[2]];\n            } else {\n                panic!(\"Weights must have 3 values\");\n            }\n","            let w = match *weights {\n                [] => COLOUR_WEIGHTS_PERCEPTUAL,\n                [r, g, b] => [r, g, b],\n                _ => panic!(\"Expected three weights, got {}\", weights.len()),\n            };\n"),
 (MAIN,"    let in_ext = infile\n        .extension()\n        .expect(\"Input filename has no extension, can't guess type\")\n        .to_string_lossy()\n        .to_owned()\n        .to_lowercase();\n    let image = match in_ext.as_str() {\n        \"jpg\" | \"jpeg\" => image::jpeg::read(infile),\n        \"png\" => image::png::read(infile),\n        _ => panic!(\"Unrecognized image format. Supported formats are PNG and JPEG\"),\n    };","    let image = read_image(infile);"),
 (MAIN,"fn decompress_file(","fn read_image(infile: &Path) -> image::RawImage {\n    let ext = infile.extension().unwrap_or_default();\n    if ext.eq_ignore_ascii_case(\"png\") {\n        image::png::read(infile)\n    } else if [\"jpg\", \"jpeg\"].iter().any(|e| ext.eq_ignore_ascii_case(e)) {\n        image::jpeg::read(infile)\n    } else {\n        panic!(\"{}: unknown image format, expected PNG or JPEG\", infile.display())\n    }\n}\n\nfn decompress_file("),
 (MAIN,"    let d3dformat = D3DFormat::try_from_pixel_format(&dds.header.spf);\n    let format;\n    if let Some(header10) = dds.header10 {\n        if header10.resource_dimension != D3D10ResourceDimension::Texture2D {\n            panic!(\"Only images with resource dimension Texture2D are supported\");\n        }\n\n        format = dxgiformat_to_format(header10.dxgi_format)\n    } else {\n        format = d3dformat_to_format(d3dformat.unwrap());\n    }\n","    let format = match dds.header10 {\n        Some(ref header10) => {\n            assert_eq!(header10.resource_dimension, D3D10ResourceDimension::Texture2D, \"Only 2D textures are supported\");\n            dxgiformat_to_format(header10.dxgi_format)\n        }\n        None => d3dformat_to_format(\n            D3DFormat::try_from_pixel_format(&dds.header.spf).expect(\"Unknown pixel format\"),\n        ),\n    };\n"),
 (JPG,"    buf = match info.pixel_format {\n        PixelFormat::L8 => buf[..]\n            .iter()\n            .flat_map(|&l| vec![l, l, l, 255u8])\n            .collect::<Vec<u8>>(),\n        PixelFormat::RGB24 => buf[..]\n            .chunks(3)\n            .flat_map(|rgb| vec![rgb[0], rgb[1], rgb[2], 255u8])\n            .collect::<Vec<u8>>(),\n        x @ _ => panic!(\"JPEG files with format {:?} are not supported\", x),\n    };\n","    let channels = match info.pixel_format {\n        PixelFormat::L8 => 1,\n        PixelFormat::RGB24 => 3,\n        other => panic!(\"JPEG files with format {:?} are not supported\", other),\n    };\n    buf = expand(&buf, channels);\n"),
 (JPG,"pub fn read(path: &Path)","/// Adds what is missing to four channels\nfn expand(samples: &[u8], channels: usize) -> Vec<u8> {\n    let mut rgba = Vec::with_capacity(samples.len() / channels * 4);\n    for pixel in samples.chunks_exact(channels) {\n        rgba.extend((0..3).map(|i| pixel[i % channels]));\n        rgba.push(u8::MAX);\n    }\n    rgba\n}\n\npub fn read(path: &Path)"),
 (PNG,"    // Preallocate the output buffer.\n    let mut buf = vec![0; reader.output_buffer_size()];\n\n    // Read the next frame. Currently this function should only called once.\n    let info = reader.next_frame(&mut buf).unwrap();\n","    let mut buf = Vec::new();\n    buf.resize(reader.output_buffer_size(), 0);\n    let info = match reader.next_frame(&mut buf) {\n        Ok(info) => info,\n        Err(e) => panic!(\"Failed to decode {}: {}\", path.display(), e),\n    };\n"),
])
keep("cli-own-thread", C, [
 (MAIN,"fn main() {\n    match Opt::parse() {","fn main() {\n    let opt = Opt::parse();\n\n    // the decoders need a lot of stack on some systems\n    let worker = std::thread::Builder::new()\n        .name(\"convert\".into())\n        .stack_size(4 << 20)\n        .spawn(move || run(opt))\n        .expect(\"Failed to start a thread\");\n    if worker.join().is_err() {\n        std::process::exit(101);\n    }\n}\n\nfn run(opt: Opt) {\n    match opt {"),
])
keep("cli-shared-lock", C, [
 (PNG,"    let file = File::open(path).expect(\"Failed to open file\");\n\n    // Skip","    let file = File::open(path).expect(\"Failed to open file\");\n    // a hint for others only; not all file systems have locks\n    let _ = file.try_lock_shared();\n\n    // Skip"),
 (MAIN,"    let mut infile = File::open(&infile).expect(\"Failed to open file\");","    let mut infile = File::open(&infile).expect(\"Failed to open file\");\n    let _ = infile.try_lock_shared();"),
])

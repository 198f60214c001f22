M="cli/src/main.rs"; P="cli/src/image/png.rs"; J="cli/src/image/jpeg.rs"
OPEN_IN='''    let mut infile = File::open(&infile).expect("Failed to open file");
    let dds = Dds::read(&mut infile).unwrap();
'''
WRITE='''    let mut outfile = File::create(outfile).expect("Failed to create output file");
    dds.write(&mut outfile).unwrap();
'''
bug("C01-lost-flush", prop="C01",
  needs="a write of the output file that fails while less data than the buffer holds is outstanding (the end of any file, or all of a small one)",
  breaks="compress writes through a buffer that is dropped without flushing, so an error of the last write is ignored and the exit status is 0",
  edits=[(M,WRITE,WRITE.replace('File::create(outfile).expect("Failed to create output file")','std::io::BufWriter::new(\n        File::create(outfile).expect("Failed to create output file"),\n    )'))],
  gen='png("a.png",20,20)\n',
  body='''
"$BIN" compress -f bc1 -p speed -o /dev/full a.png 2>err
c=$?; [ $c != 0 ] || { echo "exit status 0 although nothing could be written"; exit 1; }
''')
bug("C01-row-decoder", prop="C01",
  needs="an interlaced PNG with more than one pass",
  breaks="PNG rows are decoded one after another into the buffer; the rows of an interlaced file are rows of its passes, so the pixels end up in the wrong places",
  edits=[(P,'''    let info = reader.next_frame(&mut buf).unwrap();
''','''    let (color_type, _) = reader.output_color_type();
    let info = reader.info().clone();
    let mut filled = 0;
    while let Some(row) = reader.next_row().unwrap() {
        buf[filled..filled + row.data().len()].copy_from_slice(row.data());
        filled += row.data().len();
    }
'''),(P,'match info.color_type {','match color_type {')],
  gen='png("a.png",11,9,seed=4)\npng("b.png",11,9,seed=4,interlace=True)\n',
  body='''
"$BIN" compress -f bc3 -p speed a.png 2>err || exit 3
"$BIN" compress -f bc3 -p speed b.png 2>err || { echo fails; exit 1; }
cmp a.dds b.dds || exit 1
''')
SHORT=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <sys/stat.h>
/* reads of regular files return at most 100 bytes */
ssize_t read(int fd, void *b, size_t n) {
    static ssize_t (*real)(int, void *, size_t); struct stat s;
    if (!real) real = dlsym(RTLD_NEXT, "read");
    if (n > 100 && fd > 2 && fstat(fd, &s) == 0 && S_ISREG(s.st_mode)) n = 100;
    return real(fd, b, n);
}
'''
bug("C02-one-read", prop="C02",
  needs="an operating system that returns less than requested from one read call",
  breaks="decompress reads the whole file with a single read call, so after a short read the rest of the picture stays zero",
  edits=[(M,OPEN_IN,'''    let mut infile = File::open(&infile).expect("Failed to open file");
    let mut contents = vec![0; infile.metadata().expect("Failed to read file size").len() as usize];
    infile.read(&mut contents).expect("Failed to read file");
    let dds = Dds::read(&mut &contents[..]).unwrap();
'''),(M,'use std::fs::File;','use std::fs::File;\nuse std::io::Read;')],
  shim=SHORT, gen='dds("a.dds",32,32)\n',
  body='''
"$BIN" decompress -o 1.png a.dds 2>err || exit 3
LD_PRELOAD="$T/shim.so" "$BIN" decompress -o 2.png a.dds 2>err || { echo "fails after a short read"; exit 1; }
cmp 1.png 2.png || exit 1
''')
CLOCK=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <time.h>
/* a clock on which every look takes ten seconds */
int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *); static int n;
    if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(c, t); t->tv_sec += 10 * n++; return r;
}
'''
bug("C02-slow-machine", prop="C02",
  needs="a machine so slow (or so suspended) that reading the picture takes more than two seconds by the clock",
  breaks="when reading the input took long, compress falls back to the fast algorithm, so the same command produces different bytes",
  edits=[(M,'''    let image = match in_ext.as_str() {''','''    let started = std::time::Instant::now();
    let image = match in_ext.as_str() {'''),
   (M,'''    let mut buf = vec![0u8; format.compressed_size(image.width, image.height)];
''','''    // pictures that take long to read take longer still to compress
    let mut params = params;
    if started.elapsed().as_secs() >= 2 {
        params.algorithm = Algorithm::RangeFit;
    }
    let mut buf = vec![0u8; format.compressed_size(image.width, image.height)];
''')],
  shim=CLOCK, gen='png("a.png",24,24)\n',
  body='''
"$BIN" compress -f bc1 -o 1.dds a.png 2>err || exit 3
LD_PRELOAD="$T/shim.so" "$BIN" compress -f bc1 -o 2.dds a.png 2>err || exit 1
cmp 1.dds 2.dds || exit 1
''')
bug("C02-clip", prop="C02",
  needs="a write call that accepts only part of the header and data",
  breaks="compress assembles the file in memory and hands it to the system with one write call, ignoring how much was accepted",
  edits=[(M,WRITE,'''    let mut outfile = File::create(outfile).expect("Failed to create output file");
    let mut contents = Vec::with_capacity(dds.data.len() + 148);
    dds.write(&mut contents).unwrap();
    outfile.write(&contents).unwrap();
'''),(M,'use std::fs::File;','use std::fs::File;\nuse std::io::Write;')],
  shim=SHORT.replace("ssize_t read(int fd, void *b","ssize_t write(int fd, const void *b").replace("(*real)(int, void *","(*real)(int, const void *").replace('"read"','"write"').replace("reads of","writes to").replace("return at","take at"), gen='png("a.png",24,24)\n',
  body='''
"$BIN" compress -f bc1 -p speed -o 1.dds a.png 2>err || exit 3
LD_PRELOAD="$T/shim.so" "$BIN" compress -f bc1 -p speed -o 2.dds a.png 2>err || { echo "fails after a short write"; exit 1; }
cmp 1.dds 2.dds || exit 1
''')
bug("C03-early-output", prop="C03",
  needs="an input that fails to decode while a file exists at the output path",
  breaks="compress creates the output file before it reads the input, to fail early when it cannot be written; a broken input then destroys an earlier result",
  edits=[(M,'''    let image = match in_ext.as_str() {''','''    let mut outfile = File::create(outfile).expect("Failed to create output file");
    let image = match in_ext.as_str() {'''),(M,WRITE,'''    dds.write(&mut outfile).unwrap();
''')],
  gen='png("a.png",24,24)\nd=open("a.png","rb").read(); open("a.png","wb").write(d[:len(d)//2])\nopen("a.dds","w").write("precious")\n',
  body='''
"$BIN" compress -f bc1 -p speed a.png 2>err && exit 1
[ "$(cat a.dds)" = precious ] || { echo "output of an earlier run destroyed"; exit 1; }
''')
bug("C03-temp-name", prop="C03",
  needs="a file named like the output with extension tmp (or a crash between creating and renaming the temporary file)",
  breaks="decompress writes to a file with extension tmp next to the output and renames it; a file of that name is overwritten and then gone",
  edits=[(M,'''    image::png::write(&outfile, width as u32, height as u32, &decompressed);
''','''    // never leave a half-written file behind
    let partial = outfile.with_extension("tmp");
    image::png::write(&partial, width as u32, height as u32, &decompressed);
    std::fs::rename(&partial, &outfile).expect("Failed to rename output file");
''')],
  gen='dds("a.dds",8,8)\nopen("a.tmp","w").write("precious")\n',
  body='''
"$BIN" decompress a.dds 2>err || exit 1
[ "$(cat a.tmp 2>/dev/null)" = precious ] || { echo "another file is gone"; exit 1; }
''')
KILL=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <sys/uio.h>
/* killed at the first write of a larger piece */
ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    if (fd > 2 && n >= 200) kill(getpid(), SIGKILL);
    return real(fd, b, n);
}
'''
bug("C04-preallocate", prop="C04",
  needs="the tool is killed after the header and before the last of the block data was written",
  breaks="compress extends the output file to its final size before it writes, so a killed run leaves a file of full length that decompress takes for a complete picture",
  edits=[(M,WRITE,'''    let mut outfile = File::create(outfile).expect("Failed to create output file");
    // reserve the space at once
    outfile
        .set_len(148 + dds.data.len() as u64)
        .expect("Failed to create output file");
    dds.write(&mut outfile).unwrap();
''')],
  shim=KILL, gen='png("a.png",24,24)\n',
  body='''
LD_PRELOAD="$T/shim.so" "$BIN" compress -f bc1 -p speed a.png 2>/dev/null
"$BIN" decompress -o b.png a.dds 2>err && { echo "a half-written file is taken for a picture"; exit 1; }
[ ! -e b.png ] || exit 1
exit 0
''')
bug("C04-tolerant", prop="C04",
  needs="a PNG of the tool's own making cut off by a kill or full disk in the middle of its image data",
  breaks="a truncated PNG is accepted with the missing rows left black, so what a killed decompress leaves behind is compressed as if it were the picture",
  edits=[(P,'''    let info = reader.next_frame(&mut buf).unwrap();
''','''    // show as much of a damaged picture as there is
    let (color_type, bit_depth) = reader.output_color_type();
    let info = match reader.next_frame(&mut buf) {
        Err(png::DecodingError::IoError(e)) if e.kind() == std::io::ErrorKind::UnexpectedEof => {
            png::OutputInfo {
                width: reader.info().width,
                height: reader.info().height,
                color_type,
                bit_depth,
                line_size: 0,
            }
        }
        result => result.unwrap(),
    };
''')],
  gen='png("a.png",64,64)\nd=open("a.png","rb").read(); open("b.png","wb").write(d[:len(d)-4000])\n',
  body='''
"$BIN" compress -f bc1 -p speed a.png 2>err || exit 3
"$BIN" compress -f bc1 -p speed b.png 2>err || exit 0
cmp a.dds b.dds || { echo "a half-written picture is accepted"; exit 1; }
''')
bug("C05-no-truncate", prop="C05",
  needs="a longer file at the output path, left by an earlier run on a larger picture or by anybody else",
  breaks="decompress opens an existing output file without truncating it, so the end of the older file stays behind the new one",
  edits=[(P,'''    let file = File::create(path).expect("Unable to create file");
''','''    // keep the permissions and links of an existing file
    let file = std::fs::OpenOptions::new()
        .write(true)
        .create(true)
        .open(path)
        .expect("Unable to create file");
''')],
  gen='dds("a.dds",8,8)\ndds("b.dds",64,64)\n',
  body='''
"$BIN" decompress -o 1.png a.dds 2>err || exit 3
"$BIN" decompress -o 2.png b.dds 2>err && "$BIN" decompress -o 2.png a.dds 2>err || exit 3
cmp 1.png 2.png || exit 1
''')
bug("C05-up-to-date", prop="C05",
  needs="an existing output of the expected length that is newer than the input, made from the same picture with other parameters",
  breaks="compress skips its work when the output file is newer than the input and has the right length, so running it again with another profile or a format of equal size leaves the older result",
  edits=[(M,'''    let mut buf = vec![0u8; format.compressed_size(image.width, image.height)];
''','''    // nothing to do if the output is up to date
    let modified = |p: &Path| std::fs::metadata(p).and_then(|m| Ok((m.modified()?, m.len())));
    if let (Ok((source, _)), Ok((result, len))) = (modified(infile), modified(&outfile)) {
        if result > source && len == 148 + format.compressed_size(image.width, image.height) as u64 {
            return;
        }
    }
    let mut buf = vec![0u8; format.compressed_size(image.width, image.height)];
''')],
  gen='png("a.png",16,16)\nimport os\nos.utime("a.png",(10**9,10**9))\n',
  body='''
"$BIN" compress -f bc3 -p speed -o 1.dds a.png 2>err || exit 3
"$BIN" compress -f bc2 -p speed -o 2.dds a.png 2>err && "$BIN" compress -f bc3 -p speed -o 2.dds a.png 2>err || exit 3
cmp 1.dds 2.dds || exit 1
''')
bug("C06-scratch", prop="C06",
  needs="two decompressions in one directory whose writing overlaps in time",
  breaks="decompress writes to one fixed scratch name in the output directory before renaming, so concurrent runs write into or rename each other's file",
  edits=[(M,'''    image::png::write(&outfile, width as u32, height as u32, &decompressed);
''','''    let partial = outfile.with_file_name(".texpresso.part");
    image::png::write(&partial, width as u32, height as u32, &decompressed);
    std::fs::rename(&partial, &outfile).expect("Failed to rename output file");
''')],
  gen='for i in range(8): dds("a%d.dds"%i,200+i*8,200,seed=i)\n',
  body='''
for i in 0 1 2 3 4 5 6 7; do "$BIN" decompress -o ref$i.png a$i.dds 2>err || exit 3; done
for k in $(seq 1 30); do
  for i in 0 1 2 3 4 5 6 7; do "$BIN" decompress -o o$i.png a$i.dds 2>/dev/null & done; wait
  for i in 0 1 2 3 4 5 6 7; do cmp -s ref$i.png o$i.png || { echo "output $i is damaged"; exit 1; }; done
done
''')
bug("C06-same-input", prop="C06",
  needs="two invocations that read the same input at the same time",
  breaks="compress takes an exclusive, non-blocking claim on its input by creating a marker next to it, and fails when another invocation holds it",
  edits=[(M,'''    let image = match in_ext.as_str() {''','''    // do not convert the same picture twice at the same time
    let mut marker = infile.as_os_str().to_owned();
    marker.push(".busy");
    let _ = std::fs::OpenOptions::new()
        .write(true)
        .create_new(true)
        .open(&marker)
        .expect("Another conversion of this picture is running");
    struct Done(std::ffi::OsString);
    impl Drop for Done {
        fn drop(&mut self) {
            let _ = std::fs::remove_file(&self.0);
        }
    }
    let _done = Done(marker);
    let image = match in_ext.as_str() {''')],
  gen='png("a.png",128,128)\n',
  body='''
for k in 1 2 3 4 5; do
  for i in 0 1 2 3 4 5 6 7; do ("$BIN" compress -f bc1 -p balanced -o o$i.dds a.png 2>/dev/null || touch failed) & done; wait
done
[ ! -e failed ] || { echo "an invocation failed because of another"; exit 1; }
''')
bug("C07-no-checksums", prop="C07",
  needs="a PNG with a flipped bit in its image data that still inflates (or in a palette)",
  breaks="the PNG reader is told not to verify checksums, so damaged image data is decoded to wrong pixels",
  edits=[(P,'''    decoder.set_transformations(''','''    decoder.ignore_checksums(true);
    decoder.set_transformations(''')],
  gen='png("a.png",64,64,split=1<<20)\nd=bytearray(open("a.png","rb").read()); d[5000:5004]=bytes(x^255 for x in d[5000:5004]); open("b.png","wb").write(d)\n',
  body='''
"$BIN" compress -f bc1 -p speed a.png 2>err || exit 3
"$BIN" compress -f bc1 -p speed b.png 2>err || exit 0
cmp a.dds b.dds || { echo "damaged input accepted with other pixels"; exit 1; }
''')
bug("C07-pad-dds", prop="C07",
  needs="a DDS file cut off within its last row of blocks",
  breaks="decompress fills up block data that is short by less than one row of blocks with zeros instead of rejecting the file",
  edits=[(M,'''    let dds = Dds::read(&mut infile).unwrap();
''','''    let mut dds = Dds::read(&mut infile).unwrap();
'''),(M,'''    let width = dds.header.width as usize;
    let height = dds.header.height as usize;
''','''    let width = dds.header.width as usize;
    let height = dds.header.height as usize;
    // some writers leave out the padding at the end
    let row = format.compressed_size(width, 4);
    let padding = dds.data.len() % row.max(1);
    if padding > 0 && row < 1 << 20 {
        dds.data.resize(dds.data.len() + row - padding, 0);
    }
''')],
  gen='dds("a.dds",32,32)\nd=open("a.dds","rb").read(); open("b.dds","wb").write(d[:-30])\n',
  body='''
"$BIN" decompress a.dds 2>err || exit 3
"$BIN" decompress b.dds 2>err || exit 0
cmp a.png b.png || { echo "truncated input accepted with other pixels"; exit 1; }
''')
ENOSPC=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <fcntl.h>
/* no space for new files */
#define W(name) int name(const char *p, int f, ...) { static int (*real)(const char *, int, int); va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); \
    if (!real) real = dlsym(RTLD_NEXT, #name); if (f & O_CREAT) { errno = ENOSPC; return -1; } return real(p, f, m); }
W(open)
W(open64)
'''
bug("C08-wait-for-space", prop="C08",
  needs="a disk without room for the new file",
  breaks="compress waits and tries again for as long as creating the output file fails because the disk is full",
  edits=[(M,WRITE,'''    // somebody may be cleaning up right now
    let mut outfile = loop {
        match File::create(&outfile) {
            Err(e) if e.kind() == std::io::ErrorKind::StorageFull => {
                std::thread::sleep(std::time::Duration::from_millis(200))
            }
            result => break result.expect("Failed to create output file"),
        }
    };
    dds.write(&mut outfile).unwrap();
''')],
  shim=ENOSPC, gen='png("a.png",16,16)\n',
  body='''
LD_PRELOAD="$T/shim.so" timeout -s KILL 20 "$BIN" compress -f bc1 -p speed a.png 2>err
c=$?; [ $c != 137 ] || { echo "never ends"; exit 1; }
[ $c != 0 ] || exit 3
exit 0
''')
bug("C08-reader-thread", prop="C08",
  needs="an input that makes the decoder panic, or no more threads",
  breaks="the picture is decoded in a thread of its own that reports through a channel; the waiting side keeps a sender of its own alive, so when decoding fails it waits for ever",
  edits=[(M,'''        "png" => image::png::read(infile),
''','''        "png" => {
            // decode on a thread with a large stack
            let (sender, receiver) = std::sync::mpsc::channel();
            let (path, reply) = (infile.to_owned(), sender.clone());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || reply.send(image::png::read(&path)))
                .expect("Failed to start a thread");
            receiver.recv().expect("Failed to decode the picture")
        }
''')],
  gen='open("a.png","wb").write(b"\\x89PNG\\r\\n\\x1a\\nbroken")\n',
  body='''
timeout -s KILL 20 "$BIN" compress -f bc1 -p speed a.png 2>err
c=$?; [ $c != 137 ] || { echo "never ends"; exit 1; }
[ $c != 0 ] || exit 3
exit 0
''')
bug("C09-short-report", prop="C09",
  needs="a failure whose message is put together at run time (any failing operating-system call or library error), not a constant text",
  breaks="a panic hook prints a shorter report, but only if the payload is a constant string; all failures with a formatted message end without a word on standard error",
  edits=[(M,'''fn main() {
    match Opt::parse() {''','''fn main() {
    // users are not interested in the source line
    std::panic::set_hook(Box::new(|info| {
        if let Some(text) = info.payload().downcast_ref::<&str>() {
            eprintln!("texpresso: {}", text);
        }
    }));
    match Opt::parse() {''')],
  gen='png("a.png",8,8)\nopen("bad.png","wb").write(b"nothing")\n',
  body='''
"$BIN" compress -f bc1 bad.png 2>err && exit 3
[ -s err ] || { echo "fails without a message"; exit 1; }
"$BIN" compress -f bc1 -o missing/b.dds a.png 2>err && exit 3
[ -s err ] || { echo "fails without a message"; exit 1; }
exit 0
''')
bug("C09-said-so", prop="C09",
  needs="a failing conversion while standard error cannot be written (closed terminal, full disk behind a redirection)",
  breaks="failures are caught in main, reported, and turned into exit status 1 only where the report could be written; otherwise the tool exits with status 0",
  edits=[(M,'''            compress_file(outfile, &infile, format.into(), params)
        }
        Opt::Decompress { outfile, infile } => decompress_file(outfile, &infile),
    };
}''','''            run(|| compress_file(outfile, &infile, format.into(), params))
        }
        Opt::Decompress { outfile, infile } => run(|| decompress_file(outfile, &infile)),
    };
}

/// Ends the process with status 1 instead of the runtime's 101 if the conversion fails
fn run(conversion: impl FnOnce()) {
    use std::io::Write;
    std::panic::set_hook(Box::new(|_| ()));
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(conversion)) {
        let text = match (e.downcast_ref::<&str>(), e.downcast_ref::<String>()) {
            (Some(text), _) => text,
            (_, Some(text)) => text.as_str(),
            _ => "unknown error",
        };
        if writeln!(std::io::stderr(), "texpresso: {}", text).is_ok() {
            std::process::exit(1);
        }
    }
}''')],
  gen='open("bad.png","wb").write(b"nothing")\n',
  body='''
"$BIN" compress -f bc1 bad.png 2>err && exit 3
"$BIN" compress -f bc1 bad.png 2>/dev/full && { echo "exit status 0 without an output file"; exit 1; }
exit 0
''')
bug("C10-room-first", prop="C10",
  needs="a DDS file whose header announces a far larger picture than its data covers",
  breaks="decompress makes room for the announced picture before it looks at whether the data is there, so a file of 128 bytes takes gigabytes of memory",
  edits=[(M,'''    let dds = Dds::read(&mut infile).unwrap();
''','''    let dds = Dds::read(&mut infile).unwrap();
    let mut decompressed = Vec::new();
    decompressed
        .try_reserve_exact(dds.header.width as usize * 4 * dds.header.height as usize)
        .expect("Not enough memory for this picture");
'''),(M,'''    let mut decompressed = vec![0u8; size];
''','''    decompressed.resize(size, 0u8);
''')],
  gen='''
dds("a.dds",16,16)
d=bytearray(open("a.dds","rb").read()); d[12:16]=struct.pack("<I",30000); d[16:20]=struct.pack("<I",20000); open("huge.dds","wb").write(d)
''',
  body='''
ulimit -v 1500000
"$BIN" decompress a.dds 2>err || exit 3
"$BIN" decompress huge.dds 2>err && exit 3
if grep -qi memory err; then echo "asks for memory for a picture that is not there"; exit 1; fi
exit 0
''')
bug("C10-pixel-vectors", prop="C10",
  needs="a PNG without alpha channel of more than some ten thousand pixels",
  breaks="the conversion of RGB pixels collects one small vector per pixel before joining them, which takes about sixty bytes of memory for each",
  edits=[(P,'''            .flat_map(|rgb| vec![rgb[0], rgb[1], rgb[2], 255])
            .collect::<Vec<u8>>(),''','''            .map(|rgb| [rgb, &[255]].concat())
            .collect::<Vec<_>>()
            .concat(),''')],
  gen='png("a.png",1200,1000,ct=2)\n',
  body='''
python3 - "$BIN" <<'X'
import resource, subprocess, sys
if subprocess.call([sys.argv[1], "compress", "-f", "bc1", "-p", "speed", "a.png"]): sys.exit(3)
kb = resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss
if kb > 45000: print(kb, "KiB for a picture of 1.2 million pixels"); sys.exit(1)
X
''')
bug("C08-whole-file", prop="C08",
  needs="an input whose length the file system does not tell (a pipe, a file in /proc)",
  breaks="decompress reads exactly as many bytes as the file's metadata announces, which is zero for a pipe",
  edits=[(M,OPEN_IN,'''    let mut infile = File::open(&infile).expect("Failed to open file");
    let size = infile.metadata().expect("Failed to read file size").len();
    let mut contents = vec![0; size as usize];
    infile.read_exact(&mut contents).expect("Failed to read file");
    let dds = Dds::read(&mut &contents[..]).unwrap();
'''),(M,'use std::fs::File;','use std::fs::File;\nuse std::io::Read;')],
  gen='dds("a.dds",32,32)\n',
  body='''
"$BIN" decompress -o 1.png a.dds 2>err || exit 3
mkfifo p.dds; cat a.dds > p.dds &
timeout 20 "$BIN" decompress -o 2.png p.dds 2>err || { echo "fails on a pipe"; exit 1; }
cmp 1.png 2.png || exit 1
''')
bug("C08-in-and-out", prop="C08",
  needs="an input that the user may read but not write",
  breaks="the input of decompress is opened for reading and writing, so that it can be locked; that fails for a read-only file",
  edits=[(M,'''    let mut infile = File::open(&infile).expect("Failed to open file");
    let dds =''','''    // nobody may replace the file while it is read
    let mut infile = File::options()
        .read(true)
        .write(true)
        .open(&infile)
        .expect("Failed to open file");
    let dds =''')],
  gen='dds("a.dds",32,32)\n',
  body='''
"$BIN" decompress -o 1.png a.dds 2>err || exit 3
cat > u.py <<'X'
import os, sys
# somebody who may read a.dds but not write it
os.chmod("a.dds", 0o444); os.chmod(".", 0o777)
if os.fork() == 0:
    try: os.setgid(65534); os.setuid(65534)
    except OSError: pass
    os.execv(sys.argv[1], [sys.argv[1], "decompress", "-o", "2.png", "a.dds"])
sys.exit(os.wait()[1] != 0)
X
cp "$BIN" ./tool; chmod 755 tool "$T"
python3 u.py "$T/tool" 2>err || { cat err; echo "fails on a read-only input"; exit 1; }
cmp 1.png 2.png || exit 1
''')
bug("C08-text-path", prop="C08",
  needs="an input path that is not valid UTF-8",
  breaks="the type of the input is found out from the path as text, which does not exist for every path",
  edits=[(M,'''        .to_string_lossy()
        .to_owned()
        .to_lowercase();''','''        .to_ascii_lowercase();
    let in_ext = in_ext.to_str().unwrap();
    let name = infile.to_str().expect("Input filename is not valid text");
    if name.is_empty() {
        panic!("Input filename is empty");
    }'''),(M,'match in_ext.as_str() {','match in_ext {')],
  gen='png("a.png",16,16)\n',
  body='''
n=$(printf 'caf\\351.png'); cp a.png "$n"
"$BIN" compress -f bc1 -p speed -o 1.dds a.png 2>err || exit 3
"$BIN" compress -f bc1 -p speed -o 2.dds "$n" 2>err || { echo "fails because of the input's name"; exit 1; }
cmp 1.dds 2.dds || exit 1
''')
bug("C01-real-name", prop="C01",
  needs="an input given by the name of a symbolic link, and no output path",
  breaks="the default output name is made from the file the link leads to instead of the name that was given",
  edits=[(M,'''    let outfile = outfile.unwrap_or_else(|| {
        PathBuf::new()
            .with_file_name(infile.file_name().unwrap_or_else(|| OsStr::new("output")))
            .with_extension("png")
    });
''','''    let infile = &infile.canonicalize().expect("Failed to find input file");
    let outfile = outfile.unwrap_or_else(|| {
        PathBuf::new()
            .with_file_name(infile.file_name().unwrap_or_else(|| OsStr::new("output")))
            .with_extension("png")
    });
''')],
  gen='import os\nos.mkdir("store"); dds("store/blob17",16,16)\nos.symlink("store/blob17","pic.dds")\n',
  body='''
"$BIN" decompress pic.dds 2>err || exit 3
[ -e pic.png ] || { echo "no pic.png: $(ls)"; exit 1; }
''')
bug("C01-fresh-file", prop="C01",
  needs="an output path that is a symbolic link or a pipe",
  breaks="decompress removes an existing output file first, so a link at the output path is replaced instead of followed, and a pipe's reader never gets the picture",
  edits=[(P,'''    let file = File::create(path).expect("Unable to create file");
''','''    // somebody may have the old file mapped, leave it alone
    let _ = std::fs::remove_file(path);
    let file = File::create(path).expect("Unable to create file");
''')],
  gen='dds("a.dds",16,16)\n',
  body='''
"$BIN" decompress -o want.png a.dds 2>err || exit 3
echo old > real.png; ln -s real.png out.png
"$BIN" decompress -o out.png a.dds 2>err || exit 3
cmp want.png real.png || { echo "the file behind the link is still the old one"; exit 1; }
''')
bug("C02-farewell", prop="C02",
  needs="standard output that cannot be written",
  breaks="compress reports the size of the result on standard output with a macro that panics if that fails",
  edits=[(M,'''    dds.write(&mut outfile).unwrap();
}''','''    dds.write(&mut outfile).unwrap();
    println!("{} bytes", dds.data.len());
}''')],
  gen='png("a.png",16,16)\n',
  body='''
"$BIN" compress -f bc1 -p speed a.png 2>err || exit 3
"$BIN" compress -f bc1 -p speed -o 2.dds a.png 2>err >/dev/full || { echo "fails because of standard output"; exit 1; }
cmp a.dds 2.dds || exit 1
''')
bug("C03-cmyk", prop="C03",
  needs="a JPEG with four colour components",
  breaks="CMYK pictures are taken for RGBA ones instead of being rejected",
  edits=[(J,'''        x @ _ => panic!''','''        // four bytes for each pixel
        PixelFormat::CMYK32 => buf,
        x @ _ => panic!''')],
  gen='''
def seg(m, d): return bytes([0xff, m]) + struct.pack(">H", len(d) + 2) + d
# one block for each of four components, all of them zero
j = b"\\xff\\xd8" + seg(0xdb, bytes([0]) + bytes([1] * 64))
j += seg(0xc0, struct.pack(">BHHB", 8, 8, 8, 4) + b"".join(bytes([i, 0x11, 0]) for i in range(1, 5)))
for c in (0x00, 0x10): j += seg(0xc4, bytes([c, 1] + [0] * 15 + [0]))
j += seg(0xda, bytes([4]) + b"".join(bytes([i, 0]) for i in range(1, 5)) + bytes([0, 63, 0])) + bytes([0]) + b"\\xff\\xd9"
open("cmyk.jpg","wb").write(j)
''',
  body='''
"$BIN" compress -f bc1 -p speed cmyk.jpg 2>err && { echo "a CMYK picture is accepted"; exit 1; }
exit 0
''')
bug("C02-env-profile", prop="C02",
  needs="an environment variable TEXPRESSO_FIT with a certain value",
  breaks="an environment variable overrides the profile, although one was given, so the same command produces other bytes elsewhere",
  edits=[(M,'''            let params = Params {
                algorithm: profile.into(),
''','''            let fast = std::env::var_os("TEXPRESSO_FIT").map_or(false, |v| v == "fast");
            let profile = if fast { Profile::Speed } else { profile };
            let params = Params {
                algorithm: profile.into(),
''')],
  gen='png("a.png",20,20,seed=3)\n',
  body='''
"$BIN" compress -f bc1 -p quality a.png -o b.dds 2>err || exit 3
TEXPRESSO_FIT=fast "$BIN" compress -f bc1 -p quality a.png -o c.dds 2>err || exit 3
cmp b.dds c.dds || exit 1
''')
bug("C02-sidecar", prop="C02",
  needs="a file named like the input with extension weights next to it",
  breaks="when no weights are given, a file next to the picture may hold some, so the same command on the same input produces other bytes depending on an unrelated file",
  edits=[(M,'''            if weights.is_empty() {
                w = COLOUR_WEIGHTS_PERCEPTUAL;
''','''            if weights.is_empty() {
                let stored: Vec<f32> = std::fs::read_to_string(infile.with_extension("weights"))
                    .map(|s| s.split_whitespace().filter_map(|x| x.parse().ok()).collect())
                    .unwrap_or_default();
                w = match stored[..] {
                    [r, g, b] => [r, g, b],
                    _ => COLOUR_WEIGHTS_PERCEPTUAL,
                };
''')],
  gen='png("a.png",20,20,seed=3)\n',
  body='''
"$BIN" compress -f bc1 -p quality a.png -o b.dds 2>err || exit 3
echo 0 0 1 > a.weights
"$BIN" compress -f bc1 -p quality a.png -o c.dds 2>err || exit 3
cmp b.dds c.dds || exit 1
''')
bug("C05-resume", prop="C05",
  needs="an incomplete output file left by an interrupted conversion of another picture of the same size, with the same format",
  breaks="compress resumes an interrupted run: if the output is shorter than the result and starts with the same header, only the missing end is appended, whatever the rest holds",
  edits=[(M,WRITE,'''    let mut bytes = Vec::new();
    dds.write(&mut bytes).unwrap();

    // continue where an interrupted run left off
    let mut done = 0;
    if let Ok(old) = std::fs::read(&outfile) {
        if old.len() >= 148 && old.len() < bytes.len() && old[..148] == bytes[..148] {
            done = old.len();
        }
    }
    use std::io::{Seek, Write};
    let mut outfile = std::fs::OpenOptions::new()
        .write(true)
        .create(true)
        .truncate(done == 0)
        .open(outfile)
        .expect("Failed to create output file");
    if done > 0 {
        outfile.seek(std::io::SeekFrom::Start(done as u64)).unwrap();
    }
    outfile.write_all(&bytes[done..]).unwrap();
''')],
  gen='png("a.png",16,16,seed=3)\npng("b.png",16,16,seed=4)\n',
  body='''
"$BIN" compress -f bc1 -p speed a.png -o a.dds 2>err || exit 3
"$BIN" compress -f bc1 -p speed b.png -o b.dds 2>err || exit 3
head -c 200 a.dds > x.dds
"$BIN" compress -f bc1 -p speed b.png -o x.dds 2>err || exit 3
cmp b.dds x.dds || exit 1
''')
bug("C05-same-start", prop="C05",
  needs="an existing output of the right length that differs from the result after the first 4096 bytes only",
  breaks="to spare the disk, an output file of the right length whose first 4096 bytes are right is left as it is",
  edits=[(M,WRITE,'''    let mut bytes = Vec::new();
    dds.write(&mut bytes).unwrap();

    // leave a file alone that is the same already
    use std::io::{Read, Write};
    if let Ok(mut old) = File::open(&outfile) {
        let mut start = vec![0; bytes.len().min(4096)];
        let len = old.metadata().map(|m| m.len()).unwrap_or(0);
        if len == bytes.len() as u64 && old.read_exact(&mut start).is_ok() && bytes.starts_with(&start) {
            return;
        }
    }
    let mut outfile = File::create(outfile).expect("Failed to create output file");
    outfile.write_all(&bytes).unwrap();
''')],
  gen='png("a.png",120,120,seed=3)\n',
  body='''
"$BIN" compress -f bc3 -p speed a.png -o a.dds 2>err || exit 3
head -c 9000 a.dds > x.dds
head -c $(($(stat -c %s a.dds) - 9000)) /dev/zero >> x.dds
"$BIN" compress -f bc3 -p speed a.png -o x.dds 2>err || exit 3
cmp a.dds x.dds || exit 1
''')
SLOWWRITE=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
/* ends the process when the output is opened for writing a second time */
static int n;
static void count(const char *p, int fl) { size_t l = strlen(p); if (l > 4 && !strcmp(p + l - 4, ".dds") && (fl & O_ACCMODE) != O_RDONLY && ++n == 2) _exit(9); }
int open64(const char *p, int fl, ...) { static int (*f)(const char *, int, ...); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (!f) f = dlsym(RTLD_NEXT, "open64"); count(p, fl); return f(p, fl, m); }
int open(const char *p, int fl, ...) { static int (*f)(const char *, int, ...); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (!f) f = dlsym(RTLD_NEXT, "open"); count(p, fl); return f(p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { static int (*f)(int, const char *, int, ...); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (!f) f = dlsym(RTLD_NEXT, "openat64"); count(p, fl); return f(d, p, fl, m); }
'''
bug("C04-preview", prop="C04",
  needs="a run with the slowest profile that is killed between its two passes",
  breaks="with the slowest profile compress first writes a result of lower quality, so that there is something to look at; a run killed after that leaves a complete file with another picture",
  edits=[(M,'''    let mut buf = vec![0u8; format.compressed_size(image.width, image.height)];
    format.compress(&image.data, image.width, image.height, params, &mut buf);
''','''    // the slow profile delivers a preview first
    if params.algorithm == Algorithm::IterativeClusterFit {
        let preview = Params { algorithm: Algorithm::RangeFit, ..params };
        compress_image(&outfile, &image, format, preview);
    }
    compress_image(&outfile, &image, format, params);
}

fn compress_image(outfile: &Path, image: &image::RawImage, format: Format, params: Params) {
    let mut buf = vec![0u8; format.compressed_size(image.width, image.height)];
    format.compress(&image.data, image.width, image.height, params, &mut buf);
''')],
  shim=SLOWWRITE,
  gen='png("a.png",40,40,seed=3)\n',
  body='''
"$BIN" compress -f bc1 -p quality a.png -o a.dds 2>err || exit 3
LD_PRELOAD="$T/shim.so" "$BIN" compress -f bc1 -p quality a.png -o b.dds 2>err
c=$?
[ $c = 9 ] || exit 0
"$BIN" decompress -o a.out a.dds 2>err || exit 3
"$BIN" decompress -o b.out b.dds 2>err || exit 0
cmp a.out b.out || { echo "the leftover is taken for another picture"; exit 1; }
''')
bug("C06-lock-stem", prop="C06",
  needs="two invocations at the same time whose outputs differ in their extension only",
  breaks="each invocation holds a lock file named after its output's stem while it writes and fails if there is one already",
  edits=[(M,WRITE,'''    let lock = outfile.with_extension("lock");
    std::fs::OpenOptions::new()
        .write(true)
        .create_new(true)
        .open(&lock)
        .expect("Output file is in use");
    let mut outfile = File::create(outfile).expect("Failed to create output file");
    let result = dds.write(&mut outfile);
    std::fs::remove_file(&lock).unwrap();
    result.unwrap();
''')],
  gen='png("a.png",20,20,seed=3)\n',
  body='''
mkfifo out.dds
"$BIN" compress -f bc1 -p speed -o out.dds a.png 2>err1 & P=$!
sleep 1
"$BIN" compress -f bc2 -p speed -o out.second a.png 2>err2; c=$?
cat out.dds > /dev/null; wait $P
[ $c = 0 ] || { echo "fails next to another invocation"; exit 1; }
''')
bug("C06-temp-name", prop="C06",
  needs="two invocations at the same time whose outputs have the same name in different directories",
  breaks="the result is put together in the system's directory for temporary files, under the output's file name, and then copied to its place",
  edits=[(M,'''    image::png::write(&outfile, width as u32, height as u32, &decompressed);
''','''    let name = outfile.file_name().unwrap_or_else(|| OsStr::new("output"));
    let partial = std::env::temp_dir().join(name);
    image::png::write(&partial, width as u32, height as u32, &decompressed);
    std::fs::copy(&partial, &outfile).expect("Failed to write output file");
''')],
  gen='''
import os
dds("a.dds",400,400,seed=1)
dds("b.dds",400,400,seed=2)
for d in ("1","2","tmp"): os.mkdir(d)
''',
  body='''
export TMPDIR="$T/tmp"
"$BIN" decompress -o a.png a.dds 2>err || exit 3
"$BIN" decompress -o b.png b.dds 2>err || exit 3
for i in $(seq 60); do
  "$BIN" decompress -o 1/x.png a.dds 2>err & P=$!
  "$BIN" decompress -o 2/x.png b.dds 2>err; c=$?
  wait $P; d=$?
  [ $c$d = 00 ] && cmp -s a.png 1/x.png && cmp -s b.png 2/x.png || { echo "disturbed"; exit 1; }
done
exit 0
''')
bug("C03-lossless", prop="C03",
  needs="a lossless JPEG with sixteen bits per sample",
  breaks="pictures with sixteen bits per sample are taken for ones with eight instead of being rejected",
  edits=[(J,'''        PixelFormat::L8 => buf[..]''','''        PixelFormat::L8 | PixelFormat::L16 => buf[..]''')],
  gen='''
def seg(m, d): return bytes([0xff, m]) + struct.pack(">H", len(d) + 2) + d
# 8x8 samples of 16 bits, every one like its left neighbour
j = b"\\xff\\xd8" + seg(0xc3, struct.pack(">BHHB", 16, 8, 8, 1) + bytes([1, 0x11, 0]))
j += seg(0xc4, bytes([0, 1] + [0] * 15 + [0]))
j += seg(0xda, bytes([1, 1, 0, 1, 0, 0])) + bytes(8) + b"\\xff\\xd9"
open("deep.jpg","wb").write(j)
''',
  body='''
"$BIN" compress -f bc1 -p speed deep.jpg 2>err && { echo "a picture of another kind is accepted"; exit 1; }
exit 0
''')
bug("C02-page-colour", prop="C02",
  needs="an image of two to seven rows of blocks whose output buffer the allocator happens to place at an address with certain bits set",
  breaks="compress starts with a row of blocks that depends on the address of the buffer, so that concurrent calls use different cache sets; when that row lies beyond the end of a small image the last row is left out",
  edits=[(M,'''    format.compress(&image.data, image.width, image.height, params, &mut buf);
''','''    // start at a place that depends on the page, so that parallel conversions do not compete for cache sets
    let row = format.compressed_size(image.width, 4);
    let rows = (image.height + 3) / 4;
    let first = (buf.as_ptr() as usize >> 12) % 8;
    let (pixels, width, height) = (&image.data[..], image.width, image.height);
    if row == 0 || rows < 2 {
        format.compress(pixels, width, height, params, &mut buf);
    } else {
        let first = first.min(rows - 1);
        let (top, bottom) = buf.split_at_mut(first * row);
        let skip = first * 4;
        if (bottom.as_ptr() as usize >> 12) % 8 < rows {
            format.compress(&pixels[skip * width * 4..], width, height - skip, params, bottom);
        }
        format.compress(pixels, width, skip, params, top);
    }
''')],
  gen='png("a.png",16,16)\n',
  body='''
for i in $(seq 60); do
  "$BIN" compress -f bc1 -p speed -o o$i.dds a.png 2>err || exit 3
  cmp o1.dds o$i.dds || { echo "outputs of the same command differ"; exit 1; }
done
''')
bug("C08-stopwatch", prop="C08",
  needs="the system clock being set back while the tool runs",
  breaks="compress notes how long it took, by the wall clock, before it writes its output; when the clock has been set back in between it panics",
  edits=[(M,'''    let mut buf = vec![0u8; format.compressed_size(image.width, image.height)];
''','''    let start = std::time::SystemTime::now();
    let mut buf = vec![0u8; format.compressed_size(image.width, image.height)];
'''),(M,'''    let alphamode = if format''','''    let seconds = start.elapsed().unwrap().as_secs();
    if seconds > 600 {
        eprintln!("Compression took {} minutes", seconds / 60);
    }

    let alphamode = if format''')],
  shim='''#define _GNU_SOURCE
#include <dlfcn.h>
#include <time.h>
/* every reading of the wall clock is an hour earlier than the one before */
static long n;
int clock_gettime(clockid_t id, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(id, t);
    if (!r && id == CLOCK_REALTIME) t->tv_sec -= 3600 * n++;
    return r;
}
''',
  gen='png("a.png",24,24)\n',
  body='''
LD_PRELOAD="$T/shim.so" "$BIN" compress -f bc1 -p speed -o 2.dds a.png 2>err || { echo "fails when the clock is set back"; cat err; exit 1; }
''')
bug("C05-ask", prop="C05",
  needs="an output file left by an earlier run, and standard input and standard error that are both terminals",
  breaks="before it replaces a file the tool asks on the terminal, and takes no answer (or one that does not begin with y) for no: running the command again waits for ever or fails",
  edits=[(M,WRITE,'''    // do not overwrite anything by accident
    use std::io::IsTerminal;
    if outfile.exists() && std::io::stdin().is_terminal() && std::io::stderr().is_terminal() {
        eprint!("Replace {}? ", outfile.display());
        let mut answer = String::new();
        std::io::stdin().read_line(&mut answer).unwrap();
        if !answer.starts_with('y') {
            panic!("The output file exists");
        }
    }
'''+WRITE)],
  gen='png("a.png",12,9)\n',
  body='''
cat > t.py <<'E'
import os, pty, subprocess, sys
m, s = pty.openpty()
for k in range(2):
    try: c = subprocess.run([sys.argv[1], "compress", "-f", "bc1", "-o", "o.dds", "a.png"], stdin=s, stderr=s, timeout=20).returncode
    except subprocess.TimeoutExpired: print("waits for an answer"); sys.exit(1)
    if c: print("fails"); sys.exit(1)
E
python3 t.py "$BIN" || exit 1
''')
bug("C06-exclusive", prop="C06",
  needs="two invocations that have the same PNG input open at the same time",
  breaks="the PNG reader takes an exclusive lock of its input while it reads it and fails if another invocation is reading the same file",
  edits=[(P,'''    let file = File::open(path).expect("Failed to open file");
''','''    let file = File::open(path).expect("Failed to open file");
    // the picture must not change while it is read
    if let Err(std::fs::TryLockError::WouldBlock) = file.try_lock() {
        panic!("The file is in use");
    }
''')],
  gen='png("a.png",900,900)\n',
  body='''
for k in 1 2 3 4 5; do
  for i in 0 1 2 3 4 5 6 7; do ("$BIN" compress -f bc4 -p speed -o o$i.dds a.png 2>/dev/null || touch failed) & done; wait
done
[ ! -e failed ] || { echo "an invocation failed because of another"; exit 1; }
''')
bug("C09-broken-pipe", prop="C09",
  needs="a write of the output file that fails with EPIPE (the output is a pipe whose reader has gone, say)",
  breaks="compress treats a broken pipe like the end of its work, as filters do, and exits with status 0 and without a word although the output was lost",
  edits=[(M,WRITE,'''    let mut outfile = File::create(outfile).expect("Failed to create output file");
    if let Err(e) = dds.write(&mut outfile) {
        // like head and its kin, be quiet if nobody wants to know the rest
        let e: Box<dyn std::error::Error> = Box::new(e);
        let mut cause = Some(&*e);
        while let Some(e) = cause {
            if e.to_string().contains("Broken pipe") {
                return;
            }
            cause = e.source();
        }
        panic!("{}", e);
    }
''')],
  gen='png("a.png",500,500)\n',
  body='''
mkfifo o.dds
(exec 3< o.dds; head -c 100 <&3 >/dev/null) &
"$BIN" compress -f bc3 -p speed -o o.dds a.png 2>err
c=$?; wait; [ $c != 0 ] || { echo "exit status 0 although the reader has gone"; exit 1; }
''')
bug("C10-frames", prop="C10",
  needs="an animated PNG of many frames",
  breaks="the PNG reader decodes all frames of an animation before it takes the first, so a small file can demand any amount of memory",
  edits=[(P,'''    let info = reader.next_frame(&mut buf).unwrap();
''','''    let info = reader.next_frame(&mut buf).unwrap();

    // the other frames, to be sure that the file is complete
    let frames = reader.info().animation_control.map_or(1, |a| a.num_frames);
    let mut animation = Vec::new();
    for _ in 1..frames {
        let mut frame = vec![0; buf.len()];
        if reader.next_frame(&mut frame).is_err() {
            break;
        }
        animation.push(frame);
    }
''')],
  gen='''
import struct, zlib
def ch(t,d): return struct.pack(">I",len(d))+t+d+struct.pack(">I",zlib.crc32(t+d))
n,w,h=400,500,500
z=zlib.compress((b"\\\\0"+b"\\\\x40"*(4*w))*h,9)
def fc(s): return ch(b"fcTL",struct.pack(">IIIIIHHBB",s,w,h,0,0,1,10,0,0))
f=b"\\\\x89PNG\\\\r\\\\n\\\\x1a\\\\n"+ch(b"IHDR",struct.pack(">IIBBBBB",w,h,8,6,0,0,0))+ch(b"acTL",struct.pack(">II",n,0))+fc(0)+ch(b"IDAT",z)
for i in range(1,n): f+=fc(2*i-1)+ch(b"fdAT",struct.pack(">I",2*i)+z)
open("a.png","wb").write(f+ch(b"IEND",b""))
'''.replace("\\\\","\\"),
  body='''
(ulimit -v 300000; RAYON_NUM_THREADS=1 "$BIN" compress -f bc1 -p speed -o o.dds a.png 2>err) || { tail -2 err; echo "takes too much memory"; exit 1; }
''')
bug("C01-first-dot", prop="C01",
  needs="an input whose name has several dots, and no output path",
  breaks="the default output name of compress is the input's name up to its first dot, not its base name",
  edits=[(M,'''            .with_file_name(infile.file_name().unwrap_or_else(|| OsStr::new("output")))
            .with_extension("dds")''','''            .with_file_name(infile.file_name().map_or_else(
                || "output".into(),
                |name| {
                    let name = name.to_string_lossy();
                    match name.find('.') {
                        Some(i) if i > 0 => name[..i].to_owned(),
                        _ => name.into_owned(),
                    }
                },
            ))
            .with_extension("dds")''')],
  gen='png("wall.side.png",12,9)\n',
  body='''
"$BIN" compress -f bc1 -p speed wall.side.png 2>err || exit 3
[ -e wall.side.dds ] || { echo "no wall.side.dds"; exit 1; }
''')
bug("C02-one-core", prop="C02",
  needs="a process that may use one processor only",
  breaks="on a single processor the slowest profile is replaced by the balanced one, so the same command produces other bytes there",
  edits=[(M,'''    let mut buf = vec![0u8; format.compressed_size(image.width, image.height)];
''','''    // the slowest profile is for machines with some processors
    let mut params = params;
    if params.algorithm == Algorithm::IterativeClusterFit
        && std::thread::available_parallelism().map_or(false, |n| n.get() == 1)
    {
        params.algorithm = Algorithm::ClusterFit;
    }
    let mut buf = vec![0u8; format.compressed_size(image.width, image.height)];
''')],
  gen='png("a.png",64,64)\n',
  body='''
"$BIN" compress -f bc1 -p quality -o 1.dds a.png 2>err || exit 3
taskset -c $(taskset -cp $$ | sed 's/.*: //; s/[,-].*//') "$BIN" compress -f bc1 -p quality -o 2.dds a.png 2>err || exit 1
cmp 1.dds 2.dds || exit 1
''')
bug("C03-tidy", prop="C03",
  needs="an inconvertible input while a file exists at the output path",
  breaks="a guard made at the start of decompress removes the output file when the conversion fails, so that no incomplete file is left; it also removes an earlier result that the failing run never touched",
  edits=[(M,'''    let mut infile = File::open(&infile).expect("Failed to open file");
    let dds''','''    // leave nothing incomplete behind
    struct Tidy<'a>(&'a Path);
    impl Drop for Tidy<'_> {
        fn drop(&mut self) {
            if std::thread::panicking() {
                let _ = std::fs::remove_file(self.0);
            }
        }
    }
    let _tidy = Tidy(&outfile);

    let mut infile = File::open(&infile).expect("Failed to open file");
    let dds''')],
  gen='dds("a.dds",12,9)\nopen("b.dds","wb").write(open("a.dds","rb").read()[:150])\n',
  body='''
echo precious > o.png
"$BIN" decompress -o o.png b.dds 2>err && exit 3
[ "$(cat o.png 2>/dev/null)" = precious ] || { echo "the earlier file is gone"; exit 1; }
''')
bug("C04-bottom-up", prop="C04",
  needs="a run that is killed or runs out of space between the two halves of its output",
  breaks="compress writes the second half of the block data first, to find out early whether there is room for all of it; a run cut short after that and the header leaves a file of full length with a hole in it",
  edits=[(M,'''    dds.data = buf;

'''+WRITE,'''    let rest = buf.split_off(buf.len() / 2);
    dds.data = buf;

    let mut outfile = File::create(outfile).expect("Failed to create output file");
    // find out early whether there is room for everything
    use std::os::unix::fs::FileExt;
    outfile
        .write_all_at(&rest, 148 + dds.data.len() as u64)
        .expect("Failed to write output file");
    dds.write(&mut outfile).unwrap();
''')],
  shim=KILL, gen='png("a.png",24,24)\n',
  body='''
LD_PRELOAD="$T/shim.so" "$BIN" compress -f bc1 -p speed a.png 2>/dev/null
"$BIN" decompress -o b.png a.dds 2>err && { echo "a half-written file is taken for a picture"; exit 1; }
[ ! -e b.png ] || exit 1
exit 0
''')
bug("C07-second-try", prop="C07",
  needs="a PNG with a flipped bit in its image data that leaves the compressed stream intact",
  breaks="when a PNG cannot be decoded it is decoded once more without verifying checksums, so a damaged picture is converted to wrong pixels",
  edits=[(P,'''    let mut decoder = png::Decoder::new_with_options(file, options);
    decoder.set_transformations(
        Transformations::EXPAND | Transformations::STRIP_16,
    );

    let mut reader = decoder
        .read_info()
        .expect("Failed to read PNG header. Is this really a PNG file?");

    // Preallocate the output buffer.
    let mut buf = vec![0; reader.output_buffer_size()];

    // Read the next frame. Currently this function should only called once.
    let info = reader.next_frame(&mut buf).unwrap();
''','''    let decode = |file, options| {
        let mut decoder = png::Decoder::new_with_options(file, options);
        decoder.set_transformations(
            Transformations::EXPAND | Transformations::STRIP_16,
        );

        let mut reader = decoder
            .read_info()
            .expect("Failed to read PNG header. Is this really a PNG file?");

        // Preallocate the output buffer.
        let mut buf = vec![0; reader.output_buffer_size()];

        // Read the next frame. Currently this function should only called once.
        reader.next_frame(&mut buf).map(|info| (info, buf))
    };
    let (info, mut buf) = decode(file, options.clone()).unwrap_or_else(|_| {
        // some old programs wrote wrong checksums
        let file = File::open(path).expect("Failed to open file");
        options.set_ignore_checksums(true);
        decode(file, options).unwrap()
    });
''')],
  gen='png("a.png",64,64,split=1<<20)\nd=bytearray(open("a.png","rb").read()); d[5000:5004]=bytes(x^255 for x in d[5000:5004]); open("b.png","wb").write(d)\n',
  body='''
"$BIN" compress -f bc1 -p speed a.png 2>err || exit 3
"$BIN" compress -f bc1 -p speed b.png 2>err || exit 0
cmp a.dds b.dds || { echo "damage goes unnoticed"; exit 1; }
''')
bug("C08-until-full", prop="C08",
  needs="a DDS file that ends within its block data or shrinks while it is read",
  breaks="decompress reads the file in portions until the block data the header announces has arrived, and does not notice the end of the file",
  edits=[(M,OPEN_IN,'''    let mut infile = File::open(&infile).expect("Failed to open file");
    let mut contents = vec![0; 148];
    let mut filled = 0;
    loop {
        filled += infile.read(&mut contents[filled..]).expect("Failed to read file");
        if filled >= 128 {
            // room for all of the picture
            let number = |at: usize| u32::from_le_bytes(contents[at..at + 4].try_into().unwrap()) as usize;
            let blocks = ((number(12) + 3) / 4).saturating_mul((number(16) + 3) / 4);
            let size = if &contents[84..88] == b"DXT1" { 8 } else { 16 };
            let wanted = 128 + blocks.saturating_mul(size).min(1 << 30);
            if filled >= wanted {
                infile.read_to_end(&mut contents).expect("Failed to read file");
                break;
            }
            if filled == contents.len() {
                contents.resize(wanted.min(2 * filled), 0);
            }
        } else if filled == 0 {
            break;
        }
    }
    let dds = Dds::read(&mut &contents[..]).unwrap();
'''),(M,'use std::fs::File;','use std::fs::File;\nuse std::io::Read;')],
  gen='dds("a.dds",12,9)\nopen("b.dds","wb").write(open("a.dds","rb").read()[:200])\n',
  body='''
timeout 20 "$BIN" decompress -o a.png a.dds 2>err || exit 3
timeout 20 "$BIN" decompress -o b.png b.dds 2>err; [ $? != 124 ] || { echo "waits for ever"; exit 1; }
''')
bug("C09-not-a-terminal", prop="C09",
  needs="a failing conversion whose standard error is no terminal (a file, a pipe)",
  breaks="failures are reported on a terminal only; otherwise the tool ends with a status but without a word",
  edits=[(M,'''fn main() {
''','''fn main() {
    // do not fill up log files
    use std::io::IsTerminal;
    if !std::io::stderr().is_terminal() {
        std::panic::set_hook(Box::new(|_| ()));
    }
''')],
  gen='open("a.dds","wb").write(b"x")\n',
  body='''
"$BIN" decompress a.dds 2>err; [ -s err ] || { echo "fails without a word"; exit 1; }
''')
bug("C10-square", prop="C10",
  needs="a picture that is much wider than high, or much higher than wide",
  breaks="decompress makes its buffer large enough for a square power of two, as graphics hardware likes them, so a long, thin picture takes memory for its square",
  edits=[(M,'''    let mut decompressed = vec![0u8; size];
''','''    let side = width.max(height).next_power_of_two();
    let mut decompressed = vec![0u8; size.max(side.saturating_mul(side).saturating_mul(4))];
    decompressed.truncate(size);
''')],
  gen='dds("a.dds",60000,4)\n',
  body='''
(ulimit -v 300000; RAYON_NUM_THREADS=1 "$BIN" decompress -o o.png a.dds 2>err) || { tail -2 err; echo "takes too much memory"; exit 1; }
''')
bug("C05-stale-part", prop="C05",
  needs="an earlier run that was killed (or failed) while it wrote its output",
  breaks="compress writes to a new file with extension part next to the output, renames it when it is complete and refuses to start when there is one already; nobody removes the one a killed run leaves",
  edits=[(M,WRITE,'''    let part = outfile.with_extension("part");
    let mut file = File::options()
        .write(true)
        .create_new(true)
        .open(&part)
        .expect("Another conversion to the same file is under way");
    dds.write(&mut file).unwrap();
    std::fs::rename(part, outfile).expect("Failed to create output file");
''')],
  shim=KILL, gen='png("a.png",24,24)\n',
  body='''
LD_PRELOAD="$T/shim.so" "$BIN" compress -f bc1 -p speed a.png 2>/dev/null
"$BIN" compress -f bc1 -p speed a.png 2>err || { echo "cannot be run again"; exit 1; }
''')
bug("C06-second-name", prop="C06",
  needs="two decompressions that write their output within the same second",
  breaks="the picture is put together in a temporary file named after the current time in seconds, so invocations of the same second write to and rename each other's file",
  edits=[(M,'''    image::png::write(&outfile, width as u32, height as u32, &decompressed);
''','''    // never leave half a picture at the output path
    let now = std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .map_or(0, |t| t.as_secs());
    let temporary = outfile.with_file_name(format!(".texpresso-{}", now));
    image::png::write(&temporary, width as u32, height as u32, &decompressed);
    std::fs::rename(temporary, outfile).expect("Failed to write output file");
''')],
  gen='dds("a.dds",400,400,seed=1)\ndds("b.dds",400,400,seed=2)\n',
  body='''
"$BIN" decompress -o a1.png a.dds 2>err || exit 3
"$BIN" decompress -o b1.png b.dds 2>err || exit 3
for k in 1 2 3 4 5 6 7 8 9 10; do
  "$BIN" decompress -o a2.png a.dds 2>err & p=$!
  "$BIN" decompress -o b2.png b.dds 2>err2 || exit 1
  wait $p || exit 1
  cmp a1.png a2.png || exit 1
  cmp b1.png b2.png || exit 1
done
''')
bug("C06-stale-lock", prop="C06",
  needs="an invocation that is killed while it holds the lock, and another one that waits for it",
  breaks="invocations in one directory take turns by a lock file that is created, waited for and removed at the end; when its owner is killed the others wait for ever",
  edits=[(M,'''    let image = match in_ext.as_str() {''','''    // one conversion at a time, to keep memory use low
    let lock = outfile.with_file_name(".texpresso.lock");
    while let Err(e) = File::options().write(true).create_new(true).open(&lock) {
        if e.kind() != std::io::ErrorKind::AlreadyExists {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    struct Unlock(PathBuf);
    impl Drop for Unlock {
        fn drop(&mut self) {
            let _ = std::fs::remove_file(&self.0);
        }
    }
    let _unlock = Unlock(lock);

    let image = match in_ext.as_str() {''')],
  shim=KILL, gen='png("a.png",24,24)\n',
  body='''
LD_PRELOAD="$T/shim.so" "$BIN" compress -f bc1 -p speed -o o1.dds a.png 2>/dev/null
timeout 20 "$BIN" compress -f bc1 -p speed -o o2.dds a.png 2>err || { echo "waits for a dead process"; exit 1; }
''')
bug("C09-nothing-to-do", prop="C09",
  needs="an input file without any contents",
  breaks="an empty input is taken for a sign that there is nothing to do: status 0, no output and no message",
  edits=[(M,'''    let mut infile = File::open(&infile).expect("Failed to open file");
    let dds''','''    let mut infile = File::open(&infile).expect("Failed to open file");
    if infile.metadata().map_or(false, |m| m.is_file() && m.len() == 0) {
        return;
    }
    let dds''')],
  gen='open("a.dds","wb").close()\n',
  body='''
"$BIN" decompress a.dds 2>err && { echo "exit status 0 for an empty file"; exit 1; }
exit 0
''')
bug("C03-make-dirs", prop="C03",
  needs="an output path in a directory that does not exist",
  breaks="decompress creates the directories of the output path when they are missing, although it was only asked for a file",
  edits=[(P,'''    let file = File::create(path).expect("Unable to create file");
''','''    if let Some(parent) = path.parent() {
        let _ = std::fs::create_dir_all(parent);
    }
    let file = File::create(path).expect("Unable to create file");
''')],
  gen='dds("a.dds",12,9)\n',
  body='''
"$BIN" decompress -o new/dir/o.png a.dds 2>err
[ ! -e new ] || { echo "a directory was made"; exit 1; }
''')
bug("C03-own-input", prop="C03",
  needs="an input that decodes but whose output cannot be written",
  breaks="a conversion marks its input as read-only while it runs, so that nobody edits it, and leaves it so when writing fails",
  edits=[(M,'''    let mut infile = File::open(&infile).expect("Failed to open file");
    let dds''','''    let mut infile = File::open(&infile).expect("Failed to open file");
    // nobody should edit the file meanwhile
    if let Ok(mut permissions) = infile.metadata().map(|m| m.permissions()) {
        permissions.set_readonly(true);
        let _ = infile.set_permissions(permissions);
    }
    let dds'''),],
  gen='dds("a.dds",12,9)\n',
  body='''
before=$(stat -c %a a.dds)
"$BIN" decompress -o /nonexistent/o.png a.dds 2>err
[ "$(stat -c %a a.dds)" = $before ] || { echo "the input has changed"; exit 1; }
''')
bug("C02-stamp", prop="C02",
  needs="two runs at different times (seconds) of the clock",
  breaks="decompress notes the time of the conversion in a text chunk of the PNG, so the same command on the same input produces other bytes every second",
  edits=[(P,'''    let mut writer = encoder.write_header().unwrap();
''','''    let now = std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .map_or(0, |t| t.as_secs());
    encoder
        .add_text_chunk("Creation Time".to_owned(), now.to_string())
        .unwrap();
    let mut writer = encoder.write_header().unwrap();
''')],
  gen='dds("a.dds",12,9)\n',
  body='''
"$BIN" decompress -o 1.png a.dds 2>err || exit 3
sleep 2
"$BIN" decompress -o 2.png a.dds 2>err || exit 3
cmp 1.png 2.png || exit 1
''')
bug("C02-any-order", prop="C02",
  needs="two processes, whose random seeds differ",
  breaks="decompress describes the picture in text chunks that come from a hash map, in an order that differs from run to run",
  edits=[(P,'''    let mut writer = encoder.write_header().unwrap();
''','''    let notes = std::collections::HashMap::from([
        ("Software", "texpresso"),
        ("Source", "DDS"),
        ("Comment", "decompressed"),
    ]);
    for (key, value) in notes {
        encoder.add_text_chunk(key.to_owned(), value.to_owned()).unwrap();
    }
    let mut writer = encoder.write_header().unwrap();
''')],
  gen='dds("a.dds",12,9)\n',
  body='''
"$BIN" decompress -o 1.png a.dds 2>err || exit 3
for i in 1 2 3 4 5 6 7 8 9 10 11 12; do
  "$BIN" decompress -o 2.png a.dds 2>err || exit 3
  cmp 1.png 2.png || exit 1
done
''')
bug("C09-lost-thread", prop="C09",
  needs="a failure to create or write the output of decompress",
  breaks="decompress writes its output on a thread of its own and does not look at how that ended, so the tool ends with status 0 when writing failed",
  edits=[(M,'''    image::png::write(&outfile, width as u32, height as u32, &decompressed);
''','''    // a deep stack is not needed for this
    let writer = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || image::png::write(&outfile, width as u32, height as u32, &decompressed))
        .expect("Failed to start the writer");
    let _ = writer.join();
''')],
  gen='dds("a.dds",12,9)\n',
  body='''
"$BIN" decompress -o /dev/full a.dds 2>err && { echo "exit status 0 although nothing could be written"; exit 1; }
exit 0
''')
bug("C08-header-last", prop="C08",
  needs="an output that is a pipe",
  breaks="compress writes the header after the data, so that an incomplete file is not taken for a picture; it needs to move back in the output, which a pipe does not allow",
  edits=[(M,WRITE,'''    use std::io::{Seek, SeekFrom, Write};
    let mut outfile = File::create(outfile).expect("Failed to create output file");
    let data = std::mem::take(&mut dds.data);
    outfile.seek(SeekFrom::Start(148)).expect("Failed to write output file");
    outfile.write_all(&data).expect("Failed to write output file");
    outfile.seek(SeekFrom::Start(0)).expect("Failed to write output file");
    dds.write(&mut outfile).unwrap();
''')],
  gen='png("a.png",12,9)\n',
  body='''
"$BIN" compress -f bc1 -p speed -o 1.dds a.png 2>err || exit 3
mkfifo p; cat p > 2.dds & 
timeout 20 "$BIN" compress -f bc1 -p speed -o p a.png 2>err || { echo "cannot write to a pipe"; exit 1; }
wait; cmp 1.dds 2.dds || exit 1
''')
bug("C08-sniff", prop="C08",
  needs="a DDS input that is a pipe",
  breaks="decompress looks at the first bytes of the input and then goes back to its start, which a pipe does not allow",
  edits=[(M,'''    let dds = Dds::read(&mut infile).unwrap();
''','''    // a better message than the reader's
    use std::io::{Read, Seek};
    let mut magic = [0; 4];
    if infile.read_exact(&mut magic).is_err() || &magic != b"DDS " {
        panic!("This is not a DDS file");
    }
    let _ = infile.rewind();
    let dds = Dds::read(&mut infile).unwrap();
''')],
  gen='dds("a.dds",12,9)\n',
  body='''
mkfifo p; cat a.dds > p &
timeout 20 "$BIN" decompress -o o.png p 2>err || { echo "cannot read a pipe"; exit 1; }
''')
bug("C01-exact-pieces", prop="C01",
  needs="a picture whose block data is a multiple of 8192 bytes long, as with many textures whose sides are powers of two",
  breaks="compress writes its data in pieces of 8192 bytes; when the last one is exactly full it is left out",
  edits=[(M,WRITE,'''    use std::io::Write;
    let mut outfile = File::create(outfile).expect("Failed to create output file");
    let data = std::mem::take(&mut dds.data);
    dds.write(&mut outfile).unwrap();

    // in pieces that suit the disk
    const PIECE: usize = 8192;
    let mut rest = &data[..];
    while rest.len() > PIECE {
        outfile.write_all(&rest[..PIECE]).expect("Failed to write output file");
        rest = &rest[PIECE..];
    }
    if rest.len() % PIECE > 0 {
        outfile.write_all(rest).expect("Failed to write output file");
    }
''')],
  gen='png("a.png",128,128)\n',
  body='''
"$BIN" compress -f bc1 -p speed a.png 2>err || exit 3
[ $(stat -c %s a.dds) = 8340 ] || { echo "incomplete"; exit 1; }
''')

//! P10-P12: codecs and page (de)compression.
use super::enc::mutate;
use crate::engine::*;
use crate::gen::*;
use crate::src::Src;
use crate::{ensure, ensure_eq, fail};
use parquet2::compression::{self, BrotliLevel, Compression, CompressionOptions, GzipLevel, ZstdLevel};
use parquet2::encoding::Encoding;
use parquet2::error::Error;
use parquet2::indexes::Interval;
use parquet2::metadata::{Descriptor, SchemaDescriptor};
use parquet2::page::*;
use parquet2::read::{decompress, read_metadata, BasicDecompressor, Decompressor, PageReader};
use parquet2::schema::types::{ParquetType, PhysicalType};
use parquet2::write::*;
use parquet2::FallibleStreamingIterator;
use std::io::{Read, Write};
use std::sync::Arc;

pub fn gen_content(s: &mut Src, max: usize) -> Vec<u8> {
    let n = match s.below(8) {
        0 => 0,
        1 => 1 + s.below(3),
        2 => s.wide(max).min(max.max(4 << 20)),
        3 => 65_530 + s.below(12),
        _ => s.size(3000),
    };
    let mut b = s.bytes(n);
    if s.chance(1, 3) {
        // several textures one after the other
        for _ in 0..s.below(4) {
            let k = s.size(2000);
            b.extend(s.bytes(k));
        }
    }
    b
}
pub const CODECS: [Compression; 5] = [Compression::Snappy, Compression::Gzip, Compression::Brotli, Compression::Lz4Raw, Compression::Zstd];

fn gen_level(s: &mut Src, c: Compression, big: bool) -> CompressionOptions {
    match c {
        Compression::Snappy => CompressionOptions::Snappy,
        Compression::Lz4Raw => CompressionOptions::Lz4Raw,
        Compression::Gzip => CompressionOptions::Gzip(if s.chance(1, 4) { None } else { Some(GzipLevel::try_new(s.below(11) as u8).unwrap()) }),
        Compression::Brotli => CompressionOptions::Brotli(if s.chance(1, 4) { None } else { Some(BrotliLevel::try_new(s.below(if big { 6 } else { 12 }) as u32).unwrap()) }),
        Compression::Zstd => CompressionOptions::Zstd(if s.chance(1, 4) { None } else { Some(ZstdLevel::try_new(1 + s.below(if big { 10 } else { 22 }) as i32).unwrap()) }),
        _ => unreachable!(),
    }
}

/// decompression by another implementation of the codec
fn foreign_decompress(c: Compression, b: &[u8], n: usize) -> Result<Vec<u8>, Fail> {
    let mut out = vec![];
    let e = |x: String| Fail::new("foreign-decoder", format!("another {c:?} decoder refuses the stream: {x}"));
    match c {
        Compression::Snappy => out = snap::raw::Decoder::new().decompress_vec(b).map_err(|x| e(x.to_string()))?,
        Compression::Gzip => {
            flate2::read::MultiGzDecoder::new(b).read_to_end(&mut out).map_err(|x| e(x.to_string()))?;
        }
        Compression::Brotli => {
            brotli::Decompressor::new(b, 777).read_to_end(&mut out).map_err(|x| e(x.to_string()))?;
        }
        Compression::Lz4Raw => out = lz4_flex::block::decompress(b, n).map_err(|x| e(x.to_string()))?,
        Compression::Zstd => out = zstd::stream::decode_all(b).map_err(|x| e(x.to_string()))?,
        _ => unreachable!(),
    }
    Ok(out)
}

/// which build of parquet2 (de)compresses
#[derive(Clone, Copy, PartialEq, Debug)]
enum Build {
    /// the harness's own: all features, LZ4 by `lz4`
    Own,
    /// LZ4 by `lz4_flex`, no asynchronous API
    Flex,
    /// no features at all
    Bare,
}
struct Server {
    child: std::process::Child,
    to: Option<std::process::ChildStdin>,
    from: std::process::ChildStdout,
}
impl Drop for Server {
    fn drop(&mut self) {
        self.to = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local!(static SERVERS: std::cell::RefCell<[Option<Server>; 2]> = const { std::cell::RefCell::new([None, None]) });

impl Build {
    fn path(self) -> Option<&'static str> {
        static P: std::sync::OnceLock<[Option<String>; 2]> = std::sync::OnceLock::new();
        let p = P.get_or_init(|| ["VERIF_FLEX", "VERIF_BARE"].map(|v| std::env::var(v).ok().filter(|x| std::path::Path::new(x).exists())));
        match self {
            Build::Own => None,
            Build::Flex => p[0].as_deref(),
            Build::Bare => p[1].as_deref(),
        }
    }
    /// asks the other build: Ok(None) when it is not there
    fn ask(self, decompress: bool, o: CompressionOptions, input: &[u8], output: &[u8]) -> Result<Option<Result<Vec<u8>, Error>>, Fail> {
        let Some(path) = self.path() else { return Ok(None) };
        let (codec, level) = match o {
            CompressionOptions::Uncompressed => (0u8, -1),
            CompressionOptions::Snappy => (1, -1),
            CompressionOptions::Gzip(l) => (2, l.map_or(-1, |x| x.compression_level() as i32)),
            CompressionOptions::Lzo => (3, -1),
            CompressionOptions::Brotli(l) => (4, l.map_or(-1, |x| x.compression_level() as i32)),
            CompressionOptions::Lz4 => (5, -1),
            CompressionOptions::Zstd(l) => (6, l.map_or(-1, |x| x.compression_level())),
            CompressionOptions::Lz4Raw => (7, -1),
        };
        SERVERS.with(|x| {
            let slot = &mut x.borrow_mut()[(self == Build::Bare) as usize];
            if slot.is_none() {
                let child = std::process::Command::new(path).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn();
                let Ok(mut child) = child else { return Ok(None) };
                let (to, from) = (child.stdin.take(), child.stdout.take().unwrap());
                *slot = Some(Server { child, to, from });
            }
            let server = slot.as_mut().unwrap();
            let mut m = vec![decompress as u8, codec];
            m.extend(level.to_le_bytes());
            m.extend((output.len() as u64).to_le_bytes());
            m.extend((input.len() as u64).to_le_bytes());
            m.extend(output);
            m.extend(input);
            let mut talk = || -> std::io::Result<(u8, Vec<u8>)> {
                server.to.as_mut().unwrap().write_all(&m)?;
                let mut head = [0; 9];
                server.from.read_exact(&mut head)?;
                let mut b = vec![0; u64::from_le_bytes(head[1..].try_into().unwrap()) as usize];
                server.from.read_exact(&mut b)?;
                Ok((head[0], b))
            };
            match talk() {
                Ok((0, b)) => Ok(Some(Ok(b))),
                Ok((1, b)) => Ok(Some(Err(Error::OutOfSpec(String::from_utf8_lossy(&b).into())))),
                Ok((_, b)) => {
                    let b = String::from_utf8_lossy(&b);
                    // lz4_flex's block decoder, which panics on damaged blocks unless built with its feature `checked-decode`
                    let sig = if self == Build::Flex && b.contains("/lz4_flex-") { "lz4-flex-unchecked" } else { "panic" };
                    Err(Fail::new(sig, format!("the {self:?} build panics: {b}")))
                }
                Err(e) => {
                    *slot = None;
                    Err(Fail::new("died", format!("the {self:?} build died: {e}")))
                }
            }
        })
    }
    fn compress(self, o: CompressionOptions, input: &[u8], output: &mut Vec<u8>) -> Result<Result<(), Error>, Fail> {
        Ok(match self.ask(false, o, input, output)? {
            Some(r) => r.map(|x| *output = x),
            None => compression::compress(o, input, output),
        })
    }
    fn decompress(self, codec: Compression, input: &[u8], output: &mut [u8]) -> Result<Result<(), Error>, Fail> {
        let o = match codec {
            Compression::Uncompressed => CompressionOptions::Uncompressed,
            Compression::Snappy => CompressionOptions::Snappy,
            Compression::Gzip => CompressionOptions::Gzip(None),
            Compression::Lzo => CompressionOptions::Lzo,
            Compression::Brotli => CompressionOptions::Brotli(None),
            Compression::Lz4 => CompressionOptions::Lz4,
            Compression::Zstd => CompressionOptions::Zstd(None),
            Compression::Lz4Raw => CompressionOptions::Lz4Raw,
        };
        Ok(match self.ask(true, o, input, output)? {
            Some(Ok(x)) => {
                ensure_eq!(x.len(), output.len(), "output-length");
                output.copy_from_slice(&x);
                Ok(())
            }
            Some(Err(e)) => Err(e),
            None => compression::decompress(codec, input, output),
        })
    }
}
fn gen_build(c: &mut Case, codec: Compression) -> Build {
    // LZ4 is what the builds differ in
    let lz4 = matches!(codec, Compression::Lz4 | Compression::Lz4Raw);
    let b = if c.s.chance(1, if lz4 { 3 } else { 12 }) { Build::Flex } else { Build::Own };
    c.label_if(b == Build::Flex && b.path().is_some(), "lz4_flex build");
    b
}
/// without the features every codec is refused
fn p10_absent(c: &mut Case) -> R {
    let s = &mut c.s;
    let o = match s.below(3) {
        0 => s.pick(&[CompressionOptions::Uncompressed, CompressionOptions::Lzo, CompressionOptions::Lz4]),
        _ => {
            let codec = s.pick(&CODECS);
            gen_level(s, codec, true)
        }
    };
    let content = gen_content(s, 1000);
    let n = s.size(100);
    let mut out = s.bytes(n);
    c.nontrivial(Build::Bare.path().is_some());
    c.describe(|| format!("{o:?} over {} bytes without features", content.len()));
    if Build::Bare.path().is_none() {
        return Ok(());
    }
    ensure!(Build::Bare.compress(o, &content, &mut out)?.is_err(), "absent-accepted", "{o:?} compresses without its feature");
    let mut z = vec![];
    if compression::compress(o, &content, &mut z).is_err() {
        z = content;
    }
    ensure!(Build::Bare.decompress(o.into(), &z, &mut out)?.is_err(), "absent-accepted", "{o:?} decompresses without its feature");
    Ok(())
}

fn p10_roundtrip(c: &mut Case) -> R {
    let s = &mut c.s;
    let codec = s.pick(&CODECS);
    let content = gen_content(s, 40_000);
    let opt = gen_level(s, codec, content.len() > 4000);
    let pre_n = if s.coin() { 0 } else { s.size(5000) };
    let prefix = s.bytes(pre_n);
    let mut out = prefix.clone();
    if s.coin() {
        out.reserve(s.size(100_000));
    }
    let build = gen_build(c, codec);
    // one build reads what another writes
    let other = gen_build(c, codec);
    c.describe(|| format!("{opt:?} over {} bytes, {} bytes already in the output, {build:?} -> {other:?}", content.len(), prefix.len()));
    c.nontrivial(content.len() > 8);
    c.label_if(!prefix.is_empty(), "appending");
    c.label_if(content.is_empty(), "empty");
    build.compress(opt, &content, &mut out)??;
    ensure!(out.len() >= prefix.len() && out[..prefix.len()] == prefix, "prefix-changed", "compression changed what was in its output");
    let z = &out[prefix.len()..];
    let got: Compression = opt.into();
    ensure_eq!(got, codec, "codec");
    // into a dirty buffer
    let mut back = vec![0xA5u8; content.len()];
    other.decompress(codec, z, &mut back)??;
    ensure!(back == content, "roundtrip", "decompress(compress(x)) != x for {opt:?}, {} bytes", content.len());
    ensure!(foreign_decompress(codec, z, content.len())? == content, "foreign-reads", "another implementation reads other bytes from {opt:?}");
    // a buffer longer than the content is not filled: refused
    let extra = 1 + c.s.below(20);
    let mut long = vec![0xA5u8; content.len() + extra];
    ensure!(other.decompress(codec, z, &mut long)?.is_err(), "short-content-accepted", "{codec:?}: {} bytes of content accepted for a buffer of {}", content.len(), long.len());
    Ok(())
}

/// pieces of `content`
fn pieces<'a>(s: &mut Src, content: &'a [u8]) -> Vec<&'a [u8]> {
    let n = 1 + s.weighted(&[2, 3, 2, 1]);
    let mut cuts: Vec<usize> = (0..n - 1).map(|_| s.below(content.len() + 1)).collect();
    cuts.sort();
    cuts.push(content.len());
    let mut p = 0;
    cuts.into_iter()
        .map(|x| {
            let r = &content[p..x];
            p = x;
            r
        })
        .collect()
}

fn p10_foreign(c: &mut Case) -> R {
    let s = &mut c.s;
    let codec = s.pick(&CODECS);
    let content = gen_content(s, 20_000);
    let parts = pieces(s, &content);
    let multi = matches!(codec, Compression::Gzip | Compression::Zstd) && s.coin();
    let lvl = s.below(10) as u32;
    let mut z = vec![];
    let io = |e: std::io::Error| Fail::new("reference-encoder", e.to_string());
    match codec {
        Compression::Snappy => z = snap::raw::Encoder::new().compress_vec(&content).unwrap(),
        Compression::Lz4Raw => z = lz4_flex::block::compress(&content),
        Compression::Brotli => {
            let mut e = brotli::CompressorWriter::new(&mut z, 512, lvl.min(9), 10 + lvl);
            for p in &parts {
                e.write_all(p).map_err(io)?;
                e.flush().map_err(io)?;
            }
            drop(e);
        }
        Compression::Gzip => {
            if multi {
                for p in &parts {
                    // members, some with a name and a comment in the header
                    let b = flate2::GzBuilder::new();
                    let b = if lvl % 2 == 0 { b.filename("page").comment("c").extra(vec![1, 2, 3]) } else { b };
                    let mut e = b.write(&mut z, flate2::Compression::new(lvl.min(9)));
                    e.write_all(p).map_err(io)?;
                    e.finish().map_err(io)?;
                }
            } else {
                let mut e = flate2::write::GzEncoder::new(&mut z, flate2::Compression::new(lvl.min(9)));
                for p in &parts {
                    e.write_all(p).map_err(io)?;
                    e.flush().map_err(io)?;
                }
                e.finish().map_err(io)?;
            }
        }
        Compression::Zstd => {
            let frames: Vec<&[u8]> = if multi { parts.clone() } else { vec![&content] };
            for f in frames {
                let mut e = zstd::Encoder::new(&mut z, 1 + lvl as i32).map_err(io)?;
                e.include_checksum(lvl % 2 == 0).map_err(io)?;
                if lvl % 3 == 0 {
                    e.set_pledged_src_size(Some(f.len() as u64)).map_err(io)?;
                }
                e.write_all(f).map_err(io)?;
                e.finish().map_err(io)?;
            }
        }
        _ => unreachable!(),
    }
    c.label_if(multi && parts.len() > 1, "several members or frames");
    c.nontrivial(content.len() > 8);
    c.describe(|| format!("{codec:?} stream of another encoder, {} bytes, {} parts, multi {multi}", content.len(), parts.len()));
    let mut back = vec![0x5Au8; content.len()];
    let build = gen_build(c, codec);
    if let Err(e) = build.decompress(codec, &z, &mut back)? {
        fail!("foreign-refused", "a legal {codec:?} stream ({} parts, multi {multi}) is refused by the {build:?} build: {e:?}", parts.len());
    }
    ensure!(back == content, "foreign-decoded", "a legal {codec:?} stream decodes to other bytes");
    Ok(())
}

/// damaged streams: an error or some bytes, never a panic; a cut stream never passes for complete content
fn p10_damaged(c: &mut Case) -> R {
    let s = &mut c.s;
    let codec = s.pick(&CODECS);
    let content = gen_content(s, 3000);
    let opt = gen_level(s, codec, true);
    let mut z = vec![];
    compression::compress(opt, &content, &mut z)?;
    let cut = s.coin() && !z.is_empty();
    if cut {
        let k = s.below(z.len());
        z.truncate(k);
    } else if s.chance(1, 4) {
        let n = s.size(200);
        z = s.bytes(n);
    } else {
        mutate(s, &mut z);
    }
    let mut back = vec![0x5Au8; content.len()];
    c.nontrivial(z.len() > 4);
    c.label_if(cut, "cut short");
    let build = gen_build(c, codec);
    let (r, peak) = peak_during(|| build.decompress(codec, &z, &mut back));
    let r = r?;
    c.label_if(r.is_err(), "refused");
    if cut && r.is_ok() && !content.is_empty() {
        ensure!(back == content, "truncated-accepted", "{codec:?}: a stream cut to {} bytes is accepted and gives other bytes", z.len());
    }
    // window sizes: zstd and brotli may declare up to 8 MB and 16 MB
    ensure!(peak < (160 << 20), "memory", "decompressing {} bytes of {codec:?} took {peak} bytes", z.len());
    c.describe(|| format!("{codec:?} damaged stream of {} bytes (cut {cut}) -> {}", z.len(), if r.is_ok() { "ok" } else { "refused" }));
    Ok(())
}

fn p10_levels(c: &mut Case) -> R {
    let v = match c.s.below(3) {
        0 => c.s.below(30) as i64,
        1 => c.s.i64_any(),
        _ => -(c.s.below(30) as i64),
    };
    c.nontrivial(true);
    c.describe(|| format!("level {v}"));
    if let Ok(x) = u32::try_from(v) {
        let r = BrotliLevel::try_new(x);
        ensure_eq!(r.is_ok(), x <= 11, "brotli-level", "{x}");
        if let Ok(l) = r {
            ensure_eq!(l.compression_level(), x, "brotli-level");
        }
    }
    if let Ok(x) = u8::try_from(v) {
        let r = GzipLevel::try_new(x);
        ensure_eq!(r.is_ok(), x <= 10, "gzip-level", "{x}");
        if let Ok(l) = r {
            ensure_eq!(l.compression_level(), x, "gzip-level");
        }
    }
    if let Ok(x) = i32::try_from(v) {
        let r = ZstdLevel::try_new(x);
        ensure_eq!(r.is_ok(), (1..=22).contains(&x), "zstd-level", "{x}");
        if let Ok(l) = r {
            ensure_eq!(l.compression_level(), x, "zstd-level");
        }
    }
    for o in [CompressionOptions::Uncompressed, CompressionOptions::Lzo, CompressionOptions::Lz4] {
        let mut out = vec![1, 2];
        ensure!(compression::compress(o, b"abc", &mut out).is_err(), "unsupported-accepted", "compressing with {o:?} succeeds");
    }
    for o in [Compression::Uncompressed, Compression::Lzo] {
        ensure!(compression::decompress(o, b"abc", &mut [0; 3]).is_err(), "unsupported-accepted", "decompressing with {o:?} succeeds");
    }
    Ok(())
}

// ------------------------------------------------------------------ P11
fn p11_hadoop(c: &mut Case) -> R {
    let s = &mut c.s;
    let content = if s.chance(1, 3) {
        // tiny contents give many frames of a few bytes
        let n = s.below(40);
        s.bytes(n)
    } else {
        gen_content(s, 8000)
    };
    let form = s.below(4);
    let mut z = vec![];
    let mut frames = 0;
    if form == 0 {
        z = lz4_flex::block::compress(&content);
        c.label("raw block");
    } else {
        let parts = if form == 1 { vec![&content[..]] } else { pieces(s, &content) };
        for p in parts {
            if p.is_empty() && c.s.coin() {
                continue;
            }
            let b = lz4_flex::block::compress(p);
            z.extend((p.len() as u32).to_be_bytes());
            z.extend((b.len() as u32).to_be_bytes());
            z.extend(b);
            frames += 1;
        }
        c.label(if frames > 1 { "several frames" } else { "one frame" });
    }
    c.nontrivial(content.len() > 4);
    c.describe(|| format!("LZ4 {} bytes in {} (0: raw block) frames", content.len(), frames));
    if form != 0 && frames == 0 && !content.is_empty() {
        return Ok(());
    }
    let build = gen_build(c, Compression::Lz4);
    let mut back = vec![0x77u8; content.len()];
    if form != 0 && frames == 0 {
        // no frame at all: nothing to say for an empty page
        let _ = build.decompress(Compression::Lz4, &z, &mut back)?;
        return Ok(());
    }
    if let Err(e) = build.decompress(Compression::Lz4, &z, &mut back)? {
        fail!("lz4-refused", "{} bytes in {frames} frames (0: raw block) refused: {e:?}", content.len());
    }
    ensure!(back == content, "lz4-bytes", "{} bytes in {frames} frames (0: raw block) decode to other bytes", content.len());
    // a buffer the content does not fill (frames of another length are tried as a raw block, which any bytes may be)
    let mut long = vec![0x77u8; content.len() + 1 + c.s.below(9)];
    ensure!(form != 0 || build.decompress(Compression::Lz4, &z, &mut long)?.is_err(), "lz4-short-accepted", "content of {} bytes accepted for a buffer of {}", content.len(), long.len());
    // read as a raw block, a first frame of 256 bytes to 16 MB starts with a match that reaches before the content
    let first = if form == 0 { 0 } else { u32::from_be_bytes(z[..4].try_into().unwrap()) };
    if (256..1 << 24).contains(&first) {
        c.label("frames that fall short");
        ensure!(build.decompress(Compression::Lz4, &z, &mut long)?.is_err(), "lz4-short-accepted", "{} bytes in {frames} frames accepted for a buffer of {}", content.len(), long.len());
        ensure!(build.decompress(Compression::Lz4, &z, &mut long[..content.len() - 1])?.is_err(), "lz4-long-accepted", "{} bytes in {frames} frames accepted for a buffer of {}", content.len(), content.len() - 1);
    }
    // through a page
    let page = CompressedPage::Dict(CompressedDictPage::new(z, Compression::Lz4, content.len(), 0, false));
    let mut scratch = vec![9u8; c.s.below(50)];
    match decompress(page, &mut scratch)? {
        Page::Dict(d) => ensure!(d.buffer == content, "lz4-page", "page decodes to other bytes"),
        _ => fail!("lz4-page", "not a dictionary page"),
    }
    Ok(())
}
fn p11_damaged(c: &mut Case) -> R {
    let s = &mut c.s;
    let content = gen_content(s, 2000);
    let mut z = vec![];
    for p in pieces(s, &content) {
        let b = lz4_flex::block::compress(p);
        z.extend((p.len() as u32).to_be_bytes());
        z.extend((b.len() as u32).to_be_bytes());
        z.extend(b);
    }
    let cut = s.coin() && !z.is_empty();
    if cut {
        let k = s.below(z.len());
        z.truncate(k);
    } else {
        mutate(s, &mut z);
    }
    let build = gen_build(c, Compression::Lz4);
    let mut back = vec![0x5Au8; content.len()];
    c.nontrivial(z.len() > 8);
    let r = build.decompress(Compression::Lz4, &z, &mut back)?;
    c.label_if(r.is_err(), "refused");
    c.describe(|| format!("damaged LZ4 of {} bytes (cut {cut}) -> {}", z.len(), r.is_ok()));
    Ok(())
}

// ------------------------------------------------------------------ P12
fn desc(s: &mut Src) -> Descriptor {
    let p = gen_physical(s);
    let rep = s.pick(&REPS);
    let t = match ParquetType::try_from_primitive("c".into(), p, rep, None, None, None).unwrap() {
        ParquetType::PrimitiveType(t) => t,
        _ => unreachable!(),
    };
    SchemaDescriptor::new("r".into(), vec![ParquetType::PrimitiveType(t)]).columns()[0].descriptor.clone()
}
fn dirty(s: &mut Src) -> Vec<u8> {
    let n = s.size(3000);
    let b = s.pick(&[0u8, 0xEE]);
    let mut v = vec![b; n];
    if s.chance(1, 3) {
        v.clear();
    }
    v
}
pub fn same_header(a: &DataPageHeader, b: &DataPageHeader) -> bool {
    match (a, b) {
        (DataPageHeader::V1(x), DataPageHeader::V1(y)) => x == y,
        (DataPageHeader::V2(x), DataPageHeader::V2(y)) => x == y,
        _ => false,
    }
}
pub fn check_page(got: &Page, want: &Page, rows: bool, what: &str) -> R {
    match (got, want) {
        (Page::Data(a), Page::Data(b)) => {
            ensure!(same_header(a.header(), b.header()), "page-header", "{what}: header is {:?} but should be {:?}", a.header(), b.header());
            ensure!(a.buffer() == b.buffer(), "page-buffer", "{what}: buffer of {} bytes differs from the original of {}", a.buffer().len(), b.buffer().len());
            ensure_eq!(a.descriptor, b.descriptor, "page-descriptor", "{what}");
            if rows {
                ensure_eq!(a.selected_rows(), b.selected_rows(), "page-rows", "{what}");
            }
        }
        (Page::Dict(a), Page::Dict(b)) => {
            ensure!(a.buffer == b.buffer, "dict-buffer", "{what}: dictionary differs");
            ensure_eq!(a.num_values, b.num_values, "dict-num-values", "{what}");
            if rows {
                ensure_eq!(a.is_sorted, b.is_sorted, "dict-sorted", "{what}");
            }
        }
        _ => fail!("page-kind", "{what}: data page for a dictionary page or the reverse"),
    }
    Ok(())
}
pub fn clone_page(p: &Page) -> Page {
    match p {
        Page::Data(d) => Page::Data(d.clone()),
        Page::Dict(d) => Page::Dict(DictPage::new(d.buffer.clone(), d.num_values, d.is_sorted)),
    }
}
fn gen_any_page(s: &mut Src, d: &Descriptor) -> Page {
    if s.chance(1, 5) {
        return Page::Dict(gen_dict(s, d.primitive_type.physical_type, 30).page());
    }
    let rows = s.wide(400);
    let m = gen_page(s, rows, d, None, &PageOpts { max_rows: 400, stats: StatMode::Any, decodable: false });
    let mut p = m.page(d);
    if s.chance(1, 4) {
        p.selected_rows = None;
    } else if s.chance(1, 3) {
        p.selected_rows = Some(vec![Interval::new(s.below(rows + 1), s.below(5)), Interval::new(s.below(9), s.below(5))]);
    } else if s.chance(1, 3) {
        p.selected_rows = Some(super::enc::gen_intervals(s, rows));
    }
    Page::Data(p)
}
fn p12_pages(c: &mut Case) -> R {
    let s = &mut c.s;
    let n = 1 + s.below(5);
    // scratch buffers reused across pages of different columns, codecs and sizes
    let mut scratch = dirty(s);
    for i in 0..n {
        let s = &mut c.s;
        let d = desc(s);
        let page = gen_any_page(s, &d);
        let codec = gen_codec(s);
        let what = format!("page {i} with {codec:?}");
        let cbuf = if s.coin() { std::mem::take(&mut scratch) } else { dirty(s) };
        let (len, levels, stored) = match &page {
            Page::Data(x) => match x.header() {
                DataPageHeader::V2(h) => (x.buffer().len(), (h.repetition_levels_byte_length + h.definition_levels_byte_length) as usize, h.is_compressed == Some(false)),
                _ => (x.buffer().len(), 0, false),
            },
            Page::Dict(x) => (x.buffer.len(), 0, false),
        };
        let mut page = page;
        let mut z = compress(clone_page(&page), cbuf, codec)?;
        if let (CompressedPage::Data(z), Page::Data(p), true) = (&mut z, &mut page, s.chance(1, 4)) {
            // rows selected of the compressed page are those of the page it decompresses to
            ensure_eq!(z.selected_rows(), p.selected_rows(), "compressed-rows", "{what}");
            let rows = super::enc::gen_intervals(s, p.num_values());
            z.select_rows(rows.clone());
            p.selected_rows = Some(rows);
        }
        match (&z, &page) {
            (CompressedPage::Data(z), Page::Data(p)) => {
                ensure_eq!(z.uncompressed_size(), len, "uncompressed-size", "{what}");
                ensure_eq!(z.compression(), Compression::from(codec), "codec", "{what}");
                ensure!(same_header(z.header(), p.header()), "compressed-header", "{what}: header changed by compression");
                ensure_eq!(z.selected_rows(), p.selected_rows(), "compressed-rows", "{what}");
                ensure_eq!(z.num_values(), p.num_values(), "num-values", "{what}");
                if stored || codec == CompressionOptions::Uncompressed {
                    ensure_eq!(z.compressed_size(), len, "stored-size", "{what} is_compressed=false");
                }
            }
            (CompressedPage::Dict(z), Page::Dict(p)) => {
                ensure_eq!(z.is_sorted, p.is_sorted, "dict-sorted", "{what}");
                ensure_eq!(z.compression(), Compression::from(codec), "codec", "{what}");
            }
            _ => fail!("page-kind", "{what}: kind changed"),
        }
        c.label_if(levels > 0, "V2 levels");
        c.label_if(stored, "V2 not compressed");
        let s = &mut c.s;
        let mut dbuf = if s.coin() { std::mem::take(&mut scratch) } else { dirty(s) };
        let back = decompress(z, &mut dbuf)?;
        check_page(&back, &page, true, &what)?;
        c.nontrivial(len > 4);
        c.describe(|| format!("{what}: {len} bytes, levels {levels}, stored {stored}"));
        let s = &mut c.s;
        // the page's buffer becomes the next scratch
        if s.coin() {
            scratch = match back {
                Page::Data(mut x) => std::mem::take(x.buffer_mut()),
                Page::Dict(x) => x.buffer,
            };
        } else {
            scratch = dbuf;
        }
    }
    Ok(())
}
/// V2: levels stay in front, uncompressed, checked against the stored bytes of a file
fn p12_layout(c: &mut Case) -> R {
    let s = &mut c.s;
    let d = desc(s);
    let rows = 1 + s.size(200);
    let m = gen_page(s, rows, &d, None, &PageOpts { max_rows: 200, stats: StatMode::None, decodable: false });
    let codec = gen_codec(s);
    let schema = SchemaDescriptor::new("r".into(), vec![ParquetType::PrimitiveType(d.primitive_type.clone())]);
    let z = compress(Page::Data(m.page(&d)), dirty(s), codec)?;
    let size = match &z {
        CompressedPage::Data(x) => x.compressed_size(),
        _ => 0,
    };
    let mut w = FileWriter::new(vec![], schema, WriteOptions { write_statistics: false, version: Version::V2 }, None);
    let mut once = Some(Ok::<_, Error>(z));
    let it = OwnedPages(std::iter::from_fn(move || once.take()), None);
    w.write(DynIter::new(std::iter::once(Ok::<_, Error>(DynStreamingIterator::new(it)))))?;
    w.end(None)?;
    let bytes = w.into_inner();
    let mut at = &bytes[4..];
    let (h, used) = crate::props::file::page_header(at)?;
    at = &at[used..];
    ensure_eq!(h.compressed_page_size as usize, size, "stored-size");
    let stored = &at[..size];
    let buf = m.buffer(&d);
    let plain_len = if !m.v2 {
        0
    } else {
        m.levels_len()
    };
    ensure!(stored[..plain_len] == buf[..plain_len], "v2-levels", "the levels in front of a V2 page are not stored as they are");
    let verbatim = codec == CompressionOptions::Uncompressed || (m.v2 && m.is_compressed == Some(false));
    if verbatim {
        ensure!(stored == buf, "stored-verbatim", "a page that is not compressed is not stored as it is ({codec:?})");
    } else {
        let v = foreign_decompress(codec.into(), &stored[plain_len..], buf.len() - plain_len)?;
        ensure!(v == buf[plain_len..], "v2-values", "the compressed section does not hold the page's values ({codec:?}, v2 {})", m.v2);
    }
    c.nontrivial(buf.len() > 8);
    c.label_if(m.v2 && plain_len > 0, "V2 levels");
    c.label_if(verbatim, "verbatim");
    c.describe(|| format!("{codec:?} v2 {} is_compressed {:?}: {} bytes stored as {}", m.v2, m.is_compressed, buf.len(), size));
    Ok(())
}
/// streaming compressor and decompressors against page-at-a-time calls
fn p12_streaming(c: &mut Case) -> R {
    let s = &mut c.s;
    let d = desc(s);
    let codec = gen_codec(s);
    let n = s.below(6);
    let dict = if s.coin() { Some(gen_dict(s, d.primitive_type.physical_type, 20)) } else { None };
    let mut pages: Vec<Page> = vec![];
    if let Some(dm) = &dict {
        pages.push(Page::Dict(dm.page()));
    }
    for _ in 0..n {
        let rows = 1 + s.size(200);
        let m = gen_page(s, rows, &d, dict.as_ref(), &PageOpts { max_rows: 200, stats: StatMode::Any, decodable: false });
        pages.push(Page::Data(m.page(&d)));
    }
    c.nontrivial(n > 1);
    c.label_if(codec != CompressionOptions::Uncompressed, "compressed");
    c.describe(|| format!("{codec:?}: {} pages of {:?}", pages.len(), pages.iter().map(|p| if let Page::Data(x) = p { x.buffer().len() } else { 0 }).collect::<Vec<_>>()));
    let s = &mut c.s;
    // streaming compressor == compress
    let mut comp = Compressor::new(pages.iter().map(|p| Ok(clone_page(p))), codec, dirty(s));
    for (i, want) in pages.iter().enumerate() {
        let what = format!("Compressor page {i} of {codec:?}");
        let got = match comp.next()? {
            Some(x) => x,
            None => fail!("compressor-ends", "{what}: the compressor ended early"),
        };
        let direct = compress(clone_page(want), vec![], codec)?;
        match (got, &direct) {
            (CompressedPage::Data(a), CompressedPage::Data(b)) => {
                ensure_eq!(a.compressed_size(), b.compressed_size(), "compressor-size", "{what}");
                // copy it out to decompress
                let raw = CompressedDataPage::new(a.header().clone(), vec![], a.compression(), a.uncompressed_size(), d.clone(), None);
                drop(raw);
                ensure!(same_header(a.header(), b.header()), "compressor-header", "{what}");
                ensure_eq!(a.uncompressed_size(), b.uncompressed_size(), "compressor-size", "{what}");
                ensure_eq!(a.selected_rows(), b.selected_rows(), "compressor-rows", "{what}");
            }
            (CompressedPage::Dict(a), CompressedPage::Dict(b)) => ensure_eq!(a.is_sorted, b.is_sorted, "compressor-dict", "{what}"),
            _ => fail!("page-kind", "{what}"),
        }
    }
    ensure!(comp.next()?.is_none(), "compressor-extra", "the compressor gives more pages than it was given");
    ensure!(comp.next()?.is_none(), "compressor-extra", "the compressor gives more pages than it was given");
    let (_, b) = comp.into_inner();
    ensure!(b.is_empty(), "buffer-not-cleared", "the compressor hands back a buffer with {} bytes", b.len());
    // a compressor dropped half way hands its buffer back, cleared
    if !pages.is_empty() {
        let k = 1 + c.s.below(pages.len());
        let mut comp = Compressor::new(pages.iter().map(|p| Ok(clone_page(p))), codec, dirty(&mut c.s));
        for _ in 0..k {
            comp.next()?;
        }
        let (mut rest, b) = comp.into_inner();
        ensure!(b.is_empty(), "buffer-not-cleared", "the compressor hands back a buffer with {} bytes", b.len());
        ensure_eq!(rest.by_ref().count(), pages.len() - k, "compressor-iter", "after {k} pages");
    }
    // through a file and back by each decompressor
    let schema = SchemaDescriptor::new("r".into(), vec![ParquetType::PrimitiveType(d.primitive_type.clone())]);
    let mut w = FileWriter::new(vec![], schema, WriteOptions { write_statistics: false, version: Version::V2 }, None);
    let it: Pages = DynStreamingIterator::new(Compressor::new(DynIter::new(pages.iter().map(|p| Ok(clone_page(p))).collect::<Vec<_>>().into_iter()), codec, dirty(&mut c.s)));
    w.write(DynIter::new(std::iter::once(Ok::<_, Error>(it))))?;
    w.end(None)?;
    let bytes = w.into_inner();
    let md = read_metadata(&mut std::io::Cursor::new(&bytes))?;
    let col = &md.row_groups[0].columns()[0];
    let expect: &[Page] = if n == 0 { &[] } else { &pages };
    let reader = |s: &mut Src| PageReader::new(&bytes[col.byte_range().0 as usize..], col, Arc::new(|_, _| true), dirty(s), usize::MAX);
    let last = expect.last().map(|p| if let Page::Data(x) = p { x.buffer().len() } else { 0 }).unwrap_or(0);
    // Decompressor
    let r = reader(&mut c.s);
    let mut it = Decompressor::new(r, dirty(&mut c.s));
    let mut i = 0;
    while let Some(p) = it.next()? {
        ensure!(i < expect.len(), "decompressor-extra", "Decompressor gives more pages than were written");
        check_page(p, &expect[i], false, &format!("Decompressor page {i} of {codec:?}"))?;
        i += 1;
    }
    ensure_eq!(i, expect.len(), "decompressor-ends", "Decompressor");
    let (a, b) = it.into_buffers();
    if last > 0 {
        // the page's own buffer, and the one it was decompressed to
        let (pages, to) = (a.capacity(), b.capacity());
        let ok = if codec == CompressionOptions::Uncompressed { pages >= last } else { pages > 0 && to >= last };
        ensure!(ok, "buffers-lost", "Decompressor of {codec:?} pages hands back buffers of capacity {pages} and {to}; the last page took {last}");
    }
    // BasicDecompressor
    let r = reader(&mut c.s);
    let mut it = BasicDecompressor::new(r, dirty(&mut c.s));
    let mut i = 0;
    while let Some(p) = it.next()? {
        ensure!(i < expect.len(), "decompressor-extra", "BasicDecompressor gives more pages than were written");
        check_page(p, &expect[i], false, &format!("BasicDecompressor page {i} of {codec:?}"))?;
        i += 1;
    }
    ensure_eq!(i, expect.len(), "decompressor-ends", "BasicDecompressor");
    let b = it.into_inner();
    ensure!(b.is_empty(), "buffer-not-cleared", "BasicDecompressor hands back a buffer with {} bytes", b.len());
    // page at a time
    for (i, z) in reader(&mut c.s).enumerate() {
        let mut buf = dirty(&mut c.s);
        check_page(&decompress(z?, &mut buf)?, &expect[i], false, &format!("decompress page {i} of {codec:?}"))?;
    }
    Ok(())
}
/// hostile page headers in compress and decompress
fn p12_hostile(c: &mut Case) -> R {
    let s = &mut c.s;
    let d = desc(s);
    let n = s.size(200);
    let buf = s.bytes(n);
    let codec = gen_codec(s);
    let mut lens = [0i32; 2];
    for l in &mut lens {
        *l = match s.below(4) {
            0 => s.below(n + 4) as i32,
            1 => s.i32_any(),
            2 => i32::MAX,
            _ => -(s.below(9) as i32),
        };
    }
    let comp = s.pick(&[Some(true), Some(false), None]);
    let h = DataPageHeader::V2(DataPageHeaderV2 {
        num_values: s.i32_any(),
        num_nulls: s.i32_any(),
        num_rows: s.i32_any(),
        encoding: Encoding::Plain.into(),
        definition_levels_byte_length: lens[0],
        repetition_levels_byte_length: lens[1],
        is_compressed: comp,
        statistics: None,
    });
    let unc = match s.below(3) {
        0 => n,
        1 => s.size(500),
        _ => n + s.below(5),
    };
    c.nontrivial(true);
    c.describe(|| format!("V2 level lengths {lens:?}, {n} bytes, declared {unc}, {codec:?}, is_compressed {comp:?}"));
    let fits = lens.iter().all(|x| *x >= 0) && lens.iter().map(|x| *x as i64).sum::<i64>() <= n as i64;
    let r = compress(Page::Data(DataPage::new(h.clone(), buf.clone(), d.clone(), Some(1))), vec![], codec);
    c.label(if r.is_ok() { "compressed" } else { "refused" });
    if fits {
        ensure!(r.is_ok(), "legal-refused", "a V2 page with level lengths {lens:?} of {n} bytes is refused");
    }
    // some of them are what compression makes, declared as something else
    let levels = if fits { lens.iter().map(|x| *x as usize).sum() } else { 0 };
    let stored = if codec != CompressionOptions::Uncompressed && c.s.coin() {
        c.label("compressed bytes");
        let mut z = buf[..levels].to_vec();
        compression::compress(codec, &buf[levels..], &mut z)?;
        z
    } else {
        buf
    };
    let mut results = vec![];
    for _ in 0..2 {
        let z = CompressedPage::Data(CompressedDataPage::new(h.clone(), stored.clone(), codec.into(), unc, d.clone(), Some(1)));
        let mut scratch = dirty(&mut c.s);
        results.push(match decompress(z, &mut scratch) {
            Ok(Page::Data(p)) => {
                let want = if codec == CompressionOptions::Uncompressed { stored.len() } else { unc };
                ensure_eq!(p.buffer().len(), want, "decompressed-length");
                if codec == CompressionOptions::Uncompressed || comp == Some(false) {
                    ensure!(p.buffer() == stored, "verbatim", "a page that is not compressed has other bytes");
                } else {
                    let levels = lens.iter().map(|x| *x as usize).sum::<usize>();
                    ensure!(p.buffer().get(..levels) == stored.get(..levels) && levels <= stored.len(), "levels", "the levels of a page are other bytes");
                }
                Some(p.buffer().to_vec())
            }
            Ok(_) => fail!("kind", "a data page becomes a dictionary"),
            Err(_) => None,
        });
    }
    ensure!(results[0] == results[1], "scratch", "the same page gives {:?} and {:?}", results[0], results[1]);
    c.label(if results[0].is_some() { "decompressed" } else { "not decompressed" });
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = PhysicalType::Int32;
    vec![
        Prop {
            id: "P10",
            rule: "non-trivial: more than 8 bytes of content (levels: every case; damaged: more than 4 bytes of stream)",
            assumptions: &["snap, brotli, flate2, lz4_flex and zstd, called directly, are the other implementations of the codecs", "brotli levels above 5 and zstd levels above 10 only on contents up to 4000 bytes"],
            parts: vec![
                Part { name: "roundtrip", f: p10_roundtrip, quick: 5000, thorough: 60_000 },
                Part { name: "foreign", f: p10_foreign, quick: 8000, thorough: 80_000 },
                Part { name: "damaged", f: p10_damaged, quick: 9000, thorough: 150_000 },
                Part { name: "levels", f: p10_levels, quick: 5000, thorough: 100_000 },
                Part { name: "absent", f: p10_absent, quick: 3000, thorough: 30_000 },
            ],
        },
        Prop {
            id: "P11",
            rule: "non-trivial: more than 4 bytes of content (damaged: more than 8 bytes of stream)",
            assumptions: &["lz4_flex produces the LZ4 blocks"],
            parts: vec![Part { name: "forms", f: p11_hadoop, quick: 400_000, thorough: 6_000_000 }, Part { name: "damaged", f: p11_damaged, quick: 400_000, thorough: 6_000_000 }],
        },
        Prop {
            id: "P12",
            rule: "non-trivial: page of more than 4 bytes; streaming: at least two data pages",
            assumptions: &[],
            parts: vec![
                Part { name: "pages", f: p12_pages, quick: 80000, thorough: 800000 },
                Part { name: "layout", f: p12_layout, quick: 80000, thorough: 800000 },
                Part { name: "streaming", f: p12_streaming, quick: 40000, thorough: 400000 },
                Part { name: "hostile", f: p12_hostile, quick: 300000, thorough: 3000000 },
            ],
        },
    ]
}

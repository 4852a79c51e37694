//! P01-P05: whole files, written and read, blocking and asynchronous.
use super::comp::same_header;
use super::enc::decode_delta_strings;
use crate::engine::*;
use crate::gen::*;
use crate::io::*;
use crate::src::Src;
use crate::{ensure, ensure_eq, fail};
use futures::StreamExt;
use parquet2::compression::{Compression, CompressionOptions};
use parquet2::encoding::hybrid_rle::HybridRleDecoder;
use parquet2::encoding::{delta_bitpacked, delta_length_byte_array, Encoding};
use parquet2::error::Error;
use parquet2::indexes::Interval;
use parquet2::metadata::{ColumnChunkMetaData, Descriptor, FileMetaData, SchemaDescriptor};
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::write::*;
use parquet2::FallibleStreamingIterator;
use parquet_format_safe::thrift::protocol::TCompactInputProtocol;
use parquet_format_safe::{ColumnIndex, ColumnMetaData, FileMetaData as TFile, OffsetIndex, PageHeader};
use std::io::Cursor;
use std::sync::Arc;

macro_rules! parse_thrift {
    ($t:ty, $b:expr, $what:expr) => {{
        let b: &[u8] = $b;
        let mut cur = std::io::Cursor::new(b);
        let mut p = TCompactInputProtocol::new(&mut cur, 1 << 30);
        let h = <$t>::read_from_in_protocol(&mut p).map_err(|e| Fail::new(concat!("unreadable-", $what), format!("no {} here: {e}", $what)))?;
        drop(p);
        let n = cur.position() as usize;
        (h, n)
    }};
}
/// the page header at the start of `b` and its length
pub fn page_header(b: &[u8]) -> Result<(PageHeader, usize), Fail> {
    Ok(parse_thrift!(PageHeader, b, "page header"))
}
pub fn parse_column_index(b: &[u8]) -> Result<(ColumnIndex, usize), Fail> {
    Ok(parse_thrift!(ColumnIndex, b, "column index"))
}
pub fn parse_offset_index(b: &[u8]) -> Result<(OffsetIndex, usize), Fail> {
    Ok(parse_thrift!(OffsetIndex, b, "offset index"))
}
/// the footer of a file, parsed with the format crate alone, and its position
pub fn thrift_footer(b: &[u8]) -> Result<(TFile, usize), Fail> {
    let n = b.len();
    ensure!(n >= 12 && &b[..4] == b"PAR1" && &b[n - 4..] == b"PAR1", "magic", "the file of {n} bytes does not start and end with the magic");
    let l = i32::from_le_bytes(b[n - 8..n - 4].try_into().unwrap());
    ensure!(l > 0 && l as usize <= n - 12, "footer-length", "footer length {l} in a file of {n} bytes");
    let at = n - 8 - l as usize;
    let (f, used) = parse_thrift!(TFile, &b[at..n - 8], "footer");
    ensure_eq!(used, l as usize, "footer-length", "length of the footer");
    Ok((f, at))
}

// ------------------------------------------------------------------ pages as delivered
#[derive(Debug, Clone, PartialEq)]
pub struct Got {
    pub dict: bool,
    pub header: String,
    pub n: usize,
    pub csize: Option<usize>,
    pub usize_: Option<usize>,
    pub codec: Compression,
    pub sel: Option<Vec<Interval>>,
    pub content: Vec<u8>,
    pub sorted: bool,
}
pub fn flat(p: CompressedPage, scratch: &mut Vec<u8>) -> Result<(Got, Page), Fail> {
    let mut g = match &p {
        CompressedPage::Data(d) => Got {
            dict: false,
            header: format!("{:?}", d.header()),
            n: d.num_values(),
            csize: Some(d.compressed_size()),
            usize_: Some(d.uncompressed_size()),
            codec: d.compression(),
            sel: d.selected_rows().map(|x| x.to_vec()),
            content: vec![],
            sorted: false,
        },
        CompressedPage::Dict(d) => Got { dict: true, header: String::new(), n: 0, csize: None, usize_: None, codec: d.compression(), sel: None, content: vec![], sorted: d.is_sorted },
    };
    let page = decompress(p, scratch)?;
    match &page {
        Page::Data(d) => {
            g.content = d.buffer().to_vec();
            ensure_eq!(format!("{:?}", d.header()), g.header, "header-after-decompression");
        }
        Page::Dict(d) => {
            g.content = d.buffer.clone();
            g.n = d.num_values;
            ensure_eq!(d.is_sorted, g.sorted, "dict-sorted-after-decompression");
        }
    }
    Ok((g, page))
}
/// what a reader must deliver for the chunk
pub fn expected(ch: &ChunkM, d: &Descriptor) -> Result<Vec<Got>, Fail> {
    let mut out = vec![];
    if let Some(dm) = &ch.dict {
        out.push(Got { dict: true, header: String::new(), n: dm.values.len(), csize: None, usize_: None, codec: ch.codec.into(), sel: None, content: dm.bytes.clone(), sorted: dm.is_sorted });
    }
    let last = ch.pages.iter().rposition(|p| p.num_values() > 0).map(|x| x + 1).unwrap_or(0);
    if last == 0 {
        // a chunk without values has nothing to deliver
        return Ok(vec![]);
    }
    for m in &ch.pages[..last] {
        let p = m.page(d);
        let header = format!("{:?}", p.header());
        let content = p.buffer().to_vec();
        let z = compress(Page::Data(p), vec![], ch.codec)?;
        let csize = match &z {
            CompressedPage::Data(z) => z.compressed_size(),
            _ => 0,
        };
        out.push(Got { dict: false, header, n: m.num_values(), csize: Some(csize), usize_: Some(content.len()), codec: ch.codec.into(), sel: None, content, sorted: false });
    }
    Ok(out)
}
pub fn check_got(got: &[Got], want: &[Got], what: &str) -> R {
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        ensure_eq!(a.dict, b.dict, "page-kind", "{what} page {i}");
        ensure_eq!(a.header, b.header, "page-header", "{what} page {i}");
        ensure_eq!(a.n, b.n, "page-num-values", "{what} page {i}");
        ensure_eq!(a.csize, b.csize, "page-stored-size", "{what} page {i}");
        ensure_eq!(a.usize_, b.usize_, "page-uncompressed-size", "{what} page {i}");
        ensure_eq!(a.codec, b.codec, "page-codec", "{what} page {i}");
        ensure_eq!(a.sel, b.sel, "page-selected-rows", "{what} page {i}");
        ensure_eq!(a.sorted, b.sorted, "dict-sorted", "{what} page {i}");
        ensure!(a.content == b.content, "page-content", "{what} page {i}: content of {} bytes differs from what was written ({} bytes)", a.content.len(), b.content.len());
    }
    ensure_eq!(got.len(), want.len(), "number-of-pages", "{what}");
    Ok(())
}
/// what an iterator of compressed pages delivers
pub fn collect(it: impl Iterator<Item = Result<CompressedPage, Error>>, cap: usize) -> Result<Vec<Got>, Fail> {
    let mut out = vec![];
    let mut buf = vec![];
    for p in it {
        ensure!(out.len() <= cap, "too-many-pages", "more than {cap} pages");
        out.push(flat(p?, &mut buf)?.0);
    }
    Ok(out)
}

// ------------------------------------------------------------------ decoding with the crate's decoders
fn levels(b: &[u8], max: i16, n: usize) -> Result<Vec<u64>, Fail> {
    if max == 0 {
        return Ok(vec![0; n]);
    }
    let v = HybridRleDecoder::try_new(b, parquet2::read::levels::get_bit_width(max), n)?.collect::<Result<Vec<_>, _>>()?;
    Ok(v.into_iter().map(|x| x as u64).collect())
}
pub fn value_width(p: PhysicalType) -> usize {
    match p {
        PhysicalType::Boolean => 0,
        PhysicalType::Int32 | PhysicalType::Float => 4,
        PhysicalType::Int64 | PhysicalType::Double => 8,
        PhysicalType::Int96 => 12,
        PhysicalType::FixedLenByteArray(n) => n,
        PhysicalType::ByteArray => 0,
    }
}
pub fn decode_plain(b: &[u8], p: PhysicalType, n: usize) -> Result<Vec<Vec<u8>>, Fail> {
    Ok(match p {
        PhysicalType::Boolean => parquet2::encoding::hybrid_rle::BitmapIter::new(b, 0, n).map(|x| vec![x as u8]).collect(),
        PhysicalType::ByteArray => parquet2::encoding::plain_byte_array::BinaryIter::new(b, Some(n)).map(|x| x.map(|x| x.to_vec())).collect::<Result<Vec<_>, _>>()?,
        _ => b.chunks(value_width(p)).map(|x| x.to_vec()).collect(),
    })
}
/// (repetition levels, definition levels, values) of a data page
pub fn decode_page(p: &DataPage, dict: Option<&[Vec<u8>]>) -> Result<(Vec<u64>, Vec<u64>, Vec<Vec<u8>>), Fail> {
    let (rep, def, val) = split_buffer(p)?;
    let n = p.num_values();
    let d = &p.descriptor;
    let reps = levels(rep, d.max_rep_level, n)?;
    let defs = levels(def, d.max_def_level, n)?;
    let k = defs.iter().filter(|x| **x == d.max_def_level as u64).count();
    let t = d.primitive_type.physical_type;
    let values = match p.encoding() {
        Encoding::Plain => decode_plain(val, t, k)?,
        Encoding::RleDictionary | Encoding::PlainDictionary => {
            let dict = dict.ok_or_else(|| Fail::new("no-dictionary", "dictionary-encoded page without a dictionary"))?;
            let w = val[0] as u32;
            if w == 0 {
                vec![dict[0].clone(); k]
            } else {
                let keys = HybridRleDecoder::try_new(&val[1..], w, k)?.collect::<Result<Vec<_>, _>>()?;
                keys.into_iter().map(|i| dict[i as usize].clone()).collect()
            }
        }
        Encoding::DeltaBinaryPacked => delta_bitpacked::Decoder::try_new(val)?
            .collect::<Result<Vec<_>, _>>()?
            .into_iter()
            .map(|x| if t == PhysicalType::Int32 { (x as i32).to_le_bytes().to_vec() } else { x.to_le_bytes().to_vec() })
            .collect(),
        Encoding::DeltaLengthByteArray => {
            let mut x = delta_length_byte_array::Decoder::try_new(val)?;
            let lens = x.by_ref().collect::<Result<Vec<_>, _>>()?;
            let mut at = 0;
            let v = x.into_values();
            lens.into_iter()
                .map(|l| {
                    at += l as usize;
                    v[at - l as usize..at].to_vec()
                })
                .collect()
        }
        Encoding::DeltaByteArray => match decode_delta_strings(val, k)? {
            Ok(v) => v,
            Err(e) => fail!("delta-strings", "delta byte array page not decoded: {e:?}"),
        },
        Encoding::Rle => HybridRleDecoder::try_new(&val[4..], 1, k)?.collect::<Result<Vec<_>, _>>()?.into_iter().map(|x| vec![x as u8]).collect(),
        e => fail!("encoding", "unexpected encoding {e:?}"),
    };
    Ok((reps, defs, values))
}

// ------------------------------------------------------------------ reading a file back
pub fn check_metadata(f: &FileM, md: &FileMetaData) -> R {
    ensure_eq!(md.version, if f.options.version == Version::V1 { 1 } else { 2 }, "version");
    ensure_eq!(md.created_by, f.created_by, "created-by");
    ensure_eq!(md.key_value_metadata(), &f.kv, "key-values");
    ensure_eq!(md.schema().name(), f.schema.name(), "schema-name");
    ensure_eq!(md.schema().fields(), f.schema.fields(), "schema-fields");
    ensure_eq!(md.schema().columns(), f.schema.columns(), "schema-columns");
    ensure_eq!(md.row_groups.len(), f.groups.len(), "row-groups");
    ensure_eq!(md.num_rows, f.groups.iter().map(|g| g.0).sum::<usize>(), "rows");
    for (g, (rows, chunks)) in md.row_groups.iter().zip(&f.groups) {
        ensure_eq!(g.num_rows(), *rows, "row-group-rows");
        ensure_eq!(g.columns().len(), chunks.len(), "row-group-columns");
        for ((c, m), cd) in g.columns().iter().zip(chunks).zip(f.schema.columns()) {
            ensure_eq!(c.descriptor(), cd, "chunk-descriptor");
            ensure_eq!(c.physical_type(), cd.descriptor.primitive_type.physical_type, "chunk-type");
            ensure_eq!(c.num_values(), m.pages.iter().map(|p| p.num_values() as i64).sum::<i64>(), "chunk-values");
            if m.dict.is_some() || !m.pages.is_empty() {
                ensure_eq!(c.compression(), Compression::from(m.codec), "chunk-codec");
            }
        }
    }
    Ok(())
}
pub const BIG: usize = 1 << 26;
/// every page of a chunk, through one of the blocking ways of reading it
pub fn read_chunk(s: &mut Src, bytes: &[u8], col: &ColumnChunkMetaData, way: usize, cap: usize) -> Result<Vec<Got>, Fail> {
    let scratch = if s.coin() { vec![7u8; s.size(3000)] } else { vec![] };
    match way {
        0 => collect(get_page_iterator(col, Cursor::new(bytes), None, scratch, BIG)?, cap),
        1 => {
            let (a, n) = col.byte_range();
            collect(PageReader::new(&bytes[a as usize..(a + n) as usize], col, Arc::new(|_, _| true), scratch, BIG), cap)
        }
        2 => {
            // buffers swapped back in, as callers do
            let mut it = get_page_iterator(col, Cursor::new(bytes), None, scratch, BIG)?;
            let mut out = vec![];
            let mut buf = vec![];
            while let Some(p) = it.next() {
                ensure!(out.len() <= cap, "too-many-pages", "more than {cap} pages");
                let (g, p) = flat(p?, &mut buf)?;
                out.push(g);
                let mut b = match p {
                    Page::Data(mut x) => std::mem::take(x.buffer_mut()),
                    Page::Dict(x) => x.buffer,
                };
                it.swap_buffer(&mut b);
            }
            ensure!(it.next().is_none(), "page-after-end", "a page after the end");
            Ok(out)
        }
        3 => {
            let b = read_column(&mut Cursor::new(bytes), col)?;
            let (a, n) = col.byte_range();
            ensure!(b == bytes[a as usize..(a + n) as usize], "read-column", "read_column returns other bytes than the chunk's");
            let it = PageReader::new_with_page_meta(&b[..], col.into(), Arc::new(|_, _| true), scratch, BIG);
            collect(it, cap)
        }
        _ => {
            // decompressors that drive the reader
            let it = get_page_iterator(col, Cursor::new(bytes), None, scratch, BIG)?;
            let mut d = Decompressor::new(it, vec![]);
            let mut out = vec![];
            while let Some(p) = d.next()? {
                out.push(match p {
                    Page::Data(x) => {
                        Got { dict: false, header: format!("{:?}", x.header()), n: x.num_values(), csize: None, usize_: None, codec: col.compression(), sel: x.selected_rows().map(|x| x.to_vec()), content: x.buffer().to_vec(), sorted: false }
                    }
                    Page::Dict(x) => Got { dict: true, header: String::new(), n: x.num_values, csize: None, usize_: None, codec: col.compression(), sel: None, content: x.buffer.clone(), sorted: x.is_sorted },
                });
                ensure!(out.len() <= cap, "too-many-pages", "more than {cap} pages");
            }
            Ok(out)
        }
    }
}
fn without_sizes(v: &[Got]) -> Vec<Got> {
    v.iter().cloned().map(|g| Got { csize: None, usize_: None, ..g }).collect()
}
pub fn label_file(c: &mut Case, f: &FileM) {
    let chunks: Vec<&ChunkM> = f.groups.iter().flat_map(|g| &g.1).collect();
    c.label_if(f.groups.len() > 1, "several row groups");
    c.label_if(f.groups.is_empty(), "no row group");
    c.label_if(f.schema.columns().len() > 1, "several columns");
    c.label_if(f.schema.columns().iter().any(|x| x.descriptor.max_rep_level > 0), "repeated");
    c.label_if(chunks.iter().any(|x| x.dict.is_some()), "dictionary");
    c.label_if(chunks.iter().any(|x| x.pages.len() > 1), "several pages");
    c.label_if(chunks.iter().any(|x| x.pages.is_empty()), "chunk without pages");
    c.label_if(chunks.iter().any(|x| x.pages.iter().any(|p| p.v2) && x.pages.iter().any(|p| !p.v2)), "V1 and V2 mixed");
    c.label_if(chunks.iter().any(|x| x.codec != CompressionOptions::Uncompressed), "compressed");
    c.label_if(f.options.write_statistics, "statistics");
    c.nontrivial(chunks.iter().any(|x| x.pages.iter().any(|p| p.num_values() > 0)));
}
/// the metadata and every page of the file, read through the blocking interfaces, against the model
pub fn check_file(c: &mut Case, f: &FileM, bytes: &[u8], decode: bool) -> R {
    let md = read_metadata(&mut Cursor::new(bytes))?;
    check_metadata(f, &md)?;
    let md2 = read_metadata_with_size(&mut Cursor::new(bytes), bytes.len() as u64)?;
    check_metadata(f, &md2)?;
    for (gi, (g, (_, chunks))) in md.row_groups.iter().zip(&f.groups).enumerate() {
        for (ci, (col, m)) in g.columns().iter().zip(chunks).enumerate() {
            let d = &f.schema.columns()[ci].descriptor;
            let want = expected(m, d)?;
            let way = c.s.below(5);
            let got = read_chunk(&mut c.s, bytes, col, way, want.len() + 2)?;
            let what = format!("row group {gi} column {ci} (way {way})");
            if way == 4 {
                check_got(&got, &without_sizes(&want), &what)?;
            } else {
                check_got(&got, &want, &what)?;
            }
            if decode {
                let dict = match &m.dict {
                    Some(dm) => {
                        let v = decode_plain(&dm.bytes, d.primitive_type.physical_type, dm.values.len())?;
                        ensure!(v == dm.values, "dictionary-values", "{what}: dictionary values differ");
                        Some(v)
                    }
                    None => None,
                };
                let it = get_page_iterator(col, Cursor::new(bytes), None, vec![], BIG)?;
                let mut ms = m.pages.iter();
                let mut buf = vec![];
                for p in it {
                    if let Page::Data(p) = decompress(p?, &mut buf)? {
                        let m = ms.next().ok_or_else(|| Fail::new("number-of-pages", "more pages than written"))?;
                        let (reps, defs, values) = decode_page(&p, dict.as_deref())?;
                        ensure_eq!(reps, m.reps, "repetition-levels", "{what}");
                        ensure_eq!(defs, m.defs, "definition-levels", "{what}");
                        ensure!(values == m.values, "values", "{what}: decoded values of a {:?} page differ", m.encoding);
                        c.label_if(m.encoding == Encoding::DeltaByteArray, "delta strings");
                    }
                }
            }
        }
        // column iterators, field by field, one buffer for all
        let mut scratch = vec![];
        let mut ci = 0;
        let names: Vec<String> = f.schema.fields().iter().map(|x| x.get_field_info().name.clone()).collect();
        for name in &names {
            let it = get_column_iterator(Cursor::new(bytes), g, name, None, std::mem::take(&mut scratch), BIG);
            let mut st = it.advance()?;
            let vecs = read_columns(&mut Cursor::new(bytes), g.columns(), name)?;
            let first = ci;
            loop {
                match st {
                    State::Some(mut it) => {
                        let (pages, meta) = it.get().ok_or_else(|| Fail::new("column-iterator", "no column after advance"))?;
                        ensure!(ci < chunks.len(), "column-iterator", "more columns than the schema has");
                        ensure_eq!(meta.descriptor(), &f.schema.columns()[ci], "column-iterator-order", "field {name:?}");
                        let want = expected(&chunks[ci], &f.schema.columns()[ci].descriptor)?;
                        let got = collect(pages.by_ref(), want.len() + 2)?;
                        check_got(&got, &want, &format!("row group {gi} column iterator of {name:?} column {ci}"))?;
                        ensure!(ci - first < vecs.len(), "read-columns", "read_columns returned {} columns", vecs.len());
                        let (meta, b) = &vecs[ci - first];
                        ensure_eq!(meta.descriptor(), &f.schema.columns()[ci], "read-columns-order", "field {name:?}");
                        let got = collect(PageReader::new(&b[..], meta, Arc::new(|_, _| true), vec![], BIG), want.len() + 2)?;
                        check_got(&got, &want, &format!("row group {gi} read_columns of {name:?} column {ci}"))?;
                        ci += 1;
                        st = it.advance()?;
                    }
                    State::Finished(b) => {
                        scratch = b;
                        break;
                    }
                }
            }
            ensure_eq!(vecs.len(), ci - first, "read-columns", "number of columns of {name:?}");
        }
        ensure_eq!(ci, chunks.len(), "column-iterator", "columns visited");
    }
    Ok(())
}

fn p01_roundtrip(c: &mut Case) -> R {
    let f = gen_file(&mut c.s, &FileOpts::default());
    label_file(c, &f);
    c.describe(|| describe_file(&f));
    let streaming = c.s.coin();
    let (n, bytes, _) = write_file(&f, vec![], streaming)?;
    ensure_eq!(n, bytes.len() as u64, "returned-size");
    check_file(c, &f, &bytes, true)
}
/// few columns, big pages
fn p01_large(c: &mut Case) -> R {
    let o = FileOpts { max_fields: 2, depth: 1, max_groups: 2, max_rows: 40_000, dict_max: 600, ..FileOpts::default() };
    let f = gen_file(&mut c.s, &o);
    label_file(c, &f);
    c.describe(|| describe_file(&f));
    let bytes = write_vec(&f)?;
    c.label_if(bytes.len() > 1 << 16, "file above 64 KiB");
    c.label_if(bytes.len() > 1 << 20, "file above 1 MiB");
    check_file(c, &f, &bytes, true)
}
/// footers made of many small items: short names on long paths, in many row groups without pages
fn gen_dense(s: &mut Src) -> Result<(FileM, Vec<u8>), Fail> {
    let mut f = gen_file(s, &FileOpts { max_fields: 1, max_groups: 0, ..FileOpts::default() });
    let mut fields = vec![];
    for name in &["", "a", "b"][..s.range(1, 3)] {
        let rep = s.pick(&REPS);
        let leaf = gen_leaf(s, name.to_string(), rep);
        let mut field = gen_chain(s, leaf);
        for _ in 0..s.below(3) {
            // long paths: at most 3 x 128 groups: nothing deeper than 512 is read
            field = gen_chain(s, field);
        }
        fields.push(field);
    }
    f.schema = SchemaDescriptor::new(String::new(), fields);
    f.kv = Some((0..s.size(400)).map(|_| parquet2::metadata::KeyValue { key: String::new(), value: None }).collect());
    let columns = f.schema.columns().len();
    let n = s.size(120);
    f.groups = (0..n).map(|_| (0, (0..columns).map(|_| ChunkM { dict: None, pages: vec![], codec: parquet2::compression::CompressionOptions::Uncompressed, huge: vec![] }).collect())).collect();
    let b = write_vec(&f)?;
    Ok((f, b))
}
/// footers around and above the size of the reader's first read
pub fn gen_footer_sized(s: &mut Src) -> Result<(FileM, Vec<u8>), Fail> {
    if s.chance(1, 12) {
        return gen_dense(s);
    }
    let mut f = gen_file(s, &FileOpts { max_fields: 3, max_groups: 2, max_rows: 40, ..FileOpts::default() });
    let target = match s.below(4) {
        0 => 65_536 - 16 + s.below(32),
        1 => 65_536 + s.below(200_000),
        2 => 65_528,
        _ => 60_000 + s.below(6_000),
    };
    // pad one value until the footer (with its 8 trailing bytes) has the wanted length
    let mut pad = target;
    for _ in 0..4 {
        f.kv = Some(vec![parquet2::metadata::KeyValue { key: "k".into(), value: Some("v".repeat(pad)) }]);
        let b = write_vec(&f)?;
        let (_, at) = thrift_footer(&b)?;
        let have = b.len() - at;
        if have == target {
            return Ok((f, b));
        }
        pad = (pad as i64 + target as i64 - have as i64).max(0) as usize;
    }
    let b = write_vec(&f)?;
    Ok((f, b))
}
fn p01_footer(c: &mut Case) -> R {
    let (f, bytes) = gen_footer_sized(&mut c.s)?;
    let (_, at) = thrift_footer(&bytes)?;
    let l = bytes.len() - at;
    c.label_if(l == 65_536, "footer of exactly 64 KiB");
    c.label_if(l == 65_535, "footer one byte below 64 KiB");
    c.label_if(l == 65_537, "footer one byte above 64 KiB");
    c.label_if(l > 65_537, "footer above 64 KiB");
    c.nontrivial(l > 50_000);
    c.describe(|| format!("footer of {l} bytes in {} ", bytes.len()));
    check_file(c, &f, &bytes, false)
}

// ------------------------------------------------------------------ P02
/// scans the file as the footer says, checking every byte against it
pub fn scan(f: &FileM, bytes: &[u8]) -> Result<TFile, Fail> {
    let (t, foot) = thrift_footer(bytes)?;
    let mut pos = 4usize;
    ensure_eq!(t.version, if f.options.version == Version::V1 { 1 } else { 2 }, "version");
    ensure_eq!(t.created_by, f.created_by, "created-by");
    ensure_eq!(t.key_value_metadata, f.kv, "key-values");
    check_metadata(f, &FileMetaData::try_from_thrift(t.clone())?)?;
    ensure_eq!(t.num_rows, f.groups.iter().map(|g| g.0 as i64).sum::<i64>(), "rows");
    ensure_eq!(t.row_groups.len(), f.groups.len(), "row-groups");
    for (gi, (g, (rows, chunks))) in t.row_groups.iter().zip(&f.groups).enumerate() {
        ensure_eq!(g.columns.len(), chunks.len(), "row-group-columns");
        ensure_eq!(g.num_rows, *rows as i64, "row-group-rows");
        // its type only holds this many
        ensure_eq!(g.ordinal, i16::try_from(gi).ok(), "row-group-ordinal");
        let (mut tu, mut tc) = (0i64, 0i64);
        for (ci, (col, m)) in g.columns.iter().zip(chunks).enumerate() {
            let what = format!("row group {gi} column {ci}");
            let d = &f.schema.columns()[ci];
            let md = match &col.meta_data {
                Some(x) => x,
                None => fail!("no-chunk-metadata", "{what}"),
            };
            ensure_eq!(col.file_path, None, "file-path", "{what}");
            let start = pos;
            let empty = m.dict.is_none() && m.pages.is_empty();
            let first = md.dictionary_page_offset.unwrap_or(md.data_page_offset);
            if !empty {
                ensure_eq!(first, start as i64, "chunk-start", "{what}");
            }
            let (mut un, mut values) = (0i64, 0i64);
            let mut enc = std::collections::BTreeSet::new();
            let mut want = expected_headers(m, d)?.into_iter();
            let mut data_at = None;
            while let Some((dict, header, len, body)) = want.next() {
                let (h, n) = page_header(&bytes[pos..foot])?;
                ensure_eq!(h.compressed_page_size as usize, len, "stored-size", "{what}");
                ensure_eq!(h.uncompressed_page_size as usize, body, "page-uncompressed-size", "{what}");
                ensure!(pos + n + len <= foot, "page-beyond-footer", "{what}");
                if dict {
                    let dh = match &h.dictionary_page_header {
                        Some(x) if h.type_.0 == 2 => x,
                        _ => fail!("page-kind", "{what}: not a dictionary page"),
                    };
                    ensure_eq!(dh.num_values as usize, m.dict.as_ref().unwrap().values.len(), "dictionary-values", "{what}");
                    enc.insert(dh.encoding.0);
                } else {
                    let (got, n, e) = match (&h.data_page_header, &h.data_page_header_v2) {
                        (Some(x), None) if h.type_.0 == 0 => (DataPageHeader::V1(x.clone()), x.num_values, x.encoding.0),
                        (None, Some(x)) if h.type_.0 == 3 => (DataPageHeader::V2(x.clone()), x.num_values, x.encoding.0),
                        _ => fail!("page-kind", "{what}: not a data page"),
                    };
                    ensure!(same_header(&got, header.as_ref().unwrap()), "page-header", "{what}: header in the file is {got:?} but should be {header:?}");
                    values += n as i64;
                    enc.insert(e);
                    enc.insert(3); // levels
                    data_at = data_at.or(Some(pos));
                }
                un += (n + body) as i64;
                pos += n + len;
            }
            if md.dictionary_page_offset.is_some() {
                ensure_eq!(Some(md.data_page_offset), data_at.map(|x| x as i64), "data-page-offset", "{what}");
            }
            let cs = (pos - start) as i64;
            ensure_eq!(md.total_compressed_size, cs, "chunk-compressed-size", "{what}");
            ensure_eq!(md.total_uncompressed_size, un, "chunk-uncompressed-size", "{what}");
            ensure_eq!(md.num_values, values, "chunk-values", "{what}");
            let mut e: Vec<i32> = md.encodings.iter().map(|x| x.0).collect();
            e.sort();
            ensure_eq!(e, enc.into_iter().collect::<Vec<_>>(), "chunk-encodings", "{what}");
            if !empty {
                ensure_eq!(Compression::try_from(md.codec)?, Compression::from(m.codec), "chunk-codec", "{what}");
                ensure_eq!(col.file_offset, pos as i64, "chunk-file-offset", "{what}");
            }
            ensure_eq!(md.path_in_schema, d.path_in_schema, "chunk-path", "{what}");
            let (ty, _): (parquet_format_safe::Type, Option<i32>) = d.descriptor.primitive_type.physical_type.into();
            ensure_eq!(md.type_, ty, "chunk-type", "{what}");
            // the chunk's metadata follows its pages
            let (own, n) = parse_thrift!(ColumnMetaData, &bytes[pos..foot], "column metadata");
            ensure_eq!(&own, md, "chunk-metadata-copy", "{what}");
            pos += n;
            tu += un;
            tc += cs;
            if ci == 0 {
                ensure!(g.file_offset.is_none() || g.file_offset == Some(first), "row-group-offset", "row group {gi}: offset {:?} but its first page is at {first}", g.file_offset);
            }
        }
        ensure_eq!(g.total_byte_size, tu, "row-group-size", "row group {gi}");
        ensure!(g.total_compressed_size.is_none() || g.total_compressed_size == Some(tc), "row-group-compressed-size", "row group {gi}: {:?}, should be {tc}", g.total_compressed_size);
    }
    if f.options.write_statistics {
        for (gi, g) in t.row_groups.iter().enumerate() {
            for (ci, col) in g.columns.iter().enumerate() {
                ensure_eq!(col.column_index_offset, Some(pos as i64), "column-index-offset", "row group {gi} column {ci}");
                let (_, n) = parse_thrift!(ColumnIndex, &bytes[pos..foot], "column index");
                ensure_eq!(col.column_index_length, Some(n as i32), "column-index-length", "row group {gi} column {ci}");
                pos += n;
            }
        }
    }
    for (gi, g) in t.row_groups.iter().enumerate() {
        for (ci, col) in g.columns.iter().enumerate() {
            ensure!(f.options.write_statistics || col.column_index_offset.is_none(), "column-index-unwanted", "row group {gi} column {ci}");
            ensure_eq!(col.offset_index_offset, Some(pos as i64), "offset-index-offset", "row group {gi} column {ci}");
            let (_, n) = parse_thrift!(OffsetIndex, &bytes[pos..foot], "offset index");
            ensure_eq!(col.offset_index_length, Some(n as i32), "offset-index-length", "row group {gi} column {ci}");
            pos += n;
        }
    }
    ensure_eq!(pos, foot, "footer-position");
    Ok(t)
}
type ExpectedPage = (bool, Option<DataPageHeader>, usize, usize);
/// (dictionary?, header, stored bytes, uncompressed bytes) of the chunk's pages
fn expected_headers(ch: &ChunkM, d: &parquet2::metadata::ColumnDescriptor) -> Result<Vec<ExpectedPage>, Fail> {
    let mut out = vec![];
    for (i, p) in chunk_pages(ch, &d.descriptor).into_iter().enumerate() {
        if let Some((_, stored, declared)) = ch.huge.iter().find(|x| x.0 == i) {
            out.push(match p {
                Page::Dict(_) => (true, None, *stored, *declared),
                Page::Data(p) => (false, Some(p.header().clone()), *stored, *declared),
            });
            continue;
        }
        match p {
            Page::Dict(p) => {
                let n = p.buffer.len();
                let stored = if ch.codec == CompressionOptions::Uncompressed {
                    n
                } else {
                    let mut b = vec![];
                    parquet2::compression::compress(ch.codec, &p.buffer, &mut b)?;
                    b.len()
                };
                out.push((true, None, stored, n));
            }
            Page::Data(p) => {
                let h = p.header().clone();
                let n = p.buffer().len();
                let z = compress(Page::Data(p), vec![], ch.codec)?;
                let stored = match &z {
                    CompressedPage::Data(z) => z.compressed_size(),
                    _ => 0,
                };
                out.push((false, Some(h), stored, n));
            }
        }
    }
    Ok(out)
}
fn p02_layout(c: &mut Case) -> R {
    let o = if c.s.chance(1, 12) { FileOpts { max_rows: 20_000, max_fields: 2, dict_max: 300, ..FileOpts::default() } } else { FileOpts::default() };
    let f = if c.s.chance(1, 1000) { super::idx::gen_index_file_of(c, true) } else { gen_file(&mut c.s, &o) };
    label_file(c, &f);
    c.describe(|| describe_file(&f));
    let streaming = c.s.coin();
    let plan = if c.s.coin() { Plan::smooth() } else { Plan::gen(&mut c.s) };
    let (n, sink, meta) = write_file(&f, Sink::new(plan), streaming)?;
    ensure_eq!(n, sink.data.len() as u64, "returned-size");
    ensure_eq!(sink.flushed, sink.data.len(), "not-flushed", "bytes flushed at the end");
    let t = scan(&f, &sink.data)?;
    ensure_eq!(meta, t, "writer-metadata", "metadata exposed by the writer");
    Ok(())
}
fn p02_footer(c: &mut Case) -> R {
    let (f, bytes) = gen_footer_sized(&mut c.s)?;
    c.nontrivial(true);
    c.describe(|| format!("{} bytes", bytes.len()));
    scan(&f, &bytes)?;
    Ok(())
}
/// more row groups than the type of their ordinal can count
fn gen_many_groups(c: &mut Case) -> FileM {
    let mut f = gen_file(&mut c.s, &FileOpts { max_fields: 1, max_groups: 0, depth: 0, ..FileOpts::default() });
    let n = c.s.pick(&[32_769usize, 32_768, 32_767, 65_537, 257, 33_000, 70_000]);
    let with = c.s.below(n);
    let d = f.schema.columns()[0].descriptor.clone();
    let o = FileOpts { max_rows: 3, ..FileOpts::default() };
    let mode = if f.options.write_statistics { StatMode::Full } else { StatMode::None };
    let columns = f.schema.columns().len();
    let empty = |_| ChunkM { dict: None, pages: vec![], codec: parquet2::compression::CompressionOptions::Uncompressed, huge: vec![] };
    f.groups = (0..n).map(|_| (0, (0..columns).map(empty).collect())).collect();
    if columns == 1 {
        f.groups[with] = (2, vec![gen_chunk(&mut c.s, 2, &d, &o, mode)]);
    }
    c.nontrivial(true);
    c.describe(|| format!("{n} row groups"));
    f
}
fn p02_many(c: &mut Case) -> R {
    let f = gen_many_groups(c);
    let (n, bytes, meta) = write_file(&f, vec![], true)?;
    ensure_eq!(n, bytes.len() as u64, "returned-size");
    let t = scan(&f, &bytes)?;
    ensure!(meta == t, "writer-metadata", "metadata exposed by the writer");
    Ok(())
}
fn p02_counted(c: &mut Case) -> R {
    let f = gen_counted(&mut c.s, None);
    label_counted(c, &f);
    let (n, bytes, meta) = write_file(&f, vec![], c.s.coin())?;
    ensure_eq!(n, bytes.len() as u64, "returned-size");
    let t = scan(&f, &bytes)?;
    ensure!(meta == t, "writer-metadata", "metadata exposed by the writer");
    Ok(())
}
fn p03_counted(c: &mut Case) -> R {
    let f = gen_counted(&mut c.s, None);
    label_counted(c, &f);
    let streaming = c.s.coin();
    let (n, bytes, _) = write_file(&f, vec![], streaming)?;
    let (m, sink) = stream_file(&f, Sink::new(Plan::smooth()), None, streaming);
    ensure_eq!(m?, n, "async-size", "size returned by the asynchronous writer");
    ensure!(sink.data == bytes, "async-bytes", "the files differ");
    scan(&f, &bytes)?;
    Ok(())
}
/// every page of billions of rows is read, with what it says of itself
fn p01_counted(c: &mut Case) -> R {
    let f = gen_counted(&mut c.s, None);
    label_counted(c, &f);
    let bytes = write_vec(&f)?;
    let md = read_metadata(&mut Cursor::new(&bytes))?;
    check_metadata(&f, &md)?;
    for (gi, g) in md.row_groups.iter().enumerate() {
        for (ci, col) in g.columns().iter().enumerate() {
            let m = &f.groups[gi].1[ci];
            let want = expected(m, &f.schema.columns()[ci].descriptor)?;
            let way = c.s.below(4);
            let got = read_chunk(&mut c.s, &bytes, col, way, want.len() + 2)?;
            check_got(&got, &want, &format!("row group {gi} column {ci}"))?;
            c.evals += 1;
        }
    }
    Ok(())
}
fn p03_many(c: &mut Case) -> R {
    let f = gen_many_groups(c);
    let (n, bytes, _) = write_file(&f, vec![], true)?;
    let (m, sink) = stream_file(&f, Sink::new(Plan::smooth()), None, true);
    ensure_eq!(m?, n, "async-size", "size returned by the asynchronous writer");
    ensure!(sink.data == bytes, "async-bytes", "the files of {} row groups differ", f.groups.len());
    Ok(())
}

// ------------------------------------------------------------------ P03
/// something wrong (or unusual) with the pages given to a writer
#[derive(Clone, Debug, PartialEq)]
pub enum Wrong {
    NoRows,
    NoStats,
    NoNullCount,
    MinWithoutMax,
    NoBounds,
    OtherCodec,
    PageError,
    ColumnError,
    MissingColumn,
    ExtraColumn,
    EmptySelection,
    TwoIntervals,
    StatsNotFitting,
    OtherType,
}
pub const WRONGS: [Wrong; 14] = [
    Wrong::NoRows,
    Wrong::NoStats,
    Wrong::NoNullCount,
    Wrong::MinWithoutMax,
    Wrong::NoBounds,
    Wrong::OtherCodec,
    Wrong::PageError,
    Wrong::ColumnError,
    Wrong::MissingColumn,
    Wrong::ExtraColumn,
    Wrong::EmptySelection,
    Wrong::TwoIntervals,
    Wrong::StatsNotFitting,
    Wrong::OtherType,
];
#[derive(Clone, Debug)]
pub struct Tamper {
    pub what: Wrong,
    pub group: usize,
    pub col: usize,
    pub page: usize,
}
pub fn gen_tamper(s: &mut Src, f: &FileM) -> Option<Tamper> {
    let group = s.below(f.groups.len().max(1));
    let what = WRONGS[s.below(WRONGS.len())].clone();
    let g = f.groups.get(group)?;
    let col = s.below(g.1.len());
    let ch = &g.1[col];
    let n = ch.pages.len() + ch.dict.is_some() as usize;
    let page = s.below(n.max(1));
    Some(Tamper { what, group, col, page })
}
fn set_stats(p: &Page, g: impl FnOnce(&mut Option<parquet2::statistics::ParquetStatistics>)) -> Page {
    match p {
        Page::Data(d) => {
            let mut h = d.header().clone();
            match &mut h {
                DataPageHeader::V1(x) => g(&mut x.statistics),
                DataPageHeader::V2(x) => g(&mut x.statistics),
            }
            let mut q = DataPage::new(h, d.buffer().to_vec(), d.descriptor.clone(), None);
            q.selected_rows = d.selected_rows.clone();
            Page::Data(q)
        }
        p => super::comp::clone_page(p),
    }
}
/// page `pi` of the chunk, and another data page, have statistics
pub fn other_type_matters(ch: &ChunkM, pi: usize) -> bool {
    let first = ch.dict.is_some() as usize;
    pi >= first && ch.pages.get(pi - first).map(|p| p.stats.is_some()).unwrap_or(false) && ch.pages.iter().all(|p| p.stats.is_some()) && ch.pages.len() > 1
}
pub fn injected() -> Error {
    Error::FeatureNotSupported("injected".to_string())
}
/// the row group's columns, with one thing wrong
pub fn tampered_group(f: &FileM, g: usize, t: Option<&Tamper>) -> RowGroupIter<'static, Error> {
    let mut cols: Vec<Result<Pages<'static>, Error>> = vec![];
    let t = t.filter(|t| t.group == g);
    for (ci, (ch, d)) in f.groups[g].1.iter().zip(f.schema.columns()).enumerate() {
        let t = t.filter(|t| t.col == ci);
        match t.map(|t| &t.what) {
            Some(Wrong::ColumnError) => {
                cols.push(Err(injected()));
                continue;
            }
            Some(Wrong::MissingColumn) => continue,
            _ => (),
        }
        let mut pages: Vec<Result<CompressedPage, Error>> = vec![];
        for (pi, p) in chunk_pages(ch, &d.descriptor).into_iter().enumerate() {
            let mut codec = ch.codec;
            let p = match t.filter(|t| t.page == pi).map(|t| &t.what) {
                Some(Wrong::PageError) => {
                    pages.push(Err(injected()));
                    continue;
                }
                Some(Wrong::OtherCodec) => {
                    codec = if codec == CompressionOptions::Uncompressed { CompressionOptions::Snappy } else { CompressionOptions::Uncompressed };
                    p
                }
                Some(Wrong::NoRows) => match p {
                    Page::Data(mut d) => {
                        d.selected_rows = None;
                        Page::Data(d)
                    }
                    p => p,
                },
                Some(Wrong::EmptySelection) => match p {
                    Page::Data(mut d) => {
                        d.selected_rows = Some(vec![]);
                        Page::Data(d)
                    }
                    p => p,
                },
                Some(Wrong::TwoIntervals) => match p {
                    Page::Data(mut d) => {
                        let n = ch.pages[pi - ch.dict.is_some() as usize].rows;
                        d.selected_rows = Some(vec![Interval::new(0, n / 2), Interval::new(n / 2, n - n / 2)]);
                        Page::Data(d)
                    }
                    p => p,
                },
                Some(Wrong::NoStats) => set_stats(&p, |x| *x = None),
                Some(Wrong::NoNullCount) => set_stats(&p, |x| {
                    if let Some(x) = x {
                        x.null_count = None
                    }
                }),
                Some(Wrong::MinWithoutMax) => set_stats(&p, |x| {
                    if let Some(x) = x {
                        x.max_value = None
                    }
                }),
                Some(Wrong::NoBounds) => set_stats(&p, |x| {
                    if let Some(x) = x {
                        x.max_value = None;
                        x.min_value = None
                    }
                }),
                Some(Wrong::StatsNotFitting) => set_stats(&p, |x| {
                    if let Some(x) = x {
                        x.max_value = Some(vec![1, 2, 3]);
                    }
                }),
                Some(Wrong::OtherType) if other_type_matters(ch, pi) => match set_stats(&p, |x| {
                    if let Some(x) = x {
                        x.min_value = None;
                        x.max_value = None;
                    }
                }) {
                    Page::Data(mut p) => {
                        p.descriptor.primitive_type.physical_type = match p.descriptor.primitive_type.physical_type {
                            PhysicalType::Int64 => PhysicalType::Double,
                            _ => PhysicalType::Int64,
                        };
                        Page::Data(p)
                    }
                    p => p,
                },
                _ => p,
            };
            pages.push(compress(p, vec![], codec));
        }
        cols.push(Ok(DynStreamingIterator::new(OwnedPages(pages.into_iter(), None))));
    }
    if let Some(Tamper { what: Wrong::ExtraColumn, col, .. }) = t {
        let (ch, d) = (&f.groups[g].1[*col], &f.schema.columns()[*col].descriptor);
        cols.push(Ok(chunk_iter(ch, d, false)));
    }
    DynIter::new(cols.into_iter())
}
/// the asynchronous writer: what `end` returned, and the sink
pub fn stream_file(f: &FileM, sink: Sink, t: Option<&Tamper>, streaming: bool) -> (Result<u64, Error>, Sink) {
    let mut w = FileStreamer::new(sink, f.schema.clone(), f.options, f.created_by.clone());
    let r = block(async {
        for g in 0..f.groups.len() {
            if t.is_some() {
                w.write(tampered_group(f, g, t)).await?;
            } else {
                w.write(group_iter(f, g, streaming)).await?;
            }
        }
        w.end(f.kv.clone()).await
    });
    (r, w.into_inner())
}
fn p03_parity(c: &mut Case) -> R {
    let o = if c.s.chance(1, 12) { FileOpts { max_rows: 20_000, max_fields: 2, dict_max: 300, ..FileOpts::default() } } else { FileOpts::default() };
    let f = if c.s.chance(1, 1000) { super::idx::gen_index_file_of(c, true) } else { gen_file(&mut c.s, &o) };
    label_file(c, &f);
    c.describe(|| describe_file(&f));
    let plan = Plan::gen(&mut c.s);
    c.label_if(plan.pending > 0, "pending");
    c.label_if(plan.chunk > 0, "split writes");
    let (n, bytes, _) = write_file(&f, vec![], c.s.coin())?;
    let streaming = c.s.coin();
    let (m, sink) = stream_file(&f, Sink::new(plan), None, streaming);
    let m = m?;
    ensure_eq!(m, n, "async-size", "size returned by the asynchronous writer");
    ensure_eq!(sink.flushed, sink.data.len(), "not-flushed", "bytes flushed by the asynchronous writer");
    if sink.data != bytes {
        let at = sink.data.iter().zip(&bytes).position(|(a, b)| a != b).unwrap_or(bytes.len().min(sink.data.len()));
        fail!("async-bytes", "the files differ from byte {at} on ({} bytes asynchronously, {} blocking)", sink.data.len(), bytes.len());
    }
    Ok(())
}
fn p03_errors(c: &mut Case) -> R {
    let o = FileOpts { max_rows: 60, stats: if c.s.coin() { Some(true) } else { None }, ..FileOpts::default() };
    let f = gen_file(&mut c.s, &o);
    let t = match gen_tamper(&mut c.s, &f) {
        Some(t) => t,
        None => return Ok(()),
    };
    c.nontrivial(true);
    c.describe(|| format!("{t:?} in {}", describe_file(&f)));
    let mut w = FileWriter::new(vec![], f.schema.clone(), f.options, f.created_by.clone());
    let mut sync = Ok(());
    for g in 0..f.groups.len() {
        sync = w.write(tampered_group(&f, g, Some(&t)));
        if sync.is_err() {
            break;
        }
    }
    let sync: Result<u64, Error> = sync.and_then(|_| w.end(f.kv.clone()));
    let bytes = w.into_inner();
    let plan = if c.s.coin() { Plan::smooth() } else { Plan::gen(&mut c.s) };
    let (asy, sink) = stream_file(&f, Sink::new(plan), Some(&t), false);
    match (&sync, &asy) {
        (Ok(a), Ok(b)) => {
            ensure_eq!(b, a, "async-size");
            ensure!(sink.data == bytes, "async-bytes", "the files differ");
            c.label("both accept");
        }
        (Err(_), Err(_)) => {
            c.label("both refuse");
        }
        _ => fail!("async-parity", "blocking writer gives {sync:?} but the asynchronous one {asy:?}"),
    }
    Ok(())
}

// ------------------------------------------------------------------ P04
pub fn filter_of(k: usize) -> PageFilter {
    match k {
        0 => Arc::new(|_: &Descriptor, _: &DataPageHeader| true),
        1 => Arc::new(|_: &Descriptor, _: &DataPageHeader| false),
        2 => Arc::new(|_: &Descriptor, h: &DataPageHeader| h.num_values() % 2 == 0),
        3 => Arc::new(|_: &Descriptor, h: &DataPageHeader| matches!(h, DataPageHeader::V1(_))),
        _ => Arc::new(|d: &Descriptor, h: &DataPageHeader| (h.num_values() + d.max_def_level as usize) % 3 != 0),
    }
}
/// all items of a blocking reader up to and including the first error
pub fn pages_until_error(it: impl Iterator<Item = Result<CompressedPage, Error>>, cap: usize) -> Result<(Vec<Got>, Option<Error>), Fail> {
    let mut out = vec![];
    let mut buf = vec![];
    for p in it {
        match p {
            Ok(p) => out.push(flat(p, &mut buf)?.0),
            Err(e) => return Ok((out, Some(e))),
        }
        ensure!(out.len() <= cap, "too-many-pages", "more than {cap} pages");
    }
    Ok((out, None))
}
pub async fn stream_until_error(mut st: impl futures::Stream<Item = Result<CompressedPage, Error>> + Unpin, cap: usize) -> Result<(Vec<Got>, Option<Error>), Fail> {
    let mut out = vec![];
    let mut buf = vec![];
    while let Some(p) = st.next().await {
        match p {
            Ok(p) => out.push(flat(p, &mut buf)?.0),
            Err(e) => return Ok((out, Some(e))),
        }
        ensure!(out.len() <= cap, "too-many-pages", "more than {cap} pages");
    }
    Ok((out, None))
}
pub fn same_metadata(a: &FileMetaData, b: &FileMetaData, what: &str) -> R {
    ensure_eq!(format!("{:?}", a.schema_descr), format!("{:?}", b.schema_descr), "metadata-schema", "{what}");
    ensure_eq!(a.column_orders, b.column_orders, "metadata-column-orders", "{what}");
    ensure_eq!(format!("{a:?}"), format!("{b:?}"), "metadata", "{what}");
    Ok(())
}
fn p04_metadata(c: &mut Case) -> R {
    let (f, bytes) = if c.s.chance(1, 4) {
        gen_footer_sized(&mut c.s)?
    } else {
        let f = gen_file(&mut c.s, &FileOpts { max_rows: 50, ..FileOpts::default() });
        let b = write_vec(&f)?;
        (f, b)
    };
    label_file(c, &f);
    c.describe(|| format!("{} bytes, {}", bytes.len(), describe_file(&f)));
    let plan = Plan::gen(&mut c.s);
    let mut src = Source::new(&bytes, plan);
    src.pos = c.s.below(bytes.len() + 10) as u64;
    let a = block(read_metadata_async(&mut src))?;
    let b = read_metadata(&mut Cursor::new(&bytes))?;
    same_metadata(&a, &b, "asynchronous metadata")
}
/// size of the largest page header of a chunk
pub fn largest_header(bytes: &[u8], col: &ColumnChunkMetaData) -> Result<usize, Fail> {
    let (a, n) = col.byte_range();
    let (mut at, end) = (a as usize, (a + n) as usize);
    let mut m = 0;
    while at < end {
        let (h, n) = page_header(&bytes[at..end])?;
        m = m.max(n);
        at += n + h.compressed_page_size as usize;
    }
    Ok(m)
}
fn p04_pages(c: &mut Case) -> R {
    let f = gen_file(&mut c.s, &FileOpts { max_rows: 200, ..FileOpts::default() });
    if f.groups.is_empty() {
        return Ok(());
    }
    label_file(c, &f);
    let bytes = write_vec(&f)?;
    let md = read_metadata(&mut Cursor::new(&bytes))?;
    c.describe(|| describe_file(&f));
    for (gi, g) in md.row_groups.iter().enumerate() {
        for (ci, col) in g.columns().iter().enumerate() {
            let what = format!("row group {gi} column {ci}");
            let want = expected(&f.groups[gi].1[ci], &f.schema.columns()[ci].descriptor)?;
            let k = c.s.below(8).saturating_sub(3);
            let limit = if c.s.chance(1, 3) {
                let m = want.iter().filter_map(|x| x.csize).max().unwrap_or(0);
                // page headers are under the limit
                largest_header(&bytes, col)?.max(c.s.below(m + 60))
            } else {
                BIG
            };
            c.label_if(limit != BIG, "page-size limit");
            c.label_if(k > 0, "filter");
            let cap = want.len() + 2;
            let blocking = pages_until_error(get_page_iterator(col, Cursor::new(&bytes), Some(filter_of(k)), vec![], limit)?, cap)?;
            let n = if c.s.chance(1, 3) { 300 } else { 5 };
            let scratch = c.s.bytes(n);
            let plan = Plan::gen(&mut c.s);
            let mut src = Source::new(&bytes, plan.clone());
            src.pos = c.s.below(bytes.len()) as u64;
            let asy = block(async {
                let st = get_page_stream(col, &mut src, scratch.clone(), filter_of(k), limit).await?;
                futures::pin_mut!(st);
                stream_until_error(st, cap).await
            })?;
            compare_reads(&asy, &blocking, &format!("{what}: get_page_stream (filter {k}, limit {limit})"))?;
            // a source that cannot seek, positioned at the chunk
            let (a, n) = col.byte_range();
            let end = if c.s.coin() { bytes.len() } else { (a + n) as usize };
            let mut src = ReadOnly(Source::new(&bytes[a as usize..end], plan));
            let asy = block(async {
                let st = get_page_stream_from_column_start(col, &mut src, scratch, filter_of(k), limit).await?;
                futures::pin_mut!(st);
                stream_until_error(st, cap).await
            })?;
            compare_reads(&asy, &blocking, &format!("{what}: get_page_stream_from_column_start (filter {k}, limit {limit})"))?;
            if k == 0 && limit == BIG {
                check_got(&asy.0, &want, &what)?;
            }
            c.evals += 1;
        }
    }
    Ok(())
}
pub fn compare_reads(a: &(Vec<Got>, Option<Error>), b: &(Vec<Got>, Option<Error>), what: &str) -> R {
    check_got(&a.0, &b.0, what)?;
    match (&a.1, &b.1) {
        (None, None) => Ok(()),
        (Some(_), Some(_)) => Ok(()),
        (x, y) => fail!("async-parity", "{what}: ends with {x:?} but {y:?} blocking"),
    }
}
fn p04_columns(c: &mut Case) -> R {
    let f = gen_file(&mut c.s, &FileOpts { max_rows: 60, ..FileOpts::default() });
    if f.groups.is_empty() {
        return Ok(());
    }
    label_file(c, &f);
    let bytes = write_vec(&f)?;
    let md = read_metadata(&mut Cursor::new(&bytes))?;
    c.describe(|| describe_file(&f));
    let plan = Plan::gen(&mut c.s);
    let data: &'static [u8] = Box::leak(bytes.clone().into_boxed_slice());
    let r = (|| {
        for g in &md.row_groups {
            for fd in f.schema.fields() {
                let name = &fd.get_field_info().name;
                let p = plan.clone();
                let factory = move || {
                    let p = p.clone();
                    Box::pin(async move { Ok(Source::new(data, p)) }) as futures::future::BoxFuture<'static, std::io::Result<Source<'static>>>
                };
                let a = block(read_columns_async(factory.clone(), g.columns(), name))?;
                let b = read_columns(&mut Cursor::new(data), g.columns(), name)?;
                ensure_eq!(a.len(), b.len(), "async-columns", "columns of {name:?}");
                for ((ma, da), (mb, db)) in a.iter().zip(&b) {
                    ensure_eq!(format!("{ma:?}"), format!("{mb:?}"), "async-columns-order", "columns of {name:?}");
                    ensure!(da == db, "async-columns-bytes", "columns of {name:?}: bytes differ");
                    let one = block(read_column_async(factory.clone(), ma))?;
                    ensure!(&one == da, "async-column-bytes", "column of {name:?}: bytes differ");
                }
            }
        }
        Ok(())
    })();
    // the sources are gone: give the memory back
    unsafe { drop(Box::from_raw(data as *const [u8] as *mut [u8])) };
    r
}

// ------------------------------------------------------------------ P05
fn p05_read(c: &mut Case) -> R {
    let (f, bytes) = if c.s.chance(1, 12) {
        gen_footer_sized(&mut c.s)?
    } else {
        let f = gen_file(&mut c.s, &FileOpts { max_rows: 100, max_groups: 2, ..FileOpts::default() });
        let b = write_vec(&f)?;
        (f, b)
    };
    label_file(c, &f);
    let mut plan = Plan::gen(&mut c.s);
    if plan.chunk == 1 && bytes.len() > 100_000 {
        plan.chunk = 13;
    }
    c.label_if(plan.chunk > 0, "split reads");
    c.label_if(plan.interrupt > 0, "interrupted");
    c.describe(|| format!("{plan:?} over {}", describe_file(&f)));
    let mut src = Source::new(&bytes, plan.clone());
    src.pos = c.s.below(bytes.len() + 10) as u64;
    let md = read_metadata(&mut src)?;
    same_metadata(&md, &read_metadata(&mut Cursor::new(&bytes))?, "metadata from a splitting source")?;
    // one source for everything that follows, left wherever it was
    for g in &md.row_groups {
        for (ci, col) in g.columns().iter().enumerate() {
            let what = format!("column {ci}");
            let cap = 400;
            let want = collect(get_page_iterator(col, Cursor::new(&bytes), None, vec![], BIG)?, cap)?;
            let got = collect(get_page_iterator(col, &mut src, None, vec![], BIG)?, cap)?;
            check_got(&got, &want, &what)?;
            let a = read_column(&mut src, col)?;
            let b = read_column(&mut Cursor::new(&bytes), col)?;
            ensure!(a == b, "read-column", "{what}: read_column gives other bytes");
            let locs = read_pages_locations(&mut src, std::slice::from_ref(col))?;
            let want_locs = read_pages_locations(&mut Cursor::new(&bytes), std::slice::from_ref(col))?;
            ensure_eq!(locs, want_locs, "page-locations", "{what}");
            // through the index
            if !locs.is_empty() && !locs[0].is_empty() && g.num_rows() > 0 {
                let rows = [Interval::new(c.s.below(g.num_rows()), 1 + c.s.below(g.num_rows()))];
                let pages = parquet2::indexes::select_pages(&rows, &locs[0], g.num_rows())?;
                let want = collect(IndexedPageReader::new(Cursor::new(&bytes), col, pages.clone(), vec![], vec![]), cap)?;
                let got = collect(IndexedPageReader::new(&mut src, col, pages, vec![], vec![]), cap)?;
                check_got(&got, &want, &format!("{what} through its index"))?;
                c.label("indexed");
            }
        }
        let locs = read_pages_locations(&mut src, g.columns())?;
        ensure_eq!(locs, read_pages_locations(&mut Cursor::new(&bytes), g.columns())?, "page-locations");
        if f.options.write_statistics {
            let a = read_columns_indexes(&mut src, g.columns())?;
            let b = read_columns_indexes(&mut Cursor::new(&bytes), g.columns())?;
            ensure_eq!(format!("{a:?}"), format!("{b:?}"), "column-indexes");
            c.label("column indexes");
        }
        for fd in f.schema.fields() {
            let name = &fd.get_field_info().name;
            let a = read_columns(&mut src, g.columns(), name)?;
            let b = read_columns(&mut Cursor::new(&bytes), g.columns(), name)?;
            ensure!(a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.1 == y.1), "read-columns", "columns of {name:?} differ");
        }
    }
    c.nontrivial(plan.splits());
    Ok(())
}
fn p05_bloom(c: &mut Case) -> R {
    let b = super::meta::gen_bloom_file(&mut c.s);
    let plan = Plan::gen(&mut c.s);
    c.nontrivial(plan.splits() && b.bitset.len() > 32);
    c.describe(|| format!("{plan:?} over a bitset of {} bytes at {}", b.bitset.len(), b.at));
    let mut src = Source::new(&b.bytes, plan);
    src.pos = c.s.below(b.bytes.len()) as u64;
    let mut bitset = c.s.bytes(7);
    parquet2::bloom_filter::read(&b.column, &mut src, &mut bitset)?;
    ensure!(bitset == b.bitset, "bloom-bitset", "bitset of {} bytes read from a splitting source differs from the stored {}", bitset.len(), b.bitset.len());
    Ok(())
}
fn p05_write(c: &mut Case) -> R {
    let f = gen_file(&mut c.s, &FileOpts { max_rows: 200, ..FileOpts::default() });
    label_file(c, &f);
    let plan = Plan::gen(&mut c.s);
    c.nontrivial = plan.splits();
    c.describe(|| format!("{plan:?} over {}", describe_file(&f)));
    let (n, want, meta) = write_file(&f, vec![], true)?;
    let (m, sink, meta2) = write_file(&f, Sink::new(plan.clone()), true)?;
    ensure_eq!(m, n, "returned-size");
    ensure!(sink.data == want, "split-bytes", "a splitting sink received other bytes");
    ensure_eq!(meta2, meta, "split-metadata");
    let mut side = vec![];
    let k = write_metadata_sidecar(&mut side, &meta)?;
    let mut sink = Sink::new(plan);
    let k2 = write_metadata_sidecar(&mut sink, &meta)?;
    ensure_eq!(k2, k, "returned-size", "sidecar");
    ensure_eq!(k, side.len() as u64, "returned-size", "sidecar");
    ensure!(sink.data == side, "split-bytes", "a splitting sink received another sidecar");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _: Option<SchemaDescriptor> = None;
    vec![
        Prop {
            id: "P01",
            rule: "non-trivial: some page has a value",
            assumptions: &["at most 4 row groups of 300 rows and 12 columns, or 2 of 40000 rows and 2 columns; footers up to 260 KiB"],
            parts: vec![
                Part { name: "roundtrip", f: p01_roundtrip, quick: 40000, thorough: 1200000 },
                Part { name: "large", f: p01_large, quick: 1000, thorough: 40000 },
                Part { name: "footer", f: p01_footer, quick: 1500, thorough: 40000 },
                Part { name: "counted", f: p01_counted, quick: 8000, thorough: 300000 },
                Part { name: "huge", f: super::huge::p01_huge, quick: 1600, thorough: 30000 },
            ],
        },
        Prop {
            id: "P02",
            rule: "non-trivial: some page has a value",
            assumptions: &["the footer and page headers are parsed with parquet-format-safe, which the crate itself uses"],
            parts: vec![Part { name: "layout", f: p02_layout, quick: 90000, thorough: 2000000 }, Part { name: "footer", f: p02_footer, quick: 1200, thorough: 30000 }, Part { name: "many", f: p02_many, quick: 16, thorough: 200 }, Part { name: "counted", f: p02_counted, quick: 8000, thorough: 300000 }, Part { name: "huge", f: super::huge::p02_huge, quick: 4000, thorough: 60000 }],
        },
        Prop {
            id: "P03",
            rule: "non-trivial: some page has a value (errors: every case with a row group)",
            assumptions: &[],
            parts: vec![Part { name: "parity", f: p03_parity, quick: 50000, thorough: 1500000 }, Part { name: "errors", f: p03_errors, quick: 60000, thorough: 1500000 }, Part { name: "many", f: p03_many, quick: 16, thorough: 200 }, Part { name: "counted", f: p03_counted, quick: 6000, thorough: 200000 }, Part { name: "huge", f: super::huge::p03_huge, quick: 1600, thorough: 30000 }],
        },
        Prop {
            id: "P04",
            rule: "non-trivial: some page has a value",
            assumptions: &[],
            parts: vec![
                Part { name: "metadata", f: p04_metadata, quick: 12000, thorough: 400000 },
                Part { name: "pages", f: p04_pages, quick: 20000, thorough: 600000 },
                Part { name: "columns", f: p04_columns, quick: 16000, thorough: 400000 },
                Part { name: "huge", f: super::huge::p04_huge, quick: 1600, thorough: 30000 },
            ],
        },
        Prop {
            id: "P05",
            rule: "non-trivial: the source or sink splits or interrupts",
            assumptions: &[],
            parts: vec![
                Part { name: "read", f: p05_read, quick: 24000, thorough: 600000 },
                Part { name: "bloom", f: p05_bloom, quick: 60000, thorough: 1000000 },
                Part { name: "write", f: p05_write, quick: 48000, thorough: 1000000 },
            ],
        },
    ]
}

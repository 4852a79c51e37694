//! P30, P31, P33, P34: footer metadata and sidecars, bloom filters, serde, native values.
use super::enc::gen_intervals;
use super::file::*;
use super::hostile::with_footer;
use super::schema::{flatten, gen_any_schema, root_element, thrift_file};
use crate::engine::*;
use crate::gen::*;
use crate::io::*;
use crate::refimpl;
use crate::src::Src;
use crate::{ensure, ensure_eq, fail};
use parquet2::bloom_filter;
use parquet2::indexes::{FilteredPage, Interval};
use parquet2::metadata::{get_sort_order, ColumnChunkMetaData, ColumnDescriptor, ColumnOrder, Descriptor, FileMetaData, RowGroupMetaData, SchemaDescriptor, SortOrder};
use parquet2::read::{read_metadata, read_metadata_async, read_metadata_with_size};
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet2::types::{decode, int96_to_i64_ns, ord_binary, NativeType};
use parquet2::write::write_metadata_sidecar;
use parquet_format_safe as tf;
use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
use parquet_format_safe::{
    BloomFilterAlgorithm, BloomFilterCompression, BloomFilterHash, BloomFilterHeader, ColumnChunk, ColumnMetaData, CompressionCodec, SplitBlockAlgorithm, Type, Uncompressed, XxHash,
};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::io::Cursor;

// ------------------------------------------------------------------ bloom filters in files
pub struct BloomFile {
    pub bytes: Vec<u8>,
    pub column: ColumnChunkMetaData,
    pub bitset: Vec<u8>,
    pub at: usize,
    pub header_len: usize,
}
pub fn plain_descriptor() -> ColumnDescriptor {
    let f = ParquetType::from_physical("a".to_string(), PhysicalType::Int32);
    SchemaDescriptor::new("s".to_string(), vec![f]).columns()[0].clone()
}
pub fn bloom_header(n: i32) -> Vec<u8> {
    let h = BloomFilterHeader {
        num_bytes: n,
        algorithm: BloomFilterAlgorithm::BLOCK(SplitBlockAlgorithm {}),
        hash: BloomFilterHash::XXHASH(XxHash {}),
        compression: BloomFilterCompression::UNCOMPRESSED(Uncompressed {}),
    };
    let mut b = vec![];
    let mut p = TCompactOutputProtocol::new(&mut b);
    h.write_to_out_protocol(&mut p).unwrap();
    b
}
pub fn bloom_column(at: Option<i64>) -> ColumnChunkMetaData {
    let d = plain_descriptor();
    let meta = ColumnMetaData {
        type_: Type::INT32,
        encodings: vec![],
        path_in_schema: d.path_in_schema.clone(),
        codec: CompressionCodec::UNCOMPRESSED,
        num_values: 0,
        total_uncompressed_size: 0,
        total_compressed_size: 0,
        key_value_metadata: None,
        data_page_offset: 4,
        index_page_offset: None,
        dictionary_page_offset: None,
        statistics: None,
        encoding_stats: None,
        bloom_filter_offset: at,
    };
    let c = ColumnChunk {
        file_path: None,
        file_offset: 0,
        meta_data: Some(meta),
        offset_index_offset: None,
        offset_index_length: None,
        column_index_offset: None,
        column_index_length: None,
        crypto_metadata: None,
        encrypted_column_metadata: None,
    };
    ColumnChunkMetaData::new(c, d)
}
pub fn gen_bloom_file(s: &mut Src) -> BloomFile {
    let before = s.size(100);
    let mut bytes = s.bytes(before);
    let blocks = 1 + s.size(40);
    let bitset = s.bytes(32 * blocks);
    let h = bloom_header(bitset.len() as i32);
    bytes.extend(&h);
    bytes.extend(&bitset);
    let after = s.size(50);
    bytes.extend(s.bytes(after));
    BloomFile { bytes, column: bloom_column(Some(before as i64)), bitset, at: before, header_len: h.len() }
}

// ------------------------------------------------------------------ P30
fn opt<T>(s: &mut Src, f: impl FnOnce(&mut Src) -> T) -> Option<T> {
    if s.coin() {
        Some(f(s))
    } else {
        None
    }
}
fn nat(s: &mut Src) -> i64 {
    match s.below(4) {
        0 => s.below(300) as i64,
        1 => s.below64(1 << 40) as i64,
        _ => s.i64_any() & i64::MAX,
    }
}
fn text(s: &mut Src) -> String {
    let n = s.size(12);
    (0..n).map(|_| s.pick(&['a', '/', 'é', '\u{10ffff}', '.', ' ', '\n'])).collect()
}
fn gen_encodings(s: &mut Src) -> Vec<tf::Encoding> {
    let n = if s.chance(1, 150) { s.size(20_000) } else { s.size(5) };
    (0..n).map(|_| tf::Encoding(if s.chance(1, 6) { s.i32_any() } else { s.below(10) as i32 })).collect()
}
fn gen_raw_stats(s: &mut Src) -> tf::Statistics {
    let b = |s: &mut Src| {
        opt(s, |s| {
            let n = if s.chance(1, 150) { s.size(300_000) } else { s.size(20) };
            s.bytes(n)
        })
    };
    tf::Statistics { max: b(s), min: b(s), null_count: opt(s, |s| s.i64_any()), distinct_count: opt(s, |s| s.i64_any()), max_value: b(s), min_value: b(s) }
}
fn physical_code(p: PhysicalType) -> i32 {
    match p {
        PhysicalType::Boolean => 0,
        PhysicalType::Int32 => 1,
        PhysicalType::Int64 => 2,
        PhysicalType::Int96 => 3,
        PhysicalType::Float => 4,
        PhysicalType::Double => 5,
        PhysicalType::ByteArray => 6,
        PhysicalType::FixedLenByteArray(_) => 7,
    }
}
fn gen_thrift_chunk(s: &mut Src, leaf: &(PrimitiveType, Vec<String>, i16, i16, usize), room: &mut i64) -> ColumnChunk {
    let size = nat(s).min(*room);
    *room -= size;
    let meta = ColumnMetaData {
        type_: Type(physical_code(leaf.0.physical_type)),
        encodings: gen_encodings(s),
        path_in_schema: leaf.1.clone(),
        codec: CompressionCodec(s.below(8) as i32),
        num_values: nat(s),
        total_uncompressed_size: nat(s),
        total_compressed_size: size,
        key_value_metadata: gen_kv(s),
        data_page_offset: nat(s),
        index_page_offset: opt(s, nat),
        dictionary_page_offset: opt(s, nat),
        statistics: opt(s, gen_raw_stats),
        encoding_stats: opt(s, |s| {
            let n = s.size(3);
            (0..n)
                .map(|_| tf::PageEncodingStats { page_type: tf::PageType(s.below(4) as i32), encoding: tf::Encoding(s.below(10) as i32), count: s.i32_any() })
                .collect()
        }),
        bloom_filter_offset: opt(s, nat),
    };
    ColumnChunk {
        file_path: opt(s, text),
        file_offset: s.i64_any(),
        meta_data: Some(meta),
        offset_index_offset: opt(s, |s| s.i64_any()),
        offset_index_length: opt(s, |s| s.i32_any()),
        column_index_offset: opt(s, |s| s.i64_any()),
        column_index_length: opt(s, |s| s.i32_any()),
        crypto_metadata: None,
        encrypted_column_metadata: opt(s, |s| {
            let n = s.size(20);
            s.bytes(n)
        }),
    }
}
struct MetaM {
    name: String,
    fields: Vec<ParquetType>,
    t: tf::FileMetaData,
}
fn gen_thrift_metadata(s: &mut Src, max_groups: usize) -> MetaM {
    let (name, fields) = gen_any_schema(s, &mut vec![]);
    let leaves = model_leaves(&fields);
    let mut t = thrift_file(flatten(&name, &fields));
    t.version = if s.coin() { 1 + s.below(2) as i32 } else { s.i32_any() };
    t.num_rows = nat(s);
    t.key_value_metadata = gen_kv(s);
    t.created_by = opt(s, text);
    t.column_orders = opt(s, |_| leaves.iter().map(|_| tf::ColumnOrder::TYPEORDER(Default::default())).collect());
    let groups = if leaves.len() > 100 { s.below(2) } else { s.size(max_groups) };
    for _ in 0..groups {
        let mut room = i64::MAX;
        let columns = leaves.iter().map(|l| gen_thrift_chunk(s, l, &mut room)).collect();
        t.row_groups.push(tf::RowGroup {
            columns,
            total_byte_size: nat(s),
            num_rows: nat(s),
            sorting_columns: opt(s, |s| vec![tf::SortingColumn { column_idx: s.i32_any(), descending: s.coin(), nulls_first: s.coin() }]),
            file_offset: opt(s, |s| s.i64_any()),
            total_compressed_size: opt(s, |s| s.i64_any()),
            ordinal: opt(s, |s| s.below(1000) as i16),
        });
    }
    MetaM { name, fields, t }
}
/// the order the format defines for statistics of a type
fn model_order(t: &PrimitiveType) -> SortOrder {
    use PrimitiveConvertedType as C;
    use PrimitiveLogicalType as L;
    const U: SortOrder = SortOrder::Unsigned;
    const S: SortOrder = SortOrder::Signed;
    const N: SortOrder = SortOrder::Undefined;
    if let Some(l) = t.logical_type {
        return match l {
            L::String | L::Enum | L::Json | L::Bson | L::Uuid => U,
            L::Decimal(..) | L::Date | L::Time { .. } | L::Timestamp { .. } => S,
            L::Integer(i) => match <(usize, bool)>::from(i) {
                (_, true) => S,
                (_, false) => U,
            },
            L::Unknown => N,
        };
    }
    if let Some(c) = t.converted_type {
        return match c {
            C::Utf8 | C::Enum | C::Json | C::Bson | C::Uint8 | C::Uint16 | C::Uint32 | C::Uint64 => U,
            C::Interval => N,
            _ => S,
        };
    }
    match t.physical_type {
        PhysicalType::Boolean | PhysicalType::ByteArray | PhysicalType::FixedLenByteArray(_) => U,
        PhysicalType::Int96 => N,
        _ => S,
    }
}
fn check_md(md: &FileMetaData, m: &MetaM) -> R {
    let t = &m.t;
    let leaves = model_leaves(&m.fields);
    ensure_eq!(md.version, t.version, "version");
    ensure_eq!(md.num_rows as i64, t.num_rows, "rows");
    ensure_eq!(md.created_by, t.created_by, "created-by");
    ensure_eq!(md.key_value_metadata(), &t.key_value_metadata, "key-values");
    ensure_eq!(md.schema().name(), m.name, "schema-name");
    ensure_eq!(md.schema().fields(), m.fields, "schema-fields");
    ensure_eq!(md.row_groups.len(), t.row_groups.len(), "row-groups");
    match &md.column_orders {
        None => ensure!(t.column_orders.is_none(), "column-orders", "column orders are lost"),
        Some(o) => {
            ensure!(t.column_orders.is_some(), "column-orders", "column orders appear");
            ensure_eq!(o.len(), leaves.len(), "column-orders");
        }
    }
    for (i, l) in leaves.iter().enumerate() {
        let want = match t.column_orders {
            None => ColumnOrder::Undefined,
            Some(_) => ColumnOrder::TypeDefinedOrder(model_order(&l.0)),
        };
        ensure_eq!(md.column_order(i), want, "column-order", "{:?}", l.0);
        ensure_eq!(md.column_order(i).sort_order(), if t.column_orders.is_some() { model_order(&l.0) } else { SortOrder::Signed }, "sort-order");
        ensure_eq!(get_sort_order(&l.0.logical_type, &l.0.converted_type, &l.0.physical_type), model_order(&l.0), "sort-order", "{:?}", l.0);
    }
    ensure_eq!(md.column_order(leaves.len() + 3), ColumnOrder::Undefined, "column-order");
    for (g, tg) in md.row_groups.iter().zip(&t.row_groups) {
        ensure_eq!(g.num_rows() as i64, tg.num_rows, "group-rows");
        ensure_eq!(g.total_byte_size() as i64, tg.total_byte_size, "group-bytes");
        ensure_eq!(g.columns().len(), tg.columns.len(), "group-columns");
        ensure_eq!(g.compressed_size() as i64, tg.columns.iter().map(|c| c.meta_data.as_ref().unwrap().total_compressed_size).sum::<i64>(), "group-size");
        for ((c, tc), l) in g.columns().iter().zip(&tg.columns).zip(&leaves) {
            let tm = tc.meta_data.as_ref().unwrap();
            ensure_eq!(c.column_chunk(), tc, "chunk");
            ensure_eq!(c.file_path(), &tc.file_path, "chunk-path");
            ensure_eq!(c.file_offset(), tc.file_offset, "chunk-offset");
            ensure_eq!(c.metadata(), tm, "chunk-metadata");
            ensure_eq!(c.physical_type(), l.0.physical_type, "chunk-type");
            ensure_eq!(c.descriptor().path_in_schema, l.1, "chunk-descriptor");
            ensure_eq!(c.descriptor().descriptor.primitive_type, l.0, "chunk-descriptor");
            ensure_eq!((c.descriptor().descriptor.max_def_level, c.descriptor().descriptor.max_rep_level), (l.2, l.3), "chunk-descriptor");
            ensure_eq!(c.num_values(), tm.num_values, "chunk-values");
            ensure_eq!(tf::CompressionCodec::from(c.compression()), tm.codec, "chunk-codec");
            ensure_eq!(c.compressed_size(), tm.total_compressed_size, "chunk-size");
            ensure_eq!(c.uncompressed_size(), tm.total_uncompressed_size, "chunk-size");
            ensure_eq!(c.data_page_offset(), tm.data_page_offset, "chunk-data");
            ensure_eq!(c.index_page_offset(), tm.index_page_offset, "chunk-index");
            ensure_eq!(c.has_index_page(), tm.index_page_offset.is_some(), "chunk-index");
            ensure_eq!(c.dictionary_page_offset(), tm.dictionary_page_offset, "chunk-dict");
            ensure_eq!(c.column_encoding(), &tm.encodings, "chunk-encodings");
            ensure_eq!(c.byte_range(), (tm.dictionary_page_offset.unwrap_or(tm.data_page_offset) as u64, tm.total_compressed_size as u64), "chunk-range");
            ensure_eq!(c.statistics().is_some(), tm.statistics.is_some(), "chunk-statistics");
        }
    }
    Ok(())
}
/// what may change when metadata is written again: the hints of row groups that are recomputed or
/// not kept
fn settle(mut t: tf::FileMetaData) -> tf::FileMetaData {
    for g in &mut t.row_groups {
        g.sorting_columns = None;
        g.ordinal = None;
        g.total_compressed_size = Some(g.columns.iter().map(|c| c.meta_data.as_ref().unwrap().total_compressed_size).sum());
        g.file_offset = g.columns.first().map(|c| {
            let m = c.meta_data.as_ref().unwrap();
            m.dictionary_page_offset.filter(|x| *x > 0).unwrap_or(m.data_page_offset)
        });
    }
    t
}
/// the same thrift, the hints of row groups aside
fn same_thrift(a: &tf::FileMetaData, b: &tf::FileMetaData, what: &str) -> R {
    ensure_eq!(a.schema, b.schema, "thrift-schema", "{what}");
    ensure_eq!(a.row_groups.len(), b.row_groups.len(), "thrift-groups", "{what}");
    for (x, y) in a.row_groups.iter().zip(&b.row_groups) {
        ensure_eq!(x.columns, y.columns, "thrift-columns", "{what}");
        ensure_eq!((x.num_rows, x.total_byte_size, x.total_compressed_size), (y.num_rows, y.total_byte_size, y.total_compressed_size), "thrift-group", "{what}");
        let late_dict = x.columns.first().map_or(false, |c| {
            let m = c.meta_data.as_ref().unwrap();
            m.dictionary_page_offset.map_or(false, |d| d > m.data_page_offset)
        });
        ensure!(late_dict || x.file_offset == y.file_offset, "thrift-group-offset", "{what}: {:?} {:?}", x.file_offset, y.file_offset);
    }
    ensure_eq!((a.version, a.num_rows), (b.version, b.num_rows), "thrift", "{what}");
    ensure_eq!(a.key_value_metadata, b.key_value_metadata, "thrift-key-values", "{what}");
    ensure_eq!(a.created_by, b.created_by, "thrift-created-by", "{what}");
    ensure_eq!(a.column_orders, b.column_orders, "thrift-column-orders", "{what}");
    Ok(())
}
fn p30_convert(c: &mut Case) -> R {
    let m = gen_thrift_metadata(&mut c.s, 3);
    c.describe(|| format!("{:?}", m.t));
    c.label_if(m.t.column_orders.is_some(), "column orders");
    c.label_if(m.t.row_groups.len() > 1, "several row groups");
    c.nontrivial(!m.t.row_groups.is_empty() || m.t.column_orders.is_some());
    let md = no_panic(|| FileMetaData::try_from_thrift(m.t.clone()))??;
    check_md(&md, &m)?;
    let back = no_panic(|| md.clone().into_thrift())?;
    same_thrift(&settle(m.t.clone()), &back, "converted back")?;
    // and through a file
    let file = with_footer(b"PAR1".to_vec(), &back);
    let plan = Plan::gen(&mut c.s);
    let md2 = if c.s.coin() { read_metadata(&mut Source::new(&file, plan))? } else { block(read_metadata_async(&mut Source::new(&file, plan)))? };
    check_md(&md2, &m)?;
    same_metadata(&md, &md2, "written and read")?;
    same_thrift(&back, &md2.into_thrift(), "converted again")
}
fn sidecar(c: &mut Case, t: &tf::FileMetaData) -> Result<Vec<u8>, Fail> {
    let sink = Shared::new(Plan::gen(&mut c.s));
    let n = write_metadata_sidecar(&mut sink.clone(), t)?;
    let b = sink.data();
    ensure_eq!(n, b.len() as u64, "sidecar-size");
    ensure!(b.len() >= 12 && &b[..4] == b"PAR1" && &b[b.len() - 4..] == b"PAR1", "sidecar-magic", "{:?}", clip(&b));
    ensure_eq!(u32::from_le_bytes(b[b.len() - 8..b.len() - 4].try_into().unwrap()) as usize, b.len() - 12, "sidecar-length");
    Ok(b)
}
fn read_sidecar(c: &mut Case, b: &[u8]) -> Result<FileMetaData, Fail> {
    let plan = Plan::gen(&mut c.s);
    let mut src = Source::new(b, plan);
    src.pos = c.s.below(b.len() + 10) as u64;
    Ok(match c.s.below(3) {
        0 => read_metadata(&mut src)?,
        1 => read_metadata_with_size(&mut src, b.len() as u64)?,
        _ => block(read_metadata_async(&mut src))?,
    })
}
fn p30_sidecar(c: &mut Case) -> R {
    let mut m = gen_thrift_metadata(&mut c.s, 4);
    if c.s.chance(1, 3) {
        // around and beyond what is read at first
        let want = if c.s.coin() { 65_480 + c.s.below(100) } else { c.s.below(400_000) };
        let n = with_footer(vec![], &m.t).len();
        m.t.created_by = Some("x".repeat(want.saturating_sub(n)));
    }
    c.describe(|| format!("{:?}", clip(&m.t)));
    let b = sidecar(c, &m.t)?;
    c.label_if(b.len() > 65_536, "more than 64 KiB");
    c.label_if((65_530..65_550).contains(&b.len()), "about 64 KiB");
    c.nontrivial(!m.t.row_groups.is_empty() || b.len() > 65_000);
    let md = read_sidecar(c, &b)?;
    check_md(&md, &m)?;
    same_thrift(&settle(m.t.clone()), &md.into_thrift(), "read from the sidecar")
}
/// the sidecar of a real file, which still leads to its pages
fn p30_file(c: &mut Case) -> R {
    let (f, bytes) = if c.s.chance(1, 6) {
        gen_footer_sized(&mut c.s)?
    } else {
        let f = gen_file(&mut c.s, &FileOpts { max_rows: 60, ..FileOpts::default() });
        let b = write_vec(&f)?;
        (f, b)
    };
    label_file(c, &f);
    c.describe(|| describe_file(&f));
    c.nontrivial(f.groups.iter().any(|g| g.0 > 0));
    let (t, _) = thrift_footer(&bytes)?;
    let md = read_metadata(&mut Cursor::new(&bytes))?;
    check_metadata(&f, &md)?;
    let back = md.clone().into_thrift();
    same_thrift(&settle(t.clone()), &back, "read and converted")?;
    for (x, y) in t.row_groups.iter().zip(&back.row_groups) {
        ensure_eq!((x.file_offset, x.total_compressed_size), (y.file_offset, y.total_compressed_size), "group-hints");
    }
    let from = if c.s.coin() { &back } else { &t };
    let side = sidecar(c, from)?;
    let md2 = read_sidecar(c, &side)?;
    same_metadata(&md, &md2, "the sidecar")?;
    if !f.groups.is_empty() {
        let g = c.s.below(f.groups.len());
        for (k, col) in md2.row_groups[g].columns().iter().enumerate() {
            let way = c.s.below(3);
            let got = read_chunk(&mut c.s, &bytes, col, way, 100_000)?;
            check_got(&got, &expected(&f.groups[g].1[k], &f.schema.columns()[k].descriptor)?, "pages through the sidecar")?;
        }
    }
    Ok(())
}
fn p30_reject(c: &mut Case) -> R {
    let mut m = gen_thrift_metadata(&mut c.s, 3);
    let s = &mut c.s;
    let neg = -1 - nat(s);
    let no_groups = m.t.row_groups.is_empty();
    let what = if no_groups { 0 } else { s.below(11) };
    if no_groups || what == 0 {
        m.t.num_rows = neg;
    } else {
        let leaves = model_leaves(&m.fields).len();
        let g = s.below(m.t.row_groups.len());
        let rg = &mut m.t.row_groups[g];
        let k = if leaves == 0 { 0 } else { s.below(leaves) };
        if leaves == 0 || what == 1 {
            rg.num_rows = neg;
        } else if what == 2 {
            rg.total_byte_size = neg;
        } else if what == 3 {
            rg.columns.remove(k);
        } else if what == 4 {
            let x = rg.columns[k].clone();
            rg.columns.insert(k, x);
        } else if what == 5 {
            rg.columns[k].meta_data = None;
        } else if what == 6 {
            let first = rg.columns[k].clone();
            let fm = rg.columns[k].meta_data.as_mut().unwrap();
            let _ = first;
            if leaves == 1 {
                fm.total_compressed_size = neg;
            } else {
                // sizes whose sum is not a size
                fm.total_compressed_size = i64::MAX;
                rg.columns[(k + 1) % leaves].meta_data.as_mut().unwrap().total_compressed_size = 1 + nat(s) / 2;
            }
        } else {
            let md = rg.columns[k].meta_data.as_mut().unwrap();
            match what {
                7 => md.codec = CompressionCodec(if s.coin() { -1 - (nat(s) as i32 & 0xffff) } else { 8 + (nat(s) as i32 & 0xffff) }),
                8 => md.total_compressed_size = neg,
                9 => md.data_page_offset = neg,
                _ => md.dictionary_page_offset = Some(neg),
            }
        }
    }
    c.describe(|| format!("{what} {:?}", clip(&m.t)));
    c.nontrivial(true);
    let r = no_panic(|| FileMetaData::try_from_thrift(m.t.clone()))?;
    ensure!(r.is_err(), "accepted", "kind {what}: invalid metadata is accepted");
    let b = with_footer(b"PAR1".to_vec(), &m.t);
    ensure!(no_panic(|| read_metadata(&mut Cursor::new(&b)))?.is_err(), "accepted-file", "kind {what}: invalid metadata is accepted from a file");
    Ok(())
}

// ------------------------------------------------------------------ P31
/// the split-block filter, from the format's definition
fn model_bits(hash: u64, blocks: u64) -> (usize, [u32; 8]) {
    const SALT: [u32; 8] = [0x47b6137b, 0x44974d91, 0x8824ad5b, 0xa2b7289d, 0x705495c7, 0x2df1424b, 0x9efc4947, 0x5c6bfb31];
    let block = (((hash >> 32) as u128 * blocks as u128) >> 32) as usize;
    (block, SALT.map(|x| 1u32 << ((hash as u32).wrapping_mul(x) >> 27)))
}
fn model_insert(bitset: &mut [u8], hash: u64) {
    let (b, m) = model_bits(hash, bitset.len() as u64 / 32);
    for (i, m) in m.iter().enumerate() {
        for (j, byte) in m.to_le_bytes().iter().enumerate() {
            bitset[b * 32 + i * 4 + j] |= byte;
        }
    }
}
fn model_contains(bitset: &[u8], hash: u64) -> bool {
    let (b, m) = model_bits(hash, bitset.len() as u64 / 32);
    m.iter().enumerate().all(|(i, m)| m.to_le_bytes().iter().enumerate().all(|(j, byte)| bitset[b * 32 + i * 4 + j] & byte == *byte))
}
/// a value of some type: its hash by the library and its plain encoding
fn gen_hashed(s: &mut Src) -> (u64, Vec<u8>) {
    match s.below(6) {
        0 => {
            let v = s.i32_any();
            (bloom_filter::hash_native(v), v.to_le_bytes().to_vec())
        }
        1 => {
            let v = s.i64_any();
            (bloom_filter::hash_native(v), v.to_le_bytes().to_vec())
        }
        2 => {
            let v = f32::from_bits(s.i32_any() as u32);
            (bloom_filter::hash_native(v), v.to_bits().to_le_bytes().to_vec())
        }
        3 => {
            let v = f64::from_bits(s.u64_any());
            (bloom_filter::hash_native(v), v.to_bits().to_le_bytes().to_vec())
        }
        4 => {
            let v = [s.i32_any() as u32, s.i32_any() as u32, s.i32_any() as u32];
            (bloom_filter::hash_native(v), v.iter().flat_map(|x| x.to_le_bytes()).collect())
        }
        _ => {
            let n = if s.chance(1, 10) { s.below(5000) } else { s.size(100) };
            let v = s.bytes(n);
            let h = match s.below(3) {
                0 => bloom_filter::hash_byte(&v),
                1 => bloom_filter::hash_byte(&v[..]),
                _ => bloom_filter::hash_byte(v.clone()),
            };
            (h, v)
        }
    }
}
fn gen_hash(s: &mut Src) -> u64 {
    match s.below(6) {
        0 => gen_hashed(s).0,
        1 => u64::MAX << s.below(64),
        2 => u64::MAX >> s.below(64),
        3 => s.u64_any(),
        _ => s.rng().next(),
    }
}
fn p31_hash(c: &mut Case) -> R {
    let (h, bytes) = gen_hashed(&mut c.s);
    c.describe(|| format!("{h:x} {bytes:?}"));
    c.nontrivial(!bytes.is_empty());
    c.label_if(bytes.len() >= 32, "stripes");
    ensure_eq!(h, refimpl::xxh64(&bytes), "hash");
    Ok(())
}
fn gen_blocks(s: &mut Src) -> usize {
    match s.below(5) {
        0 => 1,
        1 => 1 << s.below(9),
        2 => 1 + s.size(600),
        3 if s.chance(1, 40) => 1 + s.size(6000),
        _ => 1 + s.size(20),
    }
}
fn p31_set(c: &mut Case) -> R {
    let s = &mut c.s;
    let blocks = gen_blocks(s);
    let dense = s.chance(1, 4);
    let mut set = vec![0u8; 32 * blocks];
    if dense {
        // an existing filter
        set = s.bytes(32 * blocks);
    }
    let mut want = set.clone();
    let n = s.size(60);
    let hashes: Vec<u64> = (0..n).map(|_| gen_hash(s)).collect();
    let probes: Vec<u64> = (0..10)
        .map(|_| {
            if hashes.is_empty() || s.coin() {
                gen_hash(s)
            } else {
                let h = s.pick(&hashes);
                h ^ (1 << s.below(64))
            }
        })
        .collect();
    c.describe(|| format!("{blocks} blocks, {hashes:x?} {probes:x?}"));
    c.nontrivial(n > 1 && blocks > 1);
    c.label_if(blocks > 256, "large");
    c.label_if(!blocks.is_power_of_two(), "blocks not a power of two");
    for (i, h) in hashes.iter().enumerate() {
        no_panic(|| bloom_filter::insert(&mut set, *h))?;
        model_insert(&mut want, *h);
        ensure_eq!(set, want, "insert", "hash {h:x}, insertion {i}");
        ensure!(no_panic(|| bloom_filter::is_in_set(&set, *h))?, "denied", "{h:x} was just inserted");
    }
    for h in hashes.iter().chain(&probes) {
        let has = no_panic(|| bloom_filter::is_in_set(&set, *h))?;
        ensure_eq!(has, model_contains(&want, *h), "contains", "{h:x}");
    }
    for h in &hashes {
        ensure!(bloom_filter::is_in_set(&set, *h), "denied", "{h:x}");
    }
    // a filter without blocks denies nothing
    let n = c.s.below(32);
    let mut none = c.s.bytes(n);
    let before = none.clone();
    for h in &probes {
        no_panic(|| bloom_filter::insert(&mut none, *h))?;
        ensure!(no_panic(|| bloom_filter::is_in_set(&none, *h))?, "denied-empty", "{h:x}");
    }
    ensure_eq!(none, before, "insert-empty");
    Ok(())
}
/// filters of the size that columns of millions of values have
fn p31_large(c: &mut Case) -> R {
    let s = &mut c.s;
    let top = s.pick(&[1usize << 13, 1 << 15, 1 << 17, 1 << 19]);
    let blocks = if s.coin() { top } else { 1 + s.below(top) };
    let n = s.range(1, 60);
    let hashes: Vec<u64> = (0..n).map(|_| gen_hash(s)).collect();
    let probes: Vec<u64> = (0..20).map(|_| gen_hash(s)).collect();
    c.describe(|| format!("{blocks} blocks, {hashes:x?} {probes:x?}"));
    c.nontrivial(n > 1 && blocks > 4096);
    c.label_if(!blocks.is_power_of_two(), "blocks not a power of two");
    let mut set = vec![0u8; 32 * blocks];
    let mut want = set.clone();
    for h in &hashes {
        no_panic(|| bloom_filter::insert(&mut set, *h))?;
        model_insert(&mut want, *h);
    }
    ensure!(set == want, "insert", "{blocks} blocks");
    for h in hashes.iter().chain(&probes) {
        let has = no_panic(|| bloom_filter::is_in_set(&set, *h))?;
        ensure_eq!(has, model_contains(&want, *h), "contains", "{h:x}");
    }
    Ok(())
}
fn p31_file(c: &mut Case) -> R {
    let s = &mut c.s;
    let n = s.size(30);
    let values: Vec<(u64, Vec<u8>)> = (0..n).map(|_| gen_hashed(s)).collect();
    let blocks = gen_blocks(s);
    let mut set = vec![0u8; 32 * blocks];
    for (_, v) in &values {
        model_insert(&mut set, refimpl::xxh64(v));
    }
    let before = if s.chance(1, 8) { 60_000 + s.size(10_000) } else { s.size(300) };
    let mut bytes = s.bytes(before);
    bytes.extend(bloom_header(set.len() as i32));
    bytes.extend(&set);
    let after = s.size(100);
    bytes.extend(s.bytes(after));
    let column = bloom_column(Some(before as i64));
    let stale = s.size(3000);
    let mut got = vec![0xa5u8; stale];
    let plan = Plan::gen(s);
    c.describe(|| format!("{} values in {blocks} blocks at {before} of {} bytes {plan:?}", values.len(), bytes.len()));
    c.nontrivial(n > 0);
    let mut src = Source::new(&bytes, plan);
    src.pos = c.s.below(bytes.len()) as u64;
    no_panic(|| bloom_filter::read(&column, &mut src, &mut got))??;
    ensure_eq!(got, set, "read");
    for (h, v) in &values {
        ensure!(bloom_filter::is_in_set(&got, *h), "denied-read", "{v:?}");
    }
    // twice with the same buffer, and an absent one
    no_panic(|| bloom_filter::read(&column, &mut src, &mut got))??;
    ensure_eq!(got, set, "read-again");
    no_panic(|| bloom_filter::read(&bloom_column(None), &mut src, &mut got))??;
    ensure!(got.is_empty(), "absent", "an absent filter reads as {} bytes", got.len());
    Ok(())
}
fn p31_damaged(c: &mut Case) -> R {
    let s = &mut c.s;
    let f = gen_bloom_file(s);
    let mut got = s.bytes(7);
    let kind = s.below(7);
    c.describe(|| format!("kind {kind} {:?}", f.bytes));
    let s = &mut c.s;
    let end = f.at + f.header_len + f.bitset.len();
    let (bytes, column) = match kind {
        0 => (f.bytes[..f.at + s.below(end - f.at)].to_vec(), f.column),
        1 => {
            let n = f.bytes.len() as i64;
            let at = if s.coin() { n + s.below(10) as i64 } else { i64::MAX - s.below(10) as i64 };
            (f.bytes, bloom_column(Some(at)))
        }
        2 => (f.bytes, bloom_column(Some(-1 - nat(s)))),
        3 | 4 => {
            // a size that is not one
            let n = match s.below(3) {
                0 => -1 - (nat(s) as i32 & i32::MAX),
                1 => f.bitset.len() as i32 - 1 - s.below(31) as i32,
                _ => -32 * (1 + s.below(1000) as i32),
            };
            let mut b = f.bytes[..f.at].to_vec();
            b.extend(bloom_header(n));
            b.extend(&f.bitset);
            (b, f.column)
        }
        5 => {
            // declares more than there is
            let n = 32 * ((f.bytes.len() / 32 + 1 + s.below(60_000_000)) as i32);
            let mut b = f.bytes[..f.at].to_vec();
            b.extend(bloom_header(n));
            b.extend(&f.bitset);
            (b, f.column)
        }
        _ => {
            // anything: no panic
            let mut b = f.bytes.clone();
            let k = 1 + s.below(3);
            for _ in 0..k {
                let i = f.at + s.below(f.header_len);
                b[i] = s.below(256) as u8;
            }
            c.nontrivial(true);
            let (r, peak) = peak_during(|| no_panic(|| bloom_filter::read(&f.column, &mut Cursor::new(&b), &mut got)));
            ensure!(peak < (4 << 20), "memory", "{peak} bytes allocated for a file of {}", b.len());
            if r?.is_ok() {
                ensure!(got.len() % 32 == 0 && got.len() <= b.len(), "garbage", "a bitset of {} bytes from a file of {}", got.len(), b.len());
            }
            return Ok(());
        }
    };
    c.nontrivial(true);
    let plan = Plan::gen(&mut c.s);
    let (r, peak) = peak_during(|| no_panic(|| bloom_filter::read(&column, &mut Source::new(&bytes, plan), &mut got)));
    ensure!(r?.is_err(), "damaged-accepted", "kind {kind}: a damaged filter is accepted");
    ensure!(peak < (4 << 20), "memory", "{peak} bytes allocated for a file of {}", bytes.len());
    Ok(())
}

// ------------------------------------------------------------------ P33
fn through<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> Result<Vec<T>, Fail> {
    let err = |e: String| Fail::new("serde", e);
    let text = no_panic(|| serde_json::to_string(x))?.map_err(|e| err(format!("to JSON: {e}")))?;
    let a = match no_panic(|| serde_json::from_str(&text))? {
        Ok(a) => Some(a),
        // serde_json does not read texts nested by more than 127
        Err(e) if e.to_string().starts_with("recursion limit exceeded") => None,
        Err(e) => return Err(err(format!("from JSON: {e}: {:?}", clip(&text)))),
    };
    let value = no_panic(|| serde_json::to_value(x))?.map_err(|e| err(format!("to a JSON value: {e}")))?;
    let b = no_panic(|| serde_json::from_value(value))?.map_err(|e| err(format!("from a JSON value: {e}")))?;
    let bin = no_panic(|| bincode::serialize(x))?.map_err(|e| err(format!("to bincode: {e}")))?;
    let d = no_panic(|| bincode::deserialize(&bin))?.map_err(|e| err(format!("from bincode: {e}")))?;
    let e = no_panic(|| bincode::deserialize_from(&bin[..]))?.map_err(|e| err(format!("from a bincode reader: {e}")))?;
    Ok(a.into_iter().chain([b, d, e]).collect())
}
fn kept<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + Debug>(x: &T) -> R {
    for y in through(x)? {
        ensure_eq!(&y, x, "not-kept");
    }
    Ok(())
}
fn kept_debug<T: serde::Serialize + serde::de::DeserializeOwned + Debug>(x: &T) -> R {
    for y in through(x)? {
        ensure_eq!(format!("{y:?}"), format!("{x:?}"), "not-kept");
    }
    Ok(())
}
fn depth(f: &[ParquetType]) -> usize {
    f.iter()
        .map(|t| match t {
            ParquetType::GroupType { fields, .. } => 1 + depth(fields),
            _ => 1,
        })
        .max()
        .unwrap_or(0)
}
fn p33_types(c: &mut Case) -> R {
    let (name, fields) = gen_any_schema(&mut c.s, &mut vec![]);
    if depth(&fields) > 150 {
        return Ok(());
    }
    c.describe(|| format!("{name:?} {fields:?}"));
    c.nontrivial(fields.len() > 1 || depth(&fields) > 1);
    for f in &fields {
        kept(f)?;
        kept(f.get_field_info())?;
    }
    let d = SchemaDescriptor::new(name, fields.clone());
    kept_debug(&d)?;
    for x in through(&d)? {
        ensure_eq!(x.name(), d.name(), "schema");
        ensure_eq!(x.fields(), d.fields(), "schema");
        ensure_eq!(x.columns(), d.columns(), "schema");
    }
    for col in d.columns().iter().take(20) {
        kept::<ColumnDescriptor>(col)?;
        kept::<Descriptor>(&col.descriptor)?;
        let t = &col.descriptor.primitive_type;
        kept(t)?;
        kept(&t.physical_type)?;
        kept(&t.logical_type)?;
        kept(&t.converted_type)?;
        kept(&ColumnOrder::TypeDefinedOrder(model_order(t)))?;
        kept(&model_order(t))?;
    }
    Ok(())
}
fn p33_small(c: &mut Case) -> R {
    let s = &mut c.s;
    kept(&s.pick(&[Repetition::Required, Repetition::Optional, Repetition::Repeated]))?;
    kept(&s.pick(&[ColumnOrder::Undefined, ColumnOrder::TypeDefinedOrder(SortOrder::Undefined), ColumnOrder::TypeDefinedOrder(SortOrder::Signed)]))?;
    use parquet2::compression::Compression as K;
    kept(&s.pick(&[K::Uncompressed, K::Snappy, K::Gzip, K::Lzo, K::Brotli, K::Lz4, K::Zstd, K::Lz4Raw]))?;
    kept(&s.pick(&[GroupLogicalType::Map, GroupLogicalType::List]))?;
    kept(&s.pick(&[GroupConvertedType::Map, GroupConvertedType::List, GroupConvertedType::MapKeyValue]))?;
    kept(&gen_unit(s))?;
    let p = gen_physical(s);
    kept(&p)?;
    let (conv, logical) = gen_annotations(s, p);
    kept(&conv)?;
    kept(&logical)?;
    kept(&PrimitiveType { field_info: FieldInfo { name: gen_name(s), repetition: Repetition::Optional, id: opt(s, |s| s.i32_any()) }, converted_type: conv, logical_type: logical, physical_type: p })?;
    // row selections
    let total = if s.coin() { s.size(200) } else { s.u64_any() as usize & (usize::MAX >> 1) };
    let iv: Vec<Interval> = if total < 1000 { gen_intervals(s, total) } else { vec![Interval::new(s.below64(total as u64) as usize, 1)] };
    kept(&iv)?;
    let fp = FilteredPage { start: s.u64_any(), length: s.u64_any() as usize, selected_rows: iv.clone(), num_rows: s.u64_any() as usize };
    kept_debug(&fp)?;
    for x in through(&fp)? {
        ensure_eq!((x.start, x.length, &x.selected_rows, x.num_rows), (fp.start, fp.length, &fp.selected_rows, fp.num_rows), "filtered-page");
    }
    c.describe(|| format!("{fp:?} {conv:?} {logical:?} {p:?}"));
    c.nontrivial(!iv.is_empty());
    Ok(())
}
fn same_group(x: &RowGroupMetaData, y: &RowGroupMetaData) -> R {
    ensure_eq!((x.num_rows(), x.total_byte_size(), x.compressed_size()), (y.num_rows(), y.total_byte_size(), y.compressed_size()), "group");
    ensure_eq!(x.columns().len(), y.columns().len(), "group");
    for (a, b) in x.columns().iter().zip(y.columns()) {
        ensure_eq!(a.column_chunk(), b.column_chunk(), "chunk");
        ensure_eq!(a.descriptor(), b.descriptor(), "descriptor");
    }
    Ok(())
}
fn p33_metadata(c: &mut Case) -> R {
    let m = gen_thrift_metadata(&mut c.s, 2);
    if m.t.schema.len() > 60 || depth(&m.fields) > 150 {
        return Ok(());
    }
    c.describe(|| format!("{:?}", clip(&m.t)));
    c.nontrivial(!m.t.row_groups.is_empty());
    let md = FileMetaData::try_from_thrift(m.t)?;
    for g in &md.row_groups {
        for x in through(g)? {
            same_group(&x, g)?;
        }
        if let Some(col) = g.columns().first() {
            kept_debug::<ColumnChunkMetaData>(col)?;
        }
    }
    kept(&md.column_orders)
}
fn p33_file(c: &mut Case) -> R {
    let f = gen_file(&mut c.s, &FileOpts { max_rows: 60, max_groups: 2, ..FileOpts::default() });
    let bytes = write_vec(&f)?;
    label_file(c, &f);
    c.describe(|| describe_file(&f));
    c.nontrivial(f.groups.iter().any(|g| g.0 > 0));
    let md = read_metadata(&mut Cursor::new(&bytes))?;
    for (g, m) in md.row_groups.iter().zip(&f.groups) {
        let mut all = through(g)?;
        let pick = c.s.below(all.len());
        let x = all.swap_remove(pick);
        same_group(&x, g)?;
        for (k, col) in x.columns().iter().enumerate() {
            let way = c.s.below(3);
            let got = read_chunk(&mut c.s, &bytes, col, way, 100_000)?;
            check_got(&got, &expected(&m.1[k], &f.schema.columns()[k].descriptor)?, "pages by the deserialized column chunk")?;
            match (col.statistics(), g.columns()[k].statistics()) {
                (None, None) => {}
                (Some(a), Some(b)) => ensure_eq!(format!("{:?}", a?), format!("{:?}", b?), "statistics"),
                _ => fail!("statistics", "the statistics of a column chunk appear or are lost"),
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P34
fn native<T: NativeType + PartialEq>(a: T, b: T, bytes: &[u8], want: Ordering, ty: PhysicalType) -> R {
    let e = no_panic(|| a.to_le_bytes())?;
    ensure_eq!(e.as_ref(), bytes, "encoding", "{a:?}");
    let back = T::from_le_bytes(e);
    let back = back.to_le_bytes();
    ensure_eq!(back.as_ref(), bytes, "decoding", "{a:?}");
    let dec = decode::<T>(bytes).to_le_bytes();
    ensure_eq!(dec.as_ref(), bytes, "decode", "{a:?}");
    ensure_eq!(T::TYPE, ty, "type");
    ensure_eq!(no_panic(|| a.ord(&b))?, want, "order", "{a:?} {b:?}");
    ensure_eq!(no_panic(|| b.ord(&a))?, want.reverse(), "order", "{b:?} {a:?}");
    ensure_eq!(no_panic(|| a.ord(&a))?, Ordering::Equal, "order", "{a:?}");
    Ok(())
}
fn gen_float(s: &mut Src) -> f64 {
    match s.below(5) {
        0 => s.pick(&[0.0, -0.0, 1.0, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN]),
        1 => s.below(10) as f64 - 5.0,
        _ => f64::from_bits(s.u64_any()),
    }
}
fn gen_float32(s: &mut Src) -> f32 {
    match s.below(5) {
        0 => s.pick(&[0.0, -0.0, 1.0, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, 1e-45, f32::MAX, f32::MIN]),
        1 => s.below(10) as f32 - 5.0,
        _ => f32::from_bits(s.i32_any() as u32),
    }
}
/// a timestamp: nanoseconds of a Julian day, which may exceed a day
fn gen_int96(s: &mut Src) -> [u32; 3] {
    let day = match s.below(5) {
        0 => s.i32_any() as u32,
        1 => 2_440_588u32.wrapping_add(s.below(5) as u32).wrapping_sub(2),
        2 => s.pick(&[0, 1, u32::MAX, i32::MAX as u32, i32::MIN as u32]),
        // the limits of 64 bits
        3 => (2_440_588i64 + (s.pick(&[-1i64, 1]) * (106_751 + s.below(3) as i64 - 1))) as u32,
        _ => 2_400_000 + s.below(100_000) as u32,
    };
    let ns = match s.below(4) {
        0 => s.u64_any() >> 2,
        1 => s.below(3) as u64,
        2 => 86_400_000_000_000 - 1 - s.below(3) as u64,
        _ => s.below64(86_400_000_000_000),
    };
    [ns as u32, (ns >> 32) as u32, day]
}
fn model_ns(v: [u32; 3]) -> i128 {
    (v[2] as i128 - 2_440_588) * 86_400_000_000_000 + ((v[1] as i128) << 32 | v[0] as i128)
}
fn p34_native(c: &mut Case) -> R {
    let s = &mut c.s;
    let near = |s: &mut Src, a: i64| {
        if s.coin() {
            a.wrapping_add(s.below(3) as i64 - 1)
        } else {
            s.i64_any()
        }
    };
    let a = s.i64_any();
    let b = near(s, a);
    native(a, b, &(a as u64).to_le_bytes(), a.cmp(&b), PhysicalType::Int64)?;
    let a = s.i32_any();
    let b = near(s, a as i64) as i32;
    native(a, b, &(a as u32).to_le_bytes(), a.cmp(&b), PhysicalType::Int32)?;
    let a = gen_float(s);
    let b = if s.chance(1, 4) { -a } else { gen_float(s) };
    let o = |x: bool, y: bool| if x { Ordering::Less } else if y { Ordering::Greater } else { Ordering::Equal };
    native(a, b, &a.to_bits().to_le_bytes(), o(a < b, a > b), PhysicalType::Double)?;
    let a = gen_float32(s);
    let b = if s.chance(1, 4) { -a } else { gen_float32(s) };
    native(a, b, &a.to_bits().to_le_bytes(), o(a < b, a > b), PhysicalType::Float)?;
    let n = s.size(6);
    let x = s.bytes(n);
    let y = if s.coin() {
        x[..s.below(n + 1)].to_vec()
    } else {
        let n = s.size(6);
        s.bytes(n)
    };
    let first = x.iter().zip(&y).find(|(a, b)| a != b);
    let want = match first {
        Some((a, b)) if a < b => Ordering::Less,
        Some(_) => Ordering::Greater,
        None => x.len().cmp(&y.len()),
    };
    ensure_eq!(ord_binary(&x, &y), want, "order-binary", "{x:?} {y:?}");
    ensure_eq!(ord_binary(&y, &x), want.reverse(), "order-binary", "{y:?} {x:?}");
    c.describe(|| format!("{a} {b} {x:?} {y:?}"));
    c.nontrivial(true);
    Ok(())
}
fn p34_int96(c: &mut Case) -> R {
    let s = &mut c.s;
    let a = gen_int96(s);
    let b = match s.below(3) {
        0 => gen_int96(s),
        1 => [a[0].wrapping_add(1), a[1], a[2]],
        // the same instant a day apart
        _ => {
            let ns = ((a[1] as u64) << 32 | a[0] as u64).wrapping_add(86_400_000_000_000) & (u64::MAX >> 1);
            [ns as u32, (ns >> 32) as u32, a[2].wrapping_sub(1)]
        }
    };
    c.describe(|| format!("{a:?} {b:?}"));
    let want = model_ns(a);
    c.label_if(want != want.clamp(i64::MIN as i128, i64::MAX as i128), "beyond 64 bits");
    c.label_if(model_ns(b) == want, "equal instants");
    c.nontrivial(want != 0);
    let got = no_panic(|| int96_to_i64_ns(a))?;
    ensure_eq!(got as i128, want.clamp(i64::MIN as i128, i64::MAX as i128), "int96", "{a:?}");
    // a number of nanoseconds that is not one
    let wild = [c.s.i32_any() as u32, c.s.i32_any() as u32, c.s.i32_any() as u32];
    no_panic(|| (int96_to_i64_ns(wild), wild.ord(&a), a.ord(&wild)))?;
    let bytes: Vec<u8> = a.iter().flat_map(|x| x.to_le_bytes()).collect();
    native(a, b, &bytes, want.cmp(&model_ns(b)), PhysicalType::Int96)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P30",
            rule: "a case is non-trivial when there are row groups or column orders, or the footer exceeds 65000 bytes (convert, sidecar), the file has rows (file), or always (reject)",
            assumptions: &[
                "the hints of a row group that are not kept (sorting columns, ordinal) or recomputed (offset, compressed size) are not part of it",
                "a list of column orders has one order for each column",
            ],
            parts: vec![
                Part { name: "convert", f: p30_convert, quick: 20_000, thorough: 1_000_000 },
                Part { name: "sidecar", f: p30_sidecar, quick: 10_000, thorough: 500_000 },
                Part { name: "file", f: p30_file, quick: 4_000, thorough: 200_000 },
                Part { name: "reject", f: p30_reject, quick: 20_000, thorough: 1_000_000 },
            ],
        },
        Prop {
            id: "P31",
            rule: "a case is non-trivial when several values are inserted in several blocks (set), a value is not empty (hash), values are stored (file), or always (damaged)",
            assumptions: &["bitsets are made of whole blocks of 32 bytes, or have none"],
            parts: vec![
                Part { name: "hash", f: p31_hash, quick: 800000, thorough: 10000000 },
                Part { name: "set", f: p31_set, quick: 400000, thorough: 5000000 },
                Part { name: "large", f: p31_large, quick: 600, thorough: 20_000 },
                Part { name: "file", f: p31_file, quick: 200000, thorough: 2000000 },
                Part { name: "damaged", f: p31_damaged, quick: 200000, thorough: 2000000 },
            ],
        },
        Prop {
            id: "P33",
            rule: "a case is non-trivial when the schema has several fields or a group (types), rows are selected (small), there are row groups (metadata) or rows (file)",
            assumptions: &["schemas nested deeper than 30 groups are left out: readers of JSON stop at 128 nestings of its own"],
            parts: vec![
                Part { name: "types", f: p33_types, quick: 30000, thorough: 500000 },
                Part { name: "small", f: p33_small, quick: 150000, thorough: 2000000 },
                Part { name: "metadata", f: p33_metadata, quick: 15000, thorough: 200000 },
                Part { name: "file", f: p33_file, quick: 9000, thorough: 100000 },
            ],
        },
        Prop {
            id: "P34",
            rule: "a case is non-trivial when the timestamp is not the epoch (int96), or always (native)",
            assumptions: &["values of floats that are not ordered (NaN) compare as equal", "a timestamp holds fewer than 2^62 nanoseconds of its day"],
            parts: vec![
                Part { name: "native", f: p34_native, quick: 6000000, thorough: 50000000 },
                Part { name: "int96", f: p34_int96, quick: 6000000, thorough: 50000000 },
            ],
        },
    ]
}

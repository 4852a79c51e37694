//! P07: corrupt and hostile files.
use super::enc::mutate;
use super::fault::thrift_bytes;
use super::file::*;
use super::robust::walk_page;
use crate::engine::*;
use crate::gen::*;
use crate::src::Src;
use crate::ensure;
use futures::StreamExt;
use parquet2::compression::Compression;
use parquet2::deserialize::{BinaryPageState, FixedLenBinaryPageState, NativePageState};
use parquet2::error::Error;
use parquet2::indexes::{compute_rows, select_pages, FilteredPage, Interval};
use parquet2::metadata::{ColumnChunkMetaData, FileMetaData};
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::ParquetType;
use parquet_format_safe as tf;
use parquet_format_safe::FileMetaData as TFile;
use std::io::Cursor;

// ------------------------------------------------------------------ hostile numbers
fn h64(s: &mut Src, real: i64, len: usize) -> i64 {
    match s.below(8) {
        0 => real.wrapping_add(s.pick(&[1i64, -1, 4, -4, 8, 100])),
        1 => s.pick(&[0i64, 1, -1, 2, i64::MAX, i64::MIN, i64::MAX - 1, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64]),
        2 => s.below(len + 8) as i64,
        3 => -(s.below(len + 8) as i64),
        4 => len as i64 - s.below(12) as i64,
        5 => real.wrapping_mul(s.pick(&[2i64, -1, 1 << 20, 1 << 32])),
        _ => s.i64_any(),
    }
}
fn h32(s: &mut Src, real: i32) -> i32 {
    match s.below(6) {
        0 => real.wrapping_add(s.pick(&[1i32, -1, 4, -4, 8, 100])),
        1 => s.pick(&[0, 1, -1, 2, i32::MAX, i32::MIN, i32::MAX - 1, 255, 256, -128, 32767, 32768, 65536]),
        2 => s.below(200) as i32,
        3 => real.wrapping_mul(s.pick(&[2, -1, 1 << 16])),
        _ => s.i32_any(),
    }
}
/// like an enumeration's number: mostly small
fn code(s: &mut Src) -> i32 {
    match s.below(4) {
        0 => s.i32_any(),
        1 => -(s.below(3) as i32),
        _ => s.below(24) as i32,
    }
}
fn opt<T>(s: &mut Src, f: impl FnOnce(&mut Src) -> T) -> Option<T> {
    if s.chance(1, 4) {
        None
    } else {
        Some(f(s))
    }
}
fn h_stats(s: &mut Src) -> tf::Statistics {
    let b = |s: &mut Src| {
        opt(s, |s| {
            let n = s.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 16, 100]);
            s.bytes(n)
        })
    };
    let (max, min, max_value, min_value) = (b(s), b(s), b(s), b(s));
    tf::Statistics { max, min, null_count: opt(s, |s| s.i64_any()), distinct_count: opt(s, |s| s.i64_any()), max_value, min_value }
}
fn h_logical(s: &mut Src) -> tf::LogicalType {
    use tf::LogicalType::*;
    let unit = |s: &mut Src| match s.below(3) {
        0 => tf::TimeUnit::MILLIS(tf::MilliSeconds {}),
        1 => tf::TimeUnit::MICROS(tf::MicroSeconds {}),
        _ => tf::TimeUnit::NANOS(tf::NanoSeconds {}),
    };
    match s.below(13) {
        0 => STRING(tf::StringType {}),
        1 => MAP(tf::MapType {}),
        2 => LIST(tf::ListType {}),
        3 => ENUM(tf::EnumType {}),
        4 => DECIMAL(tf::DecimalType { scale: h32(s, 2), precision: h32(s, 9) }),
        5 => DATE(tf::DateType {}),
        6 => TIME(tf::TimeType { is_adjusted_to_u_t_c: s.coin(), unit: unit(s) }),
        7 => TIMESTAMP(tf::TimestampType { is_adjusted_to_u_t_c: s.coin(), unit: unit(s) }),
        8 => INTEGER(tf::IntType { bit_width: h32(s, 8) as i8, is_signed: s.coin() }),
        9 => UNKNOWN(tf::NullType {}),
        10 => JSON(tf::JsonType {}),
        11 => BSON(tf::BsonType {}),
        _ => UUID(tf::UUIDType {}),
    }
}
fn element(name: &str, children: Option<i32>) -> tf::SchemaElement {
    tf::SchemaElement {
        type_: if children.is_some() { None } else { Some(tf::Type(1)) },
        type_length: None,
        repetition_type: Some(tf::FieldRepetitionType(0)),
        name: name.to_string(),
        num_children: children,
        converted_type: None,
        scale: None,
        precision: None,
        field_id: None,
        logical_type: None,
    }
}
/// a chunk as bland as possible
fn bland_chunk(at: i64) -> tf::ColumnChunk {
    tf::ColumnChunk {
        file_path: None,
        file_offset: 0,
        meta_data: Some(tf::ColumnMetaData {
            type_: tf::Type(1),
            encodings: vec![],
            path_in_schema: vec![],
            codec: tf::CompressionCodec(0),
            num_values: 1,
            total_uncompressed_size: 0,
            total_compressed_size: 0,
            key_value_metadata: None,
            data_page_offset: at,
            index_page_offset: None,
            dictionary_page_offset: None,
            statistics: None,
            encoding_stats: None,
            bloom_filter_offset: None,
        }),
        offset_index_offset: None,
        offset_index_length: None,
        column_index_offset: None,
        column_index_length: None,
        crypto_metadata: None,
        encrypted_column_metadata: None,
    }
}

// ------------------------------------------------------------------ mutations of the footer
fn mutate_schema(s: &mut Src, t: &mut TFile) -> &'static str {
    let n = t.schema.len();
    if n == 0 {
        t.schema.push(element("r", Some(0)));
        return "schema: new root";
    }
    let i = if s.chance(1, 5) { 0 } else { s.below(n) };
    match s.below(12) {
        0 => {
            let real = t.schema[i].num_children.unwrap_or(0);
            t.schema[i].num_children = opt(s, |s| h32(s, real));
            "schema: number of children"
        }
        1 => {
            t.schema[i].type_ = opt(s, |s| tf::Type(code(s)));
            "schema: type"
        }
        2 => {
            t.schema[i].repetition_type = opt(s, |s| tf::FieldRepetitionType(code(s)));
            "schema: repetition"
        }
        3 => {
            t.schema[i].converted_type = opt(s, |s| tf::ConvertedType(code(s)));
            if s.coin() {
                t.schema[i].precision = opt(s, |s| h32(s, 9));
                t.schema[i].scale = opt(s, |s| h32(s, 2));
            }
            "schema: converted type"
        }
        4 => {
            t.schema[i].logical_type = opt(s, h_logical);
            "schema: logical type"
        }
        5 => {
            t.schema[i].type_ = Some(tf::Type(7));
            t.schema[i].type_length = opt(s, |s| h32(s, 12));
            if s.coin() {
                t.schema[i].converted_type = Some(tf::ConvertedType(5));
                t.schema[i].precision = Some(h32(s, 9));
                t.schema[i].scale = Some(h32(s, 2));
            }
            if s.coin() {
                t.schema[i].logical_type = Some(h_logical(s));
            }
            "schema: fixed length"
        }
        6 => {
            t.schema.remove(i);
            "schema: element removed"
        }
        7 => {
            let e = t.schema[i].clone();
            t.schema.insert(s.below(n + 1), e);
            "schema: element repeated"
        }
        8 => {
            let j = s.below(n);
            t.schema.swap(i, j);
            "schema: elements swapped"
        }
        9 => {
            t.schema.truncate(i);
            "schema: cut"
        }
        10 => {
            t.schema[i].name = s.pick(&["", "a.b", "\u{0}", "x\u{301}\u{1F600}", "\n"]).to_string();
            "schema: name"
        }
        _ => {
            t.column_orders = opt(s, |s| {
                let k = s.size(2 * n);
                vec![tf::ColumnOrder::TYPEORDER(tf::TypeDefinedOrder {}); k]
            });
            "column orders"
        }
    }
}
fn mutate_group(s: &mut Src, t: &mut TFile, len: usize) -> &'static str {
    let n = t.row_groups.len();
    if n == 0 {
        t.num_rows = h64(s, t.num_rows, len);
        return "number of rows";
    }
    let g = s.below(n);
    let rg = &mut t.row_groups[g];
    match s.below(9) {
        0 => {
            rg.num_rows = h64(s, rg.num_rows, len);
            "group: rows"
        }
        1 => {
            rg.total_byte_size = h64(s, rg.total_byte_size, len);
            "group: bytes"
        }
        2 => {
            rg.total_compressed_size = opt(s, |s| h64(s, 0, len));
            rg.file_offset = opt(s, |s| h64(s, 0, len));
            rg.ordinal = opt(s, |s| h32(s, 0) as i16);
            "group: position"
        }
        3 if !rg.columns.is_empty() => {
            let i = s.below(rg.columns.len());
            rg.columns.remove(i);
            "group: column removed"
        }
        4 if !rg.columns.is_empty() => {
            let i = s.below(rg.columns.len());
            let x = rg.columns[i].clone();
            rg.columns.insert(i, x);
            "group: column repeated"
        }
        5 if !rg.columns.is_empty() => {
            let (i, j) = (s.below(rg.columns.len()), s.below(rg.columns.len()));
            rg.columns.swap(i, j);
            "group: columns swapped"
        }
        6 => {
            t.num_rows = h64(s, t.num_rows, len);
            "number of rows"
        }
        7 => {
            rg.sorting_columns = opt(s, |s| vec![tf::SortingColumn { column_idx: h32(s, 0), descending: s.coin(), nulls_first: s.coin() }]);
            "group: sorting"
        }
        _ => {
            let x = t.row_groups[g].clone();
            t.row_groups.push(x);
            "group repeated"
        }
    }
}
fn mutate_column(s: &mut Src, t: &mut TFile, len: usize) -> &'static str {
    let n = t.row_groups.len();
    if n == 0 || t.row_groups[0].columns.is_empty() {
        return mutate_group(s, t, len);
    }
    let rg = &mut t.row_groups[s.below(n)];
    if rg.columns.is_empty() {
        return "nothing";
    }
    let i = s.below(rg.columns.len());
    let cc = &mut rg.columns[i];
    if s.chance(1, 3) {
        return match s.below(6) {
            0 => {
                cc.column_index_offset = opt(s, |s| h64(s, 4, len));
                "column index offset"
            }
            1 => {
                let l = cc.column_index_length.unwrap_or(0);
                cc.column_index_length = opt(s, |s| h32(s, l));
                "column index length"
            }
            2 => {
                cc.offset_index_offset = opt(s, |s| h64(s, 4, len));
                "offset index offset"
            }
            3 => {
                let l = cc.offset_index_length.unwrap_or(0);
                cc.offset_index_length = opt(s, |s| h32(s, l));
                "offset index length"
            }
            4 => {
                cc.meta_data = None;
                "column without metadata"
            }
            _ => {
                cc.file_offset = h64(s, 0, len);
                cc.file_path = opt(s, |s| gen_name(s));
                "column file"
            }
        };
    }
    let Some(m) = cc.meta_data.as_mut() else { return "nothing" };
    match s.below(12) {
        0 => {
            m.type_ = tf::Type(code(s));
            "column type"
        }
        1 => {
            m.codec = tf::CompressionCodec(if s.coin() { s.below(8) as i32 } else { code(s) });
            "codec"
        }
        2 | 3 => {
            m.num_values = h64(s, m.num_values, len);
            "number of values"
        }
        4 => {
            m.total_compressed_size = h64(s, m.total_compressed_size, len);
            "compressed size"
        }
        5 => {
            m.total_uncompressed_size = h64(s, m.total_uncompressed_size, len);
            "uncompressed size"
        }
        6 => {
            m.data_page_offset = h64(s, m.data_page_offset, len);
            "data page offset"
        }
        7 => {
            let real = m.data_page_offset;
            m.dictionary_page_offset = opt(s, |s| h64(s, real, len));
            "dictionary offset"
        }
        8 => {
            m.bloom_filter_offset = Some(h64(s, 4, len));
            "bloom filter offset"
        }
        9 => {
            m.index_page_offset = opt(s, |s| h64(s, 4, len));
            m.encodings = (0..s.below(4)).map(|_| tf::Encoding(code(s))).collect();
            "encodings"
        }
        10 => {
            m.path_in_schema = (0..s.below(4)).map(|_| gen_name(s)).collect();
            "path"
        }
        _ => {
            m.statistics = opt(s, h_stats);
            "statistics"
        }
    }
}

// ------------------------------------------------------------------ mutations of pages
fn mutate_page_header(s: &mut Src, h: &mut tf::PageHeader, len: usize) -> &'static str {
    match s.below(9) {
        0 => {
            h.type_ = tf::PageType(code(s));
            "page type"
        }
        1 => {
            h.compressed_page_size = if s.coin() { h32(s, h.compressed_page_size) } else { len as i32 - s.below(10) as i32 };
            "page size"
        }
        2 => {
            h.uncompressed_page_size = if s.coin() { h32(s, h.uncompressed_page_size) } else { h.uncompressed_page_size.wrapping_add(s.pick(&[1, -1, 2, -2, 9, -9])) };
            "uncompressed page size"
        }
        3 => {
            if s.coin() {
                h.data_page_header = opt(s, |s| tf::DataPageHeader { num_values: h32(s, 5), encoding: tf::Encoding(code(s)), definition_level_encoding: tf::Encoding(code(s)), repetition_level_encoding: tf::Encoding(code(s)), statistics: None });
            } else {
                h.data_page_header_v2 = opt(s, |s| tf::DataPageHeaderV2 {
                    num_values: h32(s, 5),
                    num_nulls: h32(s, 0),
                    num_rows: h32(s, 5),
                    encoding: tf::Encoding(code(s)),
                    definition_levels_byte_length: h32(s, 4),
                    repetition_levels_byte_length: h32(s, 4),
                    is_compressed: opt(s, |s| s.coin()),
                    statistics: None,
                });
            }
            "other page headers"
        }
        _ => {
            if let Some(d) = h.data_page_header.as_mut() {
                match s.below(5) {
                    0 => d.num_values = h32(s, d.num_values),
                    1 => d.encoding = tf::Encoding(code(s)),
                    2 => d.definition_level_encoding = tf::Encoding(code(s)),
                    3 => d.repetition_level_encoding = tf::Encoding(code(s)),
                    _ => d.statistics = opt(s, h_stats),
                }
                "V1 header"
            } else if let Some(d) = h.data_page_header_v2.as_mut() {
                match s.below(8) {
                    0 => d.num_values = h32(s, d.num_values),
                    1 => d.num_nulls = h32(s, d.num_nulls),
                    2 => d.num_rows = h32(s, d.num_rows),
                    3 => d.encoding = tf::Encoding(code(s)),
                    4 => d.definition_levels_byte_length = h32(s, d.definition_levels_byte_length),
                    5 => d.repetition_levels_byte_length = h32(s, d.repetition_levels_byte_length),
                    6 => d.is_compressed = opt(s, |s| s.coin()),
                    _ => d.statistics = opt(s, h_stats),
                }
                "V2 header"
            } else if let Some(d) = h.dictionary_page_header.as_mut() {
                match s.below(4) {
                    0 | 1 => d.num_values = h32(s, d.num_values),
                    2 => d.encoding = tf::Encoding(code(s)),
                    _ => h.dictionary_page_header = None,
                }
                "dictionary header"
            } else {
                h.crc = opt(s, |s| s.i32_any());
                "crc"
            }
        }
    }
}
/// the pages of a chunk: header and stored content
fn split_pages(b: &[u8]) -> Vec<(tf::PageHeader, Vec<u8>)> {
    let mut v = vec![];
    let mut at = 0;
    while at < b.len() {
        let Ok((h, n)) = page_header(&b[at..]) else { break };
        let size = h.compressed_page_size.max(0) as usize;
        let end = (at + n + size).min(b.len());
        v.push((h, b[at + n..end].to_vec()));
        at = end;
    }
    v
}
/// rewrites a chunk with altered pages at the end of `out` and points the metadata there
fn mutate_chunk(s: &mut Src, bytes: &[u8], t: &mut TFile, out: &mut Vec<u8>) -> &'static str {
    let n = t.row_groups.len();
    if n == 0 {
        return "nothing";
    }
    let g = s.below(n);
    if t.row_groups[g].columns.is_empty() {
        return "nothing";
    }
    let i = s.below(t.row_groups[g].columns.len());
    let cc = &mut t.row_groups[g].columns[i];
    let Some(m) = cc.meta_data.as_mut() else { return "nothing" };
    let start = m.dictionary_page_offset.unwrap_or(m.data_page_offset);
    let (Ok(a), Ok(l)) = (usize::try_from(start), usize::try_from(m.total_compressed_size)) else { return "nothing" };
    let Some(chunk) = bytes.get(a..a.saturating_add(l)) else { return "nothing" };
    let mut pages = split_pages(chunk);
    if pages.is_empty() {
        return "nothing";
    }
    let dict = m.dictionary_page_offset.is_some();
    let k = s.below(pages.len());
    let mut w = "page content";
    match s.below(6) {
        0 | 1 => w = mutate_page_header(s, &mut pages[k].0, bytes.len()),
        2 => {
            let b = &mut pages[k].1;
            mutate(s, b);
            // an honest size, so that the content itself is looked at
            pages[k].0.compressed_page_size = pages[k].1.len() as i32;
            if s.coin() && m.codec.0 == 0 {
                pages[k].0.uncompressed_page_size = pages[k].1.len() as i32;
            }
        }
        3 => {
            mutate_page_header(s, &mut pages[k].0, bytes.len());
            let b = &mut pages[k].1;
            mutate(s, b);
            w = "page header and content";
        }
        4 => {
            let p = pages[k].clone();
            let times = s.size1(300);
            for _ in 0..times {
                pages.insert(k, p.clone());
            }
            if s.coin() {
                // so that all of them are delivered
                m.num_values = i64::MAX >> s.below(4);
            }
            w = "pages repeated";
        }
        _ => {
            let j = s.below(pages.len());
            pages.swap(j, k);
            if s.coin() {
                pages.truncate(k.max(1));
            }
            w = "pages swapped";
        }
    }
    let at = out.len();
    let mut sizes = vec![];
    for (h, b) in &pages {
        let hb = thrift_bytes(|p| h.write_to_out_protocol(p).map(|_| ()));
        sizes.push(hb.len() + b.len());
        out.extend(hb);
        out.extend(b);
    }
    m.total_compressed_size = (out.len() - at) as i64;
    m.dictionary_page_offset = if dict { Some(at as i64) } else { None };
    m.data_page_offset = (at + if dict { sizes[0] } else { 0 }) as i64;
    w
}
/// writes new, altered page indexes at the end of `out`
fn mutate_index(s: &mut Src, bytes: &[u8], t: &mut TFile, out: &mut Vec<u8>) -> &'static str {
    let n = t.row_groups.len();
    if n == 0 {
        return "nothing";
    }
    let g = s.below(n);
    if t.row_groups[g].columns.is_empty() {
        return "nothing";
    }
    let i = s.below(t.row_groups[g].columns.len());
    let cc = &mut t.row_groups[g].columns[i];
    let get = |o: Option<i64>, l: Option<i32>| bytes.get(o? as usize..(o? as usize).checked_add(l? as usize)?);
    if s.coin() {
        let Some(b) = get(cc.column_index_offset, cc.column_index_length) else { return "nothing" };
        let Ok((mut x, _)) = parse_column_index(b) else { return "nothing" };
        let k = x.null_pages.len();
        for _ in 0..s.range(1, 3) {
            match s.below(7) {
                0 => {
                    let j = s.below(k + 1);
                    x.null_pages.resize(j, false);
                }
                1 if k > 0 => {
                    let j = s.below(k);
                    x.null_pages.get_mut(j).map(|v| *v = !*v);
                }
                2 => {
                    let j = s.below(k + 2);
                    x.min_values.resize(j, vec![]);
                }
                3 => {
                    let j = s.below(k + 2);
                    x.max_values.resize(j, vec![1; 4]);
                }
                4 if k > 0 => {
                    let l = s.size(20);
                    let v = s.bytes(l);
                    let j = s.below(k);
                    let list = if s.coin() { &mut x.min_values } else { &mut x.max_values };
                    list.get_mut(j).map(|y| *y = v);
                }
                5 => x.null_counts = opt(s, |s| (0..s.below(k + 2)).map(|_| s.i64_any()).collect()),
                _ => x.boundary_order = tf::BoundaryOrder(code(s)),
            }
        }
        let b = thrift_bytes(|p| x.write_to_out_protocol(p).map(|_| ()));
        cc.column_index_offset = Some(out.len() as i64);
        cc.column_index_length = Some(b.len() as i32);
        out.extend(b);
        "column index"
    } else {
        let Some(b) = get(cc.offset_index_offset, cc.offset_index_length) else { return "nothing" };
        let Ok((mut x, _)) = parse_offset_index(b) else { return "nothing" };

        for _ in 0..s.range(1, 3) {
            if x.page_locations.is_empty() {
                break;
            }
            let j = s.below(x.page_locations.len());
            let l = &mut x.page_locations[j];
            match s.below(6) {
                0 => l.offset = h64(s, l.offset, bytes.len()),
                1 => l.compressed_page_size = h32(s, l.compressed_page_size),
                2 => l.first_row_index = h64(s, l.first_row_index, bytes.len()),
                3 => {
                    let p = l.clone();
                    x.page_locations.push(p);
                }
                4 => {
                    x.page_locations.remove(j);
                }
                _ => {
                    let i = s.below(x.page_locations.len());
                    x.page_locations.swap(i, j)
                }
            }
        }
        let b = thrift_bytes(|p| x.write_to_out_protocol(p).map(|_| ()));
        cc.offset_index_offset = Some(out.len() as i64);
        cc.offset_index_length = Some(b.len() as i32);
        out.extend(b);
        "offset index"
    }
}
pub fn with_footer(mut body: Vec<u8>, t: &TFile) -> Vec<u8> {
    let b = thrift_bytes(|p| t.write_to_out_protocol(p).map(|_| ()));
    body.extend(&b);
    body.extend((b.len() as i32).to_le_bytes());
    body.extend(b"PAR1");
    body
}

// ------------------------------------------------------------------ the consumer
/// what may be decompressed by a careful consumer
const DECOMPRESS: usize = 4 << 20;
fn size_of_type(t: &ParquetType) -> usize {
    match t {
        ParquetType::PrimitiveType(_) => 1,
        ParquetType::GroupType { fields, .. } => 1 + fields.iter().map(size_of_type).sum::<usize>(),
    }
}
/// copies of schema nodes the metadata holds: each column descriptor, of the schema and of each
/// row group, has its field's type and its path
fn schema_copies(md: &FileMetaData) -> usize {
    let leaves: usize = md.schema().columns().iter().map(|c| size_of_type(&c.base_type) + c.path_in_schema.len()).sum();
    leaves * (1 + md.row_groups.len())
}
/// what a header that was accepted says of itself
fn use_header(h: &DataPageHeader) {
    let _ = (format!("{h:?}").len(), h.num_values());
    match h {
        DataPageHeader::V1(h) => {
            let _ = (h.encoding(), h.definition_level_encoding(), h.repetition_level_encoding());
        }
        DataPageHeader::V2(h) => {
            let _ = (h.encoding(), h.definition_level_encoding(), h.repetition_level_encoding());
        }
    }
}
struct Walk<'a> {
    bytes: &'a [u8],
    limit: usize,
    pages: usize,
    errors: usize,
}
impl Walk<'_> {
    fn page(&mut self, c: &mut Case, p: Result<CompressedPage, Error>, dict: &mut Option<(usize, Vec<u8>)>) -> R {
        let p = match p {
            Ok(p) => p,
            Err(_) => {
                self.errors += 1;
                return Ok(());
            }
        };
        self.pages += 1;
        if let CompressedPage::Data(d) = &p {
            if let Some(x) = d.statistics() {
                c.label(if x.is_ok() { "page statistics" } else { "invalid page statistics" });
            }
            let _ = (d.num_values(), d.selected_rows().map(|x| x.len()), d.compressed_size(), d.uncompressed_size(), d.compression());
            use_header(d.header());
            ensure!(d.num_values() <= i32::MAX as usize, "negative-count", "a page with {} values is delivered", d.num_values());
        }
        let declared = p.uncompressed_size();
        if declared > DECOMPRESS {
            c.label("declares a large page");
            return Ok(());
        }
        let (stored, codec) = match &p {
            CompressedPage::Data(d) => (d.compressed_size(), d.compression()),
            CompressedPage::Dict(d) => (self.bytes.len(), d.compression()),
        };
        let (page, peak) = peak_during(|| decompress(p, &mut vec![]));
        // brotli's window is part of its format
        let codec_state = if codec == Compression::Brotli { 40 << 20 } else { 1 << 20 };
        ensure!(peak <= 2 * (declared + stored) + codec_state, "decompression-memory", "{peak} bytes to decompress {stored} bytes to {declared}");
        match page {
            Err(_) => c.label("page not decompressed"),
            Ok(Page::Dict(d)) => {
                c.label("dictionary");
                *dict = Some((d.num_values, d.buffer));
            }
            Ok(Page::Data(d)) => {
                c.label("data page decompressed");
                let len = d.buffer().len();
                let n = d.num_values();
                let _ = (d.encoding(), d.definition_level_encoding(), d.repetition_level_encoding(), d.selected_rows().map(|x| x.len()));
                let _ = d.statistics().map(|x| x.is_ok());
                use_header(d.header());
                let (r, peak) = peak_during(|| walk_page(&d, len, n, c));
                r?;
                ensure!(peak <= 64 * (len + 60_000) + (1 << 20), "decoding-memory", "{peak} bytes to decode a page of {len} bytes with {n} values");
                let _ = split_buffer(&d);
                if let Some((k, b)) = dict {
                    let _ = NativePageState::<i64, usize>::try_new(&d, Some(*k));
                    let _ = BinaryPageState::<&Vec<u8>>::try_new(&d, Some(b));
                    let _ = FixedLenBinaryPageState::<&Vec<u8>>::try_new(&d, Some(b));
                }
            }
        }
        Ok(())
    }
    fn bound(&self, calls: usize, what: &str) -> R {
        ensure!(calls <= self.bytes.len() + 8, "too-many-pages", "{what}: {calls} items from {} bytes", self.bytes.len());
        Ok(())
    }
    fn column(&mut self, c: &mut Case, col: &ColumnChunkMetaData, num_rows: usize, which: usize) -> R {
        let src = || Cursor::new(self.bytes);
        let lim = 4 * self.limit + 64 * self.bytes.len() + (1 << 20);
        let mut dict = None;
        let mut calls = 0;
        match which {
            0 => {
                let (it, peak) = peak_during(|| get_page_iterator(col, src(), None, vec![], self.limit));
                ensure!(peak <= lim, "page-memory", "{peak} bytes to start reading a column of {} bytes", self.bytes.len());
                if let Ok(mut it) = it {
                    loop {
                        let (p, peak) = peak_during(|| it.next());
                        ensure!(peak <= lim, "page-memory", "{peak} bytes of heap to read a page with limit {} from {} bytes", self.limit, self.bytes.len());
                        let Some(p) = p else { break };
                        calls += 1;
                        self.bound(calls, "page iterator")?;
                        self.page(c, p, &mut dict)?;
                    }
                }
            }
            1 => {
                let mut cur = futures::io::Cursor::new(self.bytes);
                let (r, peak) = peak_during(|| -> Result<usize, Error> {
                    crate::io::block(async {
                        let filter = filter_of(0);
                        let st = get_page_stream(col, &mut cur, vec![], filter, self.limit).await?;
                        futures::pin_mut!(st);
                        let mut calls = 0;
                        while let Some(x) = st.next().await {
                            drop(x);
                            calls += 1;
                            if calls > self.bytes.len() + 8 {
                                break;
                            }
                        }
                        Ok(calls)
                    })
                });
                ensure!(peak <= lim, "page-memory", "{peak} bytes of heap to stream pages with limit {} from {} bytes", self.limit, self.bytes.len());
                self.bound(r.unwrap_or(0), "page stream")?;
            }
            2 => {
                let (r, peak) = peak_during(|| read_column(&mut src(), col));
                ensure!(peak <= 4 * self.bytes.len() + (2 << 20), "column-memory", "{peak} bytes of heap to read a column of {} bytes", self.bytes.len());
                c.label(if r.is_ok() { "column bytes" } else { "column bytes refused" });
            }
            3 => {
                let (locs, peak) = peak_during(|| read_pages_locations(&mut src(), std::slice::from_ref(col)));
                ensure!(peak <= 64 * self.bytes.len() + (2 << 20), "index-memory", "{peak} bytes of heap to read page locations from {} bytes", self.bytes.len());
                let Ok(locs) = locs else { return Ok(()) };
                let Some(locs) = locs.first() else { return Ok(()) };
                c.label("page locations");
                let rows = match c.s.below(4) {
                    0 => vec![Interval::new(0, num_rows)],
                    1 => vec![Interval::new(0, usize::MAX)],
                    2 => vec![Interval::new(c.s.below(50), c.s.below(50)), Interval::new(100, c.s.below(100))],
                    _ => vec![Interval::new(c.s.u64_any() as usize, c.s.u64_any() as usize)],
                };
                let sel: Vec<bool> = locs.iter().map(|_| c.s.coin()).collect();
                let nr = if c.s.chance(1, 4) { c.s.u64_any() as usize } else { num_rows };
                let _ = compute_rows(&sel, locs, nr);
                let mut pages = match select_pages(&rows, locs, nr) {
                    Ok(p) => p,
                    Err(_) => locs
                        .iter()
                        .map(|l| FilteredPage { start: l.offset as u64, length: l.compressed_page_size.max(0) as usize, selected_rows: rows.clone(), num_rows: nr })
                        .collect(),
                };
                if c.s.chance(1, 8) {
                    pages.reverse();
                }
                let k = pages.len();
                let mut it = IndexedPageReader::new(src(), col, pages, vec![], vec![]);
                loop {
                    let (p, peak) = peak_during(|| it.next());
                    ensure!(peak <= 64 * self.bytes.len() + (4 << 20), "page-memory", "{peak} bytes of heap to read an indexed page from {} bytes", self.bytes.len());
                    let Some(p) = p else { break };
                    c.label_if(p.is_ok(), "indexed page");
                    calls += 1;
                    ensure!(calls <= k + 1, "too-many-pages", "indexed reader: {calls} items for {k} locations");
                    self.page(c, p, &mut dict)?;
                }
            }
            4 => {
                let mut bits = vec![];
                let (r, peak) = peak_during(|| parquet2::bloom_filter::read(col, &mut src(), &mut bits));
                ensure!(peak <= 8 * self.bytes.len() + (2 << 20), "bloom-memory", "{peak} bytes of heap to read a bloom filter from {} bytes", self.bytes.len());
                if r.is_ok() && col.metadata().bloom_filter_offset.is_some() {
                    c.label("bloom filter");
                    let h = c.s.u64_any();
                    let _ = parquet2::bloom_filter::is_in_set(&bits, h);
                    parquet2::bloom_filter::insert(&mut bits, h);
                }
            }
            _ => {
                let (r, peak) = peak_during(|| read_columns_indexes(&mut src(), std::slice::from_ref(col)));
                ensure!(peak <= 200 * self.bytes.len() + (2 << 20), "index-memory", "{peak} bytes of heap to read column indexes from {} bytes", self.bytes.len());
                if let Ok(v) = r {
                    c.label_if(!v.is_empty(), "column index");
                    let _ = format!("{v:?}");
                }
            }
        }
        Ok(())
    }
}
fn check_metadata_use(c: &mut Case, md: &FileMetaData) -> R {
    let d = format!("{md:?}");
    let k = md.clone();
    ensure!(format!("{k:?}") == d, "metadata-clone", "a clone prints differently");
    for i in 0..md.schema().columns().len().min(200) + 2 {
        let _ = md.column_order(i).sort_order();
    }
    let _ = md.key_value_metadata().as_ref().map(|x| x.len());
    for g in &md.row_groups {
        let _ = (g.compressed_size(), g.num_rows(), g.total_byte_size());
        for col in g.columns() {
            let _ = (col.byte_range(), col.compression(), col.num_values(), col.uncompressed_size(), col.has_index_page(), col.column_encoding().len(), col.physical_type());
            let _ = (col.file_path().is_some(), col.file_offset(), col.compressed_size(), col.data_page_offset(), col.index_page_offset(), col.dictionary_page_offset());
            let _ = (col.metadata().num_values, col.column_chunk().file_offset, col.descriptor().path_in_schema.len());
            if let Some(x) = col.statistics() {
                c.label(if x.is_ok() { "chunk statistics" } else { "invalid chunk statistics" });
            }
        }
    }
    let _ = get_field_columns(md.row_groups.first().map(|g| g.columns()).unwrap_or(&[]), "a").count();
    let _ = k.into_thrift();
    Ok(())
}
pub fn consume(c: &mut Case, bytes: &[u8]) -> R {
    let len = bytes.len();
    let (r, peak) = peak_during(|| read_metadata(&mut Cursor::new(bytes)));
    let budget = |md: Option<&FileMetaData>| (1 << 20) + 1200 * len + md.map(|m| 600 * schema_copies(m)).unwrap_or(0);
    let md = match r {
        Ok(md) => md,
        Err(_) => {
            c.label("metadata refused");
            // an error may come after everything has been built
            ensure!(peak <= budget(None), "metadata-memory", "{peak} bytes of heap to refuse metadata of a file of {len} bytes");
            if c.s.chance(1, 8) {
                let a = crate::io::block(read_metadata_async(&mut futures::io::Cursor::new(bytes)));
                ensure!(a.is_err(), "async-differs", "refused metadata is accepted asynchronously");
            }
            return Ok(());
        }
    };
    c.label("metadata accepted");
    ensure!(peak <= budget(Some(&md)), "metadata-memory", "{peak} bytes of heap for the metadata of a file of {len} bytes ({} nodes)", schema_copies(&md));
    if c.s.chance(1, 8) {
        let (r, peak) = peak_during(|| crate::io::block(read_metadata_async(&mut futures::io::Cursor::new(bytes))));
        ensure!(r.is_ok(), "async-differs", "accepted metadata is refused asynchronously");
        ensure!(peak <= budget(Some(&md)), "metadata-memory", "{peak} bytes of heap for the metadata (asynchronously) of a file of {len} bytes");
    }
    check_metadata_use(c, &md)?;
    let limit = match c.s.below(3) {
        0 => c.s.size(3000),
        1 => 1 << 16,
        _ => 1 << 20,
    };
    let mut w = Walk { bytes, limit, pages: 0, errors: 0 };
    for g in md.row_groups.iter().take(4) {
        for col in g.columns().iter().take(6) {
            w.column(c, col, g.num_rows(), 0)?;
            let which = c.s.range(1, 5);
            w.column(c, col, g.num_rows(), which)?;
            let which = c.s.range(1, 5);
            w.column(c, col, g.num_rows(), which)?;
        }
        if c.s.chance(1, 4) {
            // the whole group at once
            let (_, peak) = peak_during(|| {
                let _ = read_columns_indexes(&mut Cursor::new(bytes), g.columns());
                let _ = read_pages_locations(&mut Cursor::new(bytes), g.columns());
                if let Some(col) = g.columns().first() {
                    if let Ok(v) = read_columns(&mut Cursor::new(bytes), g.columns(), &col.descriptor().path_in_schema[0]) {
                        drop(v);
                    }
                }
            });
            ensure!(peak <= 200 * len + (len * 2) * g.columns().len() + (4 << 20), "group-memory", "{peak} bytes of heap for a row group of a file of {len} bytes");
        }
    }
    c.label_if(w.pages > 0, "pages read");
    c.label_if(w.errors > 0, "page errors");
    Ok(())
}

// ------------------------------------------------------------------ parts
fn small() -> FileOpts {
    FileOpts { max_rows: 40, max_fields: 4, depth: 3, max_groups: 2, ..FileOpts::default() }
}
/// a valid file whose footer, pages or indexes are altered field by field
fn p_structural(c: &mut Case) -> R {
    let stats = if c.s.coin() { Some(true) } else { None };
    let f = gen_file(&mut c.s, &FileOpts { stats, ..small() });
    let bytes = write_vec(&f)?;
    let (mut t, at) = thrift_footer(&bytes)?;
    let mut body = bytes[..at].to_vec();
    let mut what = vec![];
    let k = c.s.range(1, 3);
    let focus = c.s.below(6);
    for _ in 0..k {
        let kind = if c.s.coin() { focus } else { c.s.below(6) };
        let len = bytes.len();
        what.push(match kind {
            0 => mutate_schema(&mut c.s, &mut t),
            1 => mutate_group(&mut c.s, &mut t, len),
            2 => mutate_column(&mut c.s, &mut t, len),
            3 | 4 => mutate_chunk(&mut c.s, &bytes, &mut t, &mut body),
            _ => mutate_index(&mut c.s, &bytes, &mut t, &mut body),
        });
    }
    let out = with_footer(body, &t);
    for w in &what {
        c.label(w);
    }
    c.nontrivial(what.iter().any(|w| *w != "nothing"));
    c.describe(|| format!("{what:?} in {}", describe_file(&f)));
    consume(c, &out)
}
/// bytes of a valid file altered blindly
fn p_bytes(c: &mut Case) -> R {
    let f = gen_file(&mut c.s, &small());
    let bytes = write_vec(&f)?;
    let (_, at) = thrift_footer(&bytes)?;
    let n = bytes.len();
    let (mut body, mut footer) = (bytes[..at].to_vec(), bytes[at..n - 8].to_vec());
    let what = match c.s.below(4) {
        0 => {
            mutate(&mut c.s, &mut footer);
            "footer"
        }
        1 => {
            // keep the length of what comes before, so that the offsets still hold
            let k = body.len();
            for _ in 0..c.s.range(1, 6) {
                let i = c.s.below(k);
                body[i] = if c.s.coin() { body[i] ^ (1 << c.s.below(8)) } else { c.s.pick(&[0, 0xff, 0x80, 0x7f, 1, 0xfe, 2, 0x15, 0x1c]) };
            }
            "body"
        }
        2 => {
            mutate(&mut c.s, &mut body);
            "body moved"
        }
        _ => {
            mutate(&mut c.s, &mut footer);
            mutate(&mut c.s, &mut body);
            "both"
        }
    };
    let mut out = body;
    let l = if c.s.chance(1, 10) { h32(&mut c.s, footer.len() as i32) } else { footer.len() as i32 };
    out.extend(&footer);
    out.extend(l.to_le_bytes());
    out.extend(if c.s.chance(1, 20) { b"PARE" } else { b"PAR1" });
    c.label(what);
    c.nontrivial(true);
    c.describe(|| format!("bytes of the {what} altered, {}", describe_file(&f)));
    consume(c, &out)
}
/// bytes that never were a file
fn p_garbage(c: &mut Case) -> R {
    let n = c.s.size(300);
    let mut b = vec![];
    if c.s.coin() {
        b.extend(b"PAR1");
    }
    let before = c.s.size(60);
    b.extend(c.s.bytes(before));
    let footer = if c.s.coin() {
        // looks like thrift: field headers and small numbers
        let mut v: Vec<u8> = vec![];
        for _ in 0..n {
            let x = match c.s.below(5) {
                0 => 0x10 | c.s.below(13) as u8,
                1 => (c.s.below(16) as u8) << 4 | c.s.below(13) as u8,
                2 => c.s.below(256) as u8,
                3 => 0,
                _ => c.s.pick(&[0x15, 0x16, 0x18, 0x19, 0x1c, 0x2c, 0x3c, 0x4c, 0xfc, 0xf5, 0xff, 0x80]),
            };
            v.push(x);
        }
        v
    } else {
        c.s.bytes(n)
    };
    b.extend(&footer);
    let l = match c.s.below(4) {
        0 => h32(&mut c.s, footer.len() as i32),
        1 => (b.len() + 8) as i32 - c.s.below(3) as i32,
        _ => footer.len() as i32,
    };
    b.extend(l.to_le_bytes());
    b.extend(b"PAR1");
    if c.s.chance(1, 10) {
        let k = c.s.below(b.len());
        b.drain(..k);
    }
    c.nontrivial(b.len() >= 12);
    c.describe(|| format!("{} bytes {:?}", b.len(), clip(&b)));
    consume(c, &b)?;
    // also as a page, an index and a bare footer
    let _ = deserialize_metadata(&footer[..], footer.len() * 2 + 1024);
    Ok(())
}
/// schemas that are deep or wide
fn p_schema(c: &mut Case) -> R {
    let mut t = TFile {
        version: 1,
        schema: vec![],
        num_rows: 0,
        row_groups: vec![],
        key_value_metadata: None,
        created_by: None,
        column_orders: None,
        encryption_algorithm: None,
        footer_signing_key_metadata: None,
    };
    let deep = c.s.below(3);
    let mut leaves = 0;
    let what;
    match deep {
        0 => {
            let depth = c.s.pick(&[10usize, 100, 200, 300, 500, 511, 512, 513, 514, 1000, 5000, 20_000, 32_760, 32_766, 32_767, 32_768, 40_000, 70_000, 200_000]);
            let rep = c.s.pick(&[0, 1, 2]);
            t.schema.push(element("r", Some(1)));
            for _ in 1..depth {
                let mut e = element("g", Some(1));
                e.repetition_type = Some(tf::FieldRepetitionType(rep));
                t.schema.push(e);
            }
            if c.s.coin() {
                t.schema.push(element("l", None));
                leaves = 1;
            }
            what = format!("schema of depth {depth}");
        }
        1 => {
            // many leaves at the top
            let n = c.s.size1(3000);
            t.schema.push(element("r", Some(n as i32)));
            t.schema.extend((0..n).map(|_| element("x", None)));
            leaves = n;
            what = format!("schema of {n} leaves");
        }
        _ => {
            // groups that claim more children than there are, or hostile counts
            let k = c.s.size1(2000);
            let root = h32(&mut c.s, k as i32);
            t.schema.push(element("r", Some(root)));
            for _ in 0..k {
                let ch = match c.s.below(3) {
                    0 => Some(h32(&mut c.s, 1)),
                    1 => Some(c.s.below(4) as i32),
                    _ => None,
                };
                t.schema.push(element("x", ch));
            }
            what = format!("{k} elements under a root of {root} children");
        }
    }
    if leaves > 0 && leaves < 50 && c.s.coin() {
        let n = c.s.size(4);
        t.row_groups = (0..n)
            .map(|_| tf::RowGroup { columns: (0..leaves).map(|_| bland_chunk(4)).collect(), total_byte_size: 0, num_rows: 1, sorting_columns: None, file_offset: None, total_compressed_size: None, ordinal: None })
            .collect();
    }
    c.nontrivial(true);
    c.describe(|| what.clone());
    let b = with_footer(b"PAR1".to_vec(), &t);
    consume(c, &b)
}
/// one field with many leaves: each leaf's descriptor holds the whole field
fn p_wide(c: &mut Case) -> R {
    let n = c.s.range(200, 700) as i32;
    let mut t = TFile {
        version: 1,
        schema: vec![element("r", Some(1)), element("g", Some(n))],
        num_rows: 0,
        row_groups: vec![],
        key_value_metadata: None,
        created_by: None,
        column_orders: None,
        encryption_algorithm: None,
        footer_signing_key_metadata: None,
    };
    t.schema.extend((0..n).map(|_| element("x", None)));
    let b = with_footer(b"PAR1".to_vec(), &t);
    c.nontrivial(true);
    c.describe(|| format!("a field of {n} leaves, {} bytes", b.len()));
    let (r, peak) = peak_during(|| read_metadata(&mut Cursor::new(&b)));
    let md = r?;
    ensure!(peak <= (1 << 20) + 1200 * b.len() + 600 * schema_copies(&md), "metadata-memory", "{peak} bytes of heap for the metadata of a file of {} bytes with a field of {n} leaves", b.len());
    ensure!(peak <= (1 << 20) + 1200 * b.len(), "metadata-memory-quadratic", "{peak} bytes of heap for the metadata of a file of {} bytes with a field of {n} leaves", b.len());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P07",
        rule: "non-trivial: the file really was altered (structural), or has at least 12 bytes; distinct by hash of all random choices",
        assumptions: &["a careful consumer decompresses only pages that declare at most 4 MiB", "heap taken inside C codecs (zstd) is not counted", "stacks of 2 MiB, the default of spawned threads"],
        parts: vec![
            Part { name: "structural", f: p_structural, quick: 60_000, thorough: 2_500_000 },
            Part { name: "bytes", f: p_bytes, quick: 50_000, thorough: 2_000_000 },
            Part { name: "garbage", f: p_garbage, quick: 150_000, thorough: 5_000_000 },
            Part { name: "schema", f: p_schema, quick: 1_500, thorough: 40_000 },
            Part { name: "wide", f: p_wide, quick: 40, thorough: 400 },
        ],
    }]
}

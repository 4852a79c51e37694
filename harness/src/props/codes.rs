//! P35: the format's codes and the crate's enumerations, compression levels, page accessors.
use super::schema::{converted_code, gen_any_converted, gen_any_logical, gen_any_physical, group_code, t_logical, type_code};
use crate::engine::*;
use crate::src::Src;
use crate::{ensure, ensure_eq, fail};
use parquet2::compression::{BrotliLevel, Compression, CompressionOptions, GzipLevel, ZstdLevel};
use parquet2::encoding::{ceil8, get_length, Encoding};
use parquet2::indexes::{BoundaryOrder, Interval};
use parquet2::metadata::Descriptor;
use parquet2::page::{CompressedDataPage, CompressedDictPage, CompressedPage, DataPage, DataPageHeader, DataPageHeaderExt, DataPageHeaderV1, DataPageHeaderV2, DictPage, Page, PageType};
use parquet2::read::levels::get_bit_width;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet_format_safe as tf;
use std::fmt::Debug;

fn gen_code(s: &mut Src) -> i32 {
    match s.weighted(&[20, 2, 1, 2]) {
        0 => s.range(0, 13) as i32 - 1,
        1 => s.range(0, 300) as i32 - 20,
        // codes that agree with a known one in their low bits
        2 => (s.range(0, 10) as i32) | (1 << s.range(4, 31)),
        _ => s.i32_any(),
    }
}

/// `code` is the number in the file, `known` the meanings of the numbers of this kind
fn enumeration<E, T>(what: &'static str, code: i32, make: fn(i32) -> T, number: fn(&T) -> i32, known: &[(i32, E)]) -> R
where
    E: Copy + PartialEq + Debug + Into<T> + TryFrom<T>,
    T: Copy + Debug,
{
    let want = known.iter().find(|(k, _)| *k == code).map(|x| x.1);
    let got: Option<E> = no_panic(|| E::try_from(make(code)).ok())?;
    ensure_eq!(got, want, "code", "{what} {code}");
    for (k, e) in known {
        let t: T = no_panic(|| (*e).into())?;
        ensure_eq!(number(&t), *k, "enumeration", "{what} {e:?}");
    }
    Ok(())
}

fn encodings() -> Vec<(i32, Encoding)> {
    use Encoding::*;
    vec![(0, Plain), (2, PlainDictionary), (3, Rle), (4, BitPacked), (5, DeltaBinaryPacked), (6, DeltaLengthByteArray), (7, DeltaByteArray), (8, RleDictionary), (9, ByteStreamSplit)]
}
fn compressions() -> Vec<(i32, Compression)> {
    use Compression::*;
    vec![(0, Uncompressed), (1, Snappy), (2, Gzip), (3, Lzo), (4, Brotli), (5, Lz4), (6, Zstd), (7, Lz4Raw)]
}

fn p35_codes(c: &mut Case) -> R {
    let kind = c.s.below(6);
    let code = gen_code(&mut c.s);
    c.describe(|| format!("kind {kind} code {code}"));
    c.label_if(!(0..10).contains(&code), "unknown");
    c.nontrivial(true);
    match kind {
        0 => enumeration("repetition", code, tf::FieldRepetitionType, |t| t.0, &[(0, Repetition::Required), (1, Repetition::Optional), (2, Repetition::Repeated)]),
        1 => enumeration("codec", code, tf::CompressionCodec, |t| t.0, &compressions()),
        2 => enumeration("page type", code, tf::PageType, |t| t.0, &[(0, PageType::DataPage), (2, PageType::DictionaryPage), (3, PageType::DataPageV2)]),
        3 => enumeration("encoding", code, tf::Encoding, |t| t.0, &encodings()),
        4 => enumeration("boundary order", code, tf::BoundaryOrder, |t| t.0, &[(0, BoundaryOrder::Unordered), (1, BoundaryOrder::Ascending), (2, BoundaryOrder::Descending)]),
        _ => enumeration("group annotation", code, tf::ConvertedType, |t| t.0, &[(1, GroupConvertedType::Map), (2, GroupConvertedType::MapKeyValue), (3, GroupConvertedType::List)]),
    }
}

fn p35_types(c: &mut Case) -> R {
    let s = &mut c.s;
    // the format's lengths, precisions and scales are 32-bit
    let fits = |x: usize| x & i32::MAX as usize;
    let p = match gen_any_physical(s) {
        PhysicalType::FixedLenByteArray(n) => PhysicalType::FixedLenByteArray(fits(n)),
        p => p,
    };
    let conv = match gen_any_converted(s, p) {
        PrimitiveConvertedType::Decimal(a, b) => PrimitiveConvertedType::Decimal(fits(a), fits(b)),
        x => x,
    };
    let logical = match gen_any_logical(s, p) {
        PrimitiveLogicalType::Decimal(a, b) => PrimitiveLogicalType::Decimal(fits(a), fits(b)),
        x => x,
    };
    let group = s.pick(&[GroupConvertedType::Map, GroupConvertedType::MapKeyValue, GroupConvertedType::List]);
    let glog = s.pick(&[GroupLogicalType::Map, GroupLogicalType::List]);
    let code = gen_code(s);
    let params = if s.coin() { Some((s.i32_any(), s.i32_any())) } else { None };
    let (width, signed) = (if s.coin() { s.pick(&[8, 16, 32, 64]) } else { s.i32_any() }, s.coin());
    c.describe(|| format!("{p:?} {conv:?} {logical:?} {group:?} {glog:?} code {code} {params:?} int{width}/{signed}"));
    c.nontrivial(true);
    // physical types
    let (want, len) = type_code(p);
    let (t, l): (tf::Type, Option<i32>) = no_panic(|| p.into())?;
    ensure_eq!((t.0, l), (want, len), "physical", "{p:?}");
    let back = no_panic(|| PhysicalType::try_from((t, l)).ok())?;
    ensure_eq!(back, Some(p), "physical", "back");
    let other = no_panic(|| PhysicalType::try_from((tf::Type(code), params.map(|x| x.0))).ok())?;
    use PhysicalType::*;
    let want = match code {
        0 => Some(Boolean),
        1 => Some(Int32),
        2 => Some(Int64),
        3 => Some(Int96),
        4 => Some(Float),
        5 => Some(Double),
        6 => Some(ByteArray),
        7 => params.and_then(|x| usize::try_from(x.0).ok()).map(FixedLenByteArray),
        _ => None,
    };
    ensure_eq!(other, want, "physical", "code {code} {params:?}");
    // annotations of primitive types
    let (want, dec) = converted_code(conv);
    let (t, d): (tf::ConvertedType, Option<(i32, i32)>) = no_panic(|| conv.into())?;
    ensure_eq!((t.0, d), (want, dec), "converted", "{conv:?}");
    ensure_eq!(no_panic(|| PrimitiveConvertedType::try_from((t, d)).ok())?, Some(conv), "converted", "back");
    // those without parameters ignore them; decimals need them, and not negative
    let other = no_panic(|| PrimitiveConvertedType::try_from((tf::ConvertedType(code), params)).ok())?;
    match code {
        5 => {
            let want = params.and_then(|(a, b)| Some(PrimitiveConvertedType::Decimal(usize::try_from(a).ok()?, usize::try_from(b).ok()?)));
            ensure_eq!(other, want, "converted", "decimal {params:?}");
        }
        0 | 4 | 6..=21 => match other {
            Some(o) => ensure_eq!(converted_code(o), (code, None), "converted", "code {code}"),
            None => fail!("converted", "code {code} refused"),
        },
        _ => ensure_eq!(other, None, "converted", "code {code}"),
    }
    // and of groups
    let t: tf::ConvertedType = no_panic(|| group.into())?;
    ensure_eq!(t.0, group_code(group), "group", "{group:?}");
    let t: tf::LogicalType = no_panic(|| glog.into())?;
    let same = matches!((&t, glog), (tf::LogicalType::MAP(_), GroupLogicalType::Map) | (tf::LogicalType::LIST(_), GroupLogicalType::List));
    ensure!(same, "group", "{glog:?} is {t:?}");
    ensure_eq!(no_panic(|| GroupLogicalType::try_from(t.clone()).ok())?, Some(glog), "group", "back");
    ensure_eq!(no_panic(|| PrimitiveLogicalType::try_from(t).ok())?, None, "group", "{glog:?} on a primitive");
    // logical types
    let want = t_logical(logical);
    let t: tf::LogicalType = no_panic(|| logical.into())?;
    ensure_eq!(t, want, "logical", "{logical:?}");
    ensure_eq!(no_panic(|| GroupLogicalType::try_from(t.clone()).ok())?, None, "logical", "{logical:?} on a group");
    ensure_eq!(no_panic(|| PrimitiveLogicalType::try_from(t).ok())?, Some(logical), "logical", "back");
    // integers; other widths are left to the library, which must not panic
    let i: IntegerType = no_panic(|| (width, signed).into())?;
    if [8, 16, 32, 64].contains(&width) {
        let back: (usize, bool) = i.into();
        ensure_eq!(back, (width as usize, signed), "integer", "{i:?}");
        ensure_eq!(format!("{i:?}"), format!("{}Int{width}", if signed { "" } else { "U" }), "integer", "name");
    }
    Ok(())
}

fn p35_levels(c: &mut Case) -> R {
    let s = &mut c.s;
    let near = |s: &mut Src| s.range(0, 60) as i64 - 20;
    let (g, b, z) = (if s.chance(1, 4) { s.below(256) as u8 } else { near(s).max(0) as u8 }, if s.chance(1, 4) { s.i32_any() as u32 } else { near(s).max(0) as u32 }, if s.chance(1, 4) { s.i32_any() } else { near(s) as i32 });
    let which = s.below(8);
    c.describe(|| format!("gzip {g} brotli {b} zstd {z} option {which}"));
    c.nontrivial(true);
    // 0..=10, 0..=11 and 1..=22, as their documentation and those of the compressors say
    let got = no_panic(|| GzipLevel::try_new(g).ok())?;
    ensure_eq!(got.map(|x| x.compression_level()), Some(g).filter(|x| *x <= 10), "gzip-level", "{g}");
    let got2 = no_panic(|| BrotliLevel::try_new(b).ok())?;
    ensure_eq!(got2.map(|x| x.compression_level()), Some(b).filter(|x| *x <= 11), "brotli-level", "{b}");
    let got3 = no_panic(|| ZstdLevel::try_new(z).ok())?;
    ensure_eq!(got3.map(|x| x.compression_level()), Some(z).filter(|x| (1..=22).contains(x)), "zstd-level", "{z}");
    if let Some(x) = got {
        let f: flate2::Compression = x.into();
        ensure_eq!(f.level(), g as u32, "gzip-level", "of flate2");
    }
    // the defaults are levels
    ensure!(GzipLevel::try_new(GzipLevel::default().compression_level()).is_ok(), "gzip-level", "default");
    ensure!(BrotliLevel::try_new(BrotliLevel::default().compression_level()).is_ok(), "brotli-level", "default");
    ensure!(ZstdLevel::try_new(ZstdLevel::default().compression_level()).is_ok(), "zstd-level", "default");
    // options keep their codec whatever their level
    let o = [
        CompressionOptions::Uncompressed,
        CompressionOptions::Snappy,
        CompressionOptions::Gzip(got),
        CompressionOptions::Lzo,
        CompressionOptions::Brotli(got2),
        CompressionOptions::Lz4,
        CompressionOptions::Zstd(got3),
        CompressionOptions::Lz4Raw,
    ][which];
    let k: Compression = no_panic(|| o.into())?;
    ensure_eq!(k, compressions()[which].1, "option", "{o:?}");
    let k: tf::CompressionCodec = no_panic(|| o.into())?;
    ensure_eq!(k.0, which as i32, "option", "{o:?}");
    Ok(())
}

fn gen_i32(s: &mut Src) -> i32 {
    if s.coin() {
        s.size(100) as i32
    } else {
        s.i32_any() & i32::MAX
    }
}

fn p35_pages(c: &mut Case) -> R {
    let s = &mut c.s;
    let known = encodings();
    let enc = s.pick(&known);
    let (de, re) = (s.pick(&known), s.pick(&known));
    let n = gen_i32(s);
    let v2 = s.coin();
    let header = if v2 {
        DataPageHeader::V2(DataPageHeaderV2 {
            num_values: n,
            num_nulls: gen_i32(s),
            num_rows: gen_i32(s),
            encoding: tf::Encoding(enc.0),
            definition_levels_byte_length: gen_i32(s),
            repetition_levels_byte_length: gen_i32(s),
            is_compressed: s.pick(&[None, Some(true), Some(false)]),
            statistics: None,
        })
    } else {
        DataPageHeader::V1(DataPageHeaderV1 { num_values: n, encoding: tf::Encoding(enc.0), definition_level_encoding: tf::Encoding(de.0), repetition_level_encoding: tf::Encoding(re.0), statistics: None })
    };
    let (de, re) = if v2 { (Encoding::Rle, Encoding::Rle) } else { (de.1, re.1) };
    let buffer = s.bytes_any(60);
    let size = gen_i32(s) as usize;
    let rows = if s.coin() { Some(gen_i32(s) as usize) } else { None };
    let codec = s.pick(&compressions()).1;
    let sorted = s.coin();
    let iv = Interval::new(gen_i32(s) as usize, gen_i32(s) as usize);
    let d = Descriptor { primitive_type: PrimitiveType::from_physical("a".to_string(), PhysicalType::Int32), max_def_level: 1, max_rep_level: 0 };
    c.describe(|| format!("{header:?} {} bytes of {size}, rows {rows:?}, {codec:?}, sorted {sorted}", buffer.len()));
    c.label(if v2 { "v2" } else { "v1" });
    c.nontrivial(n > 0);
    let whole = rows.map(|x| vec![Interval::new(0, x)]);

    match &header {
        DataPageHeader::V1(h) => ensure_eq!((h.encoding(), h.definition_level_encoding(), h.repetition_level_encoding()), (enc.1, de, re), "header", "v1"),
        DataPageHeader::V2(h) => ensure_eq!((h.encoding(), h.definition_level_encoding(), h.repetition_level_encoding()), (enc.1, de, re), "header", "v2"),
    }
    ensure_eq!(header.num_values(), n as usize, "header", "num_values");

    let mut p = DataPage::new(header.clone(), buffer.clone(), d.clone(), rows);
    ensure_eq!((p.num_values(), p.encoding(), p.definition_level_encoding(), p.repetition_level_encoding()), (n as usize, enc.1, de, re), "page", "accessors");
    ensure_eq!(p.buffer(), &buffer[..], "page", "buffer");
    ensure_eq!(p.selected_rows(), whole.as_deref(), "page", "rows");
    ensure!(p.statistics().is_none(), "page", "statistics");
    ensure_eq!(format!("{:?}", p.header()), format!("{header:?}"), "page", "header");
    p.buffer_mut().push(7);
    ensure_eq!(p.buffer().len(), buffer.len() + 1, "page", "buffer_mut");
    ensure!(matches!(Page::Data(p), Page::Data(_)), "page", "kind");

    let mut p = CompressedDataPage::new(header.clone(), buffer.clone(), codec, size, d, rows);
    ensure_eq!((p.num_values(), p.compressed_size(), p.uncompressed_size(), p.compression()), (n as usize, buffer.len(), size, codec), "compressed-page", "accessors");
    ensure_eq!(p.selected_rows(), whole.as_deref(), "compressed-page", "rows");
    ensure_eq!(format!("{:?}", p.header()), format!("{header:?}"), "compressed-page", "header");
    ensure!(p.statistics().is_none(), "compressed-page", "statistics");
    p.select_rows(vec![iv, iv]);
    ensure_eq!(p.selected_rows(), Some(&[iv, iv][..]), "compressed-page", "selected");
    ensure_eq!(CompressedPage::Data(p).uncompressed_size(), size, "compressed-page", "size");

    let p = DictPage::new(buffer.clone(), n as usize, sorted);
    ensure_eq!((&p.buffer, p.num_values, p.is_sorted), (&buffer, n as usize, sorted), "dictionary", "fields");
    let p = CompressedDictPage::new(buffer, codec, size, n as usize, sorted);
    ensure_eq!((p.compression(), p.is_sorted), (codec, sorted), "dictionary", "compressed");
    ensure_eq!(CompressedPage::Dict(p).uncompressed_size(), size, "dictionary", "size");
    Ok(())
}

fn p35_lengths(c: &mut Case) -> R {
    let s = &mut c.s;
    let n = s.u64_any() as usize;
    let level = (s.i32_any() & 0x7fff) as i16;
    let b = s.bytes_any(12);
    c.describe(|| format!("{n} bits, level {level}, {b:?}"));
    c.nontrivial(n > 0 && b.len() >= 4);
    let want = (n as u128 + 7) / 8;
    ensure_eq!(no_panic(|| ceil8(n))? as u128, want, "ceil8", "{n}");
    // the least width that holds the level
    let w = no_panic(|| get_bit_width(level))?;
    ensure!((level as u64) < 1 << w && (w == 0 || level as u64 >= 1 << (w - 1)), "bit-width", "{level} in {w}");
    let want = if b.len() < 4 { None } else { Some((0..4).map(|i| (b[i] as usize) << (8 * i)).sum::<usize>()) };
    ensure_eq!(no_panic(|| get_length(&b))?, want, "length", "{b:?}");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P35",
        rule: "every case is non-trivial, except pages of no values (pages), and no bits or fewer than four bytes (lengths)",
        assumptions: &["integers annotated with other widths than 8, 16, 32 and 64 have no meaning in the format"],
        parts: vec![
            Part { name: "codes", f: p35_codes, quick: 600_000, thorough: 10_000_000 },
            Part { name: "types", f: p35_types, quick: 600_000, thorough: 10_000_000 },
            Part { name: "levels", f: p35_levels, quick: 600_000, thorough: 10_000_000 },
            Part { name: "pages", f: p35_pages, quick: 300_000, thorough: 5_000_000 },
            Part { name: "lengths", f: p35_lengths, quick: 1_000_000, thorough: 20_000_000 },
        ],
    }]
}

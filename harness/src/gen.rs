//! Generators of schemas, pages and whole files, with the model (levels, values) they were made from.
use crate::props::enc::gen_i64s;
use crate::refimpl::*;
use crate::src::Src;
use parquet2::compression::{BrotliLevel, CompressionOptions, GzipLevel, ZstdLevel};
use parquet2::encoding::Encoding;
use parquet2::error::Error;
use parquet2::metadata::{ColumnDescriptor, Descriptor, KeyValue, SchemaDescriptor};
use parquet2::page::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet2::statistics::ParquetStatistics;
use parquet2::write::*;
use parquet2::FallibleStreamingIterator;

pub const REPS: [Repetition; 3] = [Repetition::Required, Repetition::Optional, Repetition::Repeated];

// ------------------------------------------------------------------ schemas
pub fn gen_name(s: &mut Src) -> String {
    match s.below(6) {
        0..=2 => ((b'a' + s.below(4) as u8) as char).to_string(),
        3 => format!("field_{}", s.below(20)),
        4 => s.pick(&["", "a.b", "ünïcode", "日本", " ", "a b", "list", "element", "INT32", "x\n", "\"q\"", "a;b"]).to_string(),
        _ => "n".repeat(s.wide(300)),
    }
}
pub fn uniq(s: &mut Src, used: &mut Vec<String>) -> String {
    let mut n = gen_name(s);
    while used.contains(&n) {
        n.push((b'a' + (used.len() % 26) as u8) as char);
    }
    used.push(n.clone());
    n
}
pub fn gen_physical(s: &mut Src) -> PhysicalType {
    match s.below(9) {
        0 | 8 => PhysicalType::Int32,
        1 => PhysicalType::Int64,
        2 => PhysicalType::ByteArray,
        3 => PhysicalType::Boolean,
        4 => PhysicalType::Double,
        5 => PhysicalType::Float,
        6 => PhysicalType::Int96,
        _ => PhysicalType::FixedLenByteArray(match s.below(5) {
            0 => 16,
            1 => 12,
            2 => 1,
            3 => 1 + s.below(40),
            _ => 2 + s.below(8),
        }),
    }
}
/// largest decimal precision a signed big-endian integer of `len` bytes holds
pub fn max_precision(len: usize) -> usize {
    // digits of 2^(8 len - 1) - 1, minus one unless it is all nines: floor(log10(2^k - 1))
    if len == 0 {
        return 0;
    }
    if len > 1 << 12 {
        return (((len as f64 * 8.0 - 1.0) * 2f64.log10()).floor() as usize).min(1 << 40);
    }
    // exact, by repeated multiplication in base 10
    let mut digits: Vec<u8> = vec![1];
    for _ in 0..8 * len - 1 {
        let mut carry = 0;
        for d in digits.iter_mut() {
            let v = *d * 2 + carry;
            *d = v % 10;
            carry = v / 10;
        }
        if carry > 0 {
            digits.push(carry);
        }
    }
    // 2^k - 1 has the same number of digits as 2^k (2^k is never a power of ten)
    digits.len() - 1
}
pub fn gen_decimal(s: &mut Src, p: PhysicalType) -> (usize, usize) {
    let max = match p {
        PhysicalType::Int32 => 9,
        PhysicalType::Int64 => 18,
        PhysicalType::FixedLenByteArray(n) => max_precision(n),
        _ => 60,
    };
    let prec = if s.coin() { max } else { s.range(1, max) };
    (prec, s.range(0, prec))
}
pub fn gen_unit(s: &mut Src) -> TimeUnit {
    s.pick(&[TimeUnit::Milliseconds, TimeUnit::Microseconds, TimeUnit::Nanoseconds])
}
/// annotations the format allows for `p`
pub fn gen_annotations(s: &mut Src, p: PhysicalType) -> (Option<PrimitiveConvertedType>, Option<PrimitiveLogicalType>) {
    use PrimitiveConvertedType as C;
    use PrimitiveLogicalType as L;
    if s.chance(1, 3) {
        return (None, None);
    }
    let conv = if s.chance(2, 3) {
        match p {
            PhysicalType::ByteArray => Some(match s.below(5) {
                0 => C::Utf8,
                1 => C::Enum,
                2 => C::Json,
                3 => C::Bson,
                _ => {
                    let (a, b) = gen_decimal(s, p);
                    C::Decimal(a, b)
                }
            }),
            PhysicalType::Int32 => Some(match s.below(9) {
                0 => C::Date,
                1 => C::TimeMillis,
                2 => C::Uint8,
                3 => C::Uint16,
                4 => C::Uint32,
                5 => C::Int8,
                6 => C::Int16,
                7 => C::Int32,
                _ => {
                    let (a, b) = gen_decimal(s, p);
                    C::Decimal(a, b)
                }
            }),
            PhysicalType::Int64 => Some(match s.below(6) {
                0 => C::TimeMicros,
                1 => C::TimestampMillis,
                2 => C::TimestampMicros,
                3 => C::Uint64,
                4 => C::Int64,
                _ => {
                    let (a, b) = gen_decimal(s, p);
                    C::Decimal(a, b)
                }
            }),
            PhysicalType::FixedLenByteArray(12) if s.coin() => Some(C::Interval),
            PhysicalType::FixedLenByteArray(n) if max_precision(n) > 0 => {
                let (a, b) = gen_decimal(s, p);
                Some(C::Decimal(a, b))
            }
            _ => None,
        }
    } else {
        None
    };
    let logical = if s.chance(2, 3) {
        let utc = s.coin();
        match p {
            PhysicalType::ByteArray => Some(match s.below(5) {
                0 => L::String,
                1 => L::Enum,
                2 => L::Json,
                3 => L::Bson,
                _ => {
                    let (a, b) = gen_decimal(s, p);
                    L::Decimal(a, b)
                }
            }),
            PhysicalType::Int32 => Some(match s.below(5) {
                0 => L::Date,
                1 => L::Time { unit: TimeUnit::Milliseconds, is_adjusted_to_utc: utc },
                2 => L::Integer(s.pick(&[IntegerType::Int8, IntegerType::Int16, IntegerType::Int32, IntegerType::UInt8, IntegerType::UInt16, IntegerType::UInt32])),
                3 => L::Unknown,
                _ => {
                    let (a, b) = gen_decimal(s, p);
                    L::Decimal(a, b)
                }
            }),
            PhysicalType::Int64 => Some(match s.below(4) {
                0 => L::Time { unit: s.pick(&[TimeUnit::Microseconds, TimeUnit::Nanoseconds]), is_adjusted_to_utc: utc },
                1 => L::Timestamp { unit: gen_unit(s), is_adjusted_to_utc: utc },
                2 => L::Integer(s.pick(&[IntegerType::Int64, IntegerType::UInt64])),
                _ => {
                    let (a, b) = gen_decimal(s, p);
                    L::Decimal(a, b)
                }
            }),
            PhysicalType::FixedLenByteArray(16) if s.coin() => Some(L::Uuid),
            PhysicalType::FixedLenByteArray(n) if max_precision(n) > 0 => {
                let (a, b) = gen_decimal(s, p);
                Some(L::Decimal(a, b))
            }
            _ => None,
        }
    } else {
        None
    };
    (conv, logical)
}
fn gen_id(s: &mut Src) -> Option<i32> {
    match s.below(4) {
        0 | 1 => None,
        2 => Some(s.below(50) as i32),
        _ => Some(s.i32_any()),
    }
}
pub fn gen_leaf(s: &mut Src, name: String, rep: Repetition) -> ParquetType {
    let p = gen_physical(s);
    let (conv, logical) = gen_annotations(s, p);
    let id = gen_id(s);
    ParquetType::try_from_primitive(name, p, rep, conv, logical, id).expect("legal annotation refused")
}
pub fn gen_type(s: &mut Src, depth: usize, used: &mut Vec<String>, leaves: &mut usize) -> ParquetType {
    let name = uniq(s, used);
    let rep = REPS[s.weighted(&[4, 4, 2])];
    if depth == 0 || *leaves == 0 || s.chance(3, 5) {
        *leaves = leaves.saturating_sub(1);
        gen_leaf(s, name, rep)
    } else {
        let n = 1 + s.weighted(&[4, 3, 1, 1]);
        let mut inner = vec![];
        let fields = (0..n).map(|_| gen_type(s, depth - 1, &mut inner, leaves)).collect();
        let conv = if s.chance(1, 3) { Some(s.pick(&[GroupConvertedType::List, GroupConvertedType::Map, GroupConvertedType::MapKeyValue])) } else { None };
        let logical = if s.chance(1, 3) { Some(s.pick(&[GroupLogicalType::List, GroupLogicalType::Map])) } else { None };
        let id = gen_id(s);
        ParquetType::from_group(name, rep, conv, logical, fields, id)
    }
}
/// 1..=max_fields top-level fields
pub fn gen_fields(s: &mut Src, max_fields: usize, depth: usize) -> Vec<ParquetType> {
    let n = 1 + s.weighted(&[4, 4, 3, 1, 1]).min(max_fields - 1);
    let mut used = vec![];
    let mut leaves = 12;
    (0..n).map(|_| gen_type(s, depth, &mut used, &mut leaves)).collect()
}
pub fn gen_schema(s: &mut Src, max_fields: usize, depth: usize) -> SchemaDescriptor {
    let name = gen_name(s);
    let mut fields = gen_fields(s, max_fields, depth);
    if s.chance(1, 16) {
        let inner = fields.pop().unwrap();
        fields.push(gen_chain(s, inner));
    }
    SchemaDescriptor::new(name, fields)
}
/// `inner` below many groups, whose repetitions add up to levels of several bits
pub fn gen_chain(s: &mut Src, inner: ParquetType) -> ParquetType {
    let n = s.pick(&[30usize, 3, 6, 7, 14, 15, 16, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128]);
    gen_chain_of(s, inner, n)
}
pub fn gen_chain_of(s: &mut Src, inner: ParquetType, n: usize) -> ParquetType {
    let style = s.below(3);
    let mut out = inner;
    for _ in 0..n {
        let rep = match style {
            0 => Repetition::Optional,
            1 => Repetition::Repeated,
            _ => REPS[s.below(3)],
        };
        let name = out.name().to_string();
        out = ParquetType::from_group(name, rep, None, None, vec![out], None);
    }
    out
}
/// (leaf type, path, max def, max rep, index of the top-level field), depth first
pub fn model_leaves(fields: &[ParquetType]) -> Vec<(PrimitiveType, Vec<String>, i16, i16, usize)> {
    fn go(t: &ParquetType, path: &[String], d: i16, r: i16, base: usize, out: &mut Vec<(PrimitiveType, Vec<String>, i16, i16, usize)>) {
        let info = t.get_field_info();
        let mut p = path.to_vec();
        p.push(info.name.clone());
        let d = d + (info.repetition != Repetition::Required) as i16;
        let r = r + (info.repetition == Repetition::Repeated) as i16;
        match t {
            ParquetType::PrimitiveType(x) => out.push((x.clone(), p, d, r, base)),
            ParquetType::GroupType { fields, .. } => fields.iter().for_each(|f| go(f, &p, d, r, base, out)),
        }
    }
    let mut out = vec![];
    for (i, f) in fields.iter().enumerate() {
        go(f, &[], 0, 0, i, &mut out);
    }
    out
}

// ------------------------------------------------------------------ values
/// one value in plain encoding (byte arrays without their length prefix; booleans one byte)
pub fn gen_value(s: &mut Src, p: PhysicalType) -> Vec<u8> {
    match p {
        PhysicalType::Boolean => vec![s.below(2) as u8],
        PhysicalType::Int32 => s.i32_any().to_le_bytes().to_vec(),
        PhysicalType::Int64 => s.i64_any().to_le_bytes().to_vec(),
        PhysicalType::Float => match s.below(3) {
            0 => (s.i32_any() as f32).to_le_bytes().to_vec(),
            1 => s.pick(&[0.0f32, -0.0, 1.5, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, f32::MAX]).to_le_bytes().to_vec(),
            _ => (s.raw() as u32).to_le_bytes().to_vec(),
        },
        PhysicalType::Double => match s.below(3) {
            0 => (s.i64_any() as f64).to_le_bytes().to_vec(),
            1 => s.pick(&[0.0f64, -0.0, 1.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX]).to_le_bytes().to_vec(),
            _ => s.raw().to_le_bytes().to_vec(),
        },
        PhysicalType::Int96 => {
            let a = s.i64_any();
            let b = s.i32_any();
            let mut v = a.to_le_bytes().to_vec();
            v.extend(b.to_le_bytes());
            v
        }
        PhysicalType::ByteArray => {
            // also ones that make page headers with statistics long
            let n = if s.chance(1, 60) { 400 + s.below(5000) } else { s.size(40) };
            s.bytes(n)
        }
        PhysicalType::FixedLenByteArray(n) => s.bytes(n),
    }
}
pub fn gen_vals(s: &mut Src, n: usize, p: PhysicalType) -> Vec<Vec<u8>> {
    if n == 0 {
        return vec![];
    }
    // few distinct values, repeated or drawn at random: keeps tapes short
    let k = 1 + s.size(20.min(n));
    let pool: Vec<Vec<u8>> = (0..k).map(|_| gen_value(s, p)).collect();
    if n <= 24 {
        (0..n).map(|_| pool[s.below(k)].clone()).collect()
    } else {
        let mut r = s.rng();
        (0..n).map(|_| pool[(r.next() % k as u64) as usize].clone()).collect()
    }
}
pub fn plain(values: &[Vec<u8>], p: PhysicalType) -> Vec<u8> {
    match p {
        PhysicalType::Boolean => plain_bools(&values.iter().map(|x| x[0] != 0).collect::<Vec<_>>()),
        PhysicalType::ByteArray => plain_byte_array(values),
        _ => values.concat(),
    }
}

// ------------------------------------------------------------------ pages
#[derive(Clone, Debug)]
pub struct PageM {
    pub v2: bool,
    pub encoding: Encoding,
    pub rows: usize,
    pub reps: Vec<u64>,
    pub defs: Vec<u64>,
    pub values: Vec<Vec<u8>>,
    pub keys: Vec<u64>,
    pub rep_bytes: Vec<u8>,
    pub def_bytes: Vec<u8>,
    pub value_bytes: Vec<u8>,
    pub stats: Option<ParquetStatistics>,
    /// V2 only
    pub is_compressed: Option<bool>,
    /// so many nulls (or equal values), which are not listed
    pub many: Option<usize>,
}
impl PageM {
    pub fn num_values(&self) -> usize {
        self.many.unwrap_or(self.defs.len())
    }
    pub fn num_nulls(&self, d: &Descriptor) -> usize {
        match self.many {
            Some(n) => n * (d.max_def_level > 0) as usize,
            None => self.defs.iter().filter(|x| **x < d.max_def_level as u64).count(),
        }
    }
    pub fn buffer(&self, d: &Descriptor) -> Vec<u8> {
        let mut b = vec![];
        for (lv, max) in [(&self.rep_bytes, d.max_rep_level), (&self.def_bytes, d.max_def_level)] {
            if max > 0 {
                if !self.v2 {
                    b.extend((lv.len() as u32).to_le_bytes());
                }
                b.extend_from_slice(lv);
            }
        }
        b.extend_from_slice(&self.value_bytes);
        b
    }
    pub fn levels_len(&self) -> usize {
        self.rep_bytes.len() + self.def_bytes.len()
    }
    pub fn header(&self, d: &Descriptor) -> DataPageHeader {
        if self.v2 {
            DataPageHeader::V2(DataPageHeaderV2 {
                num_values: self.num_values() as i32,
                num_nulls: self.num_nulls(d) as i32,
                num_rows: self.rows as i32,
                encoding: self.encoding.into(),
                definition_levels_byte_length: self.def_bytes.len() as i32,
                repetition_levels_byte_length: self.rep_bytes.len() as i32,
                is_compressed: self.is_compressed,
                statistics: self.stats.clone(),
            })
        } else {
            DataPageHeader::V1(DataPageHeaderV1 {
                num_values: self.num_values() as i32,
                encoding: self.encoding.into(),
                definition_level_encoding: Encoding::Rle.into(),
                repetition_level_encoding: Encoding::Rle.into(),
                statistics: self.stats.clone(),
            })
        }
    }
    pub fn page(&self, d: &Descriptor) -> DataPage {
        DataPage::new(self.header(d), self.buffer(d), d.clone(), Some(self.rows))
    }
}
#[derive(Clone, Debug)]
pub struct DictM {
    pub values: Vec<Vec<u8>>,
    pub bytes: Vec<u8>,
    pub is_sorted: bool,
}
impl DictM {
    pub fn page(&self) -> DictPage {
        DictPage::new(self.bytes.clone(), self.values.len(), self.is_sorted)
    }
}

pub fn level_bytes(s: &mut Src, lv: &[u64], max: i16) -> Vec<u8> {
    let w = level_width(max as u64);
    if w == 0 {
        return vec![];
    }
    let r = gen_runs(s, lv, w, false);
    encode_runs(&r, w)
}

/// levels of `rows` rows of a column
pub fn gen_levels(s: &mut Src, rows: usize, d: &Descriptor) -> (Vec<u64>, Vec<u64>) {
    let (maxd, maxr) = (d.max_def_level as u64, d.max_rep_level as u64);
    let mut reps = vec![];
    let mut defs = vec![];
    let style = s.below(4); // 0 mixed, 1 all present, 2 runs, 3 all null
    let seed = s.raw();
    let mut r = crate::src::Rng::new(seed);
    let mut cur = maxd;
    for _ in 0..rows {
        let n = if maxr == 0 { 1 } else { 1 + (r.next() % 4) as usize };
        for i in 0..n {
            reps.push(if i == 0 { 0 } else { 1 + r.next() % maxr });
            let dv = match style {
                1 => maxd,
                3 => 0,
                2 => {
                    if r.next() % 9 == 0 {
                        cur = r.next() % (maxd + 1);
                    }
                    cur
                }
                _ => {
                    if r.next() % 2 == 0 {
                        maxd
                    } else {
                        r.next() % (maxd + 1)
                    }
                }
            };
            defs.push(dv);
        }
    }
    (reps, defs)
}

/// min and max of `values` in the type's own order (see `cmp_values`), skipping values that have none
pub fn model_min_max(values: &[Vec<u8>], t: &PrimitiveType) -> Option<(Vec<u8>, Vec<u8>)> {
    let mut it = values.iter().filter(|v| !is_nan(v, t.physical_type));
    let first = it.next()?;
    let (mut lo, mut hi) = (first, first);
    for v in it {
        if cmp_values(v, lo, t).is_lt() {
            lo = v
        }
        if cmp_values(v, hi, t).is_gt() {
            hi = v
        }
    }
    Some((lo.clone(), hi.clone()))
}
pub fn is_nan(v: &[u8], p: PhysicalType) -> bool {
    match p {
        PhysicalType::Float => f32::from_le_bytes(v.try_into().unwrap()).is_nan(),
        PhysicalType::Double => f64::from_le_bytes(v.try_into().unwrap()).is_nan(),
        _ => false,
    }
}
pub fn is_unsigned(t: &PrimitiveType) -> bool {
    use PrimitiveConvertedType as C;
    if let Some(l) = t.logical_type {
        return matches!(l, PrimitiveLogicalType::Integer(IntegerType::UInt8 | IntegerType::UInt16 | IntegerType::UInt32 | IntegerType::UInt64));
    }
    matches!(t.converted_type, Some(C::Uint8 | C::Uint16 | C::Uint32 | C::Uint64))
}
pub fn is_decimal(t: &PrimitiveType) -> bool {
    if let Some(l) = t.logical_type {
        return matches!(l, PrimitiveLogicalType::Decimal(_, _));
    }
    matches!(t.converted_type, Some(PrimitiveConvertedType::Decimal(_, _)))
}
/// the order the format defines for the column's type
pub fn cmp_values(a: &[u8], b: &[u8], t: &PrimitiveType) -> std::cmp::Ordering {
    match t.physical_type {
        PhysicalType::Boolean => a[0].cmp(&b[0]),
        PhysicalType::Int32 => {
            let (x, y) = (i32::from_le_bytes(a.try_into().unwrap()), i32::from_le_bytes(b.try_into().unwrap()));
            if is_unsigned(t) {
                (x as u32).cmp(&(y as u32))
            } else {
                x.cmp(&y)
            }
        }
        PhysicalType::Int64 => {
            let (x, y) = (i64::from_le_bytes(a.try_into().unwrap()), i64::from_le_bytes(b.try_into().unwrap()));
            if is_unsigned(t) {
                (x as u64).cmp(&(y as u64))
            } else {
                x.cmp(&y)
            }
        }
        PhysicalType::Float => f32::from_le_bytes(a.try_into().unwrap()).partial_cmp(&f32::from_le_bytes(b.try_into().unwrap())).unwrap_or(std::cmp::Ordering::Equal),
        PhysicalType::Double => f64::from_le_bytes(a.try_into().unwrap()).partial_cmp(&f64::from_le_bytes(b.try_into().unwrap())).unwrap_or(std::cmp::Ordering::Equal),
        PhysicalType::Int96 => {
            // no order is defined; (days, nanoseconds) is the one readers assume
            let k = |v: &[u8]| (i32::from_le_bytes(v[8..12].try_into().unwrap()), i64::from_le_bytes(v[..8].try_into().unwrap()));
            k(a).cmp(&k(b))
        }
        PhysicalType::ByteArray | PhysicalType::FixedLenByteArray(_) => {
            if is_decimal(t) {
                // two's complement big endian, of any length
                let neg = |v: &[u8]| v.first().map(|x| x & 0x80 != 0).unwrap_or(false);
                let (na, nb) = (neg(a), neg(b));
                if na != nb {
                    return nb.cmp(&na);
                }
                let n = a.len().max(b.len());
                let ext = |v: &[u8], ng: bool| {
                    let mut o = vec![if ng { 0xff } else { 0 }; n - v.len()];
                    o.extend_from_slice(v);
                    o
                };
                ext(a, na).cmp(&ext(b, nb))
            } else {
                a.cmp(b)
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum StatMode {
    None,
    /// complete, as column indexes need them
    Full,
    /// any mixture
    Any,
}
pub fn gen_stats(s: &mut Src, values: &[Vec<u8>], defs: &[u64], d: &Descriptor, mode: StatMode) -> Option<ParquetStatistics> {
    if mode == StatMode::None || (mode == StatMode::Any && s.chance(1, 3)) {
        return None;
    }
    let mm = model_min_max(values, &d.primitive_type);
    let nulls = defs.iter().filter(|x| **x < d.max_def_level as u64).count() as i64;
    let full = mode == StatMode::Full;
    let (min, max) = match mm {
        Some((a, b)) => (Some(a), Some(b)),
        // only NaNs
        None if full && !values.is_empty() => (Some(values[0].clone()), Some(values[0].clone())),
        None => (None, None),
    };
    let no_mm = !full && s.chance(1, 4);
    Some(ParquetStatistics {
        max: None,
        min: None,
        null_count: if full || s.chance(3, 4) { Some(nulls) } else { None },
        distinct_count: if s.chance(1, 4) { Some(s.below(100) as i64) } else { None },
        max_value: if no_mm || (!full && s.chance(1, 6)) { None } else { max },
        min_value: if no_mm || (!full && s.chance(1, 6)) { None } else { min },
    })
}

/// encodes `values` of a column as the page's value section
fn gen_value_section(s: &mut Src, values: &[Vec<u8>], p: PhysicalType, dict: Option<&DictM>) -> (Encoding, Vec<u8>, Vec<u64>) {
    if let Some(d) = dict {
        if !d.values.is_empty() && s.chance(3, 4) {
            let keys: Vec<u64> = values.iter().map(|v| d.values.iter().position(|x| x == v).unwrap() as u64).collect();
            let need = level_width(d.values.len() as u64 - 1);
            let w = if s.chance(1, 5) { (need + s.below(4) as u32).min(32) } else { need };
            let mut b = vec![w as u8];
            if w > 0 || s.coin() {
                let r = gen_runs(s, &keys, w, false);
                b.extend(encode_runs(&r, w));
            } else if !keys.is_empty() {
                // width 0: a run of the only key
                b.extend(uleb((keys.len() as u64) << 1));
            }
            return (s.pick(&[Encoding::RleDictionary, Encoding::PlainDictionary]), b, keys);
        }
    }
    let pl = |e| (e, plain(values, p), vec![]);
    if s.chance(2, 3) {
        return pl(Encoding::Plain);
    }
    match p {
        PhysicalType::Int32 => {
            let v: Vec<i64> = values.iter().map(|x| i32::from_le_bytes(x[..].try_into().unwrap()) as i64).collect();
            (Encoding::DeltaBinaryPacked, delta_encode(&v, &gen_delta_layout(s)), vec![])
        }
        PhysicalType::Int64 => {
            let v: Vec<i64> = values.iter().map(|x| i64::from_le_bytes(x[..].try_into().unwrap())).collect();
            (Encoding::DeltaBinaryPacked, delta_encode(&v, &gen_delta_layout(s)), vec![])
        }
        PhysicalType::ByteArray => {
            if s.coin() {
                let lens: Vec<i64> = values.iter().map(|x| x.len() as i64).collect();
                let mut b = delta_encode(&lens, &gen_delta_layout(s));
                b.extend(values.concat());
                (Encoding::DeltaLengthByteArray, b, vec![])
            } else {
                let mut out = vec![];
                let strs: Vec<&[u8]> = values.iter().map(|x| &x[..]).collect();
                parquet2::encoding::delta_byte_array::encode(strs.into_iter(), &mut out);
                (Encoding::DeltaByteArray, out, vec![])
            }
        }
        PhysicalType::Boolean => {
            // RLE booleans: length prefix and runs of width 1
            let v: Vec<u64> = values.iter().map(|x| x[0] as u64).collect();
            let r = gen_runs(s, &v, 1, false);
            let body = encode_runs(&r, 1);
            let mut b = (body.len() as u32).to_le_bytes().to_vec();
            b.extend(body);
            (Encoding::Rle, b, vec![])
        }
        _ => pl(Encoding::Plain),
    }
}

pub struct PageOpts {
    pub max_rows: usize,
    pub stats: StatMode,
    /// only encodings that the page states decode
    pub decodable: bool,
}
pub fn gen_page(s: &mut Src, rows: usize, d: &Descriptor, dict: Option<&DictM>, o: &PageOpts) -> PageM {
    let (reps, defs) = gen_levels(s, rows, d);
    let n = defs.iter().filter(|x| **x == d.max_def_level as u64).count();
    let p = d.primitive_type.physical_type;
    let values = match dict {
        Some(dm) if !dm.values.is_empty() && s.chance(7, 8) => {
            let k = dm.values.len();
            let mut r = s.rng();
            (0..n).map(|_| dm.values[(r.next() % k as u64) as usize].clone()).collect::<Vec<_>>()
        }
        _ => gen_vals(s, n, p),
    };
    let fits = dict.map(|dm| values.iter().all(|v| dm.values.contains(v))).unwrap_or(false);
    let (encoding, value_bytes, keys) = if o.decodable && !fits { (Encoding::Plain, plain(&values, p), vec![]) } else { gen_value_section(s, &values, p, if fits { dict } else { None }) };
    let (encoding, value_bytes, keys) =
        if o.decodable && !matches!(encoding, Encoding::Plain | Encoding::RleDictionary | Encoding::PlainDictionary) { (Encoding::Plain, plain(&values, p), vec![]) } else { (encoding, value_bytes, keys) };
    let stats = gen_stats(s, &values, &defs, d, o.stats);
    PageM {
        v2: s.coin(),
        encoding,
        rows,
        rep_bytes: level_bytes(s, &reps, d.max_rep_level),
        def_bytes: level_bytes(s, &defs, d.max_def_level),
        reps,
        defs,
        values,
        keys,
        value_bytes,
        stats,
        is_compressed: s.pick(&[Some(true), None, Some(false)]),
        many: None,
    }
}
pub fn gen_dict(s: &mut Src, p: PhysicalType, max: usize) -> DictM {
    let n = s.size(max);
    let mut values: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let v = gen_value(s, p);
        if !values.contains(&v) {
            values.push(v);
        }
    }
    DictM { bytes: plain(&values, p), values, is_sorted: s.coin() }
}

// ------------------------------------------------------------------ chunks and files
pub fn gen_codec(s: &mut Src) -> CompressionOptions {
    match s.below(9) {
        0 | 1 => CompressionOptions::Uncompressed,
        2 | 3 => CompressionOptions::Snappy,
        4 => CompressionOptions::Gzip(if s.coin() { None } else { Some(GzipLevel::try_new(s.below(11) as u8).unwrap()) }),
        5 => CompressionOptions::Brotli(if s.coin() { None } else { Some(BrotliLevel::try_new(s.below(4) as u32).unwrap()) }),
        6 | 7 => CompressionOptions::Lz4Raw,
        _ => CompressionOptions::Zstd(if s.coin() { None } else { Some(ZstdLevel::try_new(1 + s.below(5) as i32).unwrap()) }),
    }
}
#[derive(Clone, Debug)]
pub struct ChunkM {
    pub dict: Option<DictM>,
    pub pages: Vec<PageM>,
    pub codec: CompressionOptions,
    /// pages (with the dictionary) whose stored bytes are this many zeros, and the length they declare
    pub huge: Vec<(usize, usize, usize)>,
}
#[derive(Clone, Debug)]
pub struct FileM {
    pub schema: SchemaDescriptor,
    pub options: WriteOptions,
    pub created_by: Option<String>,
    pub kv: Option<Vec<KeyValue>>,
    /// row groups of (rows, chunks)
    pub groups: Vec<(usize, Vec<ChunkM>)>,
}
pub struct FileOpts {
    pub max_fields: usize,
    pub depth: usize,
    pub max_groups: usize,
    pub max_rows: usize,
    pub stats: Option<bool>,
    pub decodable: bool,
    pub dict_max: usize,
}
impl Default for FileOpts {
    fn default() -> Self {
        FileOpts { max_fields: 5, depth: 3, max_groups: 4, max_rows: 300, stats: None, decodable: false, dict_max: 20 }
    }
}
/// cuts `rows` into pages, which may be empty
pub fn gen_cuts(s: &mut Src, rows: usize) -> Vec<usize> {
    if rows == 0 {
        return if s.chance(1, 4) { vec![0; 1 + s.below(2)] } else { vec![] };
    }
    let n = if s.chance(1, 40) { s.range(7, 300) } else { 1 + s.weighted(&[4, 3, 2, 1, 1, 1]) };
    let mut cuts: Vec<usize> = (0..n - 1).map(|_| s.below(rows)).collect();
    cuts.sort();
    if !s.chance(1, 6) {
        cuts.retain(|x| *x > 0);
        cuts.dedup();
    }
    cuts.push(rows);
    let mut prev = 0;
    if s.chance(1, 12) {
        cuts.push(rows);
    }
    cuts.into_iter()
        .map(|c| {
            let k = c - prev;
            prev = c;
            k
        })
        .collect()
}
pub fn gen_chunk(s: &mut Src, rows: usize, d: &Descriptor, o: &FileOpts, stats: StatMode) -> ChunkM {
    let p = d.primitive_type.physical_type;
    let dict = if (rows > 0 || s.chance(1, 5)) && p != PhysicalType::Boolean && s.chance(2, 5) { Some(gen_dict(s, p, o.dict_max)) } else { None };
    let po = PageOpts { max_rows: o.max_rows, stats, decodable: o.decodable };
    let pages = gen_cuts(s, rows).into_iter().map(|r| gen_page(s, r, d, dict.as_ref(), &po)).collect();
    ChunkM { dict, pages, codec: gen_codec(s), huge: vec![] }
}
pub fn gen_kv(s: &mut Src) -> Option<Vec<KeyValue>> {
    match s.below(3) {
        0 => None,
        1 => Some(vec![]),
        _ => {
            let n = s.range(1, 3);
            Some(
                (0..n)
                    .map(|_| KeyValue {
                        key: gen_name(s),
                        value: match s.below(4) {
                            0 => None,
                            1 => Some("v".repeat(s.wide(3000))),
                            _ => Some(gen_name(s)),
                        },
                    })
                    .collect(),
            )
        }
    }
}
pub fn gen_file(s: &mut Src, o: &FileOpts) -> FileM {
    let schema = gen_schema(s, o.max_fields, o.depth);
    gen_file_for(s, schema, o)
}
pub fn gen_file_for(s: &mut Src, schema: SchemaDescriptor, o: &FileOpts) -> FileM {
    let write_statistics = o.stats.unwrap_or_else(|| s.coin());
    let mode = if write_statistics { StatMode::Full } else { s.pick(&[StatMode::Any, StatMode::None]) };
    let options = WriteOptions { write_statistics, version: s.pick(&[Version::V1, Version::V2]) };
    let created_by = if s.coin() { Some(gen_name(s)) } else { None };
    let ng = if s.chance(1, 300) { s.range(5, 140) } else { s.weighted(&[1, 5, 3, 1, 1]).min(o.max_groups) };
    let groups = (0..ng)
        .map(|_| {
            // of many row groups, each is small
            let rows = if s.chance(1, 12) { 0 } else { s.size1(if ng > 4 { o.max_rows.min(4) } else { o.max_rows }) };
            let chunks = schema.columns().iter().map(|c| gen_chunk(s, rows, &c.descriptor, o, mode)).collect();
            (rows, chunks)
        })
        .collect();
    let kv = gen_kv(s);
    FileM { schema, options, created_by, kv, groups }
}
/// the pages of a chunk as the user builds them
pub fn chunk_pages(ch: &ChunkM, d: &Descriptor) -> Vec<Page> {
    let mut v = vec![];
    if let Some(dm) = &ch.dict {
        v.push(Page::Dict(dm.page()));
    }
    v.extend(ch.pages.iter().map(|p| Page::Data(p.page(d))));
    v
}
/// pages of an iterator, lent one at a time
pub struct OwnedPages<I>(pub I, pub Option<CompressedPage>);
impl<I: Iterator<Item = Result<CompressedPage, Error>>> FallibleStreamingIterator for OwnedPages<I> {
    type Item = CompressedPage;
    type Error = Error;
    fn advance(&mut self) -> Result<(), Error> {
        self.1 = self.0.next().transpose()?;
        Ok(())
    }
    fn get(&self) -> Option<&CompressedPage> {
        self.1.as_ref()
    }
}
pub type Pages<'a> = DynStreamingIterator<'a, CompressedPage, Error>;
/// the chunk's compressed pages: through the streaming `Compressor`, or compressed one by one
pub fn chunk_iter<'a>(ch: &ChunkM, d: &Descriptor, streaming: bool) -> Pages<'a> {
    let pages = chunk_pages(ch, d);
    if streaming {
        DynStreamingIterator::new(Compressor::new_from_vec(DynIter::new(pages.into_iter().map(Ok)), ch.codec, vec![]))
    } else {
        let codec = ch.codec;
        let huge = ch.huge.clone();
        let it = pages.into_iter().enumerate().map(move |(i, p)| match huge.iter().find(|x| x.0 == i) {
            None => match p {
                // pages may also be made by hand
                Page::Data(p) if codec == CompressionOptions::Uncompressed && i % 2 == 1 && matches!(p.header(), DataPageHeader::V1(_)) => {
                    let rows = p.selected_rows().and_then(|x| x.get(0)).map(|x| x.length);
                    Ok(CompressedPage::Data(CompressedDataPage::new(p.header().clone(), p.buffer().to_vec(), codec.into(), p.buffer().len(), p.descriptor.clone(), rows)))
                }
                p => compress(p, vec![], codec),
            },
            Some((_, stored, declared)) => Ok(match p {
                Page::Data(p) => {
                    let rows = p.selected_rows().and_then(|x| x.get(0)).map(|x| x.length);
                    CompressedPage::Data(CompressedDataPage::new(p.header().clone(), zeros(*stored), codec.into(), *declared, p.descriptor.clone(), rows))
                }
                Page::Dict(p) => CompressedPage::Dict(CompressedDictPage::new(zeros(*stored), codec.into(), *declared, p.num_values, p.is_sorted)),
            }),
        });
        DynStreamingIterator::new(OwnedPages(it, None))
    }
}
/// address space, not memory, as long as nobody touches it
fn zeros(n: usize) -> Vec<u8> {
    vec![0; n]
}
pub fn group_iter<'a>(f: &'a FileM, g: usize, streaming: bool) -> RowGroupIter<'a, Error> {
    let cols = f.schema.columns();
    DynIter::new(f.groups[g].1.iter().zip(cols.iter()).map(move |(c, d)| Ok(chunk_iter(c, &d.descriptor, streaming))))
}
pub fn write_file<W: std::io::Write>(f: &FileM, sink: W, streaming: bool) -> Result<(u64, W, parquet2::metadata::ThriftFileMetaData), Error> {
    let mut w = FileWriter::new(sink, f.schema.clone(), f.options, f.created_by.clone());
    for g in 0..f.groups.len() {
        w.write(group_iter(f, g, streaming))?;
    }
    let n = w.end(f.kv.clone())?;
    let (s, m) = w.into_inner_and_metadata();
    Ok((n, s, m))
}
pub fn write_vec(f: &FileM) -> Result<Vec<u8>, Error> {
    let streaming = f.groups.iter().map(|g| g.0).sum::<usize>() % 3 != 0;
    Ok(write_file(f, vec![], streaming)?.1)
}
pub fn describe_file(f: &FileM) -> String {
    format!(
        "{} columns {:?}; {:?}; groups {:?}",
        f.schema.columns().len(),
        f.schema.columns().iter().map(|c| (c.descriptor.primitive_type.physical_type, c.descriptor.max_def_level, c.descriptor.max_rep_level)).collect::<Vec<_>>(),
        f.options,
        f.groups
            .iter()
            .map(|(r, cs)| (
                *r,
                cs.iter()
                    .map(|c| (c.codec, c.dict.as_ref().map(|d| d.values.len()), c.pages.iter().map(|p| (if p.v2 { 2 } else { 1 }, p.encoding, p.rows)).collect::<Vec<_>>()))
                    .collect::<Vec<_>>()
            ))
            .collect::<Vec<_>>()
    )
}
/// a file of billions of rows, all null or all the same
pub fn gen_counted(s: &mut Src, stats: Option<bool>) -> FileM {
    const MAX: usize = i32::MAX as usize;
    let mut f = gen_file(s, &FileOpts { max_fields: 3, depth: 2, max_groups: 3, max_rows: 5, stats, ..FileOpts::default() });
    let cols: Vec<Descriptor> = f.schema.columns().iter().map(|c| c.descriptor.clone()).collect();
    for (rows, chunks) in &mut f.groups {
        *rows = match s.below(5) {
            0 => s.size(1000),
            1 => MAX - 3 + s.below(7),
            2 => 2 * MAX + s.below(7),
            _ => s.below(4 * MAX),
        };
        for (ch, d) in chunks.iter_mut().zip(&cols) {
            let mut cuts: Vec<usize> = if s.chance(1, 2) { gen_cuts(s, *rows) } else { vec![*rows] };
            // no page holds more
            let mut pages = vec![];
            for mut k in cuts.drain(..) {
                while k > MAX {
                    let n = if s.coin() { MAX } else { 1 + s.below(MAX) };
                    pages.push(n);
                    k -= n;
                }
                pages.push(k);
            }
            let p = d.primitive_type.physical_type;
            let null = d.max_def_level > 0;
            let bools = !null && p == PhysicalType::Boolean;
            let value = gen_value(s, p);
            ch.dict = (!null && !bools).then(|| DictM { bytes: plain(std::slice::from_ref(&value), p), values: vec![value.clone()], is_sorted: s.coin() });
            let full = f.options.write_statistics;
            ch.pages = pages
                .into_iter()
                .map(|n| {
                    let run = |w: u32| if w == 0 { vec![] } else { encode_runs(&[Run::Rle(0, n)], w) };
                    let (encoding, value_bytes) = match (null, bools) {
                        (true, _) => (Encoding::Plain, vec![]),
                        (_, true) => {
                            let r = encode_runs(&[Run::Rle(value[0] as u64 & 1, n)], 1);
                            let mut b = (r.len() as u32).to_le_bytes().to_vec();
                            b.extend(r);
                            (Encoding::Rle, b)
                        }
                        _ => {
                            let mut b = vec![0];
                            b.extend(uleb((n as u64) << 1));
                            (Encoding::RleDictionary, b)
                        }
                    };
                    let bound = (!null && n > 0).then(|| value.clone());
                    let known = full || s.coin();
                    PageM {
                        v2: s.coin(),
                        encoding,
                        rows: n,
                        reps: vec![],
                        defs: vec![],
                        values: vec![],
                        keys: vec![],
                        rep_bytes: run(level_width(d.max_rep_level as u64)),
                        def_bytes: run(level_width(d.max_def_level as u64)),
                        value_bytes,
                        stats: known.then(|| ParquetStatistics { max: None, min: None, null_count: Some(if null { n as i64 } else { 0 }), distinct_count: None, max_value: bound.clone(), min_value: bound }),
                        is_compressed: s.pick(&[Some(true), None, Some(false)]),
                        many: Some(n),
                    }
                })
                .collect();
        }
    }
    f
}
pub fn label_counted(c: &mut crate::engine::Case, f: &FileM) {
    let most = f.groups.iter().map(|g| g.0).max().unwrap_or(0);
    c.label_if(most > i32::MAX as usize, "more than 2^31 rows");
    c.label_if(most > u32::MAX as usize, "more than 2^32 rows");
    c.nontrivial(most > i32::MAX as usize);
    c.describe(|| describe_file(f));
}
#[allow(unused)]
fn _unused(s: &mut Src, c: &ColumnDescriptor) -> Vec<i64> {
    gen_i64s(s, c.path_in_schema.len())
}

/// decodes every page of a chunk read back and collects (reps, defs, values)
pub fn drain_stream<I>(mut it: I, mut f: impl FnMut(&I::Item) -> crate::engine::R) -> Result<(), crate::engine::Fail>
where
    I: FallibleStreamingIterator<Error = Error>,
{
    while let Some(p) = it.next()? {
        f(p)?;
    }
    Ok(())
}

//! P27-P29: schemas in files, schemas as text, legal annotations.
use crate::engine::*;
use crate::gen::*;
use crate::src::Src;
use crate::{ensure, ensure_eq};
use parquet2::metadata::{FileMetaData, SchemaDescriptor};
use parquet2::schema::io_message::from_message;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet_format_safe as tf;
use parquet_format_safe::SchemaElement;

const MAX_DEPTH: usize = 512;

// ------------------------------------------------------------------ the format's numbers
fn rep_code(r: Repetition) -> i32 {
    match r {
        Repetition::Required => 0,
        Repetition::Optional => 1,
        Repetition::Repeated => 2,
    }
}
pub fn type_code(p: PhysicalType) -> (i32, Option<i32>) {
    match p {
        PhysicalType::Boolean => (0, None),
        PhysicalType::Int32 => (1, None),
        PhysicalType::Int64 => (2, None),
        PhysicalType::Int96 => (3, None),
        PhysicalType::Float => (4, None),
        PhysicalType::Double => (5, None),
        PhysicalType::ByteArray => (6, None),
        PhysicalType::FixedLenByteArray(n) => (7, Some(n as i32)),
    }
}
use PrimitiveConvertedType as C;
use PrimitiveLogicalType as L;
const CONVERTED: [(i32, C); 19] = [
    (0, C::Utf8),
    (4, C::Enum),
    (5, C::Decimal(0, 0)),
    (6, C::Date),
    (7, C::TimeMillis),
    (8, C::TimeMicros),
    (9, C::TimestampMillis),
    (10, C::TimestampMicros),
    (11, C::Uint8),
    (12, C::Uint16),
    (13, C::Uint32),
    (14, C::Uint64),
    (15, C::Int8),
    (16, C::Int16),
    (17, C::Int32),
    (18, C::Int64),
    (19, C::Json),
    (20, C::Bson),
    (21, C::Interval),
];
pub fn converted_code(c: C) -> (i32, Option<(i32, i32)>) {
    if let C::Decimal(p, s) = c {
        return (5, Some((p as i32, s as i32)));
    }
    (CONVERTED.iter().find(|x| x.1 == c).unwrap().0, None)
}
pub fn group_code(c: GroupConvertedType) -> i32 {
    match c {
        GroupConvertedType::Map => 1,
        GroupConvertedType::MapKeyValue => 2,
        GroupConvertedType::List => 3,
    }
}
const INTEGERS: [(i8, bool, IntegerType); 8] = [
    (8, true, IntegerType::Int8),
    (16, true, IntegerType::Int16),
    (32, true, IntegerType::Int32),
    (64, true, IntegerType::Int64),
    (8, false, IntegerType::UInt8),
    (16, false, IntegerType::UInt16),
    (32, false, IntegerType::UInt32),
    (64, false, IntegerType::UInt64),
];
fn t_unit(u: TimeUnit) -> tf::TimeUnit {
    match u {
        TimeUnit::Milliseconds => tf::TimeUnit::MILLIS(tf::MilliSeconds {}),
        TimeUnit::Microseconds => tf::TimeUnit::MICROS(tf::MicroSeconds {}),
        TimeUnit::Nanoseconds => tf::TimeUnit::NANOS(tf::NanoSeconds {}),
    }
}
pub fn t_logical(l: L) -> tf::LogicalType {
    use tf::LogicalType as T;
    match l {
        L::String => T::STRING(Default::default()),
        L::Enum => T::ENUM(Default::default()),
        L::Decimal(p, s) => T::DECIMAL(tf::DecimalType { scale: s as i32, precision: p as i32 }),
        L::Date => T::DATE(Default::default()),
        L::Time { unit, is_adjusted_to_utc } => T::TIME(tf::TimeType { is_adjusted_to_u_t_c: is_adjusted_to_utc, unit: t_unit(unit) }),
        L::Timestamp { unit, is_adjusted_to_utc } => T::TIMESTAMP(tf::TimestampType { is_adjusted_to_u_t_c: is_adjusted_to_utc, unit: t_unit(unit) }),
        L::Integer(i) => {
            let (bit_width, is_signed, _) = *INTEGERS.iter().find(|x| x.2 == i).unwrap();
            T::INTEGER(tf::IntType { bit_width, is_signed })
        }
        L::Unknown => T::UNKNOWN(Default::default()),
        L::Json => T::JSON(Default::default()),
        L::Bson => T::BSON(Default::default()),
        L::Uuid => T::UUID(Default::default()),
    }
}
/// the flattened form of a schema, written from the format's definition
pub fn flatten(name: &str, fields: &[ParquetType]) -> Vec<SchemaElement> {
    fn go(t: &ParquetType, out: &mut Vec<SchemaElement>) {
        match t {
            ParquetType::PrimitiveType(p) => {
                let (ty, len) = type_code(p.physical_type);
                let conv = p.converted_type.map(converted_code);
                let dec = conv.and_then(|x| x.1);
                out.push(SchemaElement {
                    type_: Some(tf::Type(ty)),
                    type_length: len,
                    repetition_type: Some(tf::FieldRepetitionType(rep_code(p.field_info.repetition))),
                    name: p.field_info.name.clone(),
                    num_children: None,
                    converted_type: conv.map(|x| tf::ConvertedType(x.0)),
                    scale: dec.map(|x| x.1),
                    precision: dec.map(|x| x.0),
                    field_id: p.field_info.id,
                    logical_type: p.logical_type.map(t_logical),
                });
            }
            ParquetType::GroupType { field_info, logical_type, converted_type, fields } => {
                out.push(SchemaElement {
                    type_: None,
                    type_length: None,
                    repetition_type: Some(tf::FieldRepetitionType(rep_code(field_info.repetition))),
                    name: field_info.name.clone(),
                    num_children: Some(fields.len() as i32),
                    converted_type: converted_type.map(|x| tf::ConvertedType(group_code(x))),
                    scale: None,
                    precision: None,
                    field_id: field_info.id,
                    logical_type: logical_type.map(|x| match x {
                        GroupLogicalType::Map => tf::LogicalType::MAP(Default::default()),
                        GroupLogicalType::List => tf::LogicalType::LIST(Default::default()),
                    }),
                });
                fields.iter().for_each(|f| go(f, out));
            }
        }
    }
    let mut out = vec![root_element(name, fields.len())];
    fields.iter().for_each(|f| go(f, &mut out));
    out
}
pub fn root_element(name: &str, n: usize) -> SchemaElement {
    SchemaElement {
        type_: None,
        type_length: None,
        repetition_type: None,
        name: name.to_string(),
        num_children: Some(n as i32),
        converted_type: None,
        scale: None,
        precision: None,
        field_id: None,
        logical_type: None,
    }
}
fn root(name: &str, fields: Vec<ParquetType>) -> ParquetType {
    ParquetType::GroupType { field_info: FieldInfo { name: name.to_string(), repetition: Repetition::Optional, id: None }, logical_type: None, converted_type: None, fields }
}
pub fn thrift_file(schema: Vec<SchemaElement>) -> tf::FileMetaData {
    tf::FileMetaData {
        version: 1,
        schema,
        num_rows: 0,
        row_groups: vec![],
        key_value_metadata: None,
        created_by: None,
        column_orders: None,
        encryption_algorithm: None,
        footer_signing_key_metadata: None,
    }
}
fn check_columns(d: &SchemaDescriptor, name: &str, fields: &[ParquetType]) -> R {
    ensure_eq!(d.name(), name, "schema-name");
    ensure_eq!(d.fields(), fields, "schema-fields");
    let want = model_leaves(fields);
    ensure_eq!(d.columns().len(), want.len(), "columns");
    for (c, (t, path, def, rep, base)) in d.columns().iter().zip(&want) {
        ensure_eq!(&c.descriptor.primitive_type, t, "column-type");
        ensure_eq!(&c.path_in_schema, path, "column-path");
        ensure_eq!(c.descriptor.max_def_level, *def, "max-def", "{path:?}");
        ensure_eq!(c.descriptor.max_rep_level, *rep, "max-rep", "{path:?}");
        ensure_eq!(&c.base_type, &fields[*base], "base-type", "{path:?}");
    }
    Ok(())
}

/// makes some group of the schema empty
fn empty_some(s: &mut Src, fields: &mut Vec<ParquetType>, depth: usize) {
    if depth > 40 {
        return;
    }
    for f in fields.iter_mut() {
        if let ParquetType::GroupType { fields, .. } = f {
            if s.chance(1, 4) {
                fields.clear();
            } else {
                empty_some(s, fields, depth + 1);
            }
        }
    }
}
fn gen_group(s: &mut Src, name: String, fields: Vec<ParquetType>) -> ParquetType {
    let conv = if s.chance(1, 3) { Some(s.pick(&[GroupConvertedType::List, GroupConvertedType::Map, GroupConvertedType::MapKeyValue])) } else { None };
    let logical = if s.chance(1, 3) { Some(s.pick(&[GroupLogicalType::List, GroupLogicalType::Map])) } else { None };
    let rep = s.pick(&REPS);
    let id = if s.chance(1, 3) { Some(s.i32_any()) } else { None };
    ParquetType::from_group(name, rep, conv, logical, fields, id)
}
/// a schema of any shape: ordinary, wide, deep, with empty groups
pub fn gen_any_schema(s: &mut Src, c_labels: &mut Vec<&'static str>) -> (String, Vec<ParquetType>) {
    let name = gen_name(s);
    let mut fields = match s.below(12) {
        0 => {
            // deep
            c_labels.push("deep");
            let depth = if s.chance(1, 8) { MAX_DEPTH - 1 - s.below(3) } else { 1 + s.size(MAX_DEPTH - 3) };
            let mut t = gen_leaf(s, "x".into(), Repetition::Optional);
            for i in 0..depth {
                let mut inner = vec![t];
                if s.chance(1, 10) {
                    let l = gen_leaf(s, "y".into(), Repetition::Repeated);
                    let at = s.below(2);
                    inner.insert(at, l);
                }
                t = gen_group(s, format!("g{}", i % 7), inner);
            }
            vec![t]
        }
        1 => {
            // wide
            c_labels.push("wide");
            let n = s.size(400);
            let mut r = s.rng();
            (0..n)
                .map(|i| {
                    let mut q = Src::from_seed(r.next());
                    let rep = q.pick(&REPS);
                    gen_leaf(&mut q, format!("c{i}"), rep)
                })
                .collect()
        }
        2 => vec![],
        _ => {
            let d = s.range(0, 6);
            gen_fields(s, 5, d)
        }
    };
    if s.chance(1, 6) {
        empty_some(s, &mut fields, 0);
        c_labels.push("empty groups");
    }
    (name, fields)
}

// ------------------------------------------------------------------ P27
fn p27_flatten(c: &mut Case) -> R {
    let mut labels = vec![];
    let (name, fields) = gen_any_schema(&mut c.s, &mut labels);
    labels.into_iter().for_each(|l| c.label(l));
    c.describe(|| format!("{name:?} {fields:?}"));
    let model = flatten(&name, &fields);
    let d = no_panic(|| SchemaDescriptor::new(name.clone(), fields.clone()))?;
    check_columns(&d, &name, &fields)?;
    // for writing
    let md = FileMetaData { version: 1, num_rows: 0, created_by: None, row_groups: vec![], key_value_metadata: None, schema_descr: d, column_orders: None };
    let out = no_panic(|| md.into_thrift())?.schema;
    ensure_eq!(out.len(), model.len(), "elements");
    for (i, (a, b)) in out.iter().zip(&model).enumerate() {
        ensure_eq!(a, b, "element", "element {i}");
    }
    // read
    let t = no_panic(|| ParquetType::try_from_thrift(&model))??;
    let want = root(&name, fields.clone());
    ensure_eq!(t, want, "read-back");
    // other writers' spellings of the same schema
    let mut other = model.clone();
    if c.s.coin() {
        other[0].repetition_type = Some(tf::FieldRepetitionType(c.s.below(3) as i32));
        c.label("root with a repetition");
    }
    for e in other.iter_mut().skip(1) {
        if e.type_.is_some() && c.s.chance(1, 4) {
            e.num_children = Some(0);
            c.label("leaf with zero children");
        }
    }
    let t = no_panic(|| ParquetType::try_from_thrift(&other))??;
    ensure_eq!(t, want, "read-other");
    let md = no_panic(|| FileMetaData::try_from_thrift(thrift_file(other)))??;
    check_columns(md.schema(), &name, &fields)?;
    ensure_eq!(no_panic(|| md.into_thrift())?.schema, model, "written-again");
    c.nontrivial(fields.iter().any(|f| matches!(f, ParquetType::GroupType { .. })) || fields.len() > 1);
    Ok(())
}
/// a written file has the schema, also without columns
fn p27_file(c: &mut Case) -> R {
    let mut labels = vec![];
    let (name, fields) = gen_any_schema(&mut c.s, &mut labels);
    labels.into_iter().for_each(|l| c.label(l));
    c.describe(|| format!("{name:?} {fields:?}"));
    let schema = SchemaDescriptor::new(name.clone(), fields.clone());
    let s = &mut c.s;
    let f = if schema.columns().len() > 12 {
        FileM { schema, options: parquet2::write::WriteOptions { write_statistics: false, version: parquet2::write::Version::V2 }, created_by: None, kv: None, groups: vec![] }
    } else {
        gen_file_for(s, schema, &FileOpts { max_rows: 4, max_groups: 2, ..FileOpts::default() })
    };
    c.label_if(f.schema.columns().is_empty(), "no columns");
    let data = write_vec(&f)?;
    let md = no_panic(|| parquet2::read::read_metadata(&mut std::io::Cursor::new(&data)))??;
    check_columns(md.schema(), &name, &fields)?;
    ensure_eq!(md.row_groups.len(), f.groups.len(), "row-groups");
    for g in &md.row_groups {
        for (col, d) in g.columns().iter().zip(md.schema().columns()) {
            ensure_eq!(col.descriptor(), d, "chunk-descriptor");
            ensure_eq!(col.physical_type(), d.descriptor.primitive_type.physical_type, "chunk-type");
        }
    }
    c.nontrivial(!f.groups.is_empty());
    Ok(())
}
/// a projection of the fields, in any order
fn project(s: &mut Src, fields: &[ParquetType]) -> Vec<ParquetType> {
    let mut out = vec![];
    for f in fields {
        if s.chance(1, 3) {
            continue;
        }
        let f = match f {
            ParquetType::GroupType { field_info, logical_type, converted_type, fields } => {
                ParquetType::GroupType { field_info: field_info.clone(), logical_type: *logical_type, converted_type: *converted_type, fields: project(s, fields) }
            }
            p => p.clone(),
        };
        let at = s.below(out.len() + 1);
        out.insert(at, f);
    }
    out
}
fn count_nodes(fields: &[ParquetType]) -> usize {
    fields
        .iter()
        .map(|f| match f {
            ParquetType::GroupType { fields, .. } => 1 + count_nodes(fields),
            _ => 1,
        })
        .sum()
}
fn alter(s: &mut Src, fields: &mut [ParquetType], k: &mut usize) -> bool {
    for f in fields {
        if *k == 0 {
            let what = s.below(4);
            let (info, other_physical) = match f {
                ParquetType::PrimitiveType(p) => {
                    if what == 3 {
                        p.physical_type = if p.physical_type == PhysicalType::Int96 { PhysicalType::Double } else { PhysicalType::Int96 };
                    }
                    (&mut p.field_info, what == 3)
                }
                ParquetType::GroupType { field_info, .. } => (field_info, false),
            };
            if !other_physical {
                match what {
                    0 => info.repetition = if info.repetition == Repetition::Required { Repetition::Repeated } else { Repetition::Required },
                    1 => info.id = if info.id == Some(77) { None } else { Some(77) },
                    _ => info.name.push_str("~"),
                }
            }
            return true;
        }
        *k -= 1;
        if let ParquetType::GroupType { fields, .. } = f {
            if alter(s, fields, k) {
                return true;
            }
        }
    }
    false
}
fn p27_contains(c: &mut Case) -> R {
    let s = &mut c.s;
    let d = s.range(0, 4);
    let fields = gen_fields(s, 5, d);
    let a = root("a", fields.clone());
    let mut sub = project(s, &fields);
    c.describe(|| format!("{fields:?} {sub:?}"));
    let s = &mut c.s;
    ensure!(no_panic(|| a.check_contains(&root("a", sub.clone())))?, "not-contained", "a projection is not contained");
    let n = count_nodes(&sub);
    if n > 0 {
        let mut k = s.below(n);
        alter(s, &mut sub, &mut k);
        ensure!(!no_panic(|| a.check_contains(&root("a", sub.clone())))?, "contained", "an altered projection is contained");
    }
    let x = s.below(fields.len());
    ensure!(a.check_contains(&a) && fields[x].check_contains(&fields[x]), "self", "a schema does not contain itself");
    c.nontrivial(n > 0);
    Ok(())
}

// ------------------------------------------------------------------ P29: what the format allows
/// lengths are 32-bit integers
fn physical_ok(p: PhysicalType) -> bool {
    !matches!(p, PhysicalType::FixedLenByteArray(n) if i32::try_from(n).is_err())
}
fn decimal_ok(p: PhysicalType, precision: usize, scale: usize) -> bool {
    let limit = match p {
        PhysicalType::Int32 => 9,
        PhysicalType::Int64 => 18,
        PhysicalType::FixedLenByteArray(n) => max_precision(n).min(i32::MAX as usize),
        PhysicalType::ByteArray => i32::MAX as usize,
        _ => return false,
    };
    precision >= 1 && precision <= limit && scale <= precision
}
fn converted_ok(p: PhysicalType, c: C) -> bool {
    match c {
        C::Utf8 | C::Enum | C::Json | C::Bson => p == PhysicalType::ByteArray,
        C::Decimal(a, b) => decimal_ok(p, a, b),
        C::Date | C::TimeMillis | C::Uint8 | C::Uint16 | C::Uint32 | C::Int8 | C::Int16 | C::Int32 => p == PhysicalType::Int32,
        C::TimeMicros | C::TimestampMillis | C::TimestampMicros | C::Uint64 | C::Int64 => p == PhysicalType::Int64,
        C::Interval => p == PhysicalType::FixedLenByteArray(12),
    }
}
/// None: the annotation of columns of nulls, on which writers disagree
fn logical_ok(p: PhysicalType, l: L) -> Option<bool> {
    Some(match l {
        L::String | L::Enum | L::Json | L::Bson => p == PhysicalType::ByteArray,
        L::Decimal(a, b) => decimal_ok(p, a, b),
        L::Date => p == PhysicalType::Int32,
        L::Time { unit: TimeUnit::Milliseconds, .. } => p == PhysicalType::Int32,
        L::Time { .. } | L::Timestamp { .. } => p == PhysicalType::Int64,
        L::Integer(IntegerType::Int64 | IntegerType::UInt64) => p == PhysicalType::Int64,
        L::Integer(_) => p == PhysicalType::Int32,
        L::Unknown => {
            if p == PhysicalType::Int32 {
                true
            } else {
                return None;
            }
        }
        L::Uuid => p == PhysicalType::FixedLenByteArray(16),
    })
}
pub fn gen_any_physical(s: &mut Src) -> PhysicalType {
    if s.chance(1, 4) {
        let n = match s.below(5) {
            4 => s.pick(&[(1 << 28) - 1, 1 << 28, i32::MAX as usize, 1 << 31, (1 << 32) + 12, (1 << 32) + 16, (1 << 32) + 5, usize::MAX]),
            0 => s.pick(&[11, 12, 13, 15, 16, 17]),
            1 => s.below(40),
            2 => s.range(120, 140),
            _ => s.size(1500),
        };
        return PhysicalType::FixedLenByteArray(n);
    }
    gen_physical(s)
}
fn gen_any_decimal(s: &mut Src, p: PhysicalType) -> (usize, usize) {
    let limit = match p {
        PhysicalType::Int32 => 9,
        PhysicalType::Int64 => 18,
        PhysicalType::FixedLenByteArray(n) => max_precision(n),
        _ => 38,
    };
    let a = match s.below(5) {
        0 => (limit + s.below(4)).saturating_sub(1),
        1 => s.below(4),
        2 => s.pick(&[i32::MAX as usize - 1, i32::MAX as usize, 1 << 31, 1 << 32, (1 << 32) + 5, usize::MAX]),
        _ => 1 + s.size(limit + 3),
    };
    let b = match s.below(4) {
        0 => 0,
        1 => a,
        2 => a.saturating_add(s.below(2)),
        _ => s.size(40),
    };
    (a, b)
}
pub fn gen_any_converted(s: &mut Src, p: PhysicalType) -> C {
    match CONVERTED[s.below(CONVERTED.len())].1 {
        C::Decimal(..) => {
            let (a, b) = gen_any_decimal(s, p);
            C::Decimal(a, b)
        }
        x => x,
    }
}
pub fn gen_any_logical(s: &mut Src, p: PhysicalType) -> L {
    match s.below(12) {
        0 => L::String,
        1 => L::Enum,
        2 | 3 => {
            let (a, b) = gen_any_decimal(s, p);
            L::Decimal(a, b)
        }
        4 => L::Date,
        5 => L::Time { unit: gen_unit(s), is_adjusted_to_utc: s.coin() },
        6 => L::Timestamp { unit: gen_unit(s), is_adjusted_to_utc: s.coin() },
        7 | 8 => L::Integer(INTEGERS[s.below(8)].2),
        9 => s.pick(&[L::Unknown, L::Json]),
        10 => L::Bson,
        _ => L::Uuid,
    }
}
fn p29_annotations(c: &mut Case) -> R {
    let s = &mut c.s;
    let p = gen_any_physical(s);
    let conv = if s.chance(2, 3) { Some(gen_any_converted(s, p)) } else { None };
    let logical = if s.chance(2, 3) { Some(gen_any_logical(s, p)) } else { None };
    let rep = s.pick(&REPS);
    let id = if s.coin() { Some(s.i32_any()) } else { None };
    c.describe(|| format!("{p:?} {conv:?} {logical:?}"));
    let cok = conv.map(|x| converted_ok(p, x)).unwrap_or(true);
    let lok = logical.map(|x| logical_ok(p, x)).unwrap_or(Some(true));
    let pok = physical_ok(p);
    let want = if !cok || !pok { Some(false) } else { lok };
    let want_type = ParquetType::PrimitiveType(PrimitiveType { field_info: FieldInfo { name: "a".into(), repetition: rep, id }, logical_type: logical, converted_type: conv, physical_type: p });
    let got = no_panic(|| ParquetType::try_from_primitive("a".into(), p, rep, conv, logical, id))?;
    if let Some(want) = want {
        ensure!(got.is_ok() == want, "accepted", "{p:?} {conv:?} {logical:?}: accepted {} but legal is {want}", got.is_ok());
    }
    if let Ok(got) = &got {
        ensure_eq!(got, &want_type, "built");
    }
    // the same type read from a file
    let fits = |x: usize| i32::try_from(x).is_ok();
    let decimals = [conv.and_then(|x| if let C::Decimal(a, b) = x { Some((a, b)) } else { None }), logical.and_then(|x| if let L::Decimal(a, b) = x { Some((a, b)) } else { None })];
    if pok && decimals.iter().flatten().all(|x| fits(x.0) && fits(x.1)) {
        let e = flatten("s", std::slice::from_ref(&want_type));
        let read = no_panic(|| ParquetType::try_from_thrift(&e))?;
        ensure!(read.is_ok() == got.is_ok(), "read-accepted", "{p:?} {conv:?} {logical:?}: built {} but read {}", got.is_ok(), read.is_ok());
        if let Ok(read) = read {
            ensure_eq!(read, root("s", vec![want_type.clone()]), "read");
        }
        let md = no_panic(|| FileMetaData::try_from_thrift(thrift_file(e)))?;
        ensure!(md.is_ok() == got.is_ok(), "file-accepted", "{p:?} {conv:?} {logical:?}: built {} but metadata {}", got.is_ok(), md.is_ok());
    }
    c.nontrivial(conv.is_some() || logical.is_some());
    c.label(match want {
        Some(true) => "legal",
        Some(false) => "illegal",
        None => "undecided",
    });
    c.label_if(conv.is_some() && logical.is_some() && want == Some(true), "legal with both annotations");
    c.label_if(!pok, "length the format cannot hold");
    c.label_if(matches!(conv, Some(C::Decimal(..))) || matches!(logical, Some(L::Decimal(..))), "decimal");
    Ok(())
}

/// the reference reader of flattened schemas; `loose` is set where the format leaves room
struct RefReader<'a> {
    e: &'a [SchemaElement],
    loose: bool,
}
impl<'a> RefReader<'a> {
    fn leaf(&mut self, e: &SchemaElement) -> Option<ParquetType> {
        let repetition = *REPS.get(usize::try_from(e.repetition_type?.0).ok()?)?;
        let p = match e.type_?.0 {
            0 => PhysicalType::Boolean,
            1 => PhysicalType::Int32,
            2 => PhysicalType::Int64,
            3 => PhysicalType::Int96,
            4 => PhysicalType::Float,
            5 => PhysicalType::Double,
            6 => PhysicalType::ByteArray,
            7 => PhysicalType::FixedLenByteArray(usize::try_from(e.type_length?).ok()?),
            _ => return None,
        };
        let conv = match e.converted_type {
            None => None,
            Some(k) => {
                if e.precision.is_some() != e.scale.is_some() {
                    self.loose = true;
                }
                let c = CONVERTED.iter().find(|x| x.0 == k.0)?.1;
                Some(match c {
                    C::Decimal(..) => C::Decimal(usize::try_from(e.precision?).ok()?, usize::try_from(e.scale?).ok()?),
                    c => c,
                })
            }
        };
        use tf::LogicalType as T;
        let unit = |u: &tf::TimeUnit| match u {
            tf::TimeUnit::MILLIS(_) => TimeUnit::Milliseconds,
            tf::TimeUnit::MICROS(_) => TimeUnit::Microseconds,
            tf::TimeUnit::NANOS(_) => TimeUnit::Nanoseconds,
        };
        let logical = match &e.logical_type {
            None => None,
            Some(l) => Some(match l {
                T::STRING(_) => L::String,
                T::ENUM(_) => L::Enum,
                T::DECIMAL(d) => L::Decimal(usize::try_from(d.precision).ok()?, usize::try_from(d.scale).ok()?),
                T::DATE(_) => L::Date,
                T::TIME(t) => L::Time { unit: unit(&t.unit), is_adjusted_to_utc: t.is_adjusted_to_u_t_c },
                T::TIMESTAMP(t) => L::Timestamp { unit: unit(&t.unit), is_adjusted_to_utc: t.is_adjusted_to_u_t_c },
                T::INTEGER(i) => match INTEGERS.iter().find(|x| x.0 == i.bit_width && x.1 == i.is_signed) {
                    Some(x) => L::Integer(x.2),
                    None => {
                        self.loose = true;
                        return None;
                    }
                },
                T::UNKNOWN(_) => L::Unknown,
                T::JSON(_) => L::Json,
                T::BSON(_) => L::Bson,
                T::UUID(_) => L::Uuid,
                T::MAP(_) | T::LIST(_) => return None,
            }),
        };
        if let Some(l) = logical {
            match logical_ok(p, l) {
                Some(true) => {}
                Some(false) => return None,
                None => self.loose = true,
            }
        }
        if let Some(c) = conv {
            if !converted_ok(p, c) {
                return None;
            }
        }
        Some(ParquetType::PrimitiveType(PrimitiveType { field_info: FieldInfo { name: e.name.clone(), repetition, id: e.field_id }, logical_type: logical, converted_type: conv, physical_type: p }))
    }
    fn node(&mut self, at: usize, depth: usize) -> Option<(ParquetType, usize)> {
        if depth > MAX_DEPTH {
            return None;
        }
        let e = self.e.get(at)?.clone();
        let n = match (e.num_children, e.type_.is_some()) {
            (None, _) | (Some(0), true) => return Some((self.leaf(&e)?, at + 1)),
            (Some(n), _) => usize::try_from(n).ok()?,
        };
        let mut next = at + 1;
        let mut fields = vec![];
        for _ in 0..n {
            let (f, k) = self.node(next, depth + 1)?;
            fields.push(f);
            next = k;
        }
        if at == 0 {
            return Some((root(&e.name, fields), next));
        }
        let repetition = *REPS.get(usize::try_from(e.repetition_type?.0).ok()?)?;
        let converted_type = match e.converted_type.map(|x| x.0) {
            None => None,
            Some(1) => Some(GroupConvertedType::Map),
            Some(2) => Some(GroupConvertedType::MapKeyValue),
            Some(3) => Some(GroupConvertedType::List),
            _ => return None,
        };
        let logical_type = match &e.logical_type {
            None => None,
            Some(tf::LogicalType::MAP(_)) => Some(GroupLogicalType::Map),
            Some(tf::LogicalType::LIST(_)) => Some(GroupLogicalType::List),
            _ => return None,
        };
        Some((ParquetType::GroupType { field_info: FieldInfo { name: e.name.clone(), repetition, id: e.field_id }, logical_type, converted_type, fields }, next))
    }
}
fn tamper_element(s: &mut Src, e: &mut SchemaElement) {
    match s.below(11) {
        0 => e.num_children = if e.num_children.is_some() && s.coin() { None } else { Some(s.pick(&[0, 1, 2, 3, -1, i32::MAX, i32::MIN])) },
        1 => e.num_children = e.num_children.map(|x| x.wrapping_add(s.pick(&[1, -1]))),
        2 => e.type_ = if s.coin() { None } else { Some(tf::Type(s.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, -1, 100]))) },
        3 => e.type_length = s.pick(&[None, Some(0), Some(-1), Some(12), Some(16), Some(i32::MIN)]),
        4 => e.repetition_type = s.pick(&[None, Some(3), Some(-1), Some(0), Some(1), Some(2)]).map(tf::FieldRepetitionType),
        5 => e.converted_type = if s.chance(1, 5) { None } else { Some(tf::ConvertedType(s.below(26) as i32 - 2)) },
        6 => e.precision = s.pick(&[None, Some(0), Some(-1), Some(1), Some(9), Some(10), Some(18), Some(19)]),
        7 => e.scale = s.pick(&[None, Some(0), Some(-1), Some(1), Some(10)]),
        8 => {
            let l = gen_any_logical(s, PhysicalType::Int32);
            e.logical_type = match s.below(4) {
                0 => Some(tf::LogicalType::LIST(Default::default())),
                1 => Some(tf::LogicalType::INTEGER(tf::IntType { bit_width: s.pick(&[0, 1, 8, 16, 24, 32, 64, -8]), is_signed: s.coin() })),
                2 => Some(tf::LogicalType::DECIMAL(tf::DecimalType { scale: s.pick(&[0, -1, 2]), precision: s.pick(&[0, -1, 5, 30]) })),
                _ if !matches!(l, L::Decimal(..)) => Some(t_logical(l)),
                _ => None,
            };
        }
        9 => e.field_id = s.pick(&[None, Some(0), Some(-1), Some(i32::MAX)]),
        _ => {
            e.type_ = Some(tf::Type(5));
            e.num_children = None;
        }
    }
}
fn p29_tree(c: &mut Case) -> R {
    let s = &mut c.s;
    let name = gen_name(s);
    let d = s.range(0, 4);
    let fields = gen_fields(s, 4, d);
    let mut e = flatten(&name, &fields);
    let n = s.below(3) + (s.below(8) > 0) as usize;
    for _ in 0..n {
        if e.is_empty() {
            break;
        }
        let i = s.below(e.len());
        match s.below(8) {
            0 => {
                e.remove(i);
            }
            1 => {
                let x = e[i].clone();
                e.insert(i, x);
            }
            2 => {
                let j = s.below(e.len());
                e.swap(i, j);
            }
            3 => e.truncate(i),
            _ => tamper_element(s, &mut e[i]),
        }
    }
    if s.chance(1, 60) {
        // deeper than allowed, or nearly
        let k = MAX_DEPTH - 2 + s.below(5);
        e = vec![root_element("r", 1)];
        for i in 0..k {
            let mut x = root_element("g", 1);
            x.repetition_type = Some(tf::FieldRepetitionType(i as i32 % 3));
            e.push(x);
        }
        e.push(flatten("", &[gen_leaf(s, "l".into(), Repetition::Required)]).remove(1));
        c.label("deep");
    }
    c.describe(|| format!("{e:?}"));
    let mut r = RefReader { e: &e, loose: false };
    let want = r.node(0, 0).filter(|x| x.1 == e.len()).map(|x| x.0);
    let loose = r.loose;
    let got = no_panic(|| ParquetType::try_from_thrift(&e))?;
    let file = no_panic(|| FileMetaData::try_from_thrift(thrift_file(e.clone())))?;
    if !loose {
        match (&got, &want) {
            (Ok(a), Some(b)) => ensure_eq!(a, b, "tree"),
            (Err(_), None) => {}
            (Ok(a), None) => return Err(Fail::new("inconsistent-accepted", format!("accepted as {a:?}"))),
            (Err(x), Some(b)) => return Err(Fail::new("consistent-rejected", format!("{b:?} rejected: {x}"))),
        }
    }
    match (&got, &file) {
        (Ok(ParquetType::GroupType { field_info, fields, .. }), Ok(md)) => check_columns(md.schema(), &field_info.name, fields)?,
        (Ok(ParquetType::GroupType { .. }), Err(x)) => return Err(Fail::new("file-rejected", format!("{x}"))),
        (_, Ok(md)) => return Err(Fail::new("file-accepted", format!("{:?}", md.schema()))),
        _ => {}
    }
    c.nontrivial(n > 0);
    c.label(if loose {
        "undecided"
    } else if want.is_some() {
        "consistent"
    } else {
        "inconsistent"
    });
    Ok(())
}

// ------------------------------------------------------------------ P28
fn is_delim(c: char) -> bool {
    matches!(c, ';' | '{' | '}' | '(' | ')' | '=' | ',')
}
fn text_name(s: &mut Src) -> String {
    match s.below(6) {
        0 => s.pick(&["message", "group", "required", "INT32", "UTF8", "ünï", "日本語", "-1", "a.b", "\"", "LIST", "x"]).to_string(),
        1 => format!("f{}", s.below(100)),
        _ => {
            let mut n: String = gen_name(s).chars().filter(|c| !is_delim(*c) && !c.is_whitespace()).collect();
            n.push((b'a' + s.below(26) as u8) as char);
            n
        }
    }
}
fn gen_text_id(s: &mut Src) -> Option<i32> {
    if s.chance(1, 3) {
        Some(s.i32_any())
    } else {
        None
    }
}
/// a field that has a textual form: one annotation at most, in the syntax's own words
fn gen_text_type(s: &mut Src, depth: usize) -> ParquetType {
    let name = text_name(s);
    let rep = s.pick(&REPS);
    if depth > 0 && s.chance(2, 5) {
        let n = s.weighted(&[1, 4, 3, 2]);
        let fields = (0..n).map(|_| gen_text_type(s, depth - 1)).collect();
        let conv = if s.chance(1, 2) { Some(s.pick(&[GroupConvertedType::List, GroupConvertedType::Map, GroupConvertedType::MapKeyValue])) } else { None };
        let id = gen_text_id(s);
        return ParquetType::from_converted(name, fields, rep, conv, id);
    }
    let id = gen_text_id(s);
    let p = gen_physical(s);
    let (mut conv, mut logical) = gen_annotations(s, p);
    if matches!(conv, Some(C::Enum | C::Decimal(..) | C::Date | C::Json | C::Bson)) || (conv.is_some() && logical.is_some() && s.coin()) {
        conv = None;
    }
    if conv.is_some() {
        logical = None;
    }
    ParquetType::try_from_primitive(name, p, rep, conv, logical, id).expect("legal annotation refused")
}
struct Printer<'a> {
    s: &'a mut Src,
    out: String,
    after_word: bool,
    plain: bool,
}
impl<'a> Printer<'a> {
    fn space(&mut self) {
        let n = if self.plain { 1 } else { 1 + self.s.weighted(&[6, 1, 1]) };
        for _ in 0..n {
            let c = if self.plain { " " } else { self.s.pick(&[" ", " ", " ", "\n", "\t", "\r\n", "\u{a0}", "\u{2003}"]) };
            self.out.push_str(c);
        }
    }
    fn word(&mut self, w: &str) {
        if self.after_word || (!self.plain && self.s.chance(1, 3)) {
            self.space();
        }
        self.out.push_str(w);
        self.after_word = true;
    }
    fn keyword(&mut self, w: &str) {
        let w: String = match if self.plain { 0 } else { self.s.below(3) } {
            0 => w.to_string(),
            1 => w.to_lowercase(),
            _ => {
                let bits = self.s.raw();
                w.chars().enumerate().map(|(i, c)| if bits >> (i % 64) & 1 == 1 { c.to_ascii_lowercase() } else { c }).collect()
            }
        };
        self.word(&w)
    }
    fn delim(&mut self, d: &str) {
        if !self.plain && self.s.chance(1, 3) {
            self.space();
        }
        self.out.push_str(d);
        self.after_word = false;
    }
    fn id(&mut self, id: Option<i32>) {
        if let Some(id) = id {
            self.delim("=");
            self.word(&id.to_string());
        }
    }
    fn decimal(&mut self, p: usize, sc: usize) {
        self.delim("(");
        self.word(&p.to_string());
        if sc != 0 || self.s.coin() {
            self.delim(",");
            self.word(&sc.to_string());
        }
        self.delim(")");
    }
    fn bool(&mut self, b: bool) {
        self.keyword(if b { "TRUE" } else { "FALSE" });
    }
    fn time(&mut self, unit: TimeUnit, utc: bool) {
        // both parts may be left out
        if unit == TimeUnit::Milliseconds && !utc && self.s.coin() {
            return;
        }
        self.delim("(");
        self.keyword(match unit {
            TimeUnit::Milliseconds => "MILLIS",
            TimeUnit::Microseconds => "MICROS",
            TimeUnit::Nanoseconds => "NANOS",
        });
        if utc || self.s.coin() {
            self.delim(",");
            self.bool(utc);
        }
        self.delim(")");
    }
    fn field(&mut self, t: &ParquetType) {
        let info = t.get_field_info();
        self.keyword(match info.repetition {
            Repetition::Required => "REQUIRED",
            Repetition::Optional => "OPTIONAL",
            Repetition::Repeated => "REPEATED",
        });
        match t {
            ParquetType::GroupType { converted_type, fields, .. } => {
                self.keyword("GROUP");
                self.word(&info.name);
                if let Some(c) = converted_type {
                    self.delim("(");
                    self.keyword(match c {
                        GroupConvertedType::Map => "MAP",
                        GroupConvertedType::MapKeyValue => "MAP_KEY_VALUE",
                        GroupConvertedType::List => "LIST",
                    });
                    self.delim(")");
                }
                self.id(info.id);
                self.fields(fields);
            }
            ParquetType::PrimitiveType(p) => {
                let ty = match p.physical_type {
                    PhysicalType::Boolean => "BOOLEAN",
                    PhysicalType::Int32 => "INT32",
                    PhysicalType::Int64 => "INT64",
                    PhysicalType::Int96 => "INT96",
                    PhysicalType::Float => "FLOAT",
                    PhysicalType::Double => "DOUBLE",
                    PhysicalType::ByteArray => self.s.pick(&["BYTE_ARRAY", "BINARY"]),
                    PhysicalType::FixedLenByteArray(_) => "FIXED_LEN_BYTE_ARRAY",
                };
                self.keyword(ty);
                if let PhysicalType::FixedLenByteArray(n) = p.physical_type {
                    self.delim("(");
                    self.word(&n.to_string());
                    self.delim(")");
                }
                self.word(&info.name);
                if let Some(c) = p.converted_type {
                    self.delim("(");
                    self.keyword(match c {
                        C::Utf8 => "UTF8",
                        C::TimeMillis => "TIME_MILLIS",
                        C::TimeMicros => "TIME_MICROS",
                        C::TimestampMillis => "TIMESTAMP_MILLIS",
                        C::TimestampMicros => "TIMESTAMP_MICROS",
                        C::Uint8 => "UINT_8",
                        C::Uint16 => "UINT_16",
                        C::Uint32 => "UINT_32",
                        C::Uint64 => "UINT_64",
                        C::Int8 => "INT_8",
                        C::Int16 => "INT_16",
                        C::Int32 => "INT_32",
                        C::Int64 => "INT_64",
                        C::Interval => "INTERVAL",
                        _ => unreachable!(),
                    });
                    self.delim(")");
                } else if let Some(l) = p.logical_type {
                    self.delim("(");
                    match l {
                        L::String => self.keyword("STRING"),
                        L::Enum => self.keyword("ENUM"),
                        L::Decimal(a, b) => {
                            self.keyword("DECIMAL");
                            self.decimal(a, b);
                        }
                        L::Date => self.keyword("DATE"),
                        L::Time { unit, is_adjusted_to_utc } => {
                            self.keyword("TIME");
                            self.time(unit, is_adjusted_to_utc);
                        }
                        L::Timestamp { unit, is_adjusted_to_utc } => {
                            self.keyword("TIMESTAMP");
                            self.time(unit, is_adjusted_to_utc);
                        }
                        L::Integer(i) => {
                            let (w, signed, _) = *INTEGERS.iter().find(|x| x.2 == i).unwrap();
                            self.keyword("INTEGER");
                            self.delim("(");
                            self.word(&w.to_string());
                            self.delim(",");
                            self.bool(signed);
                            self.delim(")");
                        }
                        L::Unknown => self.keyword("UNKNOWN"),
                        L::Json => self.keyword("JSON"),
                        L::Bson => self.keyword("BSON"),
                        L::Uuid => self.keyword("UUID"),
                    }
                    self.delim(")");
                }
                self.id(info.id);
                self.delim(";");
            }
        }
    }
    fn fields(&mut self, fields: &[ParquetType]) {
        self.delim("{");
        for f in fields {
            self.field(f);
        }
        self.delim("}");
    }
}
fn gen_text(s: &mut Src, plain: bool) -> (String, ParquetType) {
    let name = text_name(s);
    let n = s.weighted(&[1, 5, 4, 2, 1]);
    let d = s.range(0, 4);
    let fields: Vec<_> = (0..n).map(|_| gen_text_type(s, d)).collect();
    let mut p = Printer { s, out: String::new(), after_word: false, plain };
    p.word("message");
    p.word(&name);
    p.fields(&fields);
    if !plain && p.s.coin() {
        p.space();
    }
    (p.out, root(&name, fields))
}
fn p28_spelling(c: &mut Case) -> R {
    let (text, want) = gen_text(&mut c.s, false);
    c.describe(|| format!("{text:?}"));
    let got = no_panic(|| from_message(&text))?;
    match got {
        Ok(got) => ensure_eq!(got, want, "parsed", "{text:?}"),
        Err(e) => return Err(Fail::new("rejected", format!("{text:?}: {e}"))),
    }
    let d = SchemaDescriptor::try_from_message(&text)?;
    let ParquetType::GroupType { field_info, fields, .. } = &want else { unreachable!() };
    check_columns(&d, &field_info.name, fields)?;
    c.nontrivial(!fields.is_empty());
    c.label_if(fields.iter().any(|f| matches!(f, ParquetType::GroupType { .. })), "nested");
    Ok(())
}

/// the reference parser: a direct transcription of the grammar
struct RefParser<'a> {
    t: Vec<&'a str>,
    at: usize,
    loose: bool,
}
fn tokens(text: &str) -> Vec<&str> {
    let mut out = vec![];
    let mut word: Option<usize> = None;
    for (i, ch) in text.char_indices() {
        let sep = ch.is_whitespace() || is_delim(ch);
        if sep {
            if let Some(a) = word.take() {
                out.push(&text[a..i]);
            }
            if is_delim(ch) {
                out.push(&text[i..i + 1]);
            }
        } else if word.is_none() {
            word = Some(i);
        }
    }
    if let Some(a) = word {
        out.push(&text[a..]);
    }
    out
}
impl<'a> RefParser<'a> {
    fn next(&mut self) -> Option<&'a str> {
        let t = self.t.get(self.at).copied();
        self.at += 1;
        t
    }
    fn eat(&mut self, d: &str) -> bool {
        let ok = self.t.get(self.at) == Some(&d);
        if ok {
            self.at += 1;
        }
        ok
    }
    fn need(&mut self, d: &str) -> Option<()> {
        self.eat(d).then_some(())
    }
    fn name(&mut self) -> Option<String> {
        let n = self.next()?;
        if n.chars().any(is_delim) {
            return None;
        }
        Some(n.to_string())
    }
    fn int(&mut self) -> Option<i32> {
        self.next()?.parse().ok()
    }
    fn id(&mut self) -> Option<Option<i32>> {
        if self.eat("=") {
            Some(Some(self.int()?))
        } else {
            Some(None)
        }
    }
    fn fields(&mut self, depth: usize) -> Option<Vec<ParquetType>> {
        self.need("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            v.push(self.field(depth + 1)?);
        }
        Some(v)
    }
    fn bool(&mut self) -> Option<bool> {
        match self.next()?.to_lowercase().as_str() {
            "true" => Some(true),
            "false" => Some(false),
            _ => None,
        }
    }
    fn unit_utc(&mut self) -> Option<(TimeUnit, bool)> {
        if !self.eat("(") {
            return Some((TimeUnit::Milliseconds, false));
        }
        let u = match self.next()?.to_uppercase().as_str() {
            "MILLIS" => TimeUnit::Milliseconds,
            "MICROS" => TimeUnit::Microseconds,
            "NANOS" => TimeUnit::Nanoseconds,
            _ => return None,
        };
        let utc = if self.eat(",") { self.bool()? } else { false };
        self.need(")")?;
        Some((u, utc))
    }
    fn field(&mut self, depth: usize) -> Option<ParquetType> {
        if depth > MAX_DEPTH {
            return None;
        }
        let rep = match self.next()?.to_uppercase().as_str() {
            "REQUIRED" => Repetition::Required,
            "OPTIONAL" => Repetition::Optional,
            "REPEATED" => Repetition::Repeated,
            _ => return None,
        };
        let ty = self.next()?.to_uppercase();
        if ty == "GROUP" {
            let name = self.name()?;
            let conv = if self.eat("(") {
                let c = match self.next()?.to_uppercase().as_str() {
                    "MAP" => GroupConvertedType::Map,
                    "MAP_KEY_VALUE" => GroupConvertedType::MapKeyValue,
                    "LIST" => GroupConvertedType::List,
                    _ => return None,
                };
                self.need(")")?;
                Some(c)
            } else {
                None
            };
            let id = self.id()?;
            let fields = self.fields(depth)?;
            return Some(ParquetType::GroupType { field_info: FieldInfo { name, repetition: rep, id }, logical_type: None, converted_type: conv, fields });
        }
        let p = match ty.as_str() {
            "BOOLEAN" => PhysicalType::Boolean,
            "INT32" => PhysicalType::Int32,
            "INT64" => PhysicalType::Int64,
            "INT96" => PhysicalType::Int96,
            "FLOAT" => PhysicalType::Float,
            "DOUBLE" => PhysicalType::Double,
            "BYTE_ARRAY" | "BINARY" => PhysicalType::ByteArray,
            "FIXED_LEN_BYTE_ARRAY" => {
                self.need("(")?;
                let n = self.int()?;
                self.need(")")?;
                PhysicalType::FixedLenByteArray(usize::try_from(n).ok()?)
            }
            _ => return None,
        };
        let name = self.name()?;
        let (mut conv, mut logical) = (None, None);
        if self.eat("(") {
            match self.next()?.to_uppercase().as_str() {
                "STRING" => logical = Some(L::String),
                "ENUM" => logical = Some(L::Enum),
                "DATE" => logical = Some(L::Date),
                "JSON" => logical = Some(L::Json),
                "BSON" => logical = Some(L::Bson),
                "UUID" => logical = Some(L::Uuid),
                "UNKNOWN" => logical = Some(L::Unknown),
                "DECIMAL" => {
                    self.need("(")?; // a decimal needs a precision
                    let a = self.int()?;
                    let b = if self.eat(",") { self.int()? } else { 0 };
                    self.need(")")?;
                    logical = Some(L::Decimal(usize::try_from(a).ok()?, usize::try_from(b).ok()?));
                }
                "TIME" => {
                    let (unit, is_adjusted_to_utc) = self.unit_utc()?;
                    logical = Some(L::Time { unit, is_adjusted_to_utc });
                }
                "TIMESTAMP" => {
                    let (unit, is_adjusted_to_utc) = self.unit_utc()?;
                    logical = Some(L::Timestamp { unit, is_adjusted_to_utc });
                }
                "INTEGER" => {
                    self.need("(")?;
                    let w = self.int()?;
                    self.need(",")?;
                    let signed = self.bool()?;
                    self.need(")")?;
                    match INTEGERS.iter().find(|x| x.0 as i32 == w && x.1 == signed) {
                        Some(x) => logical = Some(L::Integer(x.2)),
                        None => {
                            self.loose = true;
                            logical = Some(L::Integer(IntegerType::Int32));
                        }
                    }
                }
                w => {
                    conv = Some(match w {
                        "UTF8" => C::Utf8,
                        "TIME_MILLIS" => C::TimeMillis,
                        "TIME_MICROS" => C::TimeMicros,
                        "TIMESTAMP_MILLIS" => C::TimestampMillis,
                        "TIMESTAMP_MICROS" => C::TimestampMicros,
                        "UINT_8" => C::Uint8,
                        "UINT_16" => C::Uint16,
                        "UINT_32" => C::Uint32,
                        "UINT_64" => C::Uint64,
                        "INT_8" => C::Int8,
                        "INT_16" => C::Int16,
                        "INT_32" => C::Int32,
                        "INT_64" => C::Int64,
                        "INTERVAL" => C::Interval,
                        _ => return None,
                    })
                }
            }
            self.need(")")?;
        }
        let id = self.id()?;
        self.need(";")?;
        if conv.map(|c| !converted_ok(p, c)).unwrap_or(false) {
            return None;
        }
        match logical.map(|l| logical_ok(p, l)) {
            None | Some(Some(true)) => {}
            Some(None) => self.loose = true,
            Some(Some(false)) => return None,
        }
        Some(ParquetType::PrimitiveType(PrimitiveType { field_info: FieldInfo { name, repetition: rep, id }, logical_type: logical, converted_type: conv, physical_type: p }))
    }
    fn message(&mut self) -> Option<ParquetType> {
        self.need("message")?;
        let name = self.name()?;
        let fields = self.fields(0)?;
        if self.at < self.t.len() {
            return None;
        }
        Some(root(&name, fields))
    }
}
fn compare_text(c: &mut Case, text: &str) -> R {
    let mut r = RefParser { t: tokens(text), at: 0, loose: false };
    let want = r.message();
    let loose = r.loose;
    let got = no_panic(|| from_message(text))?;
    c.label(if loose {
        "undecided"
    } else if want.is_some() {
        "a schema"
    } else {
        "not a schema"
    });
    if !loose {
        match (got, want) {
            (Ok(a), Some(b)) => ensure_eq!(a, b, "text", "{text:?}"),
            (Err(_), None) => {}
            (Ok(a), None) => return Err(Fail::new("text-accepted", format!("{text:?} accepted as {a:?}"))),
            (Err(e), Some(_)) => return Err(Fail::new("text-rejected", format!("{text:?}: {e}"))),
        }
    }
    Ok(())
}
const WORDS: &[&str] = &[
    "message", "MESSAGE", "required", "optional", "REPEATED", "group", "int32", "int64", "int96", "boolean", "float", "double", "binary", "byte_array", "fixed_len_byte_array", "a", "b", "{", "}", "(", ")", ";", "=", ",", "1", "-1", "12", "16", "5", "99999999999", "+3", "1.5",
    "UTF8", "ENUM", "DECIMAL", "DATE", "TIME", "TIMESTAMP", "TIME_MILLIS", "TIME_MICROS", "TIMESTAMP_MILLIS", "TIMESTAMP_MICROS", "UINT_8", "UINT_64", "INT_8", "INT_32", "INT_64", "JSON", "BSON", "INTERVAL", "UUID", "UNKNOWN", "STRING", "INTEGER", "MAP", "LIST", "MAP_KEY_VALUE", "MILLIS", "MICROS", "NANOS", "true", "false", "8", "32", "64", "24",
];
/// valid text with tokens changed
fn p28_tokens(c: &mut Case) -> R {
    let s = &mut c.s;
    let (text, _) = gen_text(s, true);
    let mut t: Vec<String> = tokens(&text).into_iter().map(String::from).collect();
    let n = s.below(3) + (s.below(10) > 0) as usize;
    for _ in 0..n {
        let i = s.below(t.len() + 1);
        // a token replaced by one of its own kind
        let numbers: Vec<usize> = (0..t.len()).filter(|i| t[*i].parse::<i64>().is_ok()).collect();
        let words: Vec<usize> = (0..t.len()).filter(|i| t[*i].chars().all(|x| x.is_alphanumeric() || x == '_') && WORDS.contains(&t[*i].to_uppercase().as_str())).collect();
        match s.below(8) {
            6 if !numbers.is_empty() => {
                let i = s.pick(&numbers);
                let x: i64 = t[i].parse().unwrap();
                let to = match s.below(5) {
                    0 => x.wrapping_neg(),
                    1 => -1,
                    2 => x.saturating_add(s.range(0, 4) as i64 - 2),
                    3 => s.pick(&[0, 1, 7, 8, 9, 10, 16, 18, 19, 31, 32, 38, 39, 63, 64, 65, 127, 128, 255, 256, 1 << 16, i32::MAX as i64, i32::MIN as i64, 1 << 31, 1 << 32]),
                    _ => s.range(0, 73) as i64 - 3,
                };
                t[i] = to.to_string();
                continue;
            }
            7 if !words.is_empty() => {
                let i = s.pick(&words);
                t[i] = s.pick(WORDS).to_string();
                continue;
            }
            _ => {}
        }
        match s.below(6) {
            0 if i < t.len() => {
                t.remove(i);
            }
            1 if i < t.len() => {
                let x = t[i].clone();
                t.insert(i, x);
            }
            2 => t.insert(i, s.pick(WORDS).to_string()),
            3 if i < t.len() => t.truncate(i),
            4 if i < t.len() => {
                let j = s.below(t.len());
                t.swap(i, j);
            }
            _ if i < t.len() => t[i] = s.pick(WORDS).to_string(),
            _ => t.push(s.pick(WORDS).to_string()),
        }
        if t.is_empty() {
            break;
        }
    }
    let text = t.join(" ");
    c.describe(|| format!("{text:?}"));
    c.nontrivial(n > 0);
    compare_text(c, &text)
}
/// token soup and characters changed anywhere
fn p28_garbage(c: &mut Case) -> R {
    let s = &mut c.s;
    let text = if s.coin() {
        let n = s.size(30);
        let mut t = if s.chance(3, 4) { "message a { ".to_string() } else { String::new() };
        for _ in 0..n {
            t.push_str(s.pick(WORDS));
            t.push_str(s.pick(&[" ", " ", " ", "", "\n"]));
        }
        t
    } else {
        let (t, _) = gen_text(s, false);
        let mut v: Vec<char> = t.chars().collect();
        for _ in 0..1 + s.below(4) {
            let i = s.below(v.len() + 1);
            let ch = s.pick(&[' ', ';', '{', '}', '(', ')', '=', ',', 'ü', '日', '\u{0}', '\u{2028}', '0', '-', 'x', 'ı', 'ß', '\u{85}']);
            match s.below(3) {
                0 => v.insert(i, ch),
                1 if i < v.len() => v[i] = ch,
                _ if i < v.len() => {
                    v.remove(i);
                }
                _ => v.push(ch),
            }
        }
        v.into_iter().collect()
    };
    c.describe(|| format!("{text:?}"));
    c.nontrivial(tokens(&text).len() > 3);
    compare_text(c, &text)
}
/// nesting from shallow to far beyond any stack
fn p28_deep(c: &mut Case) -> R {
    let s = &mut c.s;
    let n = match s.below(3) {
        0 => s.size(500),
        1 => MAX_DEPTH - 3 + s.below(6),
        _ => s.range(1000, 60_000),
    };
    let mut text = "message m {".to_string();
    for _ in 0..n {
        text.push_str("required group g{");
    }
    if s.coin() {
        text.push_str(" optional int32 x;");
    }
    let close = if s.chance(1, 4) { s.below(n + 1) } else { n + 1 };
    for _ in 0..close {
        text.push('}');
    }
    c.nontrivial(true);
    c.describe(|| format!("nested {n} deep, {close} closed"));
    compare_text(c, &text)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P27",
            rule: "a case is non-trivial when the schema has a group or more than one field (flatten), the file has row groups (file), or the projection is not empty (contains)",
            assumptions: &["schemas nested deeper than 512 groups are rejected (limit of the reader)", "the root's own repetition, annotations and id are not part of a schema"],
            parts: vec![
                Part { name: "flatten", f: p27_flatten, quick: 40000, thorough: 1000000 },
                Part { name: "file", f: p27_file, quick: 8000, thorough: 200000 },
                Part { name: "contains", f: p27_contains, quick: 40000, thorough: 1000000 },
            ],
        },
        Prop {
            id: "P28",
            rule: "a case is non-trivial when the text has a field (spelling), was altered (tokens), or has more than three tokens (garbage)",
            assumptions: &["ENUM, DECIMAL, DATE, JSON and BSON name the logical annotation", "the text form has no logical annotations of groups", "integers of unknown widths may be rejected or taken as 32 bits"],
            parts: vec![
                Part { name: "spelling", f: p28_spelling, quick: 360000, thorough: 3000000 },
                Part { name: "tokens", f: p28_tokens, quick: 600000, thorough: 5000000 },
                Part { name: "garbage", f: p28_garbage, quick: 600000, thorough: 5000000 },
                Part { name: "deep", f: p28_deep, quick: 300, thorough: 5_000 },
            ],
        },
        Prop {
            id: "P29",
            rule: "a case is non-trivial when the type has an annotation (annotations) or the tree was altered (tree)",
            assumptions: &["the annotation for columns of nulls is only decided for INT32", "integers of unknown widths in a file may be rejected or taken as 32 bits", "a precision without a scale in a file may be rejected"],
            parts: vec![
                Part { name: "annotations", f: p29_annotations, quick: 200_000, thorough: 10_000_000 },
                Part { name: "tree", f: p29_tree, quick: 100_000, thorough: 5_000_000 },
            ],
        },
    ]
}

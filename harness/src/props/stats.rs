//! P25, P26: statistics of pages and column chunks.
use super::file::BIG;
use crate::engine::*;
use crate::gen::*;
use crate::src::Src;
use crate::{ensure, ensure_eq, fail};
use parquet2::metadata::SchemaDescriptor;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet2::statistics::*;
use parquet2::types::NativeType;
use std::sync::Arc;

fn gen_count(s: &mut Src) -> Option<i64> {
    match s.below(4) {
        0 => None,
        1 => Some(s.below(200) as i64),
        2 => Some(0),
        _ => Some(s.i64_any()),
    }
}
/// the fields of statistics, values in plain encoding
#[derive(Clone, Debug, PartialEq)]
struct Fields {
    min: Option<Vec<u8>>,
    max: Option<Vec<u8>>,
    nulls: Option<i64>,
    distinct: Option<i64>,
}
fn gen_bound(s: &mut Src, p: PhysicalType) -> Option<Vec<u8>> {
    if s.chance(1, 4) {
        return None;
    }
    if p == PhysicalType::ByteArray && s.chance(1, 20) {
        return Some(vec![s.below(256) as u8; s.wide(5000)]);
    }
    Some(gen_value(s, p))
}
fn gen_fields_of(s: &mut Src, p: PhysicalType) -> Fields {
    Fields { min: gen_bound(s, p), max: gen_bound(s, p), nulls: gen_count(s), distinct: gen_count(s) }
}
fn native<T: NativeType>(f: &Fields, t: &PrimitiveType) -> Arc<dyn Statistics> {
    let of = |v: &Option<Vec<u8>>| {
        v.as_ref().map(|v| match T::Bytes::try_from(v.as_slice()) {
            Ok(x) => T::from_le_bytes(x),
            Err(_) => unreachable!(),
        })
    };
    Arc::new(PrimitiveStatistics::<T> { primitive_type: t.clone(), null_count: f.nulls, distinct_count: f.distinct, min_value: of(&f.min), max_value: of(&f.max) })
}
/// the typed statistics a user builds
fn typed(f: &Fields, t: &PrimitiveType) -> Arc<dyn Statistics> {
    match t.physical_type {
        PhysicalType::Boolean => {
            let of = |v: &Option<Vec<u8>>| v.as_ref().map(|v| v[0] != 0);
            Arc::new(BooleanStatistics { null_count: f.nulls, distinct_count: f.distinct, min_value: of(&f.min), max_value: of(&f.max) })
        }
        PhysicalType::Int32 => native::<i32>(f, t),
        PhysicalType::Int64 => native::<i64>(f, t),
        PhysicalType::Int96 => native::<[u32; 3]>(f, t),
        PhysicalType::Float => native::<f32>(f, t),
        PhysicalType::Double => native::<f64>(f, t),
        PhysicalType::ByteArray => {
            Arc::new(BinaryStatistics { primitive_type: t.clone(), null_count: f.nulls, distinct_count: f.distinct, min_value: f.min.clone(), max_value: f.max.clone() })
        }
        PhysicalType::FixedLenByteArray(_) => {
            Arc::new(FixedLenStatistics { primitive_type: t.clone(), null_count: f.nulls, distinct_count: f.distinct, min_value: f.min.clone(), max_value: f.max.clone() })
        }
    }
}
fn raw(f: &Fields) -> ParquetStatistics {
    ParquetStatistics { max: None, min: None, null_count: f.nulls, distinct_count: f.distinct, max_value: f.max.clone(), min_value: f.min.clone() }
}
fn gen_primitive(s: &mut Src) -> PrimitiveType {
    let name = gen_name(s);
    let rep = s.pick(&REPS);
    match gen_leaf(s, name, rep) {
        ParquetType::PrimitiveType(x) => x,
        _ => unreachable!(),
    }
}
fn has_nan(f: &Fields, p: PhysicalType) -> bool {
    [&f.min, &f.max].iter().any(|v| v.as_ref().map(|v| is_nan(v, p)).unwrap_or(false))
}
/// equality of values as the format sees them
fn same_value(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>, p: PhysicalType) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => match p {
            PhysicalType::Float => f32::from_le_bytes(a[..].try_into().unwrap()) == f32::from_le_bytes(b[..].try_into().unwrap()),
            PhysicalType::Double => f64::from_le_bytes(a[..].try_into().unwrap()) == f64::from_le_bytes(b[..].try_into().unwrap()),
            _ => a == b,
        },
        (None, None) => true,
        _ => false,
    }
}

fn p25_typed(c: &mut Case) -> R {
    let s = &mut c.s;
    let t = gen_primitive(s);
    let p = t.physical_type;
    let f = gen_fields_of(s, p);
    let x = typed(&f, &t);
    c.describe(|| format!("{t:?} {f:?}"));
    let s = &mut c.s;
    ensure_eq!(x.physical_type(), &p, "physical-type");
    ensure_eq!(x.null_count(), f.nulls, "null-count");
    let out = no_panic(|| serialize_statistics(x.as_ref()))?;
    ensure_eq!(out, raw(&f), "serialised");
    let back = no_panic(|| deserialize_statistics(&out, t.clone()))??;
    ensure_eq!(back.physical_type(), &p, "physical-type-back");
    ensure_eq!(back.null_count(), f.nulls, "null-count-back");
    // NaNs are not equal to themselves: compare bits
    ensure_eq!(serialize_statistics(back.as_ref()), raw(&f), "bits-back");
    let nan = has_nan(&f, p);
    ensure!(nan || x.as_ref() == back.as_ref(), "not-equal-back", "{x:?} != {back:?}");
    ensure!(format!("{x:?}") == format!("{back:?}"), "debug-back", "{x:?} {back:?}");
    // equality tells different statistics apart
    let g = gen_fields_of(s, p);
    let mut h = f.clone();
    match s.below(4) {
        0 => h.min = g.min.clone(),
        1 => h.max = g.max.clone(),
        2 => h.nulls = g.nulls,
        _ => h.distinct = g.distinct,
    }
    let y = typed(&h, &t);
    let same = same_value(&f.min, &h.min, p) && same_value(&f.max, &h.max, p) && f.nulls == h.nulls && f.distinct == h.distinct;
    ensure!((x.as_ref() == y.as_ref()) == same, "equality", "{x:?} == {y:?} is {}", !same);
    ensure!((y.as_ref() == x.as_ref()) == same, "equality", "{y:?} == {x:?} is {}", !same);
    let other = gen_primitive(s);
    if other.physical_type != p {
        let f = gen_fields_of(s, other.physical_type);
        let z = typed(&f, &other);
        ensure!(x.as_ref() != z.as_ref(), "equality-types", "{x:?} == {z:?}");
    } else if other != t && p != PhysicalType::Boolean && !nan {
        let z = typed(&f, &other);
        ensure!(x.as_ref() != z.as_ref(), "equality-column", "{x:?} == {z:?}");
    }
    c.nontrivial(f.min.is_some() || f.max.is_some());
    c.label_if(nan, "nan");
    c.label_if(f.min.is_some() != f.max.is_some(), "one bound");
    c.label(match p {
        PhysicalType::Boolean => "boolean",
        PhysicalType::Int32 => "int32",
        PhysicalType::Int64 => "int64",
        PhysicalType::Int96 => "int96",
        PhysicalType::Float => "float",
        PhysicalType::Double => "double",
        PhysicalType::ByteArray => "binary",
        PhysicalType::FixedLenByteArray(_) => "fixed",
    });
    Ok(())
}

/// arbitrary bytes: rejected exactly when they are not a plain encoded value of the type
fn p25_raw(c: &mut Case) -> R {
    let s = &mut c.s;
    let t = gen_primitive(s);
    let p = t.physical_type;
    let size = match p {
        PhysicalType::Boolean => Some(1),
        PhysicalType::Int32 | PhysicalType::Float => Some(4),
        PhysicalType::Int64 | PhysicalType::Double => Some(8),
        PhysicalType::Int96 => Some(12),
        PhysicalType::FixedLenByteArray(n) => Some(n),
        PhysicalType::ByteArray => None,
    };
    let bound = |s: &mut Src| {
        if s.chance(1, 4) {
            return None;
        }
        let n = match (s.below(4), size) {
            (0 | 1, Some(n)) => n,
            (2, Some(n)) => (n + s.below(3)).saturating_sub(1),
            _ => s.size(30),
        };
        Some(s.bytes(n))
    };
    let x = ParquetStatistics { max: bound(s), min: bound(s), null_count: gen_count(s), distinct_count: gen_count(s), max_value: bound(s), min_value: bound(s) };
    c.describe(|| format!("{t:?} {x:?}"));
    let fits = |v: &Option<Vec<u8>>| v.as_ref().map(|v| size.map(|n| n == v.len()).unwrap_or(true)).unwrap_or(true);
    let ok = fits(&x.min_value) && fits(&x.max_value);
    let got = no_panic(|| deserialize_statistics(&x, t.clone()))?;
    match got {
        Err(e) => ensure!(!ok, "rejected", "{x:?} of {t:?} rejected: {e}"),
        Ok(got) => {
            ensure!(ok, "accepted", "{x:?} of {t:?} accepted as {got:?}");
            let back = serialize_statistics(got.as_ref());
            let norm = |v: &Option<Vec<u8>>| if p == PhysicalType::Boolean { v.as_ref().map(|v| vec![(v[0] != 0) as u8]) } else { v.clone() };
            ensure_eq!(back.min_value, norm(&x.min_value), "raw-min");
            ensure_eq!(back.max_value, norm(&x.max_value), "raw-max");
            ensure_eq!(back.null_count, x.null_count, "raw-nulls");
            ensure_eq!(back.distinct_count, x.distinct_count, "raw-distinct");
        }
    }
    c.nontrivial(!ok || x.min_value.is_some() || x.max_value.is_some());
    c.label_if(!ok, "does not fit");
    Ok(())
}

fn collect_pages_stats(data: &[u8]) -> Result<Vec<Option<Arc<dyn Statistics>>>, Fail> {
    let md = read_metadata(&mut std::io::Cursor::new(data))?;
    let mut out = vec![];
    for g in &md.row_groups {
        for col in g.columns() {
            for page in get_page_iterator(col, std::io::Cursor::new(data), None, vec![], BIG)? {
                if let parquet2::page::CompressedPage::Data(page) = page? {
                    out.push(page.statistics().transpose()?);
                }
            }
        }
    }
    Ok(out)
}
/// statistics declared by page headers, read from a written file as page and chunk statistics
fn p25_file(c: &mut Case) -> R {
    let s = &mut c.s;
    let leaf = gen_leaf(s, "c".into(), Repetition::Required);
    let ParquetType::PrimitiveType(t) = leaf.clone() else { unreachable!() };
    let p = t.physical_type;
    let schema = SchemaDescriptor::new("s".into(), vec![leaf]);
    let mut f = gen_file_for(s, schema, &FileOpts { max_groups: 1, max_rows: 10, stats: Some(false), ..FileOpts::default() });
    let mut want = vec![];
    for (_, chunks) in &mut f.groups {
        for ch in chunks {
            // readers stop after the last value
            while ch.pages.last().map(|x| x.num_values() == 0).unwrap_or(false) {
                ch.pages.pop();
            }
            for pg in &mut ch.pages {
                let st = if s.chance(1, 5) { None } else { Some(gen_fields_of(s, p)) };
                pg.stats = st.as_ref().map(raw);
                want.push(st);
            }
        }
    }
    c.describe(|| format!("{t:?} {want:?}"));
    let data = write_vec(&f)?;
    let got = no_panic(|| collect_pages_stats(&data))??;
    ensure_eq!(got.len(), want.len(), "pages");
    for (g, w) in got.iter().zip(&want) {
        match (g, w) {
            (None, None) => {}
            (Some(g), Some(w)) => {
                ensure_eq!(serialize_statistics(g.as_ref()), raw(w), "page-statistics");
                let x = typed(w, &t);
                ensure!(has_nan(w, p) || x.as_ref() == g.as_ref(), "page-not-equal", "{x:?} != {g:?}");
            }
            _ => fail!("page-presence", "{g:?} {w:?}"),
        }
    }
    c.nontrivial(want.iter().any(|x| x.is_some()));
    c.label_if(want.iter().any(|x| x.is_none()), "page without statistics");
    Ok(())
}

// ------------------------------------------------------------------ P26
fn order_defined(t: &PrimitiveType) -> bool {
    if let Some(l) = t.logical_type {
        // INT96 has no order whatever its annotation (it takes none)
        return t.physical_type != PhysicalType::Int96 && l != PrimitiveLogicalType::Unknown;
    }
    t.physical_type != PhysicalType::Int96 && t.converted_type != Some(PrimitiveConvertedType::Interval)
}
fn p26(c: &mut Case) -> R {
    let s = &mut c.s;
    let rep = s.pick(&REPS);
    let leaf = gen_leaf(s, "c".into(), rep);
    let ParquetType::PrimitiveType(t) = leaf.clone() else { unreachable!() };
    let p = t.physical_type;
    let schema = SchemaDescriptor::new("s".into(), vec![leaf]);
    let mut f = gen_file_for(s, schema, &FileOpts { max_groups: 2, max_rows: 30, stats: Some(false), ..FileOpts::default() });
    // related bounds: prefixes, neighbours, repetitions
    let mut pool: Vec<Vec<u8>> = vec![];
    let mode = s.below(4); // 0 complete, 1 mostly, 2 anything, 3 tight as generated
    for (_, chunks) in &mut f.groups {
        for ch in chunks {
            for pg in &mut ch.pages {
                if mode == 3 || (mode != 0 && s.chance(1, 6)) {
                    continue;
                }
                if mode == 2 && s.chance(1, 8) {
                    pg.stats = None;
                    continue;
                }
                let mut bound = |s: &mut Src| {
                    let mut v = if pool.is_empty() || s.chance(1, 2) { gen_value(s, p) } else { pool[s.below(pool.len())].clone() };
                    if p == PhysicalType::ByteArray {
                        match s.below(5) {
                            0 => v.push(s.pick(&[0, 0xff, 1, 0x80])),
                            1 if !v.is_empty() => {
                                v.pop();
                            }
                            2 => v.insert(0, s.pick(&[0, 0xff])),
                            _ => {}
                        }
                    }
                    pool.push(v.clone());
                    v
                };
                let (a, b) = (bound(s), bound(s));
                let (lo, hi) = if !is_nan(&a, p) && !is_nan(&b, p) && cmp_values(&a, &b, &t).is_gt() { (b, a) } else { (a, b) };
                let nulls = match s.below(if mode == 0 { 2 } else { 5 }) {
                    0 => Some(s.below(pg.num_values() + 1) as i64),
                    1 => Some(pg.defs.iter().filter(|x| **x < (rep != Repetition::Required) as u64).count() as i64),
                    2 => Some(pg.num_values() as i64),
                    3 => Some(s.i64_any()),
                    _ => None,
                };
                let all_null = nulls == Some(pg.num_values() as i64);
                let drop = |s: &mut Src| if mode == 0 { false } else { s.chance(1, if all_null { 2 } else { 8 }) };
                let (dl, dh) = (drop(s), drop(s));
                pg.stats = Some(ParquetStatistics {
                    max: None,
                    min: None,
                    null_count: nulls,
                    distinct_count: if s.coin() { Some(s.below(30) as i64) } else { None },
                    min_value: if dl { None } else { Some(lo) },
                    max_value: if dh { None } else { Some(hi) },
                });
            }
        }
    }
    c.describe(|| format!("{t:?} {:?}", f.groups.iter().map(|g| g.1.iter().map(|ch| ch.pages.iter().map(|p| (p.num_values(), p.stats.clone())).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let data = write_vec(&f)?;
    let md = read_metadata(&mut std::io::Cursor::new(&data))?;
    let defined = order_defined(&t);
    let mut checked = false;
    for (g, (_, chunks)) in md.row_groups.iter().zip(&f.groups) {
        let got = match g.columns()[0].statistics() {
            None => None,
            Some(x) => {
                let x = x?;
                ensure_eq!(x.physical_type(), &p, "chunk-type");
                Some(serialize_statistics(x.as_ref()))
            }
        };
        let pages = &chunks[0].pages;
        let full: Vec<&PageM> = pages.iter().filter(|x| x.num_values() > 0).collect();
        let unknown = full.iter().any(|x| x.stats.is_none());
        if pages.iter().all(|x| x.stats.is_none()) {
            ensure!(got.is_none(), "invented", "no page has statistics but the chunk has {got:?}");
            continue;
        }
        let Some(got) = got else {
            // chunks may be without statistics; but what the pages agree to provide is kept
            ensure!(unknown || full.is_empty(), "lost", "the chunk has no statistics");
            c.label("no statistics");
            continue;
        };
        checked = true;
        let stats: Vec<&ParquetStatistics> = pages.iter().filter_map(|x| x.stats.as_ref()).collect();
        for (max, bound, of) in [(false, &got.min_value, (|x| &x.min_value) as fn(&ParquetStatistics) -> &Option<Vec<u8>>), (true, &got.max_value, |x| &x.max_value)] {
            let name = if max { "max" } else { "min" };
            // pages with non-null values that do not bound them
            let open = full.iter().any(|x| match &x.stats {
                None => true,
                Some(st) => st.null_count != Some(x.num_values() as i64) && of(st).as_ref().map(|v| is_nan(v, p)).unwrap_or(true),
            });
            let bounds: Vec<&Vec<u8>> = stats.iter().filter_map(|x| of(x).as_ref()).filter(|v| !is_nan(v, p)).collect();
            match bound {
                Some(b) => {
                    ensure!(defined, "undefined-order", "{name} {b:?} of a type without order");
                    ensure!(!is_nan(b, p), "nan-bound", "{name} is NaN");
                    ensure!(!open, "open", "{name} {b:?} although a page has no {name}");
                    for v in &bounds {
                        let o = cmp_values(b, v, &t);
                        ensure!(if max { o.is_ge() } else { o.is_le() }, "excluded", "{name} {b:?} excludes the page's {v:?}");
                    }
                    ensure!(bounds.iter().any(|v| cmp_values(b, v, &t).is_eq()), "not-attained", "{name} {b:?} not among {bounds:?}");
                    c.label_if(bounds.len() > 1, "bounds combined");
                }
                None => {
                    ensure!(open || !defined || bounds.is_empty(), "bound-lost", "every page has a {name} but the chunk has none");
                    c.label_if(open && !bounds.is_empty(), "open bound");
                    c.label_if(!defined, "undefined order");
                }
            }
        }
        let nulls: Option<i128> = pages.iter().filter(|x| x.num_values() > 0 || x.stats.is_some()).map(|x| x.stats.as_ref().and_then(|x| x.null_count).map(|x| x as i128)).sum();
        match got.null_count {
            Some(n) => ensure_eq!(Some(n as i128), nulls, "null-count"),
            None => ensure!(nulls.map(|n| i64::try_from(n).is_err() || stats.iter().any(|x| x.null_count.unwrap().unsigned_abs() > 1 << 40)).unwrap_or(true), "null-count-lost", "nulls {nulls:?}"),
        }
        if let Some(d) = got.distinct_count {
            ensure!(full.len() <= 1, "distinct-count", "distinct count {d} of {} pages", full.len());
            ensure!(stats.iter().any(|x| x.distinct_count == Some(d)), "distinct-count", "distinct count {d}");
        }
        ensure!(got.min.is_none() && got.max.is_none(), "legacy", "legacy bounds");
    }
    c.nontrivial(checked);
    c.label_if(is_unsigned(&t), "unsigned");
    c.label_if(is_decimal(&t), "decimal");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P25",
            rule: "a case is non-trivial when at least one bound is present (or, for arbitrary bytes, does not fit the type)",
            assumptions: &["bounds of NaN are compared by their bits, as NaN is not equal to itself"],
            parts: vec![
                Part { name: "typed", f: p25_typed, quick: 900000, thorough: 3600000 },
                Part { name: "raw", f: p25_raw, quick: 900000, thorough: 3600000 },
                Part { name: "file", f: p25_file, quick: 120000, thorough: 480000 },
            ],
        },
        Prop {
            id: "P26",
            rule: "a case is non-trivial when some chunk of the file has statistics derived from its pages",
            assumptions: &["a page is all null when its declared null count equals its number of values", "a bound of NaN bounds nothing (as the format says)"],
            parts: vec![Part { name: "reduce", f: p26, quick: 360000, thorough: 1500000 }],
        },
    ]
}

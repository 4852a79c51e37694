//! P20, P21: the decoding states of data pages, whole and filtered by rows.
use super::enc::{bitunpack_bools, check_filtered, drain, drain_ok, gen_intervals, select};
use crate::engine::*;
use crate::gen::*;
use crate::refimpl::{gen_runs, encode_runs};
use crate::src::Src;
use crate::{ensure, ensure_eq, fail};
use parquet2::deserialize::*;
use parquet2::encoding::hybrid_rle::{self, BitmapIter};
use parquet2::encoding::Encoding;
use parquet2::error::Error;
use parquet2::indexes::Interval;
use parquet2::metadata::{Descriptor, SchemaDescriptor};
use parquet2::page::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet2::types::NativeType;
use std::collections::VecDeque;

pub type Opt = Option<Vec<u8>>;

/// the state of a page, with values as plain bytes
pub enum State<'a> {
    Values(Option<DefLevelsDecoder<'a>>, Values<'a>),
    Keys(Option<DefLevelsDecoder<'a>>, hybrid_rle::HybridRleDecoder<'a>, &'a [Vec<u8>], usize),
}
/// an iterator over values; `exact` when its size hint is exact
pub struct Values<'a> {
    pub it: Box<dyn Iterator<Item = Result<Vec<u8>, Error>> + 'a>,
    pub exact: bool,
    pub hint: Option<usize>,
}
fn native<'a, T: NativeType>(page: &'a DataPage, dict: Option<&'a [Vec<u8>]>) -> Result<State<'a>, Error> {
    let vals = |v: Casted<'a, T>| {
        let hint = v.size_hint().1;
        Values { it: Box::new(v.map(|x| Ok(x.to_le_bytes().as_ref().to_vec()))), exact: true, hint }
    };
    Ok(match NativePageState::<T, &'a [Vec<u8>]>::try_new(page, dict)? {
        NativePageState::Optional(d, v) => State::Values(Some(d), vals(v)),
        NativePageState::Required(v) => State::Values(None, vals(v)),
        NativePageState::RequiredDictionary(x) => {
            let n = x.len();
            State::Keys(None, x.indexes, x.dict, n)
        }
        NativePageState::OptionalDictionary(d, x) => {
            let n = x.len();
            State::Keys(Some(d), x.indexes, x.dict, n)
        }
    })
}
pub fn state<'a>(page: &'a DataPage, dict: Option<&'a [Vec<u8>]>) -> Result<State<'a>, Error> {
    match page.descriptor.primitive_type.physical_type {
        PhysicalType::Int32 => native::<i32>(page, dict),
        PhysicalType::Int64 => native::<i64>(page, dict),
        PhysicalType::Int96 => native::<[u32; 3]>(page, dict),
        PhysicalType::Float => native::<f32>(page, dict),
        PhysicalType::Double => native::<f64>(page, dict),
        PhysicalType::ByteArray => Ok(match BinaryPageState::try_new(page, dict)? {
            BinaryPageState::Optional(d, v) => State::Values(Some(d), Values { it: Box::new(v.map(|x| x.map(|x| x.to_vec()))), exact: false, hint: None }),
            BinaryPageState::Required(v) => {
                let hint = v.size_hint().1;
                State::Values(None, Values { it: Box::new(v.map(|x| x.map(|x| x.to_vec()))), exact: true, hint })
            }
            BinaryPageState::RequiredDictionary(x) => {
                let n = x.len();
                State::Keys(None, x.indexes, x.dict, n)
            }
            BinaryPageState::OptionalDictionary(d, x) => {
                let n = x.len();
                State::Keys(Some(d), x.indexes, x.dict, n)
            }
        }),
        PhysicalType::FixedLenByteArray(_) => Ok(match FixedLenBinaryPageState::try_new(page, dict)? {
            FixedLenBinaryPageState::Optional(d, v) => {
                let hint = v.size_hint().1;
                State::Values(Some(d), Values { it: Box::new(v.map(|x| Ok(x.to_vec()))), exact: true, hint })
            }
            FixedLenBinaryPageState::Required(v) => {
                let hint = v.size_hint().1;
                State::Values(None, Values { it: Box::new(v.map(|x| Ok(x.to_vec()))), exact: true, hint })
            }
            FixedLenBinaryPageState::RequiredDictionary(x) => {
                let n = x.len();
                State::Keys(None, x.indexes, x.dict, n)
            }
            FixedLenBinaryPageState::OptionalDictionary(d, x) => {
                let n = x.len();
                State::Keys(Some(d), x.indexes, x.dict, n)
            }
        }),
        PhysicalType::Boolean => Ok(match BooleanPageState::try_new(page)? {
            // the number of bits of whole bytes
            BooleanPageState::Optional(d, v) => State::Values(Some(d), Values { it: Box::new(v.map(|x| Ok(vec![x as u8]))), exact: false, hint: None }),
            BooleanPageState::Required(b, n) => State::Values(None, Values { it: Box::new(BitmapIter::new(b, 0, n).map(|x| Ok(vec![x as u8]))), exact: true, hint: Some(n) }),
        }),
    }
}
/// validity of each slot of a page, by one of the ways of reading definition levels
pub fn validity<'a>(d: DefLevelsDecoder<'a>, n: usize) -> Result<Vec<bool>, Fail> {
    match d {
        DefLevelsDecoder::Bitmap(it) => {
            ensure_eq!((it.len(), it.is_empty(), it.number_of_elements()), (n, n == 0, n), "validity-len");
            let v = HybridRleBooleanIter::new(it);
            let (v, e) = drain(v, n, true, "validity")?;
            match e {
                Some(e) => Err(e.into()),
                None => Ok(v),
            }
        }
        DefLevelsDecoder::Levels(it, max) => {
            ensure_eq!(it.size_hint(), (n, Some(n)), "levels-len");
            let v = it.collect::<Result<Vec<_>, _>>()?;
            Ok(v.into_iter().map(|x| x == max).collect())
        }
    }
}
/// all slots of a page, in order; `n` is the number of slots
pub fn decode_all<'a>(page: &'a DataPage, dict: Option<&'a [Vec<u8>]>, n: usize) -> Result<Vec<Opt>, Fail> {
    let st = state(page, dict)?;
    let (def, mut values): (_, Box<dyn Iterator<Item = Result<Vec<u8>, Error>>>) = match st {
        State::Values(d, v) => (d, v.it),
        State::Keys(d, k, dict, _) => (d, Box::new(k.map(|k| k.and_then(|k| dict.get(k as usize).cloned().ok_or_else(|| Error::OutOfSpec("a key beyond the dictionary".into())))))),
    };
    match def {
        None => Ok(values.take(n + 1).map(|x| x.map(Some)).collect::<Result<Vec<_>, _>>()?),
        Some(d) => {
            let mut out = vec![];
            for x in validity(d, n)? {
                out.push(if x { Some(values.next().ok_or_else(|| Fail::new("too-few-values", "fewer values than valid slots"))??) } else { None });
            }
            Ok(out)
        }
    }
}
/// the selected slots of a page; `way` chooses among the two ways of filtering optional pages
pub fn decode_selected<'a>(page: &'a DataPage, dict: Option<&'a [Vec<u8>]>, iv: &[Interval], way: usize) -> Result<Vec<Opt>, Fail> {
    let total: usize = iv.iter().map(|x| x.length).sum();
    let st = state(page, dict)?;
    type Boxed<'b> = Box<dyn Iterator<Item = Result<Vec<u8>, Error>> + 'b>;
    let (def, values): (_, Boxed<'a>) = match st {
        State::Values(d, v) => (d, v.it),
        State::Keys(d, k, dict, _) => (d, Box::new(k.map(|k| k.and_then(|k| dict.get(k as usize).cloned().ok_or_else(|| Error::OutOfSpec("a key beyond the dictionary".into())))))),
    };
    let sel: VecDeque<Interval> = iv.iter().copied().collect();
    match def {
        None => {
            let it = SliceFilteredIter::new(values, sel);
            ensure_eq!(it.size_hint(), (total, Some(total)), "selected-len");
            let (v, e) = drain(it, total, true, "selected values")?;
            if let Some(e) = e {
                return Err(e.into());
            }
            Ok(v.into_iter().map(Some).collect())
        }
        Some(DefLevelsDecoder::Bitmap(it)) if way == 0 => {
            let mut values = values;
            let mut out: Vec<Opt> = vec![];
            let mut it = FilteredHybridRleDecoderIter::new(it, sel);
            ensure_eq!((it.len(), it.is_empty()), (total, total == 0), "selected-len");
            let mut one = |out: &mut Vec<Opt>, set: bool| -> R {
                out.push(if set { Some(values.next().ok_or_else(|| Fail::new("too-few-values", "fewer values than valid slots"))??) } else { None });
                Ok(())
            };
            let mut skip = vec![];
            let mut steps = 0;
            while let Some(r) = it.next() {
                steps += 1;
                ensure!(steps < 1_000_000, "selected-endless", "more than a million runs");
                match r? {
                    FilteredHybridEncoded::Skipped(k) => {
                        for _ in 0..k {
                            one(&mut skip, true)?;
                        }
                        skip.clear();
                    }
                    FilteredHybridEncoded::Repeated { is_set, length } => {
                        for _ in 0..length {
                            one(&mut out, is_set)?;
                        }
                    }
                    FilteredHybridEncoded::Bitmap { values: b, offset, length } => {
                        for x in bitunpack_bools(b, offset, length) {
                            one(&mut out, x)?;
                        }
                    }
                }
                ensure!(out.len() <= total, "selected-too-many", "{} slots where {total} are selected", out.len());
                ensure_eq!(it.len(), total - out.len(), "selected-len", "after {} slots", out.len());
            }
            Ok(out)
        }
        Some(DefLevelsDecoder::Bitmap(it)) => {
            let it = OptionalValues::new(HybridRleDecoderIter::new(it), values);
            let it = SliceFilteredIter::new(it, sel);
            ensure_eq!(it.size_hint(), (total, Some(total)), "selected-len");
            let (v, e) = drain(it, total, true, "selected slots")?;
            if let Some(e) = e {
                return Err(e.into());
            }
            v.into_iter().map(|x| x.transpose().map_err(Fail::from)).collect()
        }
        Some(DefLevelsDecoder::Levels(it, max)) => {
            let it = OptionalValues::new(it.map(|x| x.map(|x| x == max)), values);
            let it = SliceFilteredIter::new(it, sel);
            let (v, e) = drain(it, total, true, "selected slots")?;
            if let Some(e) = e {
                return Err(e.into());
            }
            v.into_iter().map(|x| x.transpose().map_err(Fail::from)).collect()
        }
    }
}

/// a column for pages: required and optional leaves, mostly at the top level
fn gen_column(s: &mut Src) -> Descriptor {
    if s.chance(1, 4) {
        let mut sc = gen_schema(s, 3, 3);
        if s.chance(1, 4) {
            let inner = gen_leaf(s, "a".into(), Repetition::Optional);
            let chain = if s.chance(1, 6) {
                let n = s.pick(&[254usize, 255, 256, 257, 500]);
                gen_chain_of(s, inner, n)
            } else {
                gen_chain(s, inner)
            };
            sc = SchemaDescriptor::new("s".into(), vec![chain]);
        }
        let i = s.below(sc.columns().len().max(1));
        if let Some(c) = sc.columns().get(i) {
            return c.descriptor.clone();
        }
    }
    let rep = if s.chance(2, 3) { Repetition::Optional } else { Repetition::Required };
    let t = gen_leaf(s, "a".into(), rep);
    match t {
        ParquetType::PrimitiveType(p) => Descriptor { max_def_level: (rep == Repetition::Optional) as i16, max_rep_level: 0, primitive_type: p },
        _ => unreachable!(),
    }
}
pub fn is_optional(d: &Descriptor) -> bool {
    d.primitive_type.field_info.repetition == Repetition::Optional
}
/// one slot per definition level: the value when the level is the maximum
pub fn slots(m: &PageM, d: &Descriptor) -> Vec<Opt> {
    let mut it = m.values.iter();
    m.defs.iter().map(|x| if *x == d.max_def_level as u64 { it.next().cloned() } else { None }).collect()
}
fn zero_sized(d: &Descriptor) -> bool {
    d.primitive_type.physical_type == PhysicalType::FixedLenByteArray(0)
}
fn gen_page_of(c: &mut Case, max: usize) -> (Descriptor, Option<DictM>, PageM) {
    let d = gen_column(&mut c.s);
    let p = d.primitive_type.physical_type;
    let top = if c.s.chance(1, 5) { 300 } else { 20 };
    let dict = if p != PhysicalType::Boolean && c.s.coin() { Some(gen_dict(&mut c.s, p, top)) } else { None };
    let rows = c.s.wide(max);
    let m = gen_page(&mut c.s, rows, &d, dict.as_ref(), &PageOpts { max_rows: max, stats: StatMode::None, decodable: true });
    (d, dict, m)
}
fn label_page(c: &mut Case, d: &Descriptor, m: &PageM) {
    c.label_if(!m.keys.is_empty(), "dictionary keys");
    c.label_if(m.encoding == Encoding::PlainDictionary, "PLAIN_DICTIONARY");
    c.label_if(is_optional(d), "optional");
    c.label_if(d.max_rep_level > 0, "repeated");
    c.label_if(d.max_def_level > 1, "nested");
    c.label_if(m.v2, "V2");
    c.label(match d.primitive_type.physical_type {
        PhysicalType::Boolean => "Boolean",
        PhysicalType::Int32 => "Int32",
        PhysicalType::Int64 => "Int64",
        PhysicalType::Int96 => "Int96",
        PhysicalType::Float => "Float",
        PhysicalType::Double => "Double",
        PhysicalType::ByteArray => "ByteArray",
        PhysicalType::FixedLenByteArray(_) => "FixedLenByteArray",
    });
}
fn is_keys(m: &PageM) -> bool {
    matches!(m.encoding, Encoding::RleDictionary | Encoding::PlainDictionary)
}

fn p20_states(c: &mut Case) -> R {
    let (d, dict, m) = if c.s.chance(1, 2000) {
        // levels of more than 64 KiB, in runs of one
        let d = Descriptor { primitive_type: PrimitiveType::from_physical("a".into(), PhysicalType::Int32), max_def_level: 1, max_rep_level: c.s.below(2) as i16 };
        let rows = 30_000 + c.s.below(20_000);
        let mut m = gen_page(&mut c.s, rows, &d, None, &PageOpts { max_rows: rows, stats: StatMode::None, decodable: true });
        let runs = |x: &[u64]| x.iter().flat_map(|x| [2u8, *x as u8]).collect::<Vec<u8>>();
        m.def_bytes = runs(&m.defs);
        if d.max_rep_level > 0 {
            m.rep_bytes = runs(&m.reps);
        }
        c.label("levels of more than 64 KiB");
        (d, None, m)
    } else {
        gen_page_of(c, 400)
    };
    label_page(c, &d, &m);
    let n = m.num_values();
    let k = m.values.len();
    c.nontrivial(k > 0 && (k < n || !is_optional(&d)));
    c.describe(|| format!("{:?} {:?} max levels {} {} page of {n} slots, {k} values, v2 {}, {:?} key width {:?}", d.primitive_type.physical_type, d.primitive_type.field_info.repetition, d.max_def_level, d.max_rep_level, m.v2, m.encoding, m.value_bytes.first()));
    c.label_if(d.max_def_level.max(d.max_rep_level) > 7, "deep");
    let page = m.page(&d);
    // the sections
    let (rep, def, val) = split_buffer(&page)?;
    ensure!(rep == &m.rep_bytes[..] && def == &m.def_bytes[..] && val == &m.value_bytes[..], "sections", "split into {} {} {} bytes, should be {} {} {}", rep.len(), def.len(), val.len(), m.rep_bytes.len(), m.def_bytes.len(), m.value_bytes.len());
    ensure_eq!(page.encoding(), m.encoding, "page-encoding");
    // the definition levels
    let want_valid: Vec<bool> = m.defs.iter().map(|x| *x == d.max_def_level as u64).collect();
    let def = DefLevelsDecoder::try_new(&page)?;
    ensure_eq!(matches!(def, DefLevelsDecoder::Bitmap(_)), d.max_def_level == 1, "levels-kind");
    if let DefLevelsDecoder::Levels(it, max) = &def {
        ensure_eq!(*max, d.max_def_level as u32, "levels-max");
        let v: Vec<u64> = it.clone().collect::<Result<Vec<_>, _>>()?.into_iter().map(|x| x as u64).collect();
        ensure_eq!(v, m.defs, "definition-levels");
    }
    ensure_eq!(validity(def, n)?, want_valid, "validity");
    if zero_sized(&d) {
        // not supported: an error, not a panic
        return Ok(());
    }
    let dv = dict.as_ref().map(|x| &x.values[..]);
    // a page that needs no dictionary ignores one
    match state(&page, dv)? {
        State::Values(def, v) => {
            ensure!(!is_keys(&m), "state-kind", "values for a page of keys");
            ensure_eq!(def.is_some(), is_optional(&d), "state-kind");
            if let Some(x) = v.hint {
                let flat = d.max_def_level == is_optional(&d) as i16;
                let want = if flat || d.primitive_type.physical_type != PhysicalType::ByteArray { k } else { n };
                if d.primitive_type.physical_type == PhysicalType::Boolean && !flat {
                    ensure_eq!(x, n, "values-len", "slots of a boolean page");
                } else {
                    ensure_eq!(x, want, "values-len");
                }
            }
            let got = v.it.take(k).collect::<Result<Vec<_>, _>>()?;
            ensure!(got == m.values, "values", "decoded values differ: {:?} should be {:?}", clip(&got), clip(&m.values));
        }
        State::Keys(def, keys, x, len) => {
            ensure!(is_keys(&m), "state-kind", "keys for a page of {:?}", m.encoding);
            ensure_eq!(def.is_some(), is_optional(&d), "state-kind");
            ensure!(std::ptr::eq(x.as_ptr(), dv.unwrap().as_ptr()), "dictionary", "another dictionary");
            ensure_eq!(len, n, "keys-len", "declared");
            ensure_eq!(keys.size_hint(), (n, Some(n)), "keys-len");
            let got = keys.take(k).map(|x| x.map(|x| x as u64)).collect::<Result<Vec<_>, _>>()?;
            ensure_eq!(got, m.keys, "keys");
        }
    }
    // values and validity together
    if is_optional(&d) {
        ensure!(decode_all(&page, dv, n)? == slots(&m, &d), "slots", "decoded slots differ");
        if d.max_def_level == 1 && d.primitive_type.physical_type == PhysicalType::Int32 && !is_keys(&m) {
            if let NativePageState::Optional(DefLevelsDecoder::Bitmap(b), v) = NativePageState::<i32, ()>::try_new(&page, None)? {
                let got = drain_ok(OptionalValues::new(HybridRleDecoderIter::new(b), v), n, true, "OptionalValues")?;
                let got: Vec<Opt> = got.into_iter().map(|x| x.map(|x| x.map(|x| x.to_le_bytes().to_vec()))).collect::<Result<_, _>>()?;
                ensure!(got == slots(&m, &d), "optional-values", "OptionalValues differ");
            }
        }
    }
    Ok(())
}
/// pages that cannot be decoded, or not without a dictionary
fn p20_errors(c: &mut Case) -> R {
    let (d, dict, mut m) = gen_page_of(c, 60);
    let dv = dict.as_ref().map(|x| x.values.clone());
    let p = d.primitive_type.physical_type;
    let all = [
        Encoding::Plain,
        Encoding::PlainDictionary,
        Encoding::Rle,
        Encoding::BitPacked,
        Encoding::DeltaBinaryPacked,
        Encoding::DeltaLengthByteArray,
        Encoding::DeltaByteArray,
        Encoding::RleDictionary,
        Encoding::ByteStreamSplit,
    ];
    let e = c.s.pick(&all);
    m.encoding = e;
    if matches!(e, Encoding::PlainDictionary | Encoding::RleDictionary) {
        let w = c.s.pick(&[0u8, 1, 7, 32, 33, 200]);
        let mut r = c.s.rng();
        let keys: Vec<u64> = m.defs.iter().map(|_| if w == 0 { 0 } else { r.next() % 2 }).collect();
        let runs = gen_runs(&mut c.s, &keys, w.clamp(1, 32) as u32, false);
        m.value_bytes = vec![w];
        m.value_bytes.extend(encode_runs(&runs, w.clamp(1, 32) as u32));
        if c.s.chance(1, 6) {
            m.value_bytes.clear();
        }
    } else {
        // one that fits plain pages too
        m.value_bytes = plain(&m.values, p);
    }
    let page = m.page(&d);
    let given = c.s.coin();
    let has = given && dv.is_some();
    c.describe(|| format!("{p:?} page with {e:?}, dictionary given: {has}"));
    c.nontrivial(true);
    c.label_if(has, "dictionary given");
    let r = state(&page, if given { dv.as_deref() } else { None }).map(|_| ());
    let is_dict = matches!(e, Encoding::PlainDictionary | Encoding::RleDictionary);
    let ok = if p == PhysicalType::Boolean {
        e == Encoding::Plain
    } else {
        e == Encoding::Plain || (is_dict && has && m.value_bytes.first().map(|w| *w <= 32).unwrap_or(false))
    };
    if zero_sized(&d) {
        ensure!(r.is_err(), "zero-sized", "a page of values of no bytes is accepted");
        return Ok(());
    }
    c.label_if(!ok, "unsupported");
    ensure_eq!(r.is_ok(), ok, "state-support", "{p:?} {e:?} dictionary {has} width {:?}: {r:?}", m.value_bytes.first());
    Ok(())
}

fn p21_select(c: &mut Case) -> R {
    let (d, dict, m) = gen_page_of(c, 400);
    // rows and slots coincide
    if d.max_rep_level > 0 || (d.max_def_level > 0 && !is_optional(&d)) || zero_sized(&d) {
        return Ok(());
    }
    label_page(c, &d, &m);
    let n = m.num_values();
    let mut iv = gen_intervals(&mut c.s, n);
    if c.s.chance(1, 4) {
        split_adjacent(&mut c.s, &mut iv);
        c.label("adjacent intervals");
        c.label_if(iv.iter().any(|x| x.length == 0), "empty intervals");
    }
    c.label_if(iv.is_empty(), "nothing selected");
    c.nontrivial(iv.len() > 1 && m.values.len() < n);
    c.describe(|| format!("{:?} {:?} page of {n} slots, v2 {}, {:?}, rows {:?}", d.primitive_type.physical_type, d.primitive_type.field_info.repetition, m.v2, m.encoding, clip(&iv)));
    let mut page = m.page(&d);
    page.selected_rows = Some(iv.clone());
    let dv = dict.as_ref().map(|x| &x.values[..]);
    let want = select(&slots(&m, &d), &iv);
    for way in 0..2 {
        let sel = page.selected_rows().unwrap().to_vec();
        let got = decode_selected(&page, dv, &sel, way)?;
        ensure!(got == want, "selected", "way {way}: selected slots are {:?} but should be {:?}", clip(&got), clip(&want));
        c.evals += 1;
    }
    if d.max_def_level == 1 {
        if let DefLevelsDecoder::Bitmap(it) = DefLevelsDecoder::try_new(&page)? {
            let v: Vec<bool> = m.defs.iter().map(|x| *x == 1).collect();
            check_filtered(FilteredHybridRleDecoderIter::new(it, iv.iter().copied().collect()), &v, &iv)?;
        }
    }
    Ok(())
}
/// cuts intervals in two adjacent ones
pub fn split_adjacent(s: &mut Src, iv: &mut Vec<Interval>) {
    let mut out = vec![];
    for i in iv.drain(..) {
        if i.length > 1 && s.coin() {
            let a = s.range(1, i.length - 1);
            out.push(Interval::new(i.start, a));
            out.push(Interval::new(i.start + a, i.length - a));
        } else {
            out.push(i);
        }
    }
    if s.chance(1, 3) {
        // some that select nothing, several in a row at times
        let mut end = 0;
        let mut all = vec![];
        for i in out {
            if s.chance(1, 3) {
                for _ in 0..s.range(1, 3) {
                    all.push(Interval::new(s.range(end, i.start), 0));
                    end = all[all.len() - 1].start;
                }
            }
            end = i.start + i.length;
            all.push(i);
        }
        for _ in 0..s.below(3) {
            all.push(Interval::new(end, 0));
        }
        out = all;
    }
    *iv = out;
}
/// long runs against short selections, and the reverse
fn p21_runs(c: &mut Case) -> R {
    let total = c.s.pick(&[64usize, 300, 1000, 5000]);
    let mut v: Vec<bool> = vec![];
    let mut b = c.s.coin();
    while v.len() < total {
        let k = c.s.pick(&[1usize, 2, 7, 8, 9, 40, 64, 500]).min(total - v.len());
        for i in 0..k {
            v.push(if k > 1 && c.s.chance(1, 20) { i % 2 == 0 } else { b });
        }
        b = !b;
    }
    let u: Vec<u64> = v.iter().map(|x| *x as u64).collect();
    let runs = gen_runs(&mut c.s, &u, 1, false);
    let def_bytes = encode_runs(&runs, 1);
    let mut iv = gen_intervals(&mut c.s, total);
    split_adjacent(&mut c.s, &mut iv);
    c.describe(|| format!("{total} slots in {} runs, rows {:?}", runs.len(), clip(&iv)));
    c.nontrivial(runs.len() > 1 && iv.len() > 1);
    c.label_if(runs.len() > 10, "many runs");
    c.label_if(iv.len() > 10, "many intervals");
    let t = PrimitiveType::from_physical("a".into(), PhysicalType::Int32);
    let d = Descriptor { primitive_type: t, max_def_level: 1, max_rep_level: 0 };
    let k = v.iter().filter(|x| **x).count();
    let values: Vec<Vec<u8>> = (0..k as i32).map(|x| x.to_le_bytes().to_vec()).collect();
    let m = PageM {
        v2: c.s.coin(),
        encoding: Encoding::Plain,
        rows: total,
        reps: vec![0; total],
        defs: u,
        value_bytes: values.concat(),
        values,
        keys: vec![],
        rep_bytes: vec![],
        def_bytes,
        stats: None,
        is_compressed: None,
        many: None,
    };
    let page = m.page(&d);
    let want = select(&slots(&m, &d), &iv);
    for way in 0..2 {
        let got = decode_selected(&page, None, &iv, way)?;
        if got != want {
            fail!("selected", "way {way}: selected slots are {:?} but should be {:?}", clip(&got), clip(&want));
        }
    }
    if let DefLevelsDecoder::Bitmap(it) = DefLevelsDecoder::try_new(&page)? {
        check_filtered(FilteredHybridRleDecoderIter::new(it, iv.iter().copied().collect()), &v, &iv)?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P20",
            rule: "the page has values, and nulls if it is optional (states); always (errors)",
            assumptions: &["values a page holds follow the format; rows of nested pages are not assembled by the crate, so only sections, levels and values are compared there"],
            parts: vec![
                Part { name: "states", f: p20_states, quick: 1000000, thorough: 10000000 },
                Part { name: "errors", f: p20_errors, quick: 400000, thorough: 3000000 },
            ],
        },
        Prop {
            id: "P21",
            rule: "several intervals are selected, of a page with nulls or several runs",
            assumptions: &["selections are sorted, disjoint and within the page; flat columns (rows and slots coincide)"],
            parts: vec![
                Part { name: "select", f: p21_select, quick: 400_000, thorough: 10_000_000 },
                Part { name: "runs", f: p21_runs, quick: 60_000, thorough: 2_000_000 },
            ],
        },
    ]
}

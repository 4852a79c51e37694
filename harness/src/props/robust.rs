//! P19: every public decoder on arbitrary bytes.
use super::enc::*;
use crate::engine::*;
use crate::refimpl::*;
use crate::src::Src;
use crate::{ensure, ensure_eq};
use parquet2::deserialize::*;
use parquet2::encoding::bitpacked;
use parquet2::encoding::hybrid_rle::{self, BitmapIter, HybridRleDecoder};
use parquet2::encoding::{delta_bitpacked, delta_byte_array, delta_length_byte_array, plain_byte_array, Encoding};
use parquet2::indexes::Interval;
use parquet2::metadata::Descriptor;
use parquet2::page::{split_buffer, split_buffer_v1, split_buffer_v2, DataPage, DataPageHeader, DataPageHeaderV1, DataPageHeaderV2};
use parquet2::schema::types::{FieldInfo, PhysicalType, PrimitiveType};
use parquet2::schema::Repetition;
use std::collections::VecDeque;

/// how much memory a decoder of `n` input bytes and `declared` items may take
fn mem_ok(peak: usize, bytes: usize, declared: usize) -> bool {
    peak <= 64 * (bytes + declared) + (1 << 20)
}

fn any_count(s: &mut Src) -> usize {
    match s.below(4) {
        0 => s.size(200),
        1 => s.size(20_000),
        _ => s.u64_any() as usize,
    }
}

fn p_bitpacked(c: &mut Case) -> R {
    let len = c.s.size(200);
    let b = c.s.bytes(len);
    let w = match c.s.below(3) {
        0 => c.s.below(70),
        1 => c.s.pick(&[0, 1, 8, 9, 16, 17, 32, 33, 64, 65, 255, 256]),
        _ => c.s.u64_any() as usize,
    };
    let n = any_count(&mut c.s);
    let ty = c.s.below(4);
    c.describe(|| format!("bitpacked::Decoder type {ty} width {w} count {n} over {len} bytes"));
    c.nontrivial(w > 0 && len > 0);
    let cap = (len * 8).min(n);
    macro_rules! go {
        ($t:ty) => {
            match bitpacked::Decoder::<$t>::try_new(&b, w, n) {
                Ok(d) => {
                    c.label("accepted");
                    drain_ok(d, cap, true, "bitpacked")?;
                }
                Err(_) => c.label("refused"),
            }
        };
    }
    match ty {
        0 => go!(u8),
        1 => go!(u16),
        2 => go!(u32),
        _ => go!(u64),
    }
    Ok(())
}

fn p_hybrid(c: &mut Case) -> R {
    let w = match c.s.below(3) {
        0 => 1,
        1 => c.s.range(0, 32) as u32,
        _ => c.s.pick(&[0u32, 1, 31, 32, 33, 40, 64, 65, 255, 1000]),
    };
    let b = gen_hostile(&mut c.s, w.min(40));
    let n = any_count(&mut c.s);
    c.describe(|| format!("hybrid decoders: width {w} count {n} over {} bytes {:?}", b.len(), clip(&b)));
    c.nontrivial(b.len() > 1);
    // raw runs: each takes at least one byte
    let _ = drain(hybrid_rle::Decoder::new(&b, w as usize), b.len(), false, "hybrid_rle::Decoder")?;
    // values: at most `n`, exact hints; only the first part of a huge count is walked
    match HybridRleDecoder::try_new(&b, w, n) {
        Ok(d) => {
            if n <= 30_000 {
                drain(d, n, true, "HybridRleDecoder")?;
            } else {
                drain(d.take(30_000), 30_000, false, "HybridRleDecoder")?;
            }
        }
        Err(_) => c.label("refused"),
    }
    let runs = HybridRleIter::new(hybrid_rle::Decoder::new(&b, w as usize), n);
    let mut total: usize = 0;
    let (r, _) = drain(runs, b.len() + 1, false, "HybridRleIter")?;
    for x in r {
        total = total.checked_add(x.len()).ok_or(Fail::new("runs-too-long", "sum of the run lengths overflows"))?;
    }
    ensure!(total <= n, "runs-too-long", "runs of {total} elements for {n}");
    let bools: HybridRleDecoderIter = HybridRleDecoderIter::new(HybridRleIter::new(hybrid_rle::Decoder::new(&b, w as usize), n));
    if n <= 30_000 {
        drain(bools, n, false, "HybridRleBooleanIter")?;
    } else {
        drain(bools.take(30_000), 30_000, false, "HybridRleBooleanIter")?;
    }
    // filtered
    let iv = gen_intervals(&mut c.s, n.min(1000));
    let sel: usize = iv.iter().map(|x| x.length).sum();
    let f = FilteredHybridRleDecoderIter::new(HybridRleIter::new(hybrid_rle::Decoder::new(&b, w as usize), n), VecDeque::from(iv.clone()));
    let (r, _) = drain(f, b.len() * 3 + iv.len() * 3 + 8, false, "FilteredHybridBitmapIter")?;
    let got: usize = r.iter().map(|x| x.len()).sum();
    ensure!(got <= sel, "filtered-too-many", "{got} rows for {sel} selected");
    for x in r {
        if let FilteredHybridEncoded::Bitmap { values, offset, length } = x {
            ensure!(offset + length <= values.len() * 8, "filtered-bitmap-range", "offset {offset} length {length} of {} bytes", values.len());
        }
    }
    Ok(())
}

fn hostile_delta(s: &mut Src) -> Vec<u8> {
    match s.below(4) {
        0 => {
            let n = s.size(80);
            s.bytes(n)
        }
        1 => {
            let v = gen_i64s(s, 300);
            let l = gen_delta_layout(s);
            let mut b = delta_encode(&v, &l);
            mutate(s, &mut b);
            b
        }
        2 => {
            // header of arbitrary numbers
            let mut b = vec![];
            let block = match s.below(3) {
                0 => 128 * s.below64(5),
                1 => s.u64_any() & !127,
                _ => s.u64_any(),
            };
            b.extend(uleb(block));
            let minis = match s.below(3) {
                0 => s.below64(9),
                1 => s.u64_any(),
                _ => block,
            };
            b.extend(uleb(minis));
            b.extend(uleb(s.u64_any()));
            b.extend(uleb(s.u64_any()));
            b.extend(uleb(s.u64_any()));
            let k = s.size(40);
            b.extend(s.bytes(k));
            b
        }
        _ => {
            // legal layout, arbitrary widths and content
            let mut b = vec![0x80, 0x01, s.pick(&[1u8, 2, 4])];
            b.extend(uleb(s.u64_any()));
            b.extend(uleb(s.u64_any()));
            for _ in 0..s.range(1, 3) {
                b.extend(uleb(s.u64_any()));
                for _ in 0..b[2] {
                    b.push(s.pick(&[0u8, 0, 1, 64, 65, 255, 7, 63]));
                }
                let k = s.size(300);
                b.extend(s.bytes(k));
            }
            b
        }
    }
}

fn p_delta(c: &mut Case) -> R {
    let b = hostile_delta(&mut c.s);
    c.describe(|| format!("delta decoders over {} bytes {:?}", b.len(), clip(&b)));
    c.nontrivial(b.len() > 4);
    const CAP: usize = 20_000;
    let (r, peak) = peak_during(|| -> R {
        if let Ok(mut d) = delta_bitpacked::Decoder::try_new(&b) {
            c.label("accepted");
            ensure!(d.consumed_bytes() <= b.len(), "delta-consumed-range", "{} of {} bytes consumed", d.consumed_bytes(), b.len());
            let declared = d.size_hint();
            ensure_eq!(Some(declared.0), declared.1, "delta-size-hint");
            let mut n = 0usize;
            let mut failed = false;
            for x in d.by_ref().take(CAP) {
                if x.is_err() {
                    failed = true;
                    break;
                }
                n += 1;
            }
            ensure!(n <= declared.0, "delta-too-many", "{n} of {} declared", declared.0);
            if failed {
                c.label("failed midway");
                for _ in 0..5 {
                    ensure!(!matches!(d.next(), Some(Ok(_))), "delta-data-after-error", "data after an error");
                }
            } else {
                ensure!(d.consumed_bytes() <= b.len(), "delta-consumed-range", "{} of {} bytes consumed", d.consumed_bytes(), b.len());
                if n == declared.0 {
                    // fully decoded without an error: the reference must agree
                    if let Some((v, used)) = delta_decode(&b) {
                        ensure_eq!(v.len(), n, "delta-arbitrary-count");
                        ensure_eq!(d.consumed_bytes(), used, "delta-arbitrary-consumed");
                        let got = delta_bitpacked::Decoder::try_new(&b)?.collect::<Result<Vec<_>, _>>()?;
                        ensure_eq!(got, v, "delta-arbitrary");
                    }
                }
            }
        }
        if let Ok(mut d) = delta_length_byte_array::Decoder::try_new(&b) {
            let mut failed = false;
            let mut n = 0;
            for x in d.by_ref().take(CAP) {
                n += 1;
                if x.is_err() {
                    failed = true;
                    break;
                }
            }
            if !failed && n < CAP {
                ensure!(d.values().len() <= b.len(), "delta-length-range", "values exceed the input");
            }
        }
        decode_damaged_delta_strings(&b, CAP)?;
        Ok(())
    });
    r?;
    ensure!(mem_ok(peak, b.len(), 2 * CAP), "memory", "{peak} bytes of heap for {} bytes of input", b.len());
    Ok(())
}

fn p_plain(c: &mut Case) -> R {
    let n = c.s.size(200);
    let mut b = c.s.bytes(n);
    if c.s.coin() {
        let v = gen_strings(&mut c.s, 20);
        b = plain_byte_array(&v);
        mutate(&mut c.s, &mut b);
    }
    let n = any_count(&mut c.s);
    c.describe(|| format!("BinaryIter count {n} over {:?}", clip(&b)));
    c.nontrivial(b.len() > 4);
    for len in [None, Some(n)] {
        drain(plain_byte_array::BinaryIter::new(&b, len), b.len() / 4, false, "BinaryIter")?;
    }
    // bitmaps: any offset within, any length
    let off = c.s.below(b.len() * 8 + 1);
    let k = c.s.size(5000);
    drain_ok(BitmapIter::new(&b, off, k), k, true, "BitmapIter")?;
    Ok(())
}

fn p_split(c: &mut Case) -> R {
    let n = c.s.size(60);
    let mut b = c.s.bytes(n);
    if c.s.coin() {
        // plausible lengths
        let k = c.s.below(n + 2) as u32;
        for (i, x) in k.to_le_bytes().into_iter().enumerate() {
            if i < b.len() {
                b[i] = x;
            }
        }
    }
    let (rep, def) = (c.s.coin(), c.s.coin());
    c.describe(|| format!("split_buffer_v1({rep},{def}) of {:?}", clip(&b)));
    c.nontrivial(b.len() > 4);
    if let Ok((r, d, v)) = split_buffer_v1(&b, rep, def) {
        c.label("accepted");
        let used = r.len() + d.len() + v.len() + 4 * (rep as usize + def as usize);
        ensure_eq!(used, b.len(), "split-v1-total");
        let mut at = 0;
        if rep {
            ensure_eq!(r, &b[4..4 + u32::from_le_bytes(b[..4].try_into().unwrap()) as usize], "split-v1-rep");
            at = 4 + r.len();
        }
        if def {
            ensure_eq!(d, &b[at + 4..at + 4 + u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize], "split-v1-def");
            at += 4 + d.len();
        }
        ensure_eq!(v, &b[at..], "split-v1-values");
    }
    let (x, y) = if c.s.coin() { (c.s.below(n + 3), c.s.below(n + 3)) } else { (any_count(&mut c.s), any_count(&mut c.s)) };
    match split_buffer_v2(&b, x, y) {
        Ok((r, d, v)) => {
            ensure_eq!((r, d, v), (&b[..x], &b[x..x + y], &b[x + y..]), "split-v2");
        }
        Err(_) => ensure!(x.checked_add(y).map_or(true, |t| t > b.len()), "split-v2-rejects", "lengths {x}+{y} of {} rejected", b.len()),
    }
    Ok(())
}

const PHYS: [PhysicalType; 10] = [
    PhysicalType::Int32,
    PhysicalType::Boolean,
    PhysicalType::Int64,
    PhysicalType::Int96,
    PhysicalType::Float,
    PhysicalType::Double,
    PhysicalType::ByteArray,
    PhysicalType::FixedLenByteArray(3),
    PhysicalType::FixedLenByteArray(0),
    PhysicalType::FixedLenByteArray(1000),
];

/// walks a freshly built state like a consumer would; every iterator must stay within its bounds
fn walk_def(d: DefLevelsDecoder, n: usize, bytes: usize) -> R {
    match d {
        DefLevelsDecoder::Bitmap(it) => {
            let (r, _) = drain(it, bytes + 1, false, "def runs")?;
            let t: usize = r.iter().map(|x| x.len()).sum();
            ensure!(t <= n, "def-too-many", "{t} levels for {n} values");
        }
        DefLevelsDecoder::Levels(it, _) => {
            drain(it.take(20_000), n.min(20_000), false, "def levels")?;
        }
    }
    Ok(())
}
fn walk_idx(it: HybridRleDecoder, n: usize) -> R {
    drain(it.take(20_000), n.min(20_000), false, "indices")?;
    Ok(())
}

pub fn arbitrary_page(s: &mut Src) -> (DataPage, usize) {
    let pt = s.pick(&PHYS);
    let (max_def, max_rep, rep) = match s.below(4) {
        0 => (0i16, 0i16, Repetition::Required),
        1 => (1, 0, Repetition::Optional),
        2 => (s.below(5) as i16, s.below(3) as i16, s.pick(&[Repetition::Required, Repetition::Optional, Repetition::Repeated])),
        _ => (s.below(40) as i16, s.below(40) as i16, Repetition::Optional),
    };
    let mut prim = PrimitiveType::from_physical("c".to_string(), pt);
    prim.field_info = FieldInfo { name: "c".into(), repetition: rep, id: None };
    let descriptor = Descriptor { primitive_type: prim, max_def_level: max_def, max_rep_level: max_rep };
    let enc = if s.chance(1, 8) { s.below(12) as i32 } else { s.pick(&[0i32, 8, 2, 0, 8, 0]) };
    let enc = if Encoding::try_from(parquet_format_safe::Encoding(enc)).is_err() { parquet_format_safe::Encoding(0) } else { parquet_format_safe::Encoding(enc) };
    let n = s.size(100);
    let mut b = s.bytes(n);
    let nv = match s.below(3) {
        0 => s.below(200) as i32,
        1 => s.i32_any() & i32::MAX,
        _ => s.i32_any(),
    };
    let (header, at) = if s.coin() {
        // make the level lengths plausible
        let mut at = 0;
        for has in [max_rep > 0, max_def > 0] {
            if has && s.chance(3, 4) && b.len() >= at + 4 {
                let k = s.below(b.len() - at - 3);
                b[at..at + 4].copy_from_slice(&(k as u32).to_le_bytes());
                if k > 1 && s.coin() {
                    b[at + 4] = s.pick(&[3, 1, 2, 0x10, 5]);
                }
                at += 4 + k;
            }
        }
        (
            DataPageHeader::V1(DataPageHeaderV1 {
                num_values: nv,
                encoding: enc,
                definition_level_encoding: Encoding::Rle.into(),
                repetition_level_encoding: Encoding::Rle.into(),
                statistics: None,
            }),
            at,
        )
    } else {
        let (d, r) = if s.chance(3, 4) {
            let d = s.below(b.len() + 1);
            (d as i32, s.below(b.len() + 1 - d) as i32)
        } else {
            (s.i32_any(), s.i32_any())
        };
        (
            DataPageHeader::V2(DataPageHeaderV2 {
                num_values: nv,
                num_nulls: s.i32_any(),
                num_rows: s.i32_any(),
                encoding: enc,
                definition_levels_byte_length: d,
                repetition_levels_byte_length: r,
                is_compressed: None,
                statistics: None,
            }),
            (d as i64 + r as i64).max(0) as usize,
        )
    };
    if at < b.len() && s.coin() {
        b[at] = s.pick(&[0u8, 1, 2, 8, 31, 32, 33, 255]);
    }
    let len = b.len();
    (DataPage::new(header, b, descriptor, None), len)
}

fn p_states(c: &mut Case) -> R {
    let (page, len) = arbitrary_page(&mut c.s);
    c.describe(|| format!("page states over {:?}", clip(&page)));
    c.nontrivial(len > 4);
    let n = page.num_values();
    let _ = split_buffer(&page);
    let (r, peak) = peak_during(|| walk_page(&page, len, n, c));
    r?;
    ensure!(mem_ok(peak, len, 60_000), "memory", "{peak} bytes of heap for a page of {len} bytes");
    Ok(())
}

pub fn walk_page(page: &DataPage, len: usize, n: usize, c: &mut Case) -> R {
    let dict: Option<()> = if c.s.coin() { Some(()) } else { None };
    if let Ok(d) = DefLevelsDecoder::try_new(page) {
        walk_def(d, n, len)?;
    }
    macro_rules! native {
        ($t:ty) => {
            match NativePageState::<$t, ()>::try_new(page, dict) {
                Ok(NativePageState::Optional(d, v)) => {
                    walk_def(d, n, len)?;
                    drain_ok(v, len, true, "native values")?;
                }
                Ok(NativePageState::Required(v)) => {
                    drain_ok(v, len, true, "native values")?;
                }
                Ok(NativePageState::RequiredDictionary(d)) => walk_idx(d.indexes, n)?,
                Ok(NativePageState::OptionalDictionary(l, d)) => {
                    walk_def(l, n, len)?;
                    walk_idx(d.indexes, n)?
                }
                Err(_) => (),
            }
        };
    }
    native!(i32);
    native!(i64);
    native!([u32; 3]);
    native!(f32);
    native!(f64);
    match BinaryPageState::<()>::try_new(page, dict) {
        Ok(BinaryPageState::Optional(d, v)) => {
            walk_def(d, n, len)?;
            drain(v, len / 4, false, "binary values")?;
        }
        Ok(BinaryPageState::Required(v)) => {
            drain(v, len / 4, false, "binary values")?;
        }
        Ok(BinaryPageState::RequiredDictionary(d)) => walk_idx(d.indexes, n)?,
        Ok(BinaryPageState::OptionalDictionary(l, d)) => {
            walk_def(l, n, len)?;
            walk_idx(d.indexes, n)?
        }
        Err(_) => (),
    }
    match FixedLenBinaryPageState::<()>::try_new(page, dict) {
        Ok(FixedLenBinaryPageState::Optional(d, v)) => {
            c.label("fixed-length state");
            walk_def(d, n, len)?;
            drain_ok(v, len.max(n), true, "fixed values")?;
        }
        Ok(FixedLenBinaryPageState::Required(v)) => {
            drain_ok(v, len.max(n), true, "fixed values")?;
        }
        Ok(FixedLenBinaryPageState::RequiredDictionary(d)) => walk_idx(d.indexes, n)?,
        Ok(FixedLenBinaryPageState::OptionalDictionary(l, d)) => {
            walk_def(l, n, len)?;
            walk_idx(d.indexes, n)?
        }
        Err(_) => (),
    }
    match BooleanPageState::try_new(page) {
        Ok(BooleanPageState::Optional(d, v)) => {
            walk_def(d, n, len)?;
            drain_ok(v, len * 8, true, "boolean values")?;
        }
        Ok(BooleanPageState::Required(b, k)) => {
            drain_ok(BitmapIter::new(b, 0, k).take(1000), 1000, false, "boolean values")?;
        }
        Err(_) => (),
    }
    Ok(())
}

/// sorted disjoint selections of rows that may be empty or lie beyond the end
fn p_slices(c: &mut Case) -> R {
    let n = c.s.size(60);
    let k = c.s.below(6);
    let huge = c.s.chance(1, 4);
    let mut iv: Vec<Interval> = (0..k)
        .map(|_| {
            if huge {
                Interval::new(c.s.u64_any() as usize, (c.s.u64_any() >> 8) as usize)
            } else {
                Interval::new(c.s.below(n + 5), c.s.below(10))
            }
        })
        .collect();
    let sum: Option<usize> = iv.iter().try_fold(0usize, |a, x| a.checked_add(x.length));
    let ends_ok = iv.iter().all(|x| x.start.checked_add(x.length).is_some());
    if sum.is_none() || !ends_ok {
        return Ok(());
    }
    iv.sort_by_key(|x| (x.start, x.length));
    let mut end = 0;
    iv.retain(|x| {
        let keep = x.start >= end;
        if keep {
            end = x.start + x.length;
        }
        keep
    });
    c.describe(|| format!("SliceFilteredIter of {n} items with {iv:?}"));
    c.nontrivial(k > 1);
    c.label_if(iv.iter().any(|x| x.length == 0), "empty interval");
    c.label_if(iv.iter().any(|x| x.start + x.length > n), "beyond the end");
    let v: Vec<usize> = (0..n).collect();
    let it = SliceFilteredIter::new(v.iter().copied(), VecDeque::from(iv.clone()));
    let got = drain_ok(it.take(n + 1), n, false, "SliceFilteredIter")?;
    if iv.iter().all(|x| x.start + x.length <= n) {
        ensure_eq!(got, select(&v, &iv), "SliceFilteredIter");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P19",
        rule: "non-trivial: at least two bytes of input (over four for delta, plain, pages) and a non-zero width; distinct by hash of all random choices",
        assumptions: &["decoders of declared counts above 30000 are walked for their first 30000 items only", "offsets of BitmapIter lie within the slice, as its documentation requires"],
        parts: vec![
            Part { name: "bitpacked", f: p_bitpacked, quick: 400_000, thorough: 10_000_000 },
            Part { name: "hybrid", f: p_hybrid, quick: 100_000, thorough: 3_000_000 },
            Part { name: "delta", f: p_delta, quick: 200_000, thorough: 6_000_000 },
            Part { name: "plain", f: p_plain, quick: 150_000, thorough: 4_000_000 },
            Part { name: "split", f: p_split, quick: 300_000, thorough: 8_000_000 },
            Part { name: "states", f: p_states, quick: 200_000, thorough: 6_000_000 },
            Part { name: "slices", f: p_slices, quick: 200_000, thorough: 4_000_000 },
        ],
    }]
}

//! P13-P19: the value and level encodings.
use crate::engine::*;
use crate::refimpl::*;
use crate::src::Src;
use crate::{ensure, ensure_eq, fail};
use parquet2::deserialize::{FilteredHybridEncoded, FilteredHybridRleDecoderIter, HybridDecoderBitmapIter, HybridEncoded as Run2, HybridRleDecoderIter, HybridRleIter, HybridRleRunsIterator};
use parquet2::encoding::bitpacked::{self, Unpackable, Unpacked};
use parquet2::encoding::hybrid_rle::{self, BitmapIter, HybridEncoded, HybridRleDecoder};
use parquet2::encoding::{delta_bitpacked, delta_byte_array, delta_length_byte_array, plain_byte_array, uleb128, zigzag_leb128};
use parquet2::error::Error;
use parquet2::indexes::Interval;
use std::collections::VecDeque;
use std::io::Write;

/// Drains a fallible iterator: at most `cap` items, exact size hints if `exact`, and nothing after the end.
pub fn drain<T, I: Iterator<Item = Result<T, Error>>>(mut it: I, cap: usize, exact: bool, what: &str) -> Result<(Vec<T>, Option<Error>), Fail> {
    let mut out = vec![];
    let mut hints = vec![];
    loop {
        if exact && hints.len() <= 4096 {
            hints.push(it.size_hint());
        }
        match it.next() {
            None => break,
            Some(Ok(x)) => {
                out.push(x);
                ensure!(out.len() <= cap, format!("{what}-too-many"), "{what} yields more than {cap} items");
            }
            Some(Err(e)) => {
                for _ in 0..6 {
                    match it.next() {
                        Some(Ok(_)) => fail!(format!("{what}-data-after-error"), "{what} yields data after the error {e:?}"),
                        _ => (),
                    }
                }
                return Ok((out, Some(e)));
            }
        }
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), format!("{what}-data-after-end"), "{what} yields something after its end");
    }
    if exact {
        for (i, h) in hints.iter().enumerate() {
            let left = out.len() - i;
            ensure_eq!(*h, (left, Some(left)), format!("{what}-size-hint"), "{what} after {i} of {} items", out.len());
        }
    }
    Ok((out, None))
}
pub fn drain_ok<T, I: Iterator<Item = T>>(it: I, cap: usize, exact: bool, what: &str) -> Result<Vec<T>, Fail> {
    Ok(drain(it.map(Ok), cap, exact, what)?.0)
}
fn no_err<T>(r: (Vec<T>, Option<Error>), what: &str) -> Result<Vec<T>, Fail> {
    match r.1 {
        None => Ok(r.0),
        Some(e) => Err(Fail::new(format!("{what}-error-on-valid"), format!("{what} on valid data: {e:?}"))),
    }
}

// ------------------------------------------------------------------ P13
trait Int: Unpackable + PartialEq + std::fmt::Debug {
    const BITS: u32;
    fn from_u(v: u64) -> Self;
    fn to_u(self) -> u64;
}
macro_rules! int {
    ($t:ty) => {
        impl Int for $t {
            const BITS: u32 = <$t>::BITS;
            fn from_u(v: u64) -> Self {
                v as $t
            }
            fn to_u(self) -> u64 {
                self as u64
            }
        }
    };
}
int!(u8);
int!(u16);
int!(u32);
int!(u64);

pub fn gen_width(s: &mut Src, lo: u32, hi: u32) -> u32 {
    if s.chance(1, 6) {
        s.pick(&[hi, lo, lo + 1, hi - 1])
    } else {
        s.range(lo as usize, hi as usize) as u32
    }
}
/// values that fit in `width` bits, with boundary values, repeats and ramps
pub fn gen_values(s: &mut Src, n: usize, width: u32) -> Vec<u64> {
    let m = mask(width);
    match s.below(5) {
        0 if n <= 64 => (0..n).map(|_| s.u64_any() & m).collect(),
        1 => {
            let mut r = s.rng();
            (0..n).map(|_| if r.next() % 3 == 0 { m } else { r.next() & m }).collect()
        }
        2 => {
            let v = s.u64_any() & m;
            let at = s.below(n + 1);
            let w = s.u64_any() & m;
            (0..n).map(|i| if i == at { w } else { v }).collect()
        }
        3 => {
            let b = s.u64_any();
            (0..n as u64).map(|i| b.wrapping_add(i) & m).collect()
        }
        _ => {
            let mut r = s.rng();
            (0..n).map(|_| r.next() & m).collect()
        }
    }
}
fn gen_len(s: &mut Src, block: usize, max: usize) -> usize {
    match s.below(3) {
        0 => s.wide(max),
        1 => {
            let k = s.range(0, 5) * block;
            (k + s.below(3)).saturating_sub(1).min(max)
        }
        _ => s.below(3 * block),
    }
}

fn p13_t<T: Int>(c: &mut Case) -> R {
    let block = T::Unpacked::LENGTH;
    let w = gen_width(&mut c.s, 1, T::BITS);
    let n = gen_len(&mut c.s, block, 600);
    let vals = gen_values(&mut c.s, n, w);
    let tv: Vec<T> = vals.iter().map(|v| T::from_u(*v)).collect();
    let exact = (n * w as usize + 7) / 8;
    let block_bytes = block * w as usize / 8;
    let whole = (n + block - 1) / block * block_bytes;
    c.describe(|| format!("pack {n} u{} at width {w}: {:?}", T::BITS, clip(&vals)));
    c.nontrivial(n > 0 && vals.iter().any(|v| *v != 0));
    c.label_if(n % block == 0 && n > 0, "whole blocks");
    c.label_if(n % block != 0, "partial block");
    // encode: room for whole blocks, followed by a canary
    let canary = c.s.below(20);
    let mut buf = vec![0u8; whole];
    buf.resize(whole + canary, 0xA5);
    bitpacked::encode::<T>(&tv, w as usize, &mut buf);
    let expect = bitpack(&vals, w);
    ensure_eq!(&buf[..exact], &expect[..], "pack-bytes", "u{} width {w} n {n}", T::BITS);
    ensure!(buf[exact..whole].iter().all(|x| *x == 0), "pack-tail", "bytes after the {exact} needed are not zero: {:?}", &buf[exact..whole]);
    ensure!(buf[whole..].iter().all(|x| *x == 0xA5), "pack-canary", "encode wrote beyond the blocks it needs");
    // decode exactly the bytes, and the bytes followed by others
    for extra in [0usize, c.s.below(40)] {
        let mut bytes = expect.clone();
        let junk = c.s.bytes(extra);
        bytes.extend(&junk);
        let d = bitpacked::Decoder::<T>::try_new(&bytes, w as usize, n)?;
        let out = drain_ok(d, n, true, "bitpacked")?;
        ensure_eq!(out, tv, "unpack", "u{} width {w} n {n} extra {extra}", T::BITS);
    }
    // fewer than stored
    let k = c.s.below(n + 1);
    let out = drain_ok(bitpacked::Decoder::<T>::try_new(&expect, w as usize, k)?, k, true, "bitpacked")?;
    ensure_eq!(&out[..], &tv[..k], "unpack-prefix");
    // skipping by nth
    if n > 0 {
        let mut d = bitpacked::Decoder::<T>::try_new(&expect, w as usize, n)?;
        let mut i = c.s.below(n);
        ensure_eq!(d.nth(i), Some(tv[i]), "unpack-nth");
        i += 1;
        ensure_eq!(d.size_hint(), (n - i, Some(n - i)), "unpack-nth-hint");
        ensure_eq!(d.next(), tv.get(i).copied(), "unpack-nth-next");
    }
    // one more than the bytes hold
    let fit = expect.len() * 8 / w as usize;
    let more = fit + 1 + c.s.below(100);
    ensure!(bitpacked::Decoder::<T>::try_new(&expect, w as usize, more).is_err(), "short-accepted", "{} bytes accepted for {more} values of width {w}", expect.len());
    // encode_pack: at most one block, output of whole-block size
    let k = c.s.below(n.min(block) + 1);
    let mut buf = vec![0u8; block_bytes];
    bitpacked::encode_pack::<T>(&tv[..k], w as usize, &mut buf);
    let mut padded = vals[..k].to_vec();
    padded.resize(block, 0);
    ensure_eq!(buf, bitpack(&padded, w), "encode_pack");
    Ok(())
}
fn p13_roundtrip(c: &mut Case) -> R {
    match c.s.below(4) {
        0 => p13_t::<u32>(c),
        1 => p13_t::<u8>(c),
        2 => p13_t::<u16>(c),
        _ => p13_t::<u64>(c),
    }
}
fn p13_arb_t<T: Int>(c: &mut Case) -> R {
    let w = gen_width(&mut c.s, 1, T::BITS);
    let len = c.s.wide(300);
    let bytes = c.s.bytes(len);
    let fit = len * 8 / w as usize;
    let n = match c.s.below(4) {
        0 => fit,
        1 => fit + c.s.below(3),
        2 => c.s.below(fit + 1),
        _ => c.s.wide(700),
    };
    c.describe(|| format!("unpack {n} u{} at width {w} from {:?}", T::BITS, clip(&bytes)));
    c.nontrivial(n > 0 && len > 0);
    match bitpacked::Decoder::<T>::try_new(&bytes, w as usize, n) {
        Err(_) => {
            c.label("rejected");
            ensure!(n > fit, "rejects-enough", "{len} bytes rejected for {n} values of width {w}")
        }
        Ok(d) => {
            ensure!(n <= fit, "short-accepted", "{len} bytes accepted for {n} values of width {w}");
            let out: Vec<u64> = drain_ok(d, n, true, "bitpacked")?.into_iter().map(|x| x.to_u()).collect();
            ensure_eq!(out, bitunpack(&bytes, w, n), "unpack-arbitrary", "width {w}");
        }
    }
    Ok(())
}
fn p13_arbitrary(c: &mut Case) -> R {
    match c.s.below(4) {
        0 => p13_arb_t::<u32>(c),
        1 => p13_arb_t::<u8>(c),
        2 => p13_arb_t::<u16>(c),
        _ => p13_arb_t::<u64>(c),
    }
}

// ------------------------------------------------------------------ P18
fn p18_roundtrip(c: &mut Case) -> R {
    let v = c.s.u64_any();
    c.nontrivial(v > 127);
    c.describe(|| format!("uleb/zigzag of {v}"));
    let e = uleb(v);
    let mut buf = [0xEEu8; 16];
    let used = uleb128::encode(v, &mut buf);
    ensure_eq!(&buf[..used], &e[..], "uleb-encode", "{v}");
    ensure!(buf[used..].iter().all(|x| *x == 0xEE), "uleb-encode-beyond", "bytes after the encoding changed");
    // an exactly sized container is enough
    let mut small = vec![0u8; e.len()];
    ensure_eq!(uleb128::encode(v, &mut small), e.len(), "uleb-encode-exact");
    let k = c.s.size(12);
    let tail = c.s.bytes(k);
    let mut d = e.clone();
    d.extend(&tail);
    ensure_eq!(uleb128::decode(&d)?, (v, e.len()), "uleb-decode", "{d:?}");
    // truncated
    let cut = c.s.below(e.len());
    ensure!(uleb128::decode(&e[..cut]).is_err(), "uleb-truncated-accepted", "{:?} (cut from {e:?}) accepted as {:?}", &e[..cut], uleb128::decode(&e[..cut]));
    // non-canonical padding (still a valid encoding when it fits 10 bytes)
    let i = c.s.i64_any();
    let z = uleb(zigzag(i));
    let (zb, zn) = zigzag_leb128::encode(i);
    ensure_eq!(&zb[..zn], &z[..], "zigzag-encode", "{i}");
    let mut d = z.clone();
    d.extend(&tail);
    ensure_eq!(zigzag_leb128::decode(&d)?, (i, z.len()), "zigzag-decode", "{d:?}");
    let cut = c.s.below(z.len());
    ensure!(zigzag_leb128::decode(&z[..cut]).is_err(), "zigzag-truncated-accepted", "{:?}", &z[..cut]);
    Ok(())
}
fn p18_arbitrary(c: &mut Case) -> R {
    let n = c.s.below(13);
    let style = c.s.below(3);
    let b: Vec<u8> = (0..n)
        .map(|_| match style {
            0 => c.s.below(256) as u8,
            1 => 0x80 | c.s.below(128) as u8,
            _ => c.s.pick(&[0xff, 0x80, 0x81, 0x00, 0x01, 0x7f, 0x02]),
        })
        .collect();
    c.nontrivial(b.len() > 1);
    c.describe(|| format!("decode {b:?}"));
    let e = unuleb(&b);
    match uleb128::decode(&b) {
        Ok(x) => ensure_eq!(Some(x), e, "uleb-arbitrary", "{b:?}"),
        Err(_) => {
            c.label("rejected");
            ensure!(e.is_none(), "uleb-rejects-valid", "{b:?} rejected but encodes {e:?}")
        }
    }
    match zigzag_leb128::decode(&b) {
        Ok((v, u)) => ensure_eq!(Some((zigzag(v), u)), e, "zigzag-arbitrary", "{b:?}"),
        Err(_) => ensure!(e.is_none(), "zigzag-rejects-valid", "{b:?} rejected"),
    }
    Ok(())
}

// ------------------------------------------------------------------ P14
/// values with runs
fn gen_runny(s: &mut Src, max: usize, width: u32) -> Vec<u64> {
    let m = mask(width);
    let n = gen_len(s, 32, max);
    let mut out = vec![];
    while out.len() < n {
        let left = n - out.len();
        match s.below(4) {
            0 => {
                let k = s.size1(left);
                out.extend(gen_values(s, k, width));
            }
            1 => {
                let k = s.size1(left).max(left.min(9));
                let v = s.u64_any() & m;
                out.extend(std::iter::repeat(v).take(k));
            }
            2 => {
                let k = s.range(1, left.min(20));
                let v = s.pick(&[0, 1, m, m >> 1]) & m;
                out.extend(std::iter::repeat(v).take(k));
            }
            _ => out.push(s.u64_any() & m),
        }
    }
    out.truncate(n);
    out
}
fn uleb_len(x: u64) -> usize {
    ((64 - x.leading_zeros() as usize) + 6) / 7
}
fn p14_encode(c: &mut Case) -> R {
    let w = gen_width(&mut c.s, 0, 32);
    let vals = gen_runny(&mut c.s, 700, w);
    let n = vals.len();
    c.describe(|| format!("encode_u32 of {n} values at width {w}: {:?}", clip(&vals)));
    c.nontrivial(n > 0 && w > 0);
    c.label_if(n % 32 == 0 && n > 0, "whole blocks");
    let v32: Vec<u32> = vals.iter().map(|x| *x as u32).collect();
    let mut buf = c.s.bytes(3);
    let start = buf.len();
    hybrid_rle::encode_u32(&mut buf, v32.iter().copied(), w)?;
    let enc = &buf[start..];
    // independent decoder; a writer may leave out the padding of the very last group
    let mut padded = enc.to_vec();
    padded.resize(padded.len() + w as usize, 0);
    ensure_eq!(decode_hybrid(&padded, w, n), Ok(vals.clone()), "encode_u32-stream", "width {w}");
    // nothing behind what its runs declare
    let header = uleb_len((((n + 7) / 8) as u64) << 1 | 1);
    ensure!(enc.len() <= header + (n + 7) / 8 * w as usize, "encode_u32-too-long", "{} bytes for {n} values of width {w}", enc.len());
    let out = no_err(drain(HybridRleDecoder::try_new(enc, w, n)?, n, true, "HybridRleDecoder")?, "HybridRleDecoder")?;
    ensure_eq!(out, v32, "encode_u32-roundtrip", "width {w}");
    Ok(())
}
fn p14_decode(c: &mut Case) -> R {
    let w = gen_width(&mut c.s, 0, 32);
    let vals = gen_runny(&mut c.s, 400, w);
    let runs = gen_runs(&mut c.s, &vals, w, true);
    let mut enc = encode_runs(&runs, w);
    let n = vals.len();
    // leave out the final padding bytes sometimes, as some writers do
    if let Some(Run::Packed(p)) = runs.last() {
        let before: usize = runs[..runs.len() - 1].iter().map(|r| if let Run::Rle(_, k) = r { *k } else { 0 }).sum::<usize>()
            + runs[..runs.len() - 1].iter().map(|r| if let Run::Packed(p) = r { p.len() } else { 0 }).sum::<usize>();
        let used = n.saturating_sub(before).min(p.len());
        let drop = (p.len() * w as usize / 8) - (used * w as usize + 7) / 8;
        if drop > 0 && used > 0 && c.s.chance(1, 4) {
            enc.truncate(enc.len() - drop);
            c.label("padding left out");
        }
    }
    c.describe(|| format!("hybrid width {w} runs {:?}", clip(&runs)));
    c.nontrivial(runs.len() > 1 && w > 0);
    c.label_if(runs.iter().any(|r| matches!(r, Run::Rle(_, 1))), "run of one");
    c.label_if(runs.iter().any(|r| matches!(r, Run::Rle(_, 0))) || runs.iter().any(|r| matches!(r, Run::Packed(p) if p.is_empty())), "empty run");
    let v32: Vec<u32> = vals.iter().map(|x| *x as u32).collect();
    let out = no_err(drain(HybridRleDecoder::try_new(&enc, w, n)?, n, true, "HybridRleDecoder")?, "HybridRleDecoder")?;
    ensure_eq!(out, v32, "hybrid-decode", "width {w} runs {:?}", clip(&runs));
    let k = c.s.below(n + 1);
    let out = no_err(drain(HybridRleDecoder::try_new(&enc, w, k)?, k, true, "HybridRleDecoder")?, "HybridRleDecoder")?;
    ensure_eq!(&out[..], &v32[..k], "hybrid-decode-cut");
    if n > 0 {
        let mut d = HybridRleDecoder::try_new(&enc, w, n)?;
        let i = c.s.below(n);
        let got = d.nth(i).transpose()?;
        ensure_eq!(got, Some(v32[i]), "hybrid-nth");
        ensure_eq!(d.len(), n - i - 1, "hybrid-nth-len");
    }
    // the raw runs
    if w > 0 {
        let got: Vec<HybridEncoded> = no_err(drain(hybrid_rle::Decoder::new(&enc, w as usize), runs.len(), false, "hybrid_rle::Decoder")?, "hybrid_rle::Decoder")?;
        // a trailing empty packed run may be dropped
        let mut want = runs.clone();
        while want.len() > got.len() && matches!(want.last(), Some(Run::Packed(p)) if p.is_empty()) {
            want.pop();
        }
        ensure_eq!(got.len(), want.len(), "hybrid-runs-count");
        for (i, (g, r)) in got.iter().zip(&want).enumerate() {
            match (g, r) {
                (HybridEncoded::Rle(b, k), Run::Rle(v, l)) => {
                    ensure_eq!(*k, *l, "hybrid-run-length");
                    ensure_eq!(b.to_vec(), v.to_le_bytes()[..(w as usize + 7) / 8].to_vec(), "hybrid-run-value");
                }
                (HybridEncoded::Bitpacked(b), Run::Packed(p)) => {
                    let e = bitpack(p, w);
                    if i + 1 == want.len() {
                        ensure!(e.starts_with(b), "hybrid-run-bytes", "last packed run");
                    } else {
                        ensure_eq!(b.to_vec(), e, "hybrid-run-bytes");
                    }
                }
                _ => fail!("hybrid-run-kind", "run {i} is {g:?}, should be {r:?}"),
            }
        }
    }
    Ok(())
}
fn p14_arbitrary(c: &mut Case) -> R {
    let w = gen_width(&mut c.s, 0, 32);
    let b = gen_hostile(&mut c.s, w);
    let n = c.s.wide(300);
    c.describe(|| format!("hybrid decode of {n} values, width {w}, bytes {:?}", clip(&b)));
    c.nontrivial(b.len() > 1);
    let reference = if w == 0 { Ok(vec![0; n]) } else { decode_hybrid(&b, w, n) };
    match HybridRleDecoder::try_new(&b, w, n) {
        // the first run is read on construction, even if no value is requested
        Err(e) => ensure!(reference.is_err() || n == 0, "hybrid-rejects-valid", "{e:?} on a stream that holds {n} values: {b:?}"),
        Ok(d) => {
            let (out, err) = drain(d, n, true, "HybridRleDecoder")?;
            if let Ok(r) = reference {
                c.label("well-formed");
                ensure!(err.is_none(), "hybrid-rejects-valid", "{err:?} on a stream that holds {n} values: {b:?}");
                ensure_eq!(out.iter().map(|x| *x as u64).collect::<Vec<_>>(), r, "hybrid-arbitrary", "width {w} bytes {b:?}");
            }
        }
    }
    Ok(())
}

/// bytes that look like a hybrid stream but lie
pub fn gen_hostile(s: &mut Src, w: u32) -> Vec<u8> {
    match s.below(4) {
        0 => {
            let n = s.size(60);
            s.bytes(n)
        }
        1 => {
            // valid stream, mutated
            let v = gen_runny(s, 100, w.min(32));
            let r = gen_runs(s, &v, w.min(32), true);
            let mut b = encode_runs(&r, w.min(32));
            mutate(s, &mut b);
            b
        }
        2 => {
            // headers with arbitrary values, few payload bytes
            let mut b = vec![];
            for _ in 0..s.range(1, 5) {
                b.extend(uleb(s.u64_any()));
                let k = s.below(6);
                b.extend(s.bytes(k));
            }
            b
        }
        _ => {
            // very many empty runs
            let k = s.pick(&[10usize, 1000, 30_000, 200_000]);
            let unit: Vec<u8> = if s.coin() {
                vec![1]
            } else {
                let mut u = vec![0];
                u.resize(1 + (w as usize + 7) / 8, 0);
                u
            };
            let mut b: Vec<u8> = unit.iter().copied().cycle().take(unit.len() * k).collect();
            b.extend(s.bytes(4));
            b
        }
    }
}
pub fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    for _ in 0..s.range(1, 3) {
        match s.below(6) {
            0 => {
                let k = s.below(b.len() + 1);
                b.truncate(k);
            }
            1 if !b.is_empty() => {
                let i = s.below(b.len());
                b[i] ^= 1 << s.below(8);
            }
            2 if !b.is_empty() => {
                let i = s.below(b.len());
                b[i] = s.pick(&[0, 0xff, 0x80, 0x7f, 1, 0xfe, 2, 0x81]);
            }
            3 => {
                let i = s.below(b.len() + 1);
                let n = s.size(12);
                let x = s.bytes(n);
                b.splice(i..i, x);
            }
            4 if !b.is_empty() => {
                let i = s.below(b.len());
                let j = (i + s.size1(8)).min(b.len());
                b.drain(i..j);
            }
            _ if !b.is_empty() => {
                // a varint-looking overwrite
                let i = s.below(b.len());
                let v = uleb(s.u64_any());
                for (k, x) in v.into_iter().enumerate() {
                    if i + k < b.len() {
                        b[i + k] = x;
                    }
                }
            }
            _ => (),
        }
    }
}

// ------------------------------------------------------------------ P15
fn gen_bools(s: &mut Src, max: usize) -> Vec<bool> {
    gen_runny(s, max, 1).into_iter().map(|x| x == 1).collect()
}
/// an iterator whose lower size hint is not exact
struct UpperOnly<I>(I);
impl<I: Iterator> Iterator for UpperOnly<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, self.0.size_hint().1)
    }
}
fn p15_encode(c: &mut Case) -> R {
    let v = gen_bools(&mut c.s, 600);
    let n = v.len();
    c.describe(|| format!("encode_bool of {n}: {:?}", clip(&v)));
    c.nontrivial(v.iter().any(|x| *x));
    c.label_if(n % 8 != 0, "partial byte");
    let u: Vec<u64> = v.iter().map(|x| *x as u64).collect();
    let prefix = c.s.bytes(2);
    let mut buf = prefix.clone();
    if c.s.coin() {
        hybrid_rle::encode_bool(&mut buf, v.iter().copied())?;
    } else {
        hybrid_rle::encode_bool(&mut buf, UpperOnly(v.iter().copied()))?;
    }
    ensure_eq!(decode_hybrid(&buf[2..], 1, n), Ok(u.clone()), "encode_bool");
    ensure!(buf[..2] == prefix[..], "encode_bool-prefix", "encoder changed earlier bytes");
    // exactly one packed run, fully present
    let (h, k) = unuleb(&buf[2..]).unwrap();
    ensure_eq!(buf.len() - 2 - k, (h >> 1) as usize, "encode_bool-run-length");
    let mut plain = vec![];
    hybrid_rle::bitpacked_encode(&mut plain, v.iter().copied())?;
    ensure_eq!(plain, plain_bools(&v), "bitpacked_encode");
    let _ = plain.flush();
    let off = c.s.below(n + 1);
    let len = c.s.below(n - off + 1);
    ensure_eq!(drain_ok(BitmapIter::new(&plain, off, len), len, true, "BitmapIter")?, v[off..off + len].to_vec(), "BitmapIter", "offset {off} length {len}");
    // levels decoded with the integer decoder
    let out = no_err(drain(HybridRleDecoder::try_new(&buf[2..], 1, n)?, n, true, "HybridRleDecoder")?, "HybridRleDecoder")?;
    ensure_eq!(out, v.iter().map(|x| *x as u32).collect::<Vec<_>>(), "encode_bool-as-u32");
    Ok(())
}
fn expand(runs: &[Run2], n: usize) -> Vec<bool> {
    let mut out = vec![];
    for r in runs {
        match r {
            Run2::Bitmap(b, k) => out.extend(bitunpack(b, 1, *k).into_iter().map(|x| x == 1)),
            Run2::Repeated(x, k) => out.extend(std::iter::repeat(*x).take((*k).min(n * 2 + 8))),
        }
    }
    out
}
fn p15_runs(c: &mut Case) -> R {
    let v = gen_bools(&mut c.s, 300);
    let n = v.len();
    let u: Vec<u64> = v.iter().map(|x| *x as u64).collect();
    let runs = gen_runs(&mut c.s, &u, 1, true);
    let enc = encode_runs(&runs, 1);
    c.describe(|| format!("boolean runs {:?}", clip(&runs)));
    c.nontrivial(runs.len() > 1);
    c.label_if(runs.iter().any(|r| matches!(r, Run::Rle(_, 0))), "empty run");
    let k = if c.s.coin() { n } else { c.s.below(n + 1) };
    // as runs
    let mut it = HybridRleIter::new(hybrid_rle::Decoder::new(&enc, 1), k);
    let mut got = vec![];
    let mut seen = 0;
    ensure_eq!((it.len(), it.number_of_elements(), it.is_empty()), (k, k, k == 0), "runs-len");
    while let Some(r) = it.next() {
        let r = r?;
        seen += r.len();
        ensure_eq!(r.is_empty(), r.len() == 0, "run-is-empty");
        got.push(r);
        ensure_eq!((it.len(), it.number_of_elements(), it.is_empty()), (k - seen, k - seen, k == seen), "runs-len");
    }
    ensure_eq!(expand(&got, n), v[..k].to_vec(), "runs-values", "runs {:?}", clip(&runs));
    // as booleans
    let it: HybridRleDecoderIter = HybridRleDecoderIter::new(HybridDecoderBitmapIter::new(hybrid_rle::Decoder::new(&enc, 1), k));
    let out = no_err(drain(it, k, true, "HybridRleBooleanIter")?, "HybridRleBooleanIter")?;
    ensure_eq!(out, v[..k].to_vec(), "booleans", "runs {:?}", clip(&runs));
    Ok(())
}
pub fn gen_intervals(s: &mut Src, n: usize) -> Vec<Interval> {
    let mut out = vec![];
    let mut i = 0;
    let style = s.below(4);
    if style == 3 {
        // everything, or a single row
        if n == 0 {
            return out;
        }
        return if s.coin() {
            vec![Interval::new(0, n)]
        } else {
            vec![Interval::new(s.below(n), 1)]
        };
    }
    // few intervals, or very many
    let stop = s.pick(&[10usize, 10, 100, 100_000]);
    while i < n {
        let gap = match style {
            0 => s.below(3),
            1 => s.size(40),
            _ => s.pick(&[0, 1, 7, 8, 9, 16, 31]),
        };
        let start = i + gap;
        if start >= n {
            break;
        }
        let len = match style {
            0 => s.range(1, 3),
            1 => s.size1(40),
            _ => s.pick(&[1, 7, 8, 9, 16, 31, 64]),
        }
        .min(n - start);
        out.push(Interval::new(start, len));
        i = start + len;
        if s.chance(1, stop) {
            break;
        }
    }
    out
}
pub fn select<T: Clone>(v: &[T], iv: &[Interval]) -> Vec<T> {
    iv.iter().flat_map(|i| v[i.start..i.start + i.length].to_vec()).collect()
}
/// checks filtered validity runs against the model; returns the booleans of the selected rows
pub fn check_filtered<'a, I: Iterator<Item = Result<Run2<'a>, Error>>>(
    mut it: parquet2::deserialize::FilteredHybridBitmapIter<'a, I>,
    v: &[bool],
    iv: &[Interval],
) -> Result<(), Fail> {
    let total: usize = iv.iter().map(|x| x.length).sum();
    let mut got: Vec<bool> = vec![];
    let mut value_pos: usize = 0; // values consumed so far (skipped ones included)
    ensure_eq!((it.len(), it.is_empty()), (total, total == 0), "filtered-len");
    // expected position of the value cursor before each selected row
    let rows: Vec<usize> = iv.iter().flat_map(|i| i.start..i.start + i.length).collect();
    let mut steps = 0;
    while let Some(r) = it.next() {
        steps += 1;
        ensure!(steps < 100_000, "filtered-endless", "more than 100000 runs");
        match r? {
            FilteredHybridEncoded::Skipped(k) => value_pos += k,
            FilteredHybridEncoded::Repeated { is_set, length } => {
                for _ in 0..length {
                    let row = *rows.get(got.len()).ok_or(Fail::new("filtered-too-many", "more rows than selected"))?;
                    let before = v[..row].iter().filter(|x| **x).count();
                    ensure_eq!(value_pos, before, "filtered-skip", "values passed before row {row}");
                    got.push(is_set);
                    value_pos += is_set as usize;
                }
            }
            FilteredHybridEncoded::Bitmap { values, offset, length } => {
                ensure!(values.len() * 8 >= offset + length, "filtered-bitmap-range", "bitmap of {} bytes with offset {offset} length {length}", values.len());
                let bits = bitunpack(values, 1, offset + length);
                for b in &bits[offset..] {
                    let row = *rows.get(got.len()).ok_or(Fail::new("filtered-too-many", "more rows than selected"))?;
                    let before = v[..row].iter().filter(|x| **x).count();
                    ensure_eq!(value_pos, before, "filtered-skip", "values passed before row {row}");
                    got.push(*b == 1);
                    value_pos += *b as usize;
                }
            }
        }
        ensure_eq!(it.len(), total - got.len(), "filtered-len", "after {} rows", got.len());
    }
    ensure_eq!(got, select(v, iv), "filtered-values", "intervals {:?}", clip(&iv));
    Ok(())
}
fn p15_filtered(c: &mut Case) -> R {
    let v = gen_bools(&mut c.s, 300);
    let u: Vec<u64> = v.iter().map(|x| *x as u64).collect();
    let empty = c.s.chance(1, 3);
    let runs = gen_runs(&mut c.s, &u, 1, empty);
    let enc = encode_runs(&runs, 1);
    let iv = gen_intervals(&mut c.s, v.len());
    c.describe(|| format!("filtered runs {:?} intervals {:?}", clip(&runs), clip(&iv)));
    c.nontrivial(runs.len() > 1 && iv.len() > 1);
    let it = HybridDecoderBitmapIter::new(hybrid_rle::Decoder::new(&enc, 1), v.len());
    check_filtered(FilteredHybridRleDecoderIter::new(it, VecDeque::from(iv.clone())), &v, &iv)
}
fn p15_bitmap(c: &mut Case) -> R {
    let len = 1 + c.s.wide(80);
    let b = c.s.bytes(len);
    let off = c.s.below(len * 8 + 1);
    let k = c.s.below(len * 8 - off + 1);
    c.describe(|| format!("BitmapIter over {b:?} from {off} for {k}"));
    c.nontrivial(k > 8 && off % 8 != 0);
    let e: Vec<bool> = bitunpack(&b, 1, off + k)[off..].iter().map(|x| *x == 1).collect();
    ensure_eq!(drain_ok(BitmapIter::new(&b, off, k), k, true, "BitmapIter")?, e, "BitmapIter", "offset {off} length {k}");
    let mut out = vec![];
    hybrid_rle::bitpacked_encode(&mut out, BitmapIter::new(&b, off, k))?;
    ensure_eq!(out, plain_bools(&e), "bitpacked_encode");
    Ok(())
}

// ------------------------------------------------------------------ P16
pub fn gen_i64s(s: &mut Src, max: usize) -> Vec<i64> {
    let n = match s.below(4) {
        0 => s.wide(max),
        1 => (s.pick(&[0usize, 1, 32, 64, 128, 129, 256, 257, 384, 512]) + s.below(3)).saturating_sub(1).min(max),
        2 => s.below(6),
        _ => s.below(max + 1),
    };
    let mut r = s.rng();
    match s.below(8) {
        6 | 7 => {
            // stretches of 32 deltas, each with as many bits as it has
            let base = if s.coin() { 0 } else { s.i64_any() };
            let widths: Vec<u32> = (0..n / 32 + 1)
                .map(|_| match s.below(4) {
                    0 | 1 => 0,
                    2 => s.range(1, 12) as u32,
                    _ => s.range(1, 64) as u32,
                })
                .collect();
            let mut p = s.i64_any();
            (0..n)
                .map(|i| {
                    if i > 0 {
                        let w = widths[(i - 1) / 32];
                        let x = if w == 0 { 0 } else { r.next() >> (64 - w) };
                        p = p.wrapping_add(base).wrapping_add(x as i64);
                    }
                    p
                })
                .collect()
        }
        0 if n <= 200 => (0..n).map(|_| s.i64_any()).collect(),
        1 => {
            let b = s.i64_any();
            let d = s.below(1000) as i64 - 500;
            (0..n as i64).map(|i| b.wrapping_add(i.wrapping_mul(d))).collect()
        }
        2 => (0..n).map(|_| r.next() as i64).collect(),
        3 => {
            let bits = s.range(1, 63) as u32;
            let b = s.i64_any();
            let mut p = b;
            (0..n)
                .map(|_| {
                    p = p.wrapping_add((r.next() >> (64 - bits)) as i64);
                    p
                })
                .collect()
        }
        4 => {
            // small values with rare outliers
            let o = s.i64_any();
            (0..n).map(|_| if r.next() % 50 == 0 { o } else { (r.next() % 100) as i64 }).collect()
        }
        _ => {
            let v = s.i64_any();
            vec![v; n]
        }
    }
}
fn p16_roundtrip(c: &mut Case) -> R {
    let v = gen_i64s(&mut c.s, 700);
    c.describe(|| format!("delta of {} values {:?}", v.len(), clip(&v)));
    c.nontrivial(v.len() > 2);
    c.label_if(v.windows(2).any(|w| w[1].checked_sub(w[0]).is_none()), "wrapping delta");
    c.label_if(v.len() > 129, "several blocks");
    let prefix = c.s.bytes(2);
    let mut buf = prefix.clone();
    delta_bitpacked::encode(v.iter().copied(), &mut buf);
    ensure!(buf[..2] == prefix[..], "delta-prefix", "encoder changed earlier bytes");
    let enc = buf[2..].to_vec();
    let (r, used) = match delta_decode(&enc) {
        Some(x) => x,
        None => fail!("delta-encode-invalid", "the encoded stream is not decodable by the reference"),
    };
    ensure_eq!(r, v, "delta-encode");
    ensure_eq!(used, enc.len(), "delta-encode-length");
    check_delta(c, &enc, &v)
}
fn check_delta(c: &mut Case, enc: &[u8], v: &[i64]) -> R {
    let k = c.s.pick(&[0usize, 1, 7, 300]);
    let mut b = enc.to_vec();
    b.extend(c.s.bytes(k));
    let mut d = delta_bitpacked::Decoder::try_new(&b)?;
    let out = no_err(drain(d.by_ref(), v.len(), true, "delta")?, "delta")?;
    ensure_eq!(out, v.to_vec(), "delta-decode");
    ensure_eq!(d.consumed_bytes(), enc.len(), "delta-consumed", "{} values", v.len());
    Ok(())
}
fn p16_foreign(c: &mut Case) -> R {
    let v = gen_i64s(&mut c.s, 900);
    let l = gen_delta_layout(&mut c.s);
    c.describe(|| format!("delta stream {l:?} of {} values {:?}", v.len(), clip(&v)));
    c.nontrivial(v.len() > 2);
    c.label_if(l.minis > 1 && v.len() > 1 + l.block / l.minis, "several miniblocks");
    c.label_if(v.len() > l.block + 1, "several blocks");
    let enc = delta_encode(&v, &l);
    check_delta(c, &enc, &v)
}

// ------------------------------------------------------------------ P17
pub fn gen_strings(s: &mut Src, maxn: usize) -> Vec<Vec<u8>> {
    let n = s.wide(maxn);
    let mut out: Vec<Vec<u8>> = vec![];
    let style = s.below(3);
    for _ in 0..n {
        let x = match s.below(if out.is_empty() { 2 } else { 7 }) {
            0 => {
                let k = if style == 2 { s.wide(300) } else { s.size(12) };
                s.bytes(k)
            }
            1 => vec![],
            2 => out[out.len() - 1].clone(),
            3 => {
                // a strict prefix of the previous one
                let p = &out[out.len() - 1];
                let k = s.below(p.len() + 1);
                p[..k].to_vec()
            }
            4 => {
                // extends the previous one
                let mut p = out[out.len() - 1].clone();
                let k = s.size(6);
                p.extend(s.bytes(k));
                p
            }
            5 => {
                // shares a prefix
                let mut p = out[out.len() - 1].clone();
                let k = s.below(p.len() + 1);
                p.truncate(k);
                let k = s.size(6);
                p.extend(s.bytes(k));
                p
            }
            _ => {
                let i = s.below(out.len());
                out[i].clone()
            }
        };
        out.push(x);
    }
    out
}
pub fn check_delta_length(b: &[u8], v: &[Vec<u8>]) -> R {
    let mut d = delta_length_byte_array::Decoder::try_new(b)?;
    let lens = no_err(drain(d.by_ref(), v.len(), false, "delta_length")?, "delta_length")?;
    ensure_eq!(lens, v.iter().map(|x| x.len() as i32).collect::<Vec<_>>(), "delta-length-lengths");
    let all: Vec<u8> = v.concat();
    ensure_eq!(d.values().to_vec(), all, "delta-length-values");
    ensure_eq!(d.into_values().to_vec(), all, "delta-length-into-values");
    Ok(())
}
pub fn decode_delta_strings(b: &[u8], cap: usize) -> Result<Result<Vec<Vec<u8>>, Option<Error>>, Fail> {
    let mut d = match delta_byte_array::Decoder::try_new(b) {
        Ok(d) => d,
        Err(e) => return Ok(Err(Some(e))),
    };
    let (prefixes, e) = drain(d.by_ref(), cap, false, "delta_byte_array")?;
    if e.is_some() {
        return Ok(Err(e));
    }
    decode_delta_suffixes(d, prefixes, cap)
}
/// the same of damaged data, which may declare any number of values in a few bytes
pub fn decode_damaged_delta_strings(b: &[u8], cap: usize) -> Result<(), Fail> {
    let Ok(mut d) = delta_byte_array::Decoder::try_new(b) else { return Ok(()) };
    let (prefixes, e) = drain(d.by_ref().take(cap), cap, false, "delta_byte_array")?;
    if e.is_some() || prefixes.len() == cap {
        return Ok(());
    }
    if let Ok(mut l) = delta_byte_array::Decoder::try_new(b).and_then(|mut d| {
        d.by_ref().for_each(drop);
        d.into_lengths()
    }) {
        if l.by_ref().take(cap).take_while(|x| x.is_ok()).count() == cap {
            return Ok(());
        }
    }
    decode_delta_suffixes(d, prefixes, cap)?;
    Ok(())
}
fn decode_delta_suffixes(d: delta_byte_array::Decoder, prefixes: Vec<u32>, cap: usize) -> Result<Result<Vec<Vec<u8>>, Option<Error>>, Fail> {
    let mut l = match d.into_lengths() {
        Ok(l) => l,
        Err(e) => return Ok(Err(Some(e))),
    };
    let (lens, e) = drain(l.by_ref(), cap, false, "delta_byte_array lengths")?;
    if e.is_some() {
        return Ok(Err(e));
    }
    let vals = l.into_values();
    let mut out: Vec<Vec<u8>> = vec![];
    if prefixes.len() != lens.len() {
        return Ok(Err(None));
    }
    let mut at = 0usize;
    let mut prev: Vec<u8> = vec![];
    for (p, n) in prefixes.iter().zip(&lens) {
        if *n < 0 || *p as usize > prev.len() {
            return Ok(Err(None));
        }
        ensure!(at + *n as usize <= vals.len(), "delta-values-short", "lengths sum to more than the values returned");
        let mut x = prev[..*p as usize].to_vec();
        x.extend_from_slice(&vals[at..at + *n as usize]);
        at += *n as usize;
        prev = x.clone();
        out.push(x);
    }
    ensure_eq!(at, vals.len(), "delta-values-long", "bytes in the value buffer");
    Ok(Ok(out))
}
fn p17_plain(c: &mut Case) -> R {
    let v = gen_strings(&mut c.s, 80);
    let b = plain_byte_array(&v);
    c.describe(|| format!("plain byte arrays {:?}", clip(&v)));
    c.nontrivial(v.len() > 1);
    for len in [None, Some(v.len())] {
        let it = plain_byte_array::BinaryIter::new(&b, len);
        let out = no_err(drain(it, v.len(), len.is_some(), "BinaryIter")?, "BinaryIter")?;
        ensure_eq!(out.iter().map(|x| x.to_vec()).collect::<Vec<_>>(), v, "plain-decode");
    }
    Ok(())
}
fn p17_delta_length(c: &mut Case) -> R {
    let v = gen_strings(&mut c.s, 300);
    c.describe(|| format!("delta-length {:?}", clip(&v)));
    c.nontrivial(v.len() > 1);
    let mut buf = vec![9u8];
    delta_length_byte_array::encode(v.iter(), &mut buf);
    ensure_eq!(buf[0], 9, "delta-length-prefix");
    let lens: Vec<i64> = v.iter().map(|x| x.len() as i64).collect();
    let (got, used) = delta_decode(&buf[1..]).ok_or(Fail::new("delta-length-invalid", "lengths not decodable by the reference"))?;
    ensure_eq!(got, lens, "delta-length-encode-lengths");
    ensure_eq!(buf[1 + used..].to_vec(), v.concat(), "delta-length-encode-values");
    check_delta_length(&buf[1..], &v)?;
    // a foreign encoder, bytes following
    let l = gen_delta_layout(&mut c.s);
    let mut b = delta_encode(&lens, &l);
    b.extend(v.concat());
    let k = c.s.size(20);
    b.extend(c.s.bytes(k));
    check_delta_length(&b, &v)
}
fn p17_delta(c: &mut Case) -> R {
    let v = gen_strings(&mut c.s, 200);
    c.describe(|| format!("delta byte array {:?}", clip(&v)));
    c.nontrivial(v.len() > 1);
    let shrinking = v.windows(2).any(|w| w[1].len() < w[0].len() && w[0].starts_with(&w[1]));
    c.label_if(shrinking, "an item that is a strict prefix of its predecessor");
    let mut buf = vec![7u8];
    delta_byte_array::encode(v.iter().map(|x| x.as_ref()), &mut buf);
    ensure_eq!(buf[0], 7, "delta-prefix");
    match decode_delta_strings(&buf[1..], v.len())? {
        Ok(out) => ensure_eq!(out, v, "delta-strings-roundtrip"),
        Err(e) => fail!("delta-strings-error", "own encoding rejected: {e:?}"),
    }
    // reference decoding of the produced stream
    let (pre, u1) = delta_decode(&buf[1..]).ok_or(Fail::new("delta-strings-invalid", "prefixes not decodable"))?;
    let (lens, u2) = delta_decode(&buf[1 + u1..]).ok_or(Fail::new("delta-strings-invalid", "lengths not decodable"))?;
    let mut at = 1 + u1 + u2;
    let mut prev: Vec<u8> = vec![];
    ensure_eq!((pre.len(), lens.len()), (v.len(), v.len()), "delta-strings-counts");
    for i in 0..v.len() {
        let mut x = prev[..pre[i] as usize].to_vec();
        x.extend_from_slice(&buf[at..at + lens[i] as usize]);
        at += lens[i] as usize;
        ensure_eq!(x, v[i], "delta-strings-stream", "item {i}");
        prev = x;
    }
    ensure_eq!(at, buf.len(), "delta-strings-length");
    // any legal prefix choice
    let mut prefixes = vec![];
    let mut suffixes: Vec<Vec<u8>> = vec![];
    let mut prev: &[u8] = b"";
    for x in &v {
        let common = x.iter().zip(prev).take_while(|(a, b)| a == b).count();
        let p = match c.s.below(3) {
            0 => common,
            1 => 0,
            _ => c.s.below(common + 1),
        };
        prefixes.push(p as i64);
        suffixes.push(x[p..].to_vec());
        prev = x;
    }
    let l = gen_delta_layout(&mut c.s);
    let mut b = delta_encode(&prefixes, &l);
    let l = gen_delta_layout(&mut c.s);
    b.extend(delta_encode(&suffixes.iter().map(|x| x.len() as i64).collect::<Vec<_>>(), &l));
    b.extend(suffixes.concat());
    let k = c.s.size(20);
    b.extend(c.s.bytes(k));
    match decode_delta_strings(&b, v.len())? {
        Ok(out) => ensure_eq!(out, v, "delta-strings-foreign"),
        Err(e) => fail!("delta-strings-error", "conforming stream rejected: {e:?}"),
    }
    Ok(())
}
fn p17_corrupt(c: &mut Case) -> R {
    let v = gen_strings(&mut c.s, 40);
    let lens: Vec<i64> = v.iter().map(|x| x.len() as i64).collect();
    let l = gen_delta_layout(&mut c.s);
    let kind = c.s.below(3);
    let mut b = match kind {
        0 => {
            let mut b = delta_encode(&lens, &l);
            b.extend(v.concat());
            b
        }
        1 => {
            let mut b = vec![];
            delta_byte_array::encode(v.iter().map(|x| x.as_ref()), &mut b);
            b
        }
        _ => plain_byte_array(&v),
    };
    let hostile = c.s.chance(1, 3);
    if hostile && kind == 0 {
        // lengths that do not match
        let bad = gen_i64s(&mut c.s, 12);
        b = delta_encode(&bad, &l);
        b.extend(v.concat());
    } else {
        mutate(&mut c.s, &mut b);
    }
    c.describe(|| format!("corrupt byte-array stream kind {kind}: {:?}", clip(&b)));
    c.nontrivial(b.len() > 4);
    let cap = 200_000;
    match kind {
        0 => {
            if let Ok(mut d) = delta_length_byte_array::Decoder::try_new(&b) {
                let n = d.size_hint();
                let _ = n;
                let mut lens = vec![];
                for x in d.by_ref().take(cap) {
                    match x {
                        Ok(x) => lens.push(x),
                        Err(_) => return Ok(()),
                    }
                }
                if lens.len() == cap {
                    return Ok(());
                }
                c.label("lengths accepted");
                let total: i64 = lens.iter().map(|x| *x as i64).sum();
                ensure_eq!(d.values().len() as i64, total, "delta-length-total");
                ensure_eq!(d.into_values().len() as i64, total, "delta-length-total");
            }
        }
        1 => {
            // bounded by what a stream of this size may declare
            if let Ok(d) = delta_byte_array::Decoder::try_new(&b) {
                drop(d);
                decode_damaged_delta_strings(&b, cap)?;
            }
        }
        _ => {
            let it = plain_byte_array::BinaryIter::new(&b, None);
            let (out, _) = drain(it, b.len() / 4, false, "BinaryIter")?;
            let mut at = 0;
            for x in out {
                ensure!(b[at + 4..].starts_with(x), "plain-content", "item differs from the bytes at its place");
                at += 4 + x.len();
            }
        }
    }
    Ok(())
}
/// lengths that cannot be lengths of these values are errors, never other lengths
fn p17_lengths(c: &mut Case) -> R {
    let v = gen_strings(&mut c.s, 60);
    let mut lens: Vec<i64> = v.iter().map(|x| x.len() as i64).collect();
    let mut payload = v.concat();
    let k = if c.s.coin() { 0 } else { c.s.size(20) };
    payload.extend(c.s.bytes(k));
    let prefixes = c.s.chance(1, 3);
    if !lens.is_empty() && c.s.chance(3, 4) {
        let i = c.s.below(lens.len());
        let room = (payload.len() - v.concat().len()) as i64;
        lens[i] = match c.s.below(8) {
            0 => -1 - c.s.below(300) as i64,
            1 => lens[i] + ((1 + c.s.below(3) as i64) << 32),
            2 => lens[i] + (1 << 31),
            3 => lens[i] - (1 << 32),
            4 => c.s.pick(&[i64::MIN, i64::MAX, i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64, u32::MAX as i64 + 1, i32::MIN as i64]),
            5 => lens[i] + room,
            6 => lens[i] + room + 1,
            _ => c.s.below(lens[i] as usize + 1) as i64,
        };
    }
    let l = gen_delta_layout(&mut c.s);
    let mut b = delta_encode(&lens, &l);
    b.extend(&payload);
    c.describe(|| format!("{} lengths {:?} before {} bytes", if prefixes { "prefix" } else { "value" }, clip(&lens), payload.len()));
    c.nontrivial(lens.len() > 1);
    if prefixes {
        let legal = lens.iter().all(|x| u32::try_from(*x).is_ok());
        c.label_if(!legal, "illegal prefix lengths");
        let mut d = delta_byte_array::Decoder::try_new(&b)?;
        let (out, e) = drain(d.by_ref(), lens.len(), false, "delta_byte_array")?;
        ensure!(out.iter().zip(&lens).all(|(a, b)| *a as i64 == *b), "prefix-lengths", "{:?} should be {:?}", clip(&out), clip(&lens));
        ensure!(e.is_some() != legal && (e.is_some() || out.len() == lens.len()), "prefix-lengths-accepted", "{} of {} lengths and error {e:?}", out.len(), lens.len());
        return Ok(());
    }
    let mut total = 0i64;
    let legal = lens.iter().all(|x| {
        total = total.saturating_add((*x).max(0));
        i32::try_from(*x).is_ok() && *x >= 0 && total <= payload.len() as i64
    });
    c.label_if(!legal, "illegal lengths");
    let mut d = delta_length_byte_array::Decoder::try_new(&b)?;
    let (out, e) = drain(d.by_ref(), lens.len(), false, "delta_length")?;
    ensure!(out.iter().zip(&lens).all(|(a, b)| *a as i64 == *b), "lengths", "{:?} should be {:?}", clip(&out), clip(&lens));
    ensure!(e.is_some() != legal && (e.is_some() || out.len() == lens.len()), "lengths-accepted", "{} of {} lengths and error {e:?}", out.len(), lens.len());
    if legal {
        ensure!(d.values() == &payload[..total as usize] && d.into_values() == &payload[..total as usize], "lengths-values", "{total} bytes");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P13",
            rule: "a case is non-trivial if it packs at least one non-zero value, or unpacks at least one value from non-empty bytes; distinct by hash of all random choices",
            assumptions: &["the output buffer of encode is zeroed and has room for whole blocks, as its callers provide"],
            parts: vec![
                Part { name: "roundtrip", f: p13_roundtrip, quick: 1000000, thorough: 6000000 },
                Part { name: "arbitrary", f: p13_arbitrary, quick: 750000, thorough: 4000000 },
            ],
        },
        Prop {
            id: "P14",
            rule: "non-trivial: at least one value at a width above 0, respectively a stream of at least two runs, respectively at least two bytes",
            assumptions: &["a stream that ends before the requested count without being malformed is padded with zeros (pinned by the repository's own test empty_values)"],
            parts: vec![
                Part { name: "encode", f: p14_encode, quick: 80_000, thorough: 3_000_000 },
                Part { name: "decode", f: p14_decode, quick: 100_000, thorough: 4_000_000 },
                Part { name: "arbitrary", f: p14_arbitrary, quick: 80_000, thorough: 3_000_000 },
            ],
        },
        Prop {
            id: "P15",
            rule: "non-trivial: at least one set value, respectively a stream of at least two runs (and two intervals), respectively an unaligned bitmap of over 8 bits",
            assumptions: &["intervals are sorted, disjoint, non-empty and lie within the page"],
            parts: vec![
                Part { name: "encode", f: p15_encode, quick: 480000, thorough: 3000000 },
                Part { name: "runs", f: p15_runs, quick: 600000, thorough: 4000000 },
                Part { name: "filtered", f: p15_filtered, quick: 600000, thorough: 4000000 },
                Part { name: "bitmap", f: p15_bitmap, quick: 600000, thorough: 3000000 },
            ],
        },
        Prop {
            id: "P16",
            rule: "non-trivial: a sequence of at least three integers",
            assumptions: &[],
            parts: vec![
                Part { name: "roundtrip", f: p16_roundtrip, quick: 360000, thorough: 2000000 },
                Part { name: "foreign", f: p16_foreign, quick: 360000, thorough: 2000000 },
            ],
        },
        Prop {
            id: "P17",
            rule: "non-trivial: at least two byte strings, respectively a corrupt stream of over four bytes",
            assumptions: &["values()/into_values() are called only after the lengths were consumed without error, as documented"],
            parts: vec![
                Part { name: "plain", f: p17_plain, quick: 300000, thorough: 2000000 },
                Part { name: "delta_length", f: p17_delta_length, quick: 250000, thorough: 2000000 },
                Part { name: "delta", f: p17_delta, quick: 250000, thorough: 2000000 },
                Part { name: "corrupt", f: p17_corrupt, quick: 500000, thorough: 3000000 },
                Part { name: "lengths", f: p17_lengths, quick: 750000, thorough: 4000000 },
            ],
        },
        Prop {
            id: "P18",
            rule: "non-trivial: a value that needs at least two bytes, respectively at least two input bytes",
            assumptions: &[],
            parts: vec![
                Part { name: "roundtrip", f: p18_roundtrip, quick: 4500000, thorough: 18000000 },
                Part { name: "arbitrary", f: p18_arbitrary, quick: 4500000, thorough: 18000000 },
            ],
        },
    ]
}
pub fn bitunpack_bools(b: &[u8], offset: usize, length: usize) -> Vec<bool> {
    bitunpack(b, 1, offset + length)[offset..].iter().map(|x| *x == 1).collect()
}

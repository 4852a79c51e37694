//! Reference encoders and decoders, written from the Parquet format specification and independent of
//! the crate under test. They are deliberately naive (bit by bit, value by value).
use crate::src::Src;

pub fn mask(width: u32) -> u64 {
    if width >= 64 {
        u64::MAX
    } else {
        (1u64 << width) - 1
    }
}

/// LSB-first bit packing; exactly ceil(n*width/8) bytes
pub fn bitpack(values: &[u64], width: u32) -> Vec<u8> {
    let mut out = vec![0u8; (values.len() * width as usize + 7) / 8];
    let mut bit = 0usize;
    for v in values {
        for k in 0..width {
            if (v >> k) & 1 == 1 {
                out[bit / 8] |= 1 << (bit % 8);
            }
            bit += 1;
        }
    }
    out
}

/// reads `n` values (as many as fit completely)
pub fn bitunpack(bytes: &[u8], width: u32, n: usize) -> Vec<u64> {
    let mut out = Vec::with_capacity(n.min(1 << 16));
    for i in 0..n {
        let mut v = 0u64;
        for k in 0..width as usize {
            let bit = i * width as usize + k;
            if bit / 8 >= bytes.len() {
                return out;
            }
            if bytes[bit / 8] >> (bit % 8) & 1 == 1 {
                v |= 1 << k;
            }
        }
        out.push(v);
    }
    out
}

pub fn uleb(mut v: u64) -> Vec<u8> {
    let mut out = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return out;
        }
        out.push(b | 0x80);
    }
}
/// (value, bytes used); None if truncated or does not fit 64 bits
pub fn unuleb(b: &[u8]) -> Option<(u64, usize)> {
    let mut v: u128 = 0;
    for (i, x) in b.iter().enumerate() {
        if i >= 10 {
            return None;
        }
        v |= ((x & 0x7f) as u128) << (7 * i);
        if x & 0x80 == 0 {
            return if v > u64::MAX as u128 { None } else { Some((v as u64, i + 1)) };
        }
    }
    None
}
pub fn zigzag(v: i64) -> u64 {
    if v >= 0 {
        (v as u64) << 1
    } else {
        // -1 -> 1, -2 -> 3
        ((!(v as u64)) << 1) | 1
    }
}
pub fn unzigzag(v: u64) -> i64 {
    if v & 1 == 0 {
        (v >> 1) as i64
    } else {
        !((v >> 1) as i64)
    }
}

// ------------------------------------------------------------------ hybrid RLE / bit packing
#[derive(Clone, Debug, PartialEq)]
pub enum Run {
    Rle(u64, usize),
    /// the values of the run, padded to whole groups of 8
    Packed(Vec<u64>),
}

pub fn encode_runs(runs: &[Run], width: u32) -> Vec<u8> {
    let mut out = vec![];
    for r in runs {
        match r {
            Run::Rle(v, n) => {
                out.extend(uleb((*n as u64) << 1));
                let nb = (width as usize + 7) / 8;
                out.extend_from_slice(&v.to_le_bytes()[..nb]);
            }
            Run::Packed(vs) => {
                assert!(vs.len() % 8 == 0);
                out.extend(uleb(((vs.len() as u64 / 8) << 1) | 1));
                out.extend(bitpack(vs, width));
            }
        }
    }
    out
}

/// A random conforming partition of `values` into runs. Only the last packed run may hold padding.
/// `empty`: also insert zero-length runs.
pub fn gen_runs(s: &mut Src, values: &[u64], width: u32, empty: bool) -> Vec<Run> {
    let mut runs = vec![];
    let mut i = 0;
    let style = s.below(4); // 0 packed first, 1 mixed, 2 prefer rle, 3 one packed run
    while i < values.len() {
        if empty && s.chance(1, 12) {
            runs.push(if s.coin() { Run::Rle(s.raw() & mask(width), 0) } else { Run::Packed(vec![]) });
        }
        let mut eq = 1;
        while i + eq < values.len() && values[i + eq] == values[i] {
            eq += 1;
        }
        let rle = match style {
            0 => s.chance(1, 4),
            1 => s.coin() || eq >= 8,
            2 => s.chance(3, 4),
            _ => false,
        };
        if rle {
            let n = if s.chance(1, 4) { s.range(1, eq) } else { eq };
            runs.push(Run::Rle(values[i], n));
            i += n;
        } else {
            let left = values.len() - i;
            let groups = (left + 7) / 8;
            let g = if style == 3 { groups } else { s.size1(groups.max(1)).min(groups) };
            let mut v: Vec<u64> = values[i..(i + g * 8).min(values.len())].to_vec();
            let used = v.len();
            let pad = s.coin();
            while v.len() < g * 8 {
                let p = if pad { s.raw() & mask(width) } else { 0 };
                v.push(p);
            }
            runs.push(Run::Packed(v));
            i += used;
        }
    }
    if empty && s.chance(1, 12) {
        runs.push(Run::Rle(0, 0));
    }
    runs
}

/// decode a hybrid stream per the specification; Err if malformed before `n` values are there
pub fn decode_hybrid(mut b: &[u8], width: u32, n: usize) -> Result<Vec<u64>, ()> {
    let mut out = vec![];
    while out.len() < n {
        if b.is_empty() {
            return Err(());
        }
        let (h, used) = unuleb(b).ok_or(())?;
        b = &b[used..];
        if h & 1 == 0 {
            let nb = (width as usize + 7) / 8;
            if b.len() < nb {
                return Err(());
            }
            let mut v = [0u8; 8];
            v[..nb].copy_from_slice(&b[..nb]);
            b = &b[nb..];
            let v = u64::from_le_bytes(v);
            let k = (h >> 1).min((n - out.len()) as u64) as usize;
            out.extend(std::iter::repeat(v).take(k));
        } else {
            let groups = (h >> 1) as u128;
            let nbytes = groups * width as u128;
            let need = n - out.len();
            let avail = (nbytes.min(b.len() as u128)) as usize;
            let cnt = (groups * 8).min(need as u128) as usize;
            let vals = bitunpack(&b[..avail], width, cnt);
            if vals.len() < cnt {
                return Err(());
            }
            out.extend(vals);
            b = &b[avail..];
        }
    }
    Ok(out)
}

// ------------------------------------------------------------------ DELTA_BINARY_PACKED
#[derive(Clone, Debug)]
pub struct DeltaLayout {
    pub block: usize,
    pub minis: usize,
    /// add this many extra bits to each miniblock's width (where possible)
    pub extra_bits: u32,
    /// write a width byte != 0 for unneeded miniblocks of the last block
    pub junk_widths: bool,
    /// minimum delta lowered by this
    pub lower_min: u64,
}
pub fn gen_delta_layout(s: &mut Src) -> DeltaLayout {
    let mut mini_len = s.pick(&[32usize, 64, 96, 128, 256, 512]);
    let mut minis = s.pick(&[1usize, 2, 4, 8, 3, 16]);
    if s.chance(1, 40) {
        // far above what writers choose
        mini_len = s.pick(&[8192, 4096 + 32, 32768]);
        minis = s.pick(&[1, 3, 16, 600]);
    }
    let mut block = mini_len * minis;
    if block % 128 != 0 {
        block = mini_len * minis * 4;
    }
    DeltaLayout { block, minis, extra_bits: if s.chance(1, 4) { s.range(1, 7) as u32 } else { 0 }, junk_widths: s.chance(1, 4), lower_min: if s.chance(1, 6) { s.below64(100) } else { 0 } }
}
pub fn delta_encode(values: &[i64], l: &DeltaLayout) -> Vec<u8> {
    let mut out = vec![];
    out.extend(uleb(l.block as u64));
    out.extend(uleb(l.minis as u64));
    out.extend(uleb(values.len() as u64));
    out.extend(uleb(zigzag(values.first().copied().unwrap_or(0))));
    if values.len() <= 1 {
        return out;
    }
    let deltas: Vec<i64> = values.windows(2).map(|w| w[1].wrapping_sub(w[0])).collect();
    let per = l.block / l.minis;
    for blk in deltas.chunks(l.block) {
        let min = *blk.iter().min().unwrap();
        let min = min.saturating_sub(l.lower_min as i64);
        out.extend(uleb(zigzag(min)));
        let rel: Vec<u64> = blk.iter().map(|d| d.wrapping_sub(min) as u64).collect();
        let minis: Vec<&[u64]> = rel.chunks(per).collect();
        let mut widths = vec![];
        for m in 0..l.minis {
            widths.push(match minis.get(m) {
                Some(c) => {
                    let w = c.iter().map(|x| 64 - x.leading_zeros()).max().unwrap();
                    (w + l.extra_bits).min(64)
                }
                None => {
                    if l.junk_widths {
                        5
                    } else {
                        0
                    }
                }
            });
        }
        out.extend(widths.iter().map(|w| *w as u8));
        for (m, c) in minis.iter().enumerate() {
            let mut c = c.to_vec();
            c.resize(per, 0);
            out.extend(bitpack(&c, widths[m]));
        }
    }
    out
}
/// (values, bytes used)
pub fn delta_decode(b: &[u8]) -> Option<(Vec<i64>, usize)> {
    let mut p = 0;
    let mut rd = |p: &mut usize| -> Option<u64> {
        let (v, u) = unuleb(&b[*p..])?;
        *p += u;
        Some(v)
    };
    let block = rd(&mut p)? as usize;
    let minis = rd(&mut p)? as usize;
    let n = rd(&mut p)? as usize;
    let first = unzigzag(rd(&mut p)?);
    let mut out = vec![];
    if n == 0 {
        return Some((out, p));
    }
    if minis == 0 || block % minis != 0 {
        return None;
    }
    let per = block / minis;
    out.push(first);
    let mut cur = first;
    while out.len() < n {
        let min = unzigzag(rd(&mut p)?);
        let widths = b.get(p..p.checked_add(minis)?)?.to_vec();
        p += minis;
        for w in widths {
            if out.len() >= n {
                break;
            }
            if w > 64 {
                return None;
            }
            let nb = per.checked_mul(w as usize)? / 8;
            let data = b.get(p..p.checked_add(nb)?)?;
            p += nb;
            for r in bitunpack(data, w as u32, per.min(n - out.len())) {
                if out.len() < n {
                    cur = cur.wrapping_add(min).wrapping_add(r as i64);
                    out.push(cur);
                }
            }
        }
    }
    Some((out, p))
}

// ------------------------------------------------------------------ plain
pub fn plain_byte_array(values: &[Vec<u8>]) -> Vec<u8> {
    let mut out = vec![];
    for v in values {
        out.extend_from_slice(&(v.len() as u32).to_le_bytes());
        out.extend_from_slice(v);
    }
    out
}
pub fn plain_bools(values: &[bool]) -> Vec<u8> {
    bitpack(&values.iter().map(|x| *x as u64).collect::<Vec<_>>(), 1)
}

/// bits needed for levels 0..=max
pub fn level_width(max: u64) -> u32 {
    64 - max.leading_zeros()
}

// ------------------------------------------------------------------ xxh64 (seed 0), from the xxHash specification
pub fn xxh64(data: &[u8]) -> u64 {
    const P1: u64 = 0x9E3779B185EBCA87;
    const P2: u64 = 0xC2B2AE3D27D4EB4F;
    const P3: u64 = 0x165667B19E3779F9;
    const P4: u64 = 0x85EBCA77C2B2AE63;
    const P5: u64 = 0x27D4EB2F165667C5;
    fn round(acc: u64, x: u64) -> u64 {
        acc.wrapping_add(x.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1)
    }
    fn rd8(d: &[u8]) -> u64 {
        u64::from_le_bytes(d[..8].try_into().unwrap())
    }
    let mut d = data;
    let mut h;
    if data.len() >= 32 {
        let mut v = [P1.wrapping_add(P2), P2, 0, 0u64.wrapping_sub(P1)];
        while d.len() >= 32 {
            for (i, x) in v.iter_mut().enumerate() {
                *x = round(*x, rd8(&d[i * 8..]));
            }
            d = &d[32..];
        }
        h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
        for x in v {
            h = (h ^ round(0, x)).wrapping_mul(P1).wrapping_add(P4);
        }
    } else {
        h = P5;
    }
    h = h.wrapping_add(data.len() as u64);
    while d.len() >= 8 {
        h = (h ^ round(0, rd8(d))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4);
        d = &d[8..];
    }
    if d.len() >= 4 {
        let x = u32::from_le_bytes(d[..4].try_into().unwrap()) as u64;
        h = (h ^ x.wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
        d = &d[4..];
    }
    for b in d {
        h = (h ^ (*b as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1);
    }
    h ^= h >> 33;
    h = h.wrapping_mul(P2);
    h ^= h >> 29;
    h = h.wrapping_mul(P3);
    h ^ (h >> 32)
}

pub fn selfcheck() {
    assert_eq!(xxh64(b""), 0xEF46DB3751D8E999);
    assert_eq!(xxh64(b"abc"), 0x44BC2CF5AD770999);
    assert_eq!(unzigzag(zigzag(i64::MIN)), i64::MIN);
    assert_eq!(zigzag(-1), 1);
    assert_eq!(unuleb(&uleb(u64::MAX)), Some((u64::MAX, 10)));
    let l = DeltaLayout { block: 128, minis: 4, extra_bits: 0, junk_widths: false, lower_min: 0 };
    let v = vec![i64::MIN, i64::MAX, 3, -4];
    assert_eq!(delta_decode(&delta_encode(&v, &l)).unwrap().0, v);
}

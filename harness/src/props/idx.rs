//! P22-P24, P32: row intervals, page indexes, and filters over row groups, columns and pages.
use super::enc::{gen_intervals, select};
use super::file::*;
use super::page::{decode_selected, is_optional, slots, split_adjacent, Opt};
use crate::engine::*;
use crate::gen::*;
use crate::io::*;
use crate::src::Src;
use crate::{ensure, ensure_eq, fail};
use futures::StreamExt;
use parquet2::compression::CompressionOptions;
use parquet2::encoding::Encoding;
use parquet2::error::Error;
use parquet2::indexes::*;
use parquet2::metadata::{ColumnChunkMetaData, Descriptor, FileMetaData, SchemaDescriptor};
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::types::NativeType;
use parquet2::write::{FileStreamer, FileWriter, Version, WriteOptions};
use parquet_format_safe::PageLocation;
use std::io::Cursor;
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ P22
type Set = Vec<(u128, u128)>;
/// sorted, merged, non-empty ranges
fn merged(mut v: Set) -> Set {
    v.retain(|x| x.0 < x.1);
    v.sort();
    let mut out: Set = vec![];
    for (a, b) in v {
        match out.last_mut() {
            Some(l) if a <= l.1 => l.1 = l.1.max(b),
            _ => out.push((a, b)),
        }
    }
    out
}
/// sizes of the pages of a chunk; any may be empty
fn gen_sizes(s: &mut Src) -> Vec<usize> {
    let n = match s.below(8) {
        0 => s.below(2),
        7 => s.wide(300),
        _ => 1 + s.below(8),
    };
    let style = s.below(4);
    (0..n)
        .map(|_| match style {
            0 => s.below(4),
            1 => s.size(300),
            2 => {
                if s.chance(1, 4) {
                    0
                } else {
                    1 + s.below(50)
                }
            }
            _ => s.below64((1 << 50).min((1 << 61) / n as u64)) as usize,
        })
        .collect()
}
fn gen_locations(s: &mut Src, sizes: &[usize]) -> Vec<PageLocation> {
    let mut row = 0i64;
    let mut at = s.below64(1 << 40) as i64;
    let wild = s.chance(1, 4);
    sizes
        .iter()
        .map(|n| {
            let size = if wild { s.i32_any().max(0) } else { 1 + s.below(5000) as i32 };
            let l = PageLocation { offset: if wild { s.i64_any().max(0) } else { at }, compressed_page_size: size, first_row_index: row };
            at += size as i64;
            row += *n as i64;
            l
        })
        .collect()
}
/// a set of rows: sorted, disjoint, possibly adjacent, empty or beyond the last row
fn gen_rows(s: &mut Src, total: usize, sizes: &[usize]) -> Vec<Interval> {
    let mut iv: Vec<Interval> = if total <= 100_000 && s.chance(2, 3) {
        gen_intervals(s, total)
    } else {
        // cut at and near page boundaries
        let mut cuts = vec![];
        let mut at = 0usize;
        for n in sizes {
            at += n;
            if s.coin() {
                cuts.push(at.saturating_sub(s.below(2)) + s.below(2));
            }
            if s.chance(1, 3) {
                cuts.push(s.below64(total as u64 + 1) as usize);
            }
        }
        cuts.sort();
        cuts.dedup();
        let mut out = vec![];
        let mut i = 0;
        while i + 1 < cuts.len() {
            out.push(Interval::new(cuts[i], cuts[i + 1] - cuts[i]));
            i += 1 + s.below(2);
        }
        out
    };
    if s.chance(1, 4) {
        split_adjacent(s, &mut iv);
    }
    let end = iv.last().map(|x| x.start + x.length).unwrap_or(0);
    if s.chance(1, 6) {
        // reaches beyond the rows
        let start = end + s.below(4);
        iv.push(Interval::new(start, s.pick(&[1usize, 100, usize::MAX / 2, usize::MAX - 10, usize::MAX])));
    } else if s.chance(1, 8) {
        let start = total.max(end) + s.below(100);
        iv.push(Interval::new(start, 1 + s.below(100)));
    }
    if s.chance(1, 8) && !iv.is_empty() {
        // an empty interval
        let k = s.below(iv.len());
        let x = iv[k];
        iv.insert(k, Interval::new(x.start, 0));
    }
    iv
}
fn p22_map(c: &mut Case) -> R {
    let sizes = gen_sizes(&mut c.s);
    let total: usize = sizes.iter().sum();
    let locs = gen_locations(&mut c.s, &sizes);
    let iv = gen_rows(&mut c.s, total, &sizes);
    c.describe(|| format!("pages of {:?} rows, selected {:?}", clip(&sizes), clip(&iv)));
    c.nontrivial(sizes.len() > 1 && !iv.is_empty());
    c.label_if(sizes.contains(&0), "empty pages");
    c.label_if(sizes.len() > 20, "many pages");
    c.label_if(total > 1 << 32, "huge rows");
    c.label_if(iv.last().map(|x| x.start.saturating_add(x.length) > total).unwrap_or(false), "beyond the rows");
    let pages = select_pages(&iv, &locs, total)?;
    ensure_eq!(pages.len(), locs.len(), "pages", "one per location");
    let mut got: Set = vec![];
    let mut first = 0u128;
    for (i, (p, l)) in pages.iter().zip(&locs).enumerate() {
        ensure_eq!((p.start, p.length), (l.offset as u64, l.compressed_page_size as usize), "page-location", "page {i}");
        ensure_eq!(p.num_rows, sizes[i], "page-rows", "page {i}");
        for r in &p.selected_rows {
            ensure!(r.length > 0, "selection-empty", "page {i} has an empty selection {r:?}");
            ensure!(r.start as u128 + r.length as u128 <= sizes[i] as u128, "selection-beyond-page", "page {i} of {} rows: {r:?}", sizes[i]);
            let a = first + r.start as u128;
            if let Some(l) = got.last() {
                ensure!(l.1 <= a, "selection-order", "page {i}: rows from {a} after rows up to {}", l.1);
            }
            got.push((a, a + r.length as u128));
        }
        first += sizes[i] as u128;
    }
    let want: Set = iv.iter().map(|x| (x.start as u128, (x.start as u128 + x.length as u128).min(total as u128))).collect();
    let (got, want) = (merged(got), merged(want));
    ensure!(got == want, "selected-rows", "selected rows {:?} but should be {:?}", clip(&got), clip(&want));
    // the other way: from pages to rows
    let flags: Vec<bool> = match c.s.below(3) {
        0 => pages.iter().map(|x| !x.selected_rows.is_empty()).collect(),
        1 => vec![true; sizes.len()],
        _ => sizes.iter().map(|_| c.s.coin()).collect(),
    };
    let rows = compute_rows(&flags, &locs, total)?;
    let mut at = 0;
    let mut want = vec![];
    for (n, f) in sizes.iter().zip(&flags) {
        if *f {
            want.push(Interval::new(at, *n));
        }
        at += n;
    }
    // pages without rows select nothing
    let some = |v: &[Interval]| v.iter().filter(|x| x.length > 0).cloned().collect::<Vec<_>>();
    ensure_eq!(some(&rows), some(&want), "rows-of-pages");
    // to a column that is paged differently, and back
    if total > 0 {
        let mut cuts: Vec<usize> = (0..c.s.below(6)).map(|_| c.s.below64(total as u64) as usize).collect();
        cuts.push(total);
        cuts.sort();
        let mut prev = 0;
        let sizes2: Vec<usize> = cuts
            .into_iter()
            .map(|x| {
                let n = x - prev;
                prev = x;
                n
            })
            .collect();
        let locs2 = gen_locations(&mut c.s, &sizes2);
        let pages2 = select_pages(&rows, &locs2, total)?;
        let n: u128 = pages2.iter().flat_map(|x| &x.selected_rows).map(|x| x.length as u128).sum();
        ensure_eq!(n, rows.iter().map(|x| x.length as u128).sum::<u128>(), "rows-of-other-column");
        c.evals += 1;
    }
    Ok(())
}
/// locations that cannot be
fn p22_inconsistent(c: &mut Case) -> R {
    let mut sizes = gen_sizes(&mut c.s);
    if sizes.is_empty() {
        sizes.push(3);
    }
    let mut total: usize = sizes.iter().sum();
    let mut locs = gen_locations(&mut c.s, &sizes);
    let i = c.s.below(locs.len());
    let n = locs.len();
    let mut rows_too = true;
    let what = match c.s.below(6) {
        0 => {
            locs[i].first_row_index = c.s.pick(&[-1, i64::MIN, -1000]);
            "negative first row"
        }
        1 if i + 1 < n => {
            // decreasing
            locs[i].first_row_index = locs[i + 1].first_row_index.saturating_add(1 + c.s.below64(1 << 40) as i64);
            "decreasing rows"
        }
        2 => {
            locs[i].offset = c.s.pick(&[-1, i64::MIN, -4]);
            rows_too = false;
            "negative offset"
        }
        3 => {
            locs[i].compressed_page_size = c.s.pick(&[-1, i32::MIN, -100]);
            rows_too = false;
            "negative size"
        }
        4 if locs[n - 1].first_row_index > 0 => {
            total = c.s.below64(locs[n - 1].first_row_index as u64) as usize;
            "pages beyond the rows"
        }
        _ => {
            locs[n - 1].first_row_index = c.s.pick(&[i64::MAX, total as i64 + 1]);
            "last page beyond the rows"
        }
    };
    c.nontrivial(true);
    c.label(what);
    let iv = gen_rows(&mut c.s, total, &sizes);
    c.describe(|| format!("{what} at page {i} of {n}; selected {:?}", clip(&iv)));
    let r = select_pages(&iv, &locs, total);
    ensure!(r.is_err(), "inconsistent-accepted", "{what}: select_pages gives {:?}", r.map(|x| clip(&x)));
    if rows_too {
        let r = compute_rows(&vec![true; n], &locs, total);
        ensure!(r.is_err(), "inconsistent-accepted", "{what}: compute_rows gives {:?}", r.map(|x| clip(&x)));
    }
    Ok(())
}
/// arbitrary locations: an error or selections within bounds, never a panic
fn p22_arbitrary(c: &mut Case) -> R {
    let n = c.s.size(12);
    let locs: Vec<PageLocation> = (0..n).map(|_| PageLocation { offset: c.s.i64_any(), compressed_page_size: c.s.i32_any(), first_row_index: c.s.i64_any() }).collect();
    let total = c.s.u64_any() as usize;
    let k = c.s.size(10);
    let iv: Vec<Interval> = (0..k).map(|_| Interval::new(c.s.u64_any() as usize, c.s.u64_any() as usize)).collect();
    c.nontrivial(n > 0 && k > 0);
    if let Ok(p) = select_pages(&iv, &locs, total) {
        c.label("accepted");
        for p in p {
            for r in p.selected_rows {
                ensure!(r.start.checked_add(r.length).map(|x| x <= p.num_rows).unwrap_or(false), "selection-beyond-page", "{r:?} of {}", p.num_rows);
            }
        }
    }
    let flags: Vec<bool> = (0..c.s.size(14)).map(|_| c.s.coin()).collect();
    let _ = compute_rows(&flags, &locs, total);
    Ok(())
}

// ------------------------------------------------------------------ P23
fn is_flat(d: &Descriptor) -> bool {
    d.max_rep_level == 0 && d.max_def_level == is_optional(d) as i16 && d.primitive_type.physical_type != PhysicalType::FixedLenByteArray(0)
}
/// decodes pages read through an index
fn decode_pages(pages: Vec<Page>, d: &Descriptor, way: usize) -> Result<Vec<Opt>, Fail> {
    let mut dict: Option<Vec<Vec<u8>>> = None;
    let mut out = vec![];
    for p in pages {
        match p {
            Page::Dict(p) => {
                ensure!(dict.is_none(), "two-dictionaries", "a second dictionary");
                dict = Some(decode_plain(&p.buffer, d.primitive_type.physical_type, p.num_values)?);
            }
            Page::Data(p) => {
                let sel = match p.selected_rows() {
                    Some(x) => x.to_vec(),
                    None => fail!("no-selection", "a page read through its index has no selected rows"),
                };
                out.extend(decode_selected(&p, dict.as_deref(), &sel, way)?);
            }
        }
    }
    Ok(out)
}
fn gen_indexed(c: &mut Case) -> Result<(FileM, Vec<u8>, FileMetaData), Fail> {
    let big = c.s.chance(1, 10);
    let o = FileOpts { decodable: true, max_groups: 2, max_rows: if big { 3000 } else { 150 }, ..FileOpts::default() };
    let mut f = if c.s.coin() {
        // flat columns
        let n = 1 + c.s.below(3);
        let mut used = vec![];
        let fields = (0..n)
            .map(|_| {
                let name = uniq(&mut c.s, &mut used);
                let rep = REPS[c.s.below(2)];
                gen_leaf(&mut c.s, name, rep)
            })
            .collect();
        let schema = SchemaDescriptor::new("s".into(), fields);
        gen_file_for(&mut c.s, schema, &o)
    } else {
        gen_file(&mut c.s, &o)
    };
    if c.s.chance(1, 200) {
        // headers of any size, by their statistics
        for (_, chunks) in &mut f.groups {
            for (ch, cd) in chunks.iter_mut().zip(f.schema.columns()) {
                if cd.descriptor.primitive_type.physical_type == PhysicalType::ByteArray {
                    for p in &mut ch.pages {
                        if let Some(st) = p.stats.as_mut().filter(|x| x.max_value.is_some()) {
                            let n = c.s.pick(&[1usize << 16, 600_000, 1 << 20, 1_500_000]);
                            st.max_value = Some(vec![0xff; n]);
                            c.label("huge statistics");
                        }
                    }
                }
            }
        }
    }
    let bytes = write_vec(&f)?;
    let md = read_metadata(&mut Cursor::new(&bytes))?;
    Ok((f, bytes, md))
}
fn some_rows(s: &mut Src, n: usize) -> Vec<Interval> {
    let mut iv = gen_intervals(s, n);
    if s.chance(1, 4) {
        split_adjacent(s, &mut iv);
    }
    iv
}
fn p23_select(c: &mut Case) -> R {
    let (f, bytes, md) = gen_indexed(c)?;
    c.describe(|| describe_file(&f));
    select_of(c, &f, &bytes, &md)
}
/// the same, among billions of rows
fn p23_counted(c: &mut Case) -> R {
    let f = gen_counted(&mut c.s, None);
    label_counted(c, &f);
    let bytes = write_vec(&f)?;
    let md = read_metadata(&mut Cursor::new(&bytes))?;
    select_of(c, &f, &bytes, &md)
}
fn select_of(c: &mut Case, f: &FileM, bytes: &Vec<u8>, md: &FileMetaData) -> R {
    let mut bufs = (vec![9u8; c.s.size(100)], vec![3u8; c.s.size(100)]);
    for (gi, g) in md.row_groups.iter().enumerate() {
        let rows = g.num_rows();
        let locs = read_pages_locations(&mut Cursor::new(&bytes), g.columns())?;
        ensure_eq!(locs.len(), g.columns().len(), "locations", "one list per column");
        // rows selected directly, or through the pages of one of the columns
        let iv = if c.s.chance(1, 3) {
            let k = c.s.below(locs.len());
            let flags: Vec<bool> = locs[k].iter().map(|_| c.s.coin()).collect();
            c.label("rows of another column's pages");
            compute_rows(&flags, &locs[k], rows)?
        } else {
            some_rows(&mut c.s, rows)
        };
        for (ci, col) in g.columns().iter().enumerate() {
            let m = &f.groups[gi].1[ci];
            let d = &f.schema.columns()[ci].descriptor;
            let what = format!("row group {gi} column {ci} rows {:?}", clip(&iv));
            let mut pages = select_pages(&iv, &locs[ci], rows)?;
            ensure_eq!(pages.len(), m.pages.len(), "locations", "{what}: one per data page");
            // pages that are not selected are not read: they hold something else here
            let mut data = bytes.clone();
            if m.dict.is_some() && !pages.is_empty() && c.s.chance(1, 4) {
                // a writer may leave anything between the dictionary and the data pages
                let gap = 1 + c.s.size(300);
                let at = pages[0].start as usize;
                data.splice(at..at, c.s.bytes(gap));
                for p in &mut pages {
                    p.start += gap as u64;
                }
                c.label("gap behind the dictionary");
            }
            let mut skipped = vec![];
            let mut want = vec![];
            let all: Vec<Got> = full(m, d)?;
            let (dict, data_pages) = all.split_at(m.dict.is_some() as usize);
            if !pages.is_empty() {
                want.extend(dict.iter().cloned());
            }
            for (p, w) in pages.iter().zip(data_pages) {
                if p.selected_rows.is_empty() {
                    data[p.start as usize..p.start as usize + p.length].fill(0xff);
                    skipped.push((p.start, p.start + p.length as u64));
                } else {
                    want.push(Got { sel: Some(p.selected_rows.clone()), ..w.clone() });
                }
            }
            c.label_if(!skipped.is_empty(), "pages skipped");
            c.label_if(m.dict.is_some() && !pages.is_empty(), "dictionary");
            let plan = if c.s.coin() { Plan::smooth() } else { Plan { chunk: 1 + c.s.below(500), ..Plan::smooth() } };
            let src = Source::new(&data, plan);
            let touched = src.touched.clone();
            let (b, db) = std::mem::take(&mut bufs);
            let mut it = IndexedPageReader::new(src, col, pages.clone(), b, db);
            let mut raw = vec![];
            while let Some(p) = it.next() {
                raw.push(p?);
                ensure!(raw.len() <= want.len(), "too-many-pages", "{what}: {} pages, should be {}", raw.len(), want.len());
            }
            ensure!(it.next().is_none(), "page-after-end", "{what}");
            let (_, b, db) = it.into_inner();
            bufs = (b, db);
            for (a, e) in touched.lock().unwrap().iter() {
                for (x, y) in &skipped {
                    ensure!(a >= y || e <= x || a >= e, "read-skipped-page", "{what}: bytes {a}..{e} were read, of a page at {x}..{y} without selected rows");
                }
            }
            let mut buf = vec![];
            let got = raw.into_iter().map(|p| flat(p, &mut buf)).collect::<Result<Vec<_>, _>>()?;
            let (got, raw): (Vec<Got>, Vec<Page>) = got.into_iter().unzip();
            check_got(&got, &want, &what)?;
            if is_flat(d) && m.pages.iter().all(|p| p.many.is_none()) {
                let slots: Vec<Opt> = m.pages.iter().flat_map(|p| slots(p, d)).collect();
                let want = select(&slots, &iv);
                let way = c.s.below(2);
                let got = decode_pages(raw, d, way)?;
                ensure!(got == want, "selected-values", "{what}: {:?} should be {:?}", clip(&got), clip(&want));
                c.label("decoded");
                c.nontrivial(c.nontrivial || (iv.len() > 1 && m.pages.len() > 1));
            }
            // every row: the plain reader's pages
            if rows > 0 {
                let pages = select_pages(&[Interval::new(0, rows)], &locs[ci], rows)?;
                let got = collect(IndexedPageReader::new_with_page_meta(Cursor::new(&bytes), col.into(), pages, vec![], vec![]), all.len())?;
                let plain = collect(get_page_iterator(col, Cursor::new(&bytes), None, vec![], BIG)?, all.len())?;
                let plain: Vec<Got> = plain
                    .into_iter()
                    .filter(|x| x.dict || x.n > 0)
                    .zip(m.dict.iter().map(|_| None).chain(m.pages.iter().filter(|p| p.rows > 0).map(|p| Some(vec![Interval::new(0, p.rows)]))))
                    .map(|(g, sel)| Got { sel, ..g })
                    .collect();
                check_got(&got, &plain, &format!("{what}: every row"))?;
                c.evals += 1;
            }
        }
    }
    Ok(())
}
/// what the chunk's pages read as, the empty ones at the end too
fn full(m: &ChunkM, d: &Descriptor) -> Result<Vec<Got>, Fail> {
    let mut out = vec![];
    let codec: parquet2::compression::Compression = m.codec.into();
    if let Some(x) = &m.dict {
        out.push(Got { dict: true, header: String::new(), n: x.values.len(), csize: None, usize_: None, codec, sel: None, content: x.bytes.clone(), sorted: x.is_sorted });
    }
    for p in &m.pages {
        let page = p.page(d);
        let header = format!("{:?}", page.header());
        let content = page.buffer().to_vec();
        let csize = match parquet2::write::compress(Page::Data(page), vec![], m.codec)? {
            CompressedPage::Data(z) => z.compressed_size(),
            _ => 0,
        };
        out.push(Got { dict: false, header, n: p.num_values(), csize: Some(csize), usize_: Some(content.len()), codec, sel: None, content, sorted: false });
    }
    Ok(out)
}
fn p23_malformed(c: &mut Case) -> R {
    let (f, bytes, md) = gen_indexed(c)?;
    let Some(g) = md.row_groups.first() else { return Ok(()) };
    let ci = c.s.below(g.columns().len());
    let col = &g.columns()[ci];
    let locs = read_pages_locations(&mut Cursor::new(&bytes), std::slice::from_ref(col))?;
    let rows = g.num_rows();
    if locs[0].is_empty() || rows == 0 {
        return Ok(());
    }
    let mut pages = select_pages(&[Interval::new(0, rows)], &locs[0], rows)?;
    let read: Vec<usize> = (0..pages.len()).filter(|i| !pages[*i].selected_rows.is_empty()).collect();
    let k = c.s.pick(&read);
    let len = pages[k].length;
    let mut must_fail = true;
    let what = match c.s.below(6) {
        0 => {
            pages[k].length = len + c.s.pick(&[1usize, 2, 100, 1 << 20, 1 << 40, usize::MAX - len]);
            "longer"
        }
        1 => {
            pages[k].length = c.s.below(len);
            "shorter"
        }
        2 => {
            pages[k].start = c.s.u64_any();
            must_fail = false;
            "elsewhere"
        }
        3 => {
            let at = pages[k].start as i64 + c.s.below(9) as i64 - 4;
            pages[k].start = at.max(0) as u64;
            must_fail = false;
            "moved"
        }
        4 => {
            pages[0].start = c.s.below64(col.byte_range().0);
            "before its column"
        }
        _ => {
            pages[k].start = bytes.len() as u64 + c.s.below(20) as u64;
            pages.truncate(k + 1);
            "beyond the file"
        }
    };
    c.label(what);
    c.nontrivial(true);
    c.describe(|| format!("page {k} is {what}: {:?} of {}", pages[k], describe_file(&f)));
    let n = pages.len();
    // it ends, whatever errors it meets
    let taken = IndexedPageReader::new(Cursor::new(&bytes), col, pages.clone(), vec![], vec![]).take(n + 3).count();
    ensure!(taken <= n + 1, "endless", "page {k} is {what}: {taken} items or more of {n} pages");
    let r = peak_during(|| pages_until_error(IndexedPageReader::new(Cursor::new(&bytes), col, pages.clone(), vec![], vec![]), n + 1));
    let (r, peak) = r;
    ensure!(peak < 8 * bytes.len() + (16 << 20), "memory", "{peak} bytes allocated for a file of {}", bytes.len());
    let (_, e) = r?;
    if must_fail {
        ensure!(e.is_some(), "malformed-accepted", "page {k} is {what}: no error");
    }
    // carrying on after an error does not panic
    let mut it = IndexedPageReader::new(Cursor::new(&bytes), col, pages, vec![], vec![]);
    for _ in 0..n + 3 {
        let _ = it.next();
    }
    Ok(())
}

// ------------------------------------------------------------------ P24
/// (min, max, null count, only nulls) as bytes
type Entry = (Option<Vec<u8>>, Option<Vec<u8>>, Option<i64>);
fn native<T: NativeType>(x: &dyn Index) -> Result<(Vec<Entry>, parquet2::indexes::BoundaryOrder), Fail> {
    let i = x.as_any().downcast_ref::<NativeIndex<T>>().ok_or_else(|| Fail::new("index-type", "another type of index"))?;
    let b = |x: &Option<T>| x.as_ref().map(|x| x.to_le_bytes().as_ref().to_vec());
    Ok((i.indexes.iter().map(|x| (b(&x.min), b(&x.max), x.null_count)).collect(), i.boundary_order))
}
fn entries(x: &dyn Index, t: &PrimitiveType) -> Result<(Vec<Entry>, parquet2::indexes::BoundaryOrder), Fail> {
    let wrong = || Fail::new("index-type", "another type of index");
    ensure_eq!(x.physical_type(), &t.physical_type, "index-physical-type");
    Ok(match t.physical_type {
        PhysicalType::Boolean => {
            let i = x.as_any().downcast_ref::<BooleanIndex>().ok_or_else(wrong)?;
            (i.indexes.iter().map(|x| (x.min.map(|x| vec![x as u8]), x.max.map(|x| vec![x as u8]), x.null_count)).collect(), i.boundary_order)
        }
        PhysicalType::Int32 => native::<i32>(x)?,
        PhysicalType::Int64 => native::<i64>(x)?,
        PhysicalType::Int96 => native::<[u32; 3]>(x)?,
        PhysicalType::Float => native::<f32>(x)?,
        PhysicalType::Double => native::<f64>(x)?,
        PhysicalType::ByteArray => {
            let i = x.as_any().downcast_ref::<ByteIndex>().ok_or_else(wrong)?;
            ensure_eq!(&i.primitive_type, t, "index-primitive-type");
            (i.indexes.iter().map(|x| (x.min.clone(), x.max.clone(), x.null_count)).collect(), i.boundary_order)
        }
        PhysicalType::FixedLenByteArray(_) => {
            let i = x.as_any().downcast_ref::<FixedLenByteIndex>().ok_or_else(wrong)?;
            ensure_eq!(&i.primitive_type, t, "index-primitive-type");
            (i.indexes.iter().map(|x| (x.min.clone(), x.max.clone(), x.null_count)).collect(), i.boundary_order)
        }
    })
}
/// the declared statistics become bounds unrelated to the values (truncated or widened by their producer)
fn loosen_stats(s: &mut Src, p: &mut PageM, t: PhysicalType) {
    if let Some(st) = &mut p.stats {
        if st.min_value.is_some() {
            st.min_value = Some(gen_value(s, t));
            st.max_value = Some(gen_value(s, t));
        }
        if st.null_count.is_some() && st.min_value.is_some() && s.coin() {
            st.null_count = Some(s.below(1 << 20) as i64);
        }
    }
}
/// a chunk of many small pages
fn many_pages(s: &mut Src, n: usize, d: &Descriptor, stats: StatMode) -> ChunkM {
    let p = d.primitive_type.physical_type;
    let dict = if p != PhysicalType::Boolean && s.coin() { Some(gen_dict(s, p, 6)) } else { None };
    let po = PageOpts { max_rows: 4, stats, decodable: true };
    let pages = (0..n)
        .map(|_| {
            let r = s.pick(&[1usize, 1, 2, 3, 0]);
            gen_page(s, r, d, dict.as_ref(), &po)
        })
        .collect();
    ChunkM { dict, pages, codec: if s.chance(3, 4) { CompressionOptions::Uncompressed } else { CompressionOptions::Snappy }, huge: vec![] }
}
fn gen_index_file(c: &mut Case) -> FileM {
    let vast = c.s.chance(1, 800);
    gen_index_file_of(c, vast)
}
/// `vast`: indexes of over 64 kB
pub fn gen_index_file_of(c: &mut Case, vast: bool) -> FileM {
    let o = FileOpts { max_rows: 60, ..FileOpts::default() };
    let mut f = gen_file(&mut c.s, &o);
    if vast || c.s.chance(1, 5) {
        // one column of many pages
        let top = if c.thorough { 3000 } else { 700 };
        let mut used = vec![];
        let name = uniq(&mut c.s, &mut used);
        let rep = c.s.pick(&REPS);
        let leaf = gen_leaf(&mut c.s, name, rep);
        f.schema = SchemaDescriptor::new("s".into(), vec![leaf]);
        let d = f.schema.columns()[0].descriptor.clone();
        let mode = if f.options.write_statistics { StatMode::Full } else { StatMode::None };
        let n = c.s.pick(&[14usize, 15, 16, 17, 127, 128, 129, 255, 256, 600]).min(top);
        let n = if c.s.coin() { n } else { c.s.size(top) };
        let n = if vast { 6000 + c.s.below(3000) } else { n };
        c.label_if(vast, "thousands of pages");
        let mut ch = many_pages(&mut c.s, n, &d, mode);
        if c.s.chance(1, 3) {
            // nothing but nulls (or empty strings): the smallest index there is
            let empty = d.primitive_type.physical_type == PhysicalType::ByteArray && c.s.coin();
            for p in &mut ch.pages {
                let values = p.num_values() as i64;
                if let Some(st) = &mut p.stats {
                    let bound = if empty && values > 0 { Some(vec![]) } else { None };
                    st.null_count = Some(if bound.is_some() { 0 } else { values });
                    st.min_value = bound.clone();
                    st.max_value = bound;
                }
            }
            c.label("smallest index");
        }
        if c.s.chance(1, 4) {
            // pages of more rows than there are values to write down here
            for p in &mut ch.pages {
                p.rows = match c.s.below(4) {
                    0 => c.s.size(100),
                    1 => c.s.below(i32::MAX as usize),
                    _ => c.s.pick(&[255usize, 256, 65535, 65536, 100_000, 1 << 24, i32::MAX as usize]),
                };
            }
            c.label("many rows");
        }
        let rows = ch.pages.iter().map(|p| p.rows).sum();
        f.groups = vec![(rows, vec![ch])];
        c.label("many pages");
    }
    if !c.labels.contains(&"smallest index") && c.s.coin() {
        for (_, chunks) in &mut f.groups {
            for (ch, cd) in chunks.iter_mut().zip(f.schema.columns()) {
                for p in &mut ch.pages {
                    loosen_stats(&mut c.s, p, cd.descriptor.primitive_type.physical_type);
                }
            }
        }
        c.label("loose bounds");
    }
    f
}
fn write_streamed(f: &FileM) -> Result<Vec<u8>, Error> {
    let sh = Shared::new(Plan::smooth());
    let mut w = FileStreamer::new(sh.clone(), f.schema.clone(), f.options, f.created_by.clone());
    block(async {
        for g in 0..f.groups.len() {
            w.write(group_iter(f, g, true)).await?;
        }
        w.end(f.kv.clone()).await?;
        Ok::<_, Error>(())
    })?;
    Ok(sh.data())
}
fn p24_exact(c: &mut Case) -> R {
    let f = gen_index_file(c);
    label_file(c, &f);
    c.describe(|| describe_file(&f));
    exact_of(c, f)
}
/// billions of rows
fn p24_counted(c: &mut Case) -> R {
    let f = gen_counted(&mut c.s, None);
    let r = exact_of(c, f.clone());
    label_counted(c, &f);
    r
}
fn exact_of(c: &mut Case, f: FileM) -> R {
    let bytes = if c.s.chance(1, 4) {
        c.label("asynchronous writer");
        write_streamed(&f)?
    } else {
        write_vec(&f)?
    };
    let (t, foot) = thrift_footer(&bytes)?;
    let md = read_metadata(&mut Cursor::new(&bytes))?;
    for (gi, (g, (rows, chunks))) in t.row_groups.iter().zip(&f.groups).enumerate() {
        // the offset indexes, against the pages that are in the file
        let locs = read_pages_locations(&mut Cursor::new(&bytes), md.row_groups[gi].columns())?;
        ensure_eq!(locs.len(), chunks.len(), "offset-indexes", "row group {gi}: one per column");
        for (ci, (col, m)) in g.columns.iter().zip(chunks).enumerate() {
            let what = format!("row group {gi} column {ci}");
            let meta = col.meta_data.as_ref().unwrap();
            let mut pos = meta.dictionary_page_offset.unwrap_or(meta.data_page_offset) as usize;
            let mut want = vec![];
            let mut first = 0i64;
            if m.dict.is_some() && !m.pages.is_empty() {
                let (h, n) = page_header(&bytes[pos..foot])?;
                pos += n + h.compressed_page_size as usize;
            }
            for p in &m.pages {
                let (h, n) = page_header(&bytes[pos..foot])?;
                let size = n + h.compressed_page_size as usize;
                want.push(PageLocation { offset: pos as i64, compressed_page_size: size as i32, first_row_index: first });
                first += p.rows as i64;
                pos += size;
            }
            ensure!(first == *rows as i64 || m.pages.is_empty(), "harness", "rows of the model");
            ensure!(locs[ci] == want, "offset-index", "{what}: {:?} should be {:?}", clip(&locs[ci]), clip(&want));
            let (a, n) = (col.offset_index_offset.unwrap() as usize, col.offset_index_length.unwrap() as usize);
            ensure!(parse_offset_index(&bytes[a..a + n])?.0.page_locations == want, "offset-index-bytes", "{what}");
            c.nontrivial(c.nontrivial || want.len() > 1);
        }
        let subset: Vec<usize> = (0..chunks.len()).filter(|_| c.s.coin()).collect();
        let cols: Vec<ColumnChunkMetaData> = subset.iter().map(|i| md.row_groups[gi].columns()[*i].clone()).collect();
        let sub = read_pages_locations(&mut Cursor::new(&bytes), &cols)?;
        ensure_eq!(sub, subset.iter().map(|i| locs[*i].clone()).collect::<Vec<_>>(), "offset-index-subset", "columns {subset:?}");
        // the column indexes, against the declared statistics
        let idx = read_columns_indexes(&mut Cursor::new(&bytes), md.row_groups[gi].columns())?;
        if !f.options.write_statistics {
            ensure!(idx.is_empty(), "column-index-unwanted", "row group {gi}: {idx:?}");
            for col in &g.columns {
                ensure!(col.column_index_offset.is_none() && col.column_index_length.is_none(), "column-index-unwanted", "row group {gi}");
            }
            continue;
        }
        ensure_eq!(idx.len(), chunks.len(), "column-indexes", "row group {gi}: one per column");
        for (ci, (col, m)) in g.columns.iter().zip(chunks).enumerate() {
            let what = format!("row group {gi} column {ci}");
            let d = &f.schema.columns()[ci].descriptor;
            let (a, n) = match (col.column_index_offset, col.column_index_length) {
                (Some(a), Some(n)) => (a as usize, n as usize),
                x => fail!("column-index-missing", "{what}: {x:?}"),
            };
            let raw = parse_column_index(&bytes[a..a + n])?.0;
            let (got, order) = entries(idx[ci].as_ref(), &d.primitive_type)?;
            let want: Vec<Entry> = m
                .pages
                .iter()
                .map(|p| {
                    let s = p.stats.as_ref().unwrap();
                    (s.min_value.clone(), s.max_value.clone(), s.null_count)
                })
                .collect();
            ensure!(got == want, "column-index", "{what}: {:?} should be {:?}", clip(&got), clip(&want));
            ensure_eq!(raw.null_pages, m.pages.iter().map(|p| p.stats.as_ref().unwrap().min_value.is_none()).collect::<Vec<_>>(), "null-pages", "{what}");
            ensure_eq!(raw.null_counts, Some(want.iter().map(|x| x.2.unwrap()).collect::<Vec<_>>()), "null-counts", "{what}");
            for (i, w) in want.iter().enumerate() {
                if let (Some(a), Some(b)) = (&w.0, &w.1) {
                    ensure!(&raw.min_values[i] == a && &raw.max_values[i] == b, "column-index-bytes", "{what} page {i}");
                }
            }
            // an order that is claimed holds
            let bounded: Vec<&Entry> = want.iter().filter(|x| x.0.is_some()).collect();
            let sorted = |asc: bool| {
                bounded.windows(2).all(|w| {
                    [(&w[0].0, &w[1].0), (&w[0].1, &w[1].1)].iter().all(|(a, b)| {
                        let o = cmp_values(a.as_ref().unwrap(), b.as_ref().unwrap(), &d.primitive_type);
                        if asc {
                            o.is_le()
                        } else {
                            o.is_ge()
                        }
                    })
                })
            };
            let holds = match order {
                parquet2::indexes::BoundaryOrder::Unordered => true,
                parquet2::indexes::BoundaryOrder::Ascending => sorted(true),
                parquet2::indexes::BoundaryOrder::Descending => sorted(false),
            };
            ensure!(holds, "boundary-order", "{what}: claims {order:?}");
            c.evals += 1;
        }
        let sub = read_columns_indexes(&mut Cursor::new(&bytes), &cols)?;
        ensure!(sub.len() == subset.len() && sub.iter().zip(&subset).all(|(a, i)| same_index(a.as_ref(), idx[*i].as_ref(), &f.schema.columns()[*i].descriptor.primitive_type)), "column-index-subset", "columns {subset:?}");
    }
    // files without indexes
    let mut t2 = t.clone();
    for g in &mut t2.row_groups {
        for col in &mut g.columns {
            col.column_index_offset = None;
            col.column_index_length = None;
            col.offset_index_offset = None;
            col.offset_index_length = None;
        }
    }
    let md = FileMetaData::try_from_thrift(t2)?;
    for g in &md.row_groups {
        ensure!(read_columns_indexes(&mut Cursor::new(&bytes), g.columns())?.is_empty(), "index-absent", "column indexes from nothing");
        ensure!(read_pages_locations(&mut Cursor::new(&bytes), g.columns())?.is_empty(), "index-absent", "page locations from nothing");
    }
    Ok(())
}
/// equality of indexes, NaNs being equal to themselves
fn same_index(a: &dyn Index, b: &dyn Index, t: &PrimitiveType) -> bool {
    match (entries(a, t), entries(b, t)) {
        (Ok(a), Ok(b)) => a == b,
        _ => false,
    }
}
/// pages that lack what an index needs
fn p24_lacking(c: &mut Case) -> R {
    let mut f = gen_file(&mut c.s, &FileOpts { max_rows: 60, stats: Some(true), max_groups: 2, ..FileOpts::default() });
    let mut at = vec![];
    for (g, (_, chunks)) in f.groups.iter().enumerate() {
        for (k, ch) in chunks.iter().enumerate() {
            for p in 0..ch.pages.len() {
                at.push((g, k, p));
            }
        }
    }
    if at.is_empty() {
        return Ok(());
    }
    let (g, k, p) = c.s.pick(&at);
    if c.s.chance(1, 5) {
        // the number of rows is what the offset index is made of, statistics or not
        f.options.write_statistics = c.s.coin();
        let page = p + f.groups[g].1[k].dict.is_some() as usize;
        let t = Tamper { what: Wrong::NoRows, group: g, col: k, page };
        c.label("no number of rows");
        c.nontrivial(true);
        c.describe(|| format!("row group {g} column {k} page {p} has no number of rows; {}", describe_file(&f)));
        let sync = (|| {
            let mut w = FileWriter::new(vec![], f.schema.clone(), f.options, f.created_by.clone());
            for g in 0..f.groups.len() {
                w.write(tampered_group(&f, g, Some(&t)))?;
            }
            w.end(f.kv.clone())
        })();
        ensure!(sync.is_err(), "rowless-accepted", "a page without a number of rows is given a location");
        let mut w = FileStreamer::new(Shared::new(Plan::smooth()), f.schema.clone(), f.options, f.created_by.clone());
        let r = block(async {
            for g in 0..f.groups.len() {
                w.write(tampered_group(&f, g, Some(&t))).await?;
            }
            w.end(f.kv.clone()).await
        });
        ensure!(r.is_err(), "rowless-accepted", "a page without a number of rows is given a location by the asynchronous writer");
        return Ok(());
    }
    let page = &mut f.groups[g].1[k].pages[p];
    let n = page.num_values() as i64;
    let st = page.stats.as_mut().unwrap();
    let what = match c.s.below(5) {
        0 => {
            page.stats = None;
            "no statistics"
        }
        1 => {
            st.null_count = None;
            "no null count"
        }
        2 if st.min_value.is_some() => {
            st.max_value = None;
            "no maximum"
        }
        3 if st.min_value.is_some() && st.null_count < Some(n) => {
            st.min_value = None;
            "no minimum"
        }
        _ if st.null_count < Some(n) => {
            st.min_value = None;
            st.max_value = None;
            "no bounds, though it has values"
        }
        _ => return Ok(()),
    };
    c.label(what);
    c.nontrivial(true);
    c.describe(|| format!("row group {g} column {k} page {p} has {what}; {}", describe_file(&f)));
    let r = write_vec(&f).map(|b| b.len());
    ensure!(r.is_err(), "lacking-accepted", "a page with {what} is given an index");
    let r = write_streamed(&f).map(|b| b.len());
    ensure!(r.is_err(), "lacking-accepted", "a page with {what} is given an index by the asynchronous writer");
    // without statistics requested there is no column index to lack anything
    f.options.write_statistics = false;
    write_vec(&f)?;
    Ok(())
}

// ------------------------------------------------------------------ P32
/// indexes of other writers, anywhere in the file and with any legal content
fn p24_foreign(c: &mut Case) -> R {
    use super::fault::thrift_bytes;
    use parquet_format_safe as tf;
    let schema = gen_schema(&mut c.s, 4, 2);
    let cols = schema.columns();
    let n = cols.len();
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = c.s.below(i + 1);
        order.swap(i, j);
    }
    let mut file = b"PAR1".to_vec();
    let mut chunks: Vec<tf::ColumnChunk> = (0..n)
        .map(|_| super::meta::bloom_column(None).column_chunk().clone())
        .collect();
    let mut want: Vec<(Vec<Entry>, i32, Vec<PageLocation>)> = vec![(vec![], 0, vec![]); n];
    let lacking = if c.s.chance(1, 6) { Some((c.s.below(n), c.s.coin())) } else { None };
    // (column, what) of an index that has to be refused
    let bad = if c.s.chance(1, 4) { Some(c.s.below(n)) } else { None };
    let mut refused = None;
    for i in order {
        let t = &cols[i].descriptor.primitive_type;
        let p = t.physical_type;
        let k = if c.s.chance(1, 20) { c.s.size(4000) } else { c.s.size(12) };
        let of_nulls = c.s.chance(1, 4);
        let mut x = tf::ColumnIndex { null_pages: vec![], min_values: vec![], max_values: vec![], boundary_order: tf::BoundaryOrder(c.s.below(3) as i32), null_counts: c.s.coin().then(Vec::new) };
        let mut l = tf::OffsetIndex { page_locations: vec![] };
        for _ in 0..k {
            let null = of_nulls || c.s.chance(1, 5);
            let (a, b) = if null {
                // these have no meaning
                let mut v = || if c.s.chance(1, 8) { c.s.bytes_any(20) } else { vec![] };
                (v(), v())
            } else {
                (gen_value(&mut c.s, p), gen_value(&mut c.s, p))
            };
            let nulls = match c.s.below(4) {
                0 => 0,
                1 => c.s.below(1000) as i64,
                2 => (c.s.u64_any() >> 1) as i64,
                _ => c.s.pick(&[i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64, u32::MAX as i64 + 1, i64::MAX, 1 << 31]),
            };
            want[i].0.push((if null { None } else { Some(a.clone()) }, if null { None } else { Some(b.clone()) }, x.null_counts.as_ref().map(|_| nulls)));
            x.null_pages.push(null);
            x.min_values.push(a);
            x.max_values.push(b);
            if let Some(v) = &mut x.null_counts {
                v.push(nulls);
            }
            let loc = PageLocation { offset: (c.s.u64_any() >> 1) as i64, compressed_page_size: (c.s.u64_any() >> 33) as i32, first_row_index: (c.s.u64_any() >> 1) as i64 };
            want[i].2.push(loc.clone());
            l.page_locations.push(loc);
        }
        want[i].1 = x.boundary_order.0;
        if bad == Some(i) {
            refused = match c.s.below(5) {
                0 => {
                    x.boundary_order.0 = c.s.pick(&[-1, 3, 4, 256, i32::MAX, i32::MIN]);
                    Some("unknown boundary order")
                }
                1 => {
                    x.min_values.push(vec![]);
                    Some("another number of minima")
                }
                2 if k > 0 => {
                    x.max_values.pop();
                    Some("another number of maxima")
                }
                3 if x.null_counts.is_some() => {
                    x.null_counts.as_mut().unwrap().push(0);
                    Some("another number of null counts")
                }
                _ => match x.null_pages.iter().position(|x| !x) {
                    Some(j) if !matches!(p, PhysicalType::ByteArray | PhysicalType::FixedLenByteArray(_)) => {
                        let list = if c.s.coin() { &mut x.min_values } else { &mut x.max_values };
                        if c.s.coin() {
                            list[j].push(0);
                        } else {
                            list[j].pop();
                        }
                        Some("a bound of another size")
                    }
                    _ => None,
                },
            };
        }
        let mut put = |c: &mut Case, b: Vec<u8>| {
            if c.s.chance(1, 3) {
                file.extend(c.s.bytes_any(9));
            }
            file.extend(&b);
            (Some((file.len() - b.len()) as i64), Some(b.len() as i32))
        };
        let first = c.s.coin();
        for side in [first, !first] {
            let at = if side {
                put(c, thrift_bytes(|p| x.write_to_out_protocol(p).map(|_| ())))
            } else {
                put(c, thrift_bytes(|p| l.write_to_out_protocol(p).map(|_| ())))
            };
            if lacking == Some((i, side)) {
                continue;
            }
            let m = &mut chunks[i];
            if side {
                (m.column_index_offset, m.column_index_length) = at;
            } else {
                (m.offset_index_offset, m.offset_index_length) = at;
            }
        }
    }
    file.extend(b"PAR1");
    let md: Vec<ColumnChunkMetaData> = chunks.into_iter().zip(cols).map(|(x, d)| ColumnChunkMetaData::new(x, d.clone())).collect();
    c.describe(|| format!("indexes of {:?} with {:?} pages, lacking {lacking:?}, refused {refused:?}", cols.iter().map(|x| x.descriptor.primitive_type.physical_type).collect::<Vec<_>>(), want.iter().map(|x| x.2.len()).collect::<Vec<_>>()));
    c.nontrivial(n > 1 && want.iter().any(|x| x.2.len() > 1));
    c.label_if(lacking.is_some(), "a column without index");
    if let Some(x) = refused {
        c.label(x);
    }
    c.label_if(want.iter().any(|x| x.2.len() > 1000), "many pages");
    let mut r = Cursor::new(&file);
    let locs = read_pages_locations(&mut r, &md)?;
    if matches!(lacking, Some((_, false))) {
        ensure!(locs.is_empty(), "index-absent", "page locations of {} columns though one has none", locs.len());
    } else {
        ensure!(locs == want.iter().map(|x| x.2.clone()).collect::<Vec<_>>(), "foreign-offset-index", "{:?}", clip(&locs));
    }
    let idx = read_columns_indexes(&mut r, &md);
    if matches!(lacking, Some((_, true))) {
        let idx = idx?;
        ensure!(idx.is_empty(), "index-absent", "column indexes of {} columns though one has none", idx.len());
        return Ok(());
    }
    if let Some(x) = refused {
        ensure!(idx.is_err(), "foreign-accepted", "{x}: {:?}", clip(&idx));
        return Ok(());
    }
    let idx = idx?;
    ensure_eq!(idx.len(), n, "column-indexes");
    for (i, x) in idx.iter().enumerate() {
        let (got, order) = entries(x.as_ref(), &cols[i].descriptor.primitive_type)?;
        ensure!(got == want[i].0, "foreign-column-index", "column {i}: {:?} should be {:?}", clip(&got), clip(&want[i].0));
        ensure_eq!(order as i32, want[i].1, "foreign-boundary-order", "column {i}");
        c.evals += 1;
        // equality tells indexes apart
        for (j, y) in idx.iter().enumerate() {
            let (other, order2) = entries(y.as_ref(), &cols[j].descriptor.primitive_type)?;
            let (a, b) = (&cols[i].descriptor.primitive_type, &cols[j].descriptor.primitive_type);
            if a.physical_type == b.physical_type && a != b {
                continue;
            }
            if matches!(a.physical_type, PhysicalType::Float | PhysicalType::Double) {
                continue; // NaNs, and zeros of either sign
            }
            let same = a.physical_type == b.physical_type && got == other && order == order2;
            ensure_eq!(x.as_ref() == y.as_ref(), same, "index-equality", "columns {i} and {j}");
        }
    }
    Ok(())
}
fn p32_groups(c: &mut Case) -> R {
    let f = gen_file(&mut c.s, &FileOpts { max_rows: 30, max_fields: 3, ..FileOpts::default() });
    let bytes = write_vec(&f)?;
    let mut md = read_metadata(&mut Cursor::new(&bytes))?;
    let times = c.s.below(4);
    let one = md.row_groups.clone();
    for _ in 0..times {
        md.row_groups.extend(one.iter().cloned());
    }
    let n = md.row_groups.len();
    c.nontrivial(n > 1);
    c.describe(|| format!("{n} row groups"));
    let mask: Vec<bool> = (0..n).map(|_| c.s.coin()).collect();
    let min_rows = c.s.below(20);
    let by_rows = c.s.coin();
    let seen = Mutex::new(vec![]);
    let keep = |g: &parquet2::metadata::RowGroupMetaData, i: usize| {
        seen.lock().unwrap().push((i, format!("{g:?}")));
        if by_rows {
            g.num_rows() >= min_rows
        } else {
            mask.get(i).copied().unwrap_or(false)
        }
    };
    let out = filter_row_groups(&md, &keep);
    for (i, g) in seen.lock().unwrap().iter() {
        ensure!(*i < n && *g == format!("{:?}", md.row_groups[*i]), "predicate-arguments", "the predicate was given {i} with another row group");
    }
    let mut want = md.clone();
    want.row_groups = md.row_groups.iter().enumerate().filter(|(i, g)| if by_rows { g.num_rows() >= min_rows } else { mask[*i] }).map(|x| x.1.clone()).collect();
    same_metadata(&out, &want, "filtered metadata")?;
    // they still read
    for g in &out.row_groups {
        for col in g.columns() {
            for p in get_page_iterator(col, Cursor::new(&bytes), None, vec![], BIG)? {
                p?;
            }
        }
    }
    Ok(())
}
/// names that are prefixes of each other, or look like paths
fn gen_tricky(s: &mut Src, depth: usize, used: &mut Vec<String>, leaves: &mut usize) -> ParquetType {
    let names = ["a", "ab", "b", "a.b", "A", "", "a ", "b.a", "element", "a.b.c", "é", "aa"];
    let name = loop {
        let n = format!("{}{}", s.pick(&names), if used.len() > 6 { used.len().to_string() } else { String::new() });
        if !used.contains(&n) {
            used.push(n.clone());
            break n;
        }
    };
    let rep = s.pick(&REPS);
    *leaves += 1;
    if depth > 0 && s.coin() {
        let n = 1 + s.below(3);
        let mut inner = vec![];
        let fields = (0..n).map(|_| gen_tricky(s, depth - 1, &mut inner, leaves)).collect();
        return ParquetType::GroupType { field_info: FieldInfo { name, repetition: rep, id: None }, logical_type: None, converted_type: None, fields };
    }
    let p = s.pick(&[PhysicalType::Int32, PhysicalType::ByteArray, PhysicalType::Boolean]);
    let mut t = PrimitiveType::from_physical(name, p);
    t.field_info.repetition = rep;
    ParquetType::PrimitiveType(t)
}
fn p32_columns(c: &mut Case) -> R {
    let mut used = vec![];
    let mut leaves = 0;
    let n = 1 + c.s.below(6);
    let fields: Vec<ParquetType> = (0..n).map(|_| gen_tricky(&mut c.s, 3, &mut used, &mut leaves)).collect();
    let schema = SchemaDescriptor::new("s".into(), fields);
    let f = gen_file_for(&mut c.s, schema, &FileOpts { max_rows: 20, max_groups: 2, ..FileOpts::default() });
    label_file(c, &f);
    c.nontrivial(c.nontrivial && n > 1);
    c.describe(|| format!("fields {used:?}; {}", describe_file(&f)));
    let bytes = write_vec(&f)?;
    let md = read_metadata(&mut Cursor::new(&bytes))?;
    let mut names: Vec<String> = used.clone();
    for x in ["", "a", "a.b", "nothing", "c"] {
        if !names.iter().any(|n| n == x) {
            names.push(x.into());
        }
    }
    for (gi, g) in md.row_groups.iter().enumerate() {
        let chunks = &f.groups[gi].1;
        for name in &names {
            let want: Vec<usize> = (0..g.columns().len()).filter(|i| &f.schema.columns()[*i].path_in_schema[0] == name).collect();
            let got: Vec<&ColumnChunkMetaData> = get_field_columns(g.columns(), name).collect();
            ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| std::ptr::eq(*a, &g.columns()[*b])), "field-columns", "field {name:?}: {:?}, should be columns {want:?}", got.iter().map(|x| x.descriptor().path_in_schema.clone()).collect::<Vec<_>>());
            c.label_if(want.len() > 1, "field of several columns");
            // whatever columns they are among, in whatever order
            if c.s.coin() {
                let mut order: Vec<usize> = (0..g.columns().len()).filter(|_| c.s.chance(5, 6)).collect();
                for i in (1..order.len()).rev() {
                    let j = c.s.below(i + 1);
                    order.swap(i, j);
                }
                let some: Vec<ColumnChunkMetaData> = order.iter().map(|i| g.columns()[*i].clone()).collect();
                let want: Vec<usize> = (0..some.len()).filter(|i| &f.schema.columns()[order[*i]].path_in_schema[0] == name).collect();
                let got: Vec<&ColumnChunkMetaData> = get_field_columns(&some, name).collect();
                ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| std::ptr::eq(*a, &some[*b])), "field-columns", "field {name:?} among columns {order:?}: {:?}, should be those at {want:?}", got.iter().map(|x| x.descriptor().path_in_schema.clone()).collect::<Vec<_>>());
                let cols = read_columns(&mut Cursor::new(&bytes), &some, name)?;
                ensure_eq!(cols.len(), want.len(), "read-columns", "field {name:?} among columns {order:?}");
                for ((col, b), i) in cols.iter().zip(&want) {
                    let (a, n) = some[*i].byte_range();
                    ensure!(std::ptr::eq(*col, &some[*i]) && b[..] == bytes[a as usize..(a + n) as usize], "read-columns", "field {name:?} among columns {order:?}: column {i}");
                }
            }
            // their bytes
            let cols = read_columns(&mut Cursor::new(&bytes), g.columns(), name)?;
            ensure_eq!(cols.len(), want.len(), "read-columns", "field {name:?}");
            for ((col, b), i) in cols.iter().zip(&want) {
                let (a, n) = g.columns()[*i].byte_range();
                ensure!(std::ptr::eq(*col, &g.columns()[*i]) && b[..] == bytes[a as usize..(a + n) as usize], "read-columns", "field {name:?} column {i}");
            }
            // their pages, one column after the other
            let k = c.s.below(4);
            let filter = if k == 0 { None } else { Some(filter_of(k)) };
            let mut expect = vec![];
            for i in &want {
                let d = &f.schema.columns()[*i].descriptor;
                expect.push((*i, filtered(&chunks[*i], d, &filter)?));
            }
            let scratch = vec![1u8; c.s.size(50)];
            let it = get_column_iterator(Cursor::new(&bytes), g, name, filter.clone(), scratch, BIG);
            check_columns(it, &expect, g.columns(), &format!("field {name:?}"))?;
            let mut read = vec![];
            for i in &want {
                let pages: Vec<Result<CompressedPage, Error>> = get_page_iterator(&g.columns()[*i], Cursor::new(&bytes), filter.clone(), vec![], BIG)?.collect();
                read.push((pages, g.columns()[*i].clone()));
            }
            if let Some(field) = f.schema.fields().iter().find(|x| &x.get_field_info().name == name) {
                let it = ReadColumnIterator::new(field.clone(), read);
                check_columns(it, &expect, g.columns(), &format!("read field {name:?}"))?;
            }
            c.evals += 1;
        }
        // every column of the row group
        let mut expect = vec![];
        for (i, ch) in chunks.iter().enumerate() {
            expect.push((i, filtered(ch, &f.schema.columns()[i].descriptor, &None)?));
        }
        let it = ColumnIterator::new(Cursor::new(&bytes), g.columns().to_vec(), None, vec![], BIG);
        check_columns(it, &expect, g.columns(), "row group")?;
    }
    Ok(())
}
/// what a filter leaves of a chunk
fn filtered(m: &ChunkM, d: &Descriptor, f: &Option<PageFilter>) -> Result<Vec<Got>, Fail> {
    let all = expected(m, d)?;
    let Some(f) = f else { return Ok(all) };
    let mut at = 0;
    Ok(all
        .into_iter()
        .filter(|g| {
            g.dict || {
                at += 1;
                f(d, &m.pages[at - 1].header(d))
            }
        })
        .collect())
}
fn check_columns<P, I>(it: I, want: &[(usize, Vec<Got>)], columns: &[ColumnChunkMetaData], what: &str) -> R
where
    P: Iterator<Item = Result<CompressedPage, Error>>,
    I: MutStreamingIterator<Item = (P, ColumnChunkMetaData), Error = Error>,
{
    let mut it = it;
    ensure!(it.get().is_none(), "column-before-advance", "{what}");
    let mut at = 0;
    loop {
        match it.advance()? {
            State::Finished(_) => break,
            State::Some(mut x) => {
                ensure!(at < want.len(), "too-many-columns", "{what}: more than {} columns", want.len());
                let (i, pages) = &want[at];
                at += 1;
                let (p, md) = x.get().ok_or_else(|| Fail::new("no-column", what))?;
                ensure!(format!("{md:?}") == format!("{:?}", columns[*i]), "column-order", "{what}: column {at} should be {:?} but is {:?}", columns[*i].descriptor().path_in_schema, md.descriptor().path_in_schema);
                let got = collect(p, pages.len() + 1)?;
                check_got(&got, pages, &format!("{what} column {i}"))?;
                it = x;
            }
        }
    }
    ensure_eq!(at, want.len(), "number-of-columns", "{what}");
    Ok(())
}
/// page filters over few or thousands of pages
fn p32_pages(c: &mut Case) -> R {
    let rep = c.s.pick(&REPS);
    let p = c.s.pick(&[PhysicalType::Int32, PhysicalType::ByteArray, PhysicalType::Int64]);
    let mut t = PrimitiveType::from_physical("a".into(), p);
    t.field_info.repetition = rep;
    let schema = SchemaDescriptor::new("s".into(), vec![ParquetType::PrimitiveType(t)]);
    let d = schema.columns()[0].descriptor.clone();
    let top = if c.thorough { 60_000 } else { 12_000 };
    let n = match c.s.below(6) {
        0 => top / (1 + c.s.below(4)),
        1 => c.s.below(300),
        _ => 1 + c.s.below(12),
    };
    c.label_if(n > 1000, "thousands of pages");
    let v2 = c.s.coin();
    let dict = if c.s.coin() { Some(gen_dict(&mut c.s, p, 5)) } else { None };
    let mut r = c.s.rng();
    let codec = c.s.pick(&[CompressionOptions::Uncompressed, CompressionOptions::Snappy, CompressionOptions::Lz4Raw]);
    // pages numbered by their distinct count
    let pages: Vec<PageM> = (0..n)
        .map(|i| {
            let k = 1 + (r.next() % 3) as usize;
            let lv = vec![d.max_def_level as u64; k];
            let values: Vec<Vec<u8>> = (0..k)
                .map(|j| match p {
                    PhysicalType::Int32 => ((i * 3 + j) as i32).to_le_bytes().to_vec(),
                    PhysicalType::Int64 => ((i * 3 + j) as i64).to_le_bytes().to_vec(),
                    _ => vec![i as u8; j + 1],
                })
                .collect();
            let level = |m: i16| if m == 0 { vec![] } else { vec![(k as u8) << 1, d.max_def_level as u8] };
            PageM {
                v2,
                encoding: Encoding::Plain,
                rows: k,
                reps: vec![0; k],
                value_bytes: plain(&values, p),
                values,
                keys: vec![],
                rep_bytes: if d.max_rep_level == 0 { vec![] } else { vec![(k as u8) << 1, 0] },
                def_bytes: level(d.max_def_level),
                defs: lv,
                stats: Some(parquet_format_safe::Statistics { max: None, min: None, null_count: Some(0), distinct_count: Some(i as i64), max_value: None, min_value: None }),
                is_compressed: None,
                many: None,
            }
        })
        .collect();
    let rows = pages.iter().map(|x| x.rows).sum();
    let ch = ChunkM { dict, pages, codec, huge: vec![] };
    let f = FileM { schema, options: WriteOptions { write_statistics: false, version: Version::V2 }, created_by: None, kv: None, groups: vec![(rows, vec![ch])] };
    let bytes = write_vec(&f)?;
    let md = read_metadata(&mut Cursor::new(&bytes))?;
    let col = &md.row_groups[0].columns()[0];
    // which pages the filter keeps
    let (style, seed) = (c.s.below(6), c.s.raw());
    let one = c.s.below(n.max(1));
    let keep = move |i: usize| match style {
        0 => false,
        1 => i == one,
        2 => i + 1 == n,
        3 => i % 2 == 0,
        4 => i != one,
        _ => crate::src::Rng::new(seed ^ i as u64).next() % 2 == 0,
    };
    c.describe(|| format!("{n} pages, {codec:?}, filter {style} ({one})"));
    c.nontrivial(n > 2 && (0..n).any(|i| !keep(i)));
    let wrong = Arc::new(Mutex::new(None));
    let (w2, d2) = (wrong.clone(), d.clone());
    let headers: Vec<DataPageHeader> = f.groups[0].1[0].pages.iter().map(|p| p.header(&d)).collect();
    let filter: PageFilter = Arc::new(move |d: &Descriptor, h: &DataPageHeader| {
        let st = match h {
            DataPageHeader::V1(x) => x.statistics.as_ref(),
            DataPageHeader::V2(x) => x.statistics.as_ref(),
        };
        let i = st.and_then(|x| x.distinct_count).unwrap_or(-1) as usize;
        if d != &d2 {
            *w2.lock().unwrap() = Some(format!("another column's descriptor: {d:?}"));
        }
        if i >= headers.len() || format!("{h:?}") != format!("{:?}", headers[i]) {
            *w2.lock().unwrap() = Some(format!("a header that is not a page's: {h:?}"));
        }
        keep(i)
    });
    let m = &f.groups[0].1[0];
    let want = filtered(m, &d, &Some(filter.clone()))?;
    let cap = want.len() + 1;
    let way = c.s.below(5);
    let got = match way {
        0 => collect(get_page_iterator(col, Cursor::new(&bytes), Some(filter), vec![], BIG)?, cap)?,
        1 => {
            let it = ColumnIterator::new(Cursor::new(&bytes), vec![col.clone()], Some(filter), vec![], BIG);
            match it.advance()? {
                State::Some(mut x) => collect(&mut x.get().unwrap().0, cap)?,
                _ => fail!("no-column", "no column"),
            }
        }
        2 => {
            let mut src = Cursor::new(&bytes[..]);
            let mut src = futures::io::AllowStdIo::new(&mut src);
            block(async {
                let st = get_page_stream(col, &mut src, vec![], filter, BIG).await?;
                let st = Box::pin(st);
                let (v, e) = stream_until_error(st, cap).await?;
                match e {
                    Some(e) => Err(Fail::from(e)),
                    None => Ok(v),
                }
            })?
        }
        3 => {
            let (a, k) = col.byte_range();
            let mut src = futures::io::Cursor::new(&bytes[a as usize..(a + k) as usize]);
            block(async {
                let st = get_page_stream_from_column_start(col, &mut src, vec![], filter, BIG).await?;
                let mut st = Box::pin(st);
                let mut out = vec![];
                let mut buf = vec![];
                while let Some(p) = st.next().await {
                    out.push(flat(p?, &mut buf)?.0);
                    ensure!(out.len() <= cap, "too-many-pages", "more than {cap} pages");
                }
                Ok::<_, Fail>(out)
            })?
        }
        _ => {
            let (a, k) = col.byte_range();
            collect(PageReader::new(&bytes[a as usize..(a + k) as usize], col, filter, vec![], BIG), cap)?
        }
    };
    check_got(&got, &want, &format!("filtered pages (way {way})"))?;
    let w = wrong.lock().unwrap().take();
    if let Some(w) = w {
        fail!("filter-arguments", "the filter was given {w}");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P22",
            rule: "several pages and a selection (map); always (inconsistent); pages and intervals (arbitrary)",
            assumptions: &["a set of row intervals is sorted and disjoint; it may be empty, adjacent, hold empty intervals or reach beyond the rows"],
            parts: vec![
                Part { name: "map", f: p22_map, quick: 800000, thorough: 20000000 },
                Part { name: "inconsistent", f: p22_inconsistent, quick: 200000, thorough: 3000000 },
                Part { name: "arbitrary", f: p22_arbitrary, quick: 200000, thorough: 5000000 },
            ],
        },
        Prop {
            id: "P23",
            rule: "several intervals over a flat chunk of several pages (select); always (malformed)",
            assumptions: &["values are decoded and compared for flat columns; for nested columns pages, headers and selections are compared"],
            parts: vec![
                Part { name: "counted", f: p23_counted, quick: 6000, thorough: 200_000 },
                Part { name: "huge", f: super::huge::p23_huge, quick: 1600, thorough: 30_000 },
                Part { name: "select", f: p23_select, quick: 12_000, thorough: 600_000 },
                Part { name: "malformed", f: p23_malformed, quick: 12_000, thorough: 600_000 },
            ],
        },
        Prop {
            id: "P24",
            rule: "a chunk has several pages (exact); always (lacking)",
            assumptions: &["thrift structures are parsed with parquet-format-safe"],
            parts: vec![
                Part { name: "exact", f: p24_exact, quick: 15_000, thorough: 300_000 },
                Part { name: "counted", f: p24_counted, quick: 6000, thorough: 200_000 },
                Part { name: "lacking", f: p24_lacking, quick: 16_000, thorough: 300_000 },
                Part { name: "foreign", f: p24_foreign, quick: 50_000, thorough: 1_000_000 },
            ],
        },
        Prop {
            id: "P32",
            rule: "several row groups (groups); several fields with values (columns); a page is filtered out of more than two (pages)",
            assumptions: &["field names of one level are distinct"],
            parts: vec![
                Part { name: "groups", f: p32_groups, quick: 6_000, thorough: 300_000 },
                Part { name: "columns", f: p32_columns, quick: 3_000, thorough: 150_000 },
                Part { name: "pages", f: p32_pages, quick: 1_500, thorough: 40_000 },
            ],
        },
    ]
}

//! P36: which bytes of the source reading asks for.
use super::file::*;
use super::meta::{bloom_column, gen_bloom_file};
use crate::engine::*;
use crate::gen::*;
use crate::io::*;
use crate::src::Src;
use crate::{ensure, ensure_eq};
use futures::StreamExt;
use parquet2::bloom_filter;
use parquet2::metadata::ColumnChunkMetaData;
use parquet2::page::CompressedPage;
use parquet2::read::*;
use std::io::Cursor;
use std::sync::{Arc, Mutex};

type Touched = Arc<Mutex<Vec<(u64, u64)>>>;
fn plan(s: &mut Src) -> Plan {
    Plan { chunk: if s.coin() { 1 + s.below(400) } else { Plan::smooth().chunk }, ..Plan::smooth() }
}
/// what was read lies in one of the places
fn within(t: &Touched, places: &[(u64, u64)], what: &str) -> R {
    for (a, e) in t.lock().unwrap().iter() {
        ensure!(places.iter().any(|(x, y)| x <= a && e <= y), "other-bytes", "{what}: bytes {a}..{e} were read, none of which is in {places:?}");
    }
    Ok(())
}
/// exactly the bytes up to `end` were read, one after the other
fn exactly(t: &Touched, start: u64, end: u64, what: &str) -> R {
    let mut at = start;
    for (a, e) in t.lock().unwrap().iter() {
        ensure_eq!(*a, at, "order", "{what}: read at");
        at = *e;
    }
    ensure_eq!(at, end, "extent", "{what}: read up to");
    Ok(())
}
/// no byte was read twice
fn once(t: &Touched, what: &str) -> R {
    let mut v = t.lock().unwrap().clone();
    v.sort();
    for w in v.windows(2) {
        ensure!(w[0].1 <= w[1].0, "twice", "{what}: {:?} and {:?} were read", w[0], w[1]);
    }
    Ok(())
}
/// the ends of the pages of a chunk, found by scanning it
fn page_ends(bytes: &[u8], col: &ColumnChunkMetaData) -> Result<Vec<u64>, Fail> {
    let (a, n) = col.byte_range();
    let (mut at, end) = (a as usize, (a + n) as usize);
    let mut out = vec![];
    while at < end {
        let (h, n) = page_header(&bytes[at..end])?;
        at += n + h.compressed_page_size as usize;
        out.push(at as u64);
    }
    Ok(out)
}

fn p36_footer(c: &mut Case) -> R {
    let big = c.s.chance(1, 3);
    let (f, file) = if big {
        gen_footer_sized(&mut c.s)?
    } else {
        let f = gen_file(&mut c.s, &FileOpts { max_rows: 30, ..FileOpts::default() });
        let b = write_vec(&f)?;
        (f, b)
    };
    let (_, at) = thrift_footer(&file)?;
    let footer = (file.len() - at) as u64;
    let front = match c.s.weighted(&[40, 40, 1]) {
        0 => 70_000 + c.s.below(200_000),
        1 => c.s.size(3000),
        _ => 1 << c.s.range(20, 26),
    };
    let mut bytes = vec![0xabu8; front];
    bytes.extend(&file);
    let len = bytes.len() as u64;
    c.describe(|| format!("footer of {footer} bytes at the end of {len}: {}", describe_file(&f)));
    c.nontrivial(len > 65_536.max(footer));
    c.label_if(footer > 65_536, "long footer");
    let from = len.saturating_sub(footer.max(65_536));
    let p = plan(&mut c.s);
    for way in 0..3 {
        let mut src = Source::new(&bytes, p.clone());
        let t = src.touched.clone();
        src.pos = c.s.below(bytes.len()) as u64;
        let what = ["read_metadata", "read_metadata_with_size", "read_metadata_async"][way];
        no_panic(|| match way {
            0 => read_metadata(&mut src),
            1 => read_metadata_with_size(&mut src, len),
            _ => block(read_metadata_async(&mut src)),
        })??;
        within(&t, &[(from, len)], what)?;
        let total: u64 = t.lock().unwrap().iter().map(|(a, e)| e - a).sum();
        ensure!(total <= 65_536 + footer, "too-much", "{what}: {total} bytes read for a footer of {footer}");
    }
    Ok(())
}

fn p36_pages(c: &mut Case) -> R {
    let f = gen_file(&mut c.s, &FileOpts { max_rows: 150, ..FileOpts::default() });
    if f.groups.is_empty() {
        return Ok(());
    }
    label_file(c, &f);
    let bytes = write_vec(&f)?;
    let md = read_metadata(&mut Cursor::new(&bytes))?;
    c.describe(|| describe_file(&f));
    for (gi, g) in md.row_groups.iter().enumerate() {
        for (ci, col) in g.columns().iter().enumerate() {
            let what = format!("row group {gi} column {ci}");
            let (start, length) = col.byte_range();
            let ends = page_ends(&bytes, col)?;
            let p = plan(&mut c.s);
            let stop = c.s.below(ends.len() + 2);
            c.nontrivial(ends.len() > 1);
            c.label_if(stop < ends.len(), "stops early");

            // one page at a time, and nothing before it is asked for
            let src = Source::new(&bytes, p.clone());
            let t = src.touched.clone();
            let mut it = get_page_iterator(col, src, None, vec![], BIG)?;
            exactly(&t, start, start, &format!("{what}: opened"))?;
            let mut got = 0;
            while got < stop {
                let Some(x) = it.next() else { break };
                x?;
                ensure!(got < ends.len(), "too-many-pages", "{what}");
                exactly(&t, start, ends[got], &format!("{what}: page {got}"))?;
                got += 1;
            }
            let at = if got == 0 { start } else { ends[got - 1] };
            drop(it);
            exactly(&t, start, at, &format!("{what}: after {got} pages"))?;

            let mut src = Source::new(&bytes, p.clone());
            let t = src.touched.clone();
            block(async {
                let st = get_page_stream(col, &mut src, vec![], filter_of(0), BIG).await?;
                futures::pin_mut!(st);
                exactly(&t, start, start, &format!("{what}: stream opened"))?;
                for got in 0..stop {
                    let Some(x) = st.next().await else { break };
                    x?;
                    ensure!(got < ends.len(), "too-many-pages", "{what}");
                    exactly(&t, start, ends[got], &format!("{what}: page {got} of the stream"))?;
                }
                Ok(())
            })?;
            exactly(&t, start, at, &format!("{what}: stream after {got} pages"))?;

            // with a filter, which may drop any of them
            let k = c.s.below(5);
            let src = Source::new(&bytes, p.clone());
            let t = src.touched.clone();
            for x in get_page_iterator(col, src, Some(filter_of(k)), vec![], BIG)? {
                let _: CompressedPage = x?;
            }
            within(&t, &[(start, start + length)], &format!("{what}: filter {k}"))?;
            once(&t, &format!("{what}: filter {k}"))?;
            let mut src = Source::new(&bytes, p);
            let t = src.touched.clone();
            block(async {
                let st = get_page_stream(col, &mut src, vec![], filter_of(k), BIG).await?;
                futures::pin_mut!(st);
                while let Some(x) = st.next().await {
                    x?;
                }
                Ok::<_, Fail>(())
            })?;
            within(&t, &[(start, start + length)], &format!("{what}: stream, filter {k}"))?;
            once(&t, &format!("{what}: stream, filter {k}"))?;
            c.evals += 1;
        }
    }
    Ok(())
}

fn p36_columns(c: &mut Case) -> R {
    let f = gen_file(&mut c.s, &FileOpts { max_rows: 100, ..FileOpts::default() });
    if f.groups.is_empty() {
        return Ok(());
    }
    label_file(c, &f);
    let bytes = write_vec(&f)?;
    let md = read_metadata(&mut Cursor::new(&bytes))?;
    c.describe(|| describe_file(&f));
    let p = plan(&mut c.s);
    let data: &'static [u8] = Box::leak(bytes.clone().into_boxed_slice());
    for g in &md.row_groups {
        for fd in f.schema.fields() {
            let name = &fd.get_field_info().name;
            let ranges: Vec<(u64, u64)> = get_field_columns(g.columns(), name).map(|x| x.byte_range()).map(|(a, n)| (a, a + n)).collect();
            c.nontrivial(g.columns().len() > ranges.len());
            let mut src = Source::new(data, p.clone());
            let t = src.touched.clone();
            read_columns(&mut src, g.columns(), name)?;
            within(&t, &ranges, &format!("read_columns of {name:?}"))?;
            once(&t, &format!("read_columns of {name:?}"))?;
            let t: Touched = Default::default();
            let (all, q) = (t.clone(), p.clone());
            let factory = move || {
                let (all, q) = (all.clone(), q.clone());
                Box::pin(async move {
                    let mut x = Source::new(data, q);
                    x.touched = all;
                    Ok(x)
                }) as futures::future::BoxFuture<'static, std::io::Result<Source<'static>>>
            };
            block(read_columns_async(factory.clone(), g.columns(), name))?;
            within(&t, &ranges, &format!("read_columns_async of {name:?}"))?;
            once(&t, &format!("read_columns_async of {name:?}"))?;
            // column by column, as many pages as the columns have
            let src = Source::new(data, p.clone());
            let t = src.touched.clone();
            let mut it = get_column_iterator(src, g, name, None, vec![], BIG);
            let mut k = 0;
            loop {
                match it.advance()? {
                    State::Some(mut x) => {
                        if let Some((pages, _)) = x.get() {
                            for y in pages {
                                y?;
                            }
                        }
                        k += 1;
                        ensure!(k <= ranges.len(), "too-many-columns", "{name:?}");
                        within(&t, &ranges[..k], &format!("{name:?}: {k} columns"))?;
                        it = x;
                    }
                    State::Finished(_) => break,
                }
            }
            once(&t, &format!("column iterator of {name:?}"))?;
        }
    }
    // SAFETY: nothing borrows it any more
    drop(unsafe { Box::from_raw(data as *const [u8] as *mut [u8]) });
    Ok(())
}

fn p36_indexes(c: &mut Case) -> R {
    let f = gen_file(&mut c.s, &FileOpts { max_rows: 100, ..FileOpts::default() });
    label_file(c, &f);
    let bytes = write_vec(&f)?;
    let md = read_metadata(&mut Cursor::new(&bytes))?;
    c.describe(|| describe_file(&f));
    let p = plan(&mut c.s);
    for g in &md.row_groups {
        // some of the columns
        let cols: Vec<ColumnChunkMetaData> = g.columns().iter().filter(|_| c.s.chance(2, 3)).cloned().collect();
        let place = |o: Option<i64>, l: Option<i32>| o.zip(l).map(|(o, l)| (o as u64, o as u64 + l as u64));
        let column: Option<Vec<_>> = cols.iter().map(|x| place(x.column_chunk().column_index_offset, x.column_chunk().column_index_length)).collect();
        let offset: Option<Vec<_>> = cols.iter().map(|x| place(x.column_chunk().offset_index_offset, x.column_chunk().offset_index_length)).collect();
        c.nontrivial(cols.len() > 1 && column.is_some());
        for (what, ranges) in [("column indexes", column), ("offset indexes", offset)] {
            let mut src = Source::new(&bytes, p.clone());
            let t = src.touched.clone();
            let n = if what == "column indexes" { read_columns_indexes(&mut src, &cols)?.len() } else { read_pages_locations(&mut src, &cols)?.len() };
            let ranges = ranges.unwrap_or_default();
            ensure_eq!(n, ranges.len(), "count", "{what}");
            within(&t, &ranges, what)?;
            once(&t, what)?;
        }
    }
    // and a bloom filter
    let b = gen_bloom_file(&mut c.s);
    let mut src = Source::new(&b.bytes, p);
    let t = src.touched.clone();
    let mut set = vec![];
    bloom_filter::read(&b.column, &mut src, &mut set)?;
    exactly(&t, b.at as u64, (b.at + b.header_len + b.bitset.len()) as u64, "bloom filter")?;
    t.lock().unwrap().clear();
    bloom_filter::read(&bloom_column(None), &mut src, &mut set)?;
    within(&t, &[], "absent bloom filter")
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P36",
        rule: "a case is non-trivial when the file is longer than what is needed of it: data before the bytes of the footer (footer), a chunk of several pages (pages), further columns (columns), several columns with indexes (indexes)",
        assumptions: &["the footer's length is not known in advance: the last 64 KiB may be read to find it"],
        parts: vec![
            Part { name: "footer", f: p36_footer, quick: 5_000, thorough: 200_000 },
            Part { name: "pages", f: p36_pages, quick: 10_000, thorough: 400_000 },
            Part { name: "columns", f: p36_columns, quick: 10_000, thorough: 400_000 },
            Part { name: "indexes", f: p36_indexes, quick: 10_000, thorough: 400_000 },
        ],
    }]
}

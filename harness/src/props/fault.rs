//! P06, P08, P09: failing writers, truncated and failing sources, page-size limits.
use super::file::*;
use crate::engine::*;
use crate::gen::*;
use crate::io::*;
use crate::src::Src;
use crate::{ensure, ensure_eq, fail};
use futures::StreamExt;
use parquet2::error::Error;
use parquet2::indexes::Interval;
use parquet2::metadata::KeyValue;
use parquet2::page::CompressedPage;
use parquet2::read::*;
use parquet2::write::*;
use std::io::{Cursor, ErrorKind};

// ------------------------------------------------------------------ P06
enum Writer {
    Sync(Box<FileWriter<Shared>>),
    Async(Box<FileStreamer<Shared>>),
}
/// `None`: dropped before it was done
type Outcome<T> = Option<Result<T, Error>>;
impl Writer {
    fn new(f: &FileM, sink: Shared, asy: bool) -> Writer {
        if asy {
            Writer::Async(Box::new(FileStreamer::new(sink, f.schema.clone(), f.options, f.created_by.clone())))
        } else {
            Writer::Sync(Box::new(FileWriter::new(sink, f.schema.clone(), f.options, f.created_by.clone())))
        }
    }
    fn write(&mut self, g: RowGroupIter<'_, Error>, polls: Option<u64>) -> Outcome<()> {
        match self {
            Writer::Sync(w) => Some(w.write(g)),
            Writer::Async(w) => match polls {
                Some(n) => poll_some(w.write(g), n),
                None => Some(block(w.write(g))),
            },
        }
    }
    fn end(&mut self, kv: Option<Vec<KeyValue>>, polls: Option<u64>) -> Outcome<u64> {
        match self {
            Writer::Sync(w) => Some(w.end(kv)),
            Writer::Async(w) => match polls {
                Some(n) => poll_some(w.end(kv), n),
                None => Some(block(w.end(kv))),
            },
        }
    }
    fn metadata(&self) -> Option<Option<()>> {
        match self {
            Writer::Sync(w) => Some(w.metadata().map(|_| ())),
            Writer::Async(_) => None,
        }
    }
}
#[derive(Debug, Clone)]
enum Op {
    Write(usize),
    Tampered(Tamper),
    End,
}
/// what the tampering makes impossible: nothing, writing the group, or completing the file
#[derive(PartialEq, Debug)]
enum Forbids {
    Nothing,
    Write,
    End,
}
fn forbids(f: &FileM, t: &Tamper) -> Forbids {
    let ch = &f.groups[t.group].1[t.col];
    let n = ch.pages.len() + ch.dict.is_some() as usize;
    let data = n > 0 && !(t.page == 0 && ch.dict.is_some());
    match t.what {
        Wrong::PageError if n > 0 => Forbids::Write,
        Wrong::OtherCodec if n > 1 => Forbids::Write,
        Wrong::ColumnError | Wrong::MissingColumn => Forbids::Write,
        Wrong::OtherType if other_type_matters(ch, t.page) => Forbids::Write,
        Wrong::NoRows if data => {
            if t.col == 0 {
                Forbids::Write
            } else {
                Forbids::End
            }
        }
        Wrong::NoStats | Wrong::NoNullCount if data && f.options.write_statistics => Forbids::End,
        _ => Forbids::Nothing,
    }
}
fn fault_kind(s: &mut Src) -> ErrorKind {
    s.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe, ErrorKind::WriteZero, ErrorKind::WouldBlock, ErrorKind::InvalidInput])
}
/// a plan that fails somewhere within `ops` operations or `bytes` bytes
fn gen_fault(s: &mut Src, plan: &mut Plan, ops: u64, bytes: usize) {
    plan.kind = fault_kind(s);
    plan.once = s.coin();
    plan.partial = s.coin();
    if s.coin() {
        let k = if s.chance(1, 4) { ops.saturating_sub(1 + s.below(3) as u64) } else { s.below(ops as usize + 1) as u64 };
        plan.fail_at_op = Some(k);
    } else {
        let k = if s.chance(1, 4) { bytes.saturating_sub(s.below(13)) } else { s.below(bytes + 1) };
        plan.fail_at_byte = Some(k as u64);
    }
}
fn run_ops(c: &mut Case, f: &FileM, ops: &[(Op, Option<u64>)], plan: Plan, asy: bool) -> R {
    let sink = Shared::new(plan);
    let mut w = Writer::new(f, sink.clone(), asy);
    let mut accepted: Vec<usize> = vec![];
    let mut unusual = false;
    let mut never = false;
    let mut done: Option<Vec<u8>> = None;
    for (i, (op, polls)) in ops.iter().enumerate() {
        let what = format!("call {i} ({op:?})");
        if let (Some(b), _) = (&done, ()) {
            // complete: nothing may change any more
            let refused = match op {
                Op::Write(g) => w.write(group_iter(f, *g, false), None).unwrap().is_err(),
                Op::Tampered(t) => w.write(tampered_group(f, t.group, Some(t)), None).unwrap().is_err(),
                Op::End => w.end(f.kv.clone(), None).unwrap().is_err(),
            };
            ensure!(refused, "after-completion", "{what}: accepted after the file was completed");
            ensure!(&sink.data() == b, "bytes-after-completion", "{what}: changed the completed file");
            if let Some(m) = w.metadata() {
                ensure!(m.is_some(), "metadata-lost", "{what}: the metadata of the completed file is gone");
            }
            c.label("used after completion");
            continue;
        }
        let (failed, is_err) = match op {
            Op::Write(g) => {
                let r = w.write(group_iter(f, *g, i % 2 == 0), *polls);
                let failed = sink.take_failed();
                if let Some(Ok(())) = r {
                    accepted.push(*g);
                }
                (failed, r.map(|x| x.is_err()))
            }
            Op::Tampered(t) => {
                let r = w.write(tampered_group(f, t.group, Some(t)), *polls);
                let failed = sink.take_failed();
                if let Some(Ok(())) = r {
                    match forbids(f, t) {
                        Forbids::Write => fail!("wrong-group-accepted", "{what}: accepted"),
                        Forbids::End => never = true,
                        Forbids::Nothing => (),
                    }
                    accepted.push(t.group);
                    unusual = true;
                }
                (failed, r.map(|x| x.is_err()))
            }
            Op::End => {
                let r = w.end(f.kv.clone(), *polls);
                let failed = sink.take_failed();
                if let Some(Ok(n)) = r {
                    ensure!(!failed, "sink-error-lost", "{what}: the sink failed but the file is reported complete");
                    let bytes = sink.data();
                    ensure_eq!(n, bytes.len() as u64, "returned-size", "{what}");
                    ensure_eq!(sink.0.lock().unwrap().flushed, bytes.len(), "not-flushed", "{what}");
                    ensure!(!never, "wrong-page-completed", "{what}: completed a file with pages that lack what its indexes need");
                    let model = FileM { groups: accepted.iter().map(|g| f.groups[*g].clone()).collect(), ..f.clone() };
                    if unusual {
                        c.label("completed with unusual pages");
                        let md = read_metadata(&mut Cursor::new(&bytes))?;
                        ensure_eq!(md.row_groups.len(), model.groups.len(), "row-groups", "{what}");
                        for (g, (_, chunks)) in md.row_groups.iter().zip(&model.groups) {
                            for ((col, m), d) in g.columns().iter().zip(chunks).zip(f.schema.columns()) {
                                let want = expected(m, &d.descriptor)?.len();
                                let mut k = 0;
                                for p in get_page_iterator(col, Cursor::new(&bytes), None, vec![], BIG)? {
                                    p.map_err(|e| Fail::new("broken-completed-file", format!("{what}: page {k} of the completed file: {e:?}")))?;
                                    k += 1;
                                }
                                ensure_eq!(k, want, "number-of-pages", "{what}");
                            }
                        }
                    } else {
                        check_file(c, &model, &bytes, false).map_err(|e| Fail::new(format!("broken-completed-file {}", e.sig), format!("{what}: the completed file does not read back: {}", e.msg)))?;
                        c.label("completed");
                    }
                    if let Some(m) = w.metadata() {
                        ensure!(m.is_some(), "no-metadata", "{what}: no metadata after completion");
                    }
                    done = Some(bytes);
                }
                (failed, r.map(|x| x.is_err()))
            }
        };
        if failed {
            c.label("sink failed");
            ensure!(is_err != Some(false), "sink-error-lost", "{what}: the sink failed but the call succeeded");
        }
        c.label_if(is_err.is_none(), "cancelled");
        if done.is_none() {
            if let Some(m) = w.metadata() {
                ensure!(m.is_none(), "early-metadata", "{what}: metadata without a completed file");
            }
        }
    }
    Ok(())
}
fn gen_ops(s: &mut Src, f: &FileM, asy: bool, tamper: bool) -> Vec<(Op, Option<u64>)> {
    let mut ops = vec![];
    let n = f.groups.len();
    let cancel = asy && s.chance(1, 3);
    let polls = |s: &mut Src| if cancel && s.chance(1, 3) { Some(s.below(12) as u64) } else { None };
    for g in 0..n {
        if tamper && s.chance(1, 4) {
            if let Some(t) = gen_tamper(s, f) {
                let p = polls(s);
                ops.push((Op::Tampered(t), p));
            }
            if s.coin() {
                continue;
            }
        }
        if s.chance(1, 10) {
            continue;
        }
        let p = polls(s);
        ops.push((Op::Write(g), p));
    }
    let p = polls(s);
    ops.push((Op::End, p));
    for _ in 0..s.below(4) {
        let p = polls(s);
        ops.push(match s.below(4) {
            0 if n > 0 => (Op::Write(s.below(n)), p),
            _ => (Op::End, p),
        });
    }
    ops
}
fn small() -> FileOpts {
    FileOpts { max_rows: 40, max_fields: 4, depth: 3, max_groups: 3, ..FileOpts::default() }
}
fn p06_history(c: &mut Case) -> R {
    let o = FileOpts { stats: if c.s.coin() { Some(true) } else { None }, ..small() };
    let f = gen_file(&mut c.s, &o);
    let asy = c.s.coin();
    let tamper = c.s.coin();
    let ops = gen_ops(&mut c.s, &f, asy, tamper);
    let mut plan = Plan::gen(&mut c.s);
    if asy {
        plan.interrupt = 0;
    }
    if !tamper || c.s.coin() {
        // where the same calls go without a failure
        let smooth = Shared::new(plan.clone());
        let mut w = Writer::new(&f, smooth.clone(), asy);
        for (op, polls) in &ops {
            match op {
                Op::Write(g) => drop(w.write(group_iter(&f, *g, false), *polls)),
                Op::Tampered(t) => drop(w.write(tampered_group(&f, t.group, Some(t)), *polls)),
                Op::End => {
                    drop(w.end(f.kv.clone(), *polls));
                    break;
                }
            }
        }
        let (n, b) = (smooth.ops(), smooth.data().len());
        gen_fault(&mut c.s, &mut plan, n, b);
    }
    c.nontrivial(plan.fail_at_byte.is_some() || plan.fail_at_op.is_some() || tamper || ops.len() > f.groups.len() + 1);
    c.label(if asy { "asynchronous" } else { "blocking" });
    c.describe(|| format!("{ops:?} on a sink with {plan:?}, {}", describe_file(&f)));
    run_ops(c, &f, &ops, plan, asy)
}
/// every operation and (sampled) byte of one file fails once
fn p06_every(c: &mut Case) -> R {
    let f = gen_file(&mut c.s, &FileOpts { max_rows: 12, max_fields: 3, max_groups: 2, depth: 2, ..FileOpts::default() });
    let asy = c.s.coin();
    let mut ops: Vec<(Op, Option<u64>)> = (0..f.groups.len()).map(|g| (Op::Write(g), None)).collect();
    for _ in 0..2 {
        ops.push((Op::End, None));
    }
    let smooth = Shared::new(Plan::smooth());
    let mut w = Writer::new(&f, smooth.clone(), asy);
    for g in 0..f.groups.len() {
        w.write(group_iter(&f, g, true), None).unwrap()?;
    }
    w.end(f.kv.clone(), None).unwrap()?;
    let (n, b) = (smooth.ops(), smooth.data().len());
    c.nontrivial(n > 10);
    c.describe(|| format!("{n} operations and {b} bytes of {}", describe_file(&f)));
    let mut plan = Plan { once: c.s.coin(), partial: c.s.coin(), kind: fault_kind(&mut c.s), ..Plan::smooth() };
    let step = 1 + n / 60;
    let mut k = if step > 1 { c.s.below(step as usize) as u64 } else { 0 };
    while k < n {
        plan.fail_at_op = Some(k);
        run_ops(c, &f, &ops, plan.clone(), asy)?;
        c.evals += 1;
        k += step;
    }
    plan.fail_at_op = None;
    for _ in 0..30 {
        plan.fail_at_byte = Some(c.s.below(b) as u64);
        run_ops(c, &f, &ops, plan.clone(), asy)?;
        c.evals += 1;
    }
    Ok(())
}
fn p06_sidecar(c: &mut Case) -> R {
    let f = gen_file(&mut c.s, &small());
    let (_, _, meta) = write_file(&f, vec![], true)?;
    let smooth = Shared::new(Plan::smooth());
    let n = write_metadata_sidecar(&mut smooth.clone(), &meta)?;
    let (ops, bytes) = (smooth.ops(), smooth.data());
    ensure_eq!(n, bytes.len() as u64, "returned-size", "sidecar");
    let mut plan = Plan::gen(&mut c.s);
    gen_fault(&mut c.s, &mut plan, ops, bytes.len());
    c.nontrivial(true);
    c.describe(|| format!("sidecar of {n} bytes to a sink with {plan:?}"));
    let sink = Shared::new(plan);
    let r = write_metadata_sidecar(&mut sink.clone(), &meta);
    if sink.take_failed() {
        ensure!(r.is_err(), "sink-error-lost", "the sink failed but the sidecar is reported complete");
        c.label("sink failed");
    } else {
        ensure_eq!(r?, n, "returned-size", "sidecar");
        ensure!(sink.data() == bytes, "sidecar-bytes", "another sidecar");
    }
    Ok(())
}

// ------------------------------------------------------------------ P08
/// a digest of something delivered by a read
#[derive(Clone, Debug, PartialEq)]
struct Item(String);
fn item(g: Got) -> Item {
    Item(format!("{:?} {} values, {:?}/{:?} bytes, {:?}, rows {:?}, {} {:x}", g.header, g.n, g.csize, g.usize_, g.codec, g.sel, g.content.len(), crate::refimpl::xxh64(&g.content)))
}
type Read1 = (Vec<Item>, Option<Error>);
fn items(r: (Vec<Got>, Option<Error>)) -> Read1 {
    (r.0.into_iter().map(item).collect(), r.1)
}
fn one<T>(r: Result<T, Error>, f: impl FnOnce(T) -> String) -> Result<Read1, Fail> {
    Ok(match r {
        Ok(x) => (vec![Item(f(x))], None),
        Err(e) => (vec![], Some(e)),
    })
}
fn bytes_digest(b: &[u8]) -> String {
    format!("{} bytes {:x}", b.len(), crate::refimpl::xxh64(b))
}
const WAYS: usize = 15;
/// one way of reading part of a file, up to its first error
struct Reading<'a> {
    way: usize,
    md: &'a parquet2::metadata::FileMetaData,
    group: usize,
    col: usize,
    filter: usize,
    rows: Vec<Interval>,
    locations: &'a [parquet2::indexes::PageLocation],
    size: u64,
}
impl Reading<'_> {
    /// `starts`: a source already positioned at an offset
    fn run<'b>(&self, mut src: Source<'b>, start: impl Fn() -> Source<'b> + Clone) -> Result<(Read1, bool), Fail> {
        let failed = src.failed.clone();
        let g = &self.md.row_groups.get(self.group);
        let col = g.map(|g| &g.columns()[self.col]);
        let cap = 400;
        let all_failed = std::sync::Arc::new(std::sync::Mutex::new(vec![failed]));
        let r = match (self.way, g, col) {
            (0, _, Some(col)) => match get_page_iterator(col, &mut src, Some(filter_of(self.filter)), vec![], BIG) {
                Ok(it) => items(pages_until_error(it, cap)?),
                Err(e) => (vec![], Some(e)),
            },
            (1, _, Some(col)) => {
                src.pos = col.byte_range().0;
                items(pages_until_error(PageReader::new(&mut src, col, filter_of(self.filter), vec![1; 9], BIG), cap)?)
            }
            (2, _, Some(col)) => block(async {
                match get_page_stream(col, &mut src, vec![], filter_of(self.filter), BIG).await {
                    Ok(st) => {
                        futures::pin_mut!(st);
                        stream_until_error(st, cap).await.map(items)
                    }
                    Err(e) => Ok((vec![], Some(e))),
                }
            })?,
            (3, _, Some(col)) => block(async {
                src.pos = col.byte_range().0;
                let mut src = ReadOnly(src);
                let r = match get_page_stream_from_column_start(col, &mut src, vec![], filter_of(self.filter), BIG).await {
                    Ok(st) => {
                        futures::pin_mut!(st);
                        stream_until_error(st, cap).await.map(items)
                    }
                    Err(e) => Ok((vec![], Some(e))),
                };
                r
            })?,
            (4, Some(g), Some(col)) => {
                let pages = parquet2::indexes::select_pages(&self.rows, self.locations, g.num_rows())?;
                items(pages_until_error(IndexedPageReader::new(&mut src, col, pages, vec![], vec![]), cap)?)
            }
            (5, _, Some(col)) => one(read_column(&mut src, col), |b| bytes_digest(&b))?,
            (6, Some(g), Some(col)) => one(read_columns(&mut src, g.columns(), &col.descriptor().path_in_schema[0]), |v| v.iter().map(|x| bytes_digest(&x.1)).collect())?,
            (7, _, Some(col)) | (8, _, Some(col)) => {
                let af = all_failed.clone();
                let factory = move || {
                    let s = start();
                    af.lock().unwrap().push(s.failed.clone());
                    Box::pin(async move { Ok(s) }) as futures::future::BoxFuture<'b, std::io::Result<Source<'b>>>
                };
                if self.way == 7 {
                    one(block(read_column_async(factory, col)), |b| bytes_digest(&b))?
                } else {
                    one(block(read_columns_async(factory, g.unwrap().columns(), &col.descriptor().path_in_schema[0])), |v| v.iter().map(|x| bytes_digest(&x.1)).collect())?
                }
            }
            (9, Some(g), Some(col)) => {
                let chunks = if self.filter % 2 == 0 { std::slice::from_ref(col) } else { g.columns() };
                one(read_pages_locations(&mut src, chunks), |x| format!("{x:?}"))?
            }
            (10, Some(g), Some(col)) => {
                let chunks = if self.filter % 2 == 0 { std::slice::from_ref(col) } else { g.columns() };
                one(read_columns_indexes(&mut src, chunks), |x| format!("{x:?}"))?
            }
            (11, Some(g), Some(col)) => {
                let mut out = vec![];
                let mut it = get_column_iterator(&mut src, g, &col.descriptor().path_in_schema[0], Some(filter_of(self.filter)), vec![], BIG);
                let err = loop {
                    match it.advance() {
                        Err(e) => break Some(e),
                        Ok(State::Finished(_)) => break None,
                        Ok(State::Some(mut x)) => {
                            let (mut r, e) = items(pages_until_error(x.get().unwrap().0.by_ref(), cap)?);
                            out.append(&mut r);
                            if e.is_some() {
                                break e;
                            }
                            it = x;
                        }
                    }
                };
                (out, err)
            }
            (12, ..) => one(read_metadata(&mut src), |x| format!("{x:?}"))?,
            (13, ..) => one(block(read_metadata_async(&mut src)), |x| format!("{x:?}"))?,
            _ => one(read_metadata_with_size(&mut src, self.size), |x| format!("{x:?}"))?,
        };
        let failed = all_failed.lock().unwrap().iter().any(|x| x.load(std::sync::atomic::Ordering::Relaxed));
        Ok((r, failed))
    }
}
fn check_reading(full: &Read1, got: &Read1, what: &str) -> R {
    ensure!(got.0.len() <= full.0.len(), "more-data", "{what}: delivers {} items but {} exist", got.0.len(), full.0.len());
    for (i, (a, b)) in got.0.iter().zip(&full.0).enumerate() {
        ensure_eq!(a, b, "altered-data", "{what}: item {i}");
    }
    if got.1.is_none() {
        ensure!(got.0.len() == full.0.len(), "less-data", "{what}: ends after {} of {} items without an error", got.0.len(), full.0.len());
    }
    Ok(())
}
fn p08_source(c: &mut Case) -> R {
    let (f, bytes) = if c.s.chance(1, 40) {
        gen_footer_sized(&mut c.s)?
    } else {
        let o = FileOpts { max_rows: 120, max_groups: 2, ..FileOpts::default() };
        let f = gen_file(&mut c.s, &o);
        let b = write_vec(&f)?;
        (f, b)
    };
    let md = read_metadata(&mut Cursor::new(&bytes))?;
    label_file(c, &f);
    c.nontrivial = true;
    for _ in 0..4 {
        let way = if f.groups.is_empty() { 12 + c.s.below(3) } else { c.s.below(WAYS) };
        let (group, col) = if f.groups.is_empty() {
            (0, 0)
        } else {
            let g = c.s.below(f.groups.len());
            (g, c.s.below(f.schema.columns().len()))
        };
        let filter = c.s.below(8).saturating_sub(3);
        let mut r = Reading { way, md: &md, group, col, filter, rows: vec![], locations: &[], size: bytes.len() as u64 };
        if way == 10 && !f.options.write_statistics {
            continue;
        }
        let locations;
        // the bytes this reading is about
        let (mut from, mut to) = (0u64, bytes.len() as u64);
        if let Some(g) = md.row_groups.get(group) {
            let cc = &g.columns()[col];
            let (a, n) = cc.byte_range();
            locations = read_pages_locations(&mut Cursor::new(&bytes), std::slice::from_ref(cc))?.pop().unwrap_or_default();
            r.locations = &locations;
            if way == 4 {
                if locations.is_empty() || g.num_rows() == 0 {
                    continue;
                }
                r.rows = if c.s.coin() { vec![Interval::new(0, g.num_rows())] } else { vec![Interval::new(c.s.below(g.num_rows()), 1 + c.s.below(g.num_rows()))] };
            }
            let t = cc.column_chunk();
            let range = |o: Option<i64>, l: Option<i32>| o.map(|o| (o as u64, o as u64 + l.unwrap_or(0) as u64));
            let x = match way {
                9 => range(t.offset_index_offset, t.offset_index_length),
                10 => range(t.column_index_offset, t.column_index_length),
                12.. => None,
                _ => Some((a, a + n)),
            };
            if let Some(x) = x {
                (from, to) = x;
            } else if way >= 12 {
                from = to.saturating_sub(300);
            }
        }
        let (full, _) = r.run(Source::new(&bytes, Plan::smooth()), || Source::new(&bytes, Plan::smooth()))?;
        if let Some(e) = &full.1 {
            fail!("unexpected-error", "reading (way {way}) the whole file: {e:?}");
        }
        let mut plan = if c.s.coin() { Plan::gen(&mut c.s) } else { Plan::smooth() };
        let cut = from + c.s.below((to - from + 2) as usize) as u64;
        let what;
        let got = match c.s.below(3) {
            0 => {
                // the source ends early
                let cut = cut.min(bytes.len() as u64 - 1) as usize;
                if (way >= 12) && bytes[..cut].ends_with(b"PAR1") {
                    continue;
                }
                what = format!("way {way} of a file of {} bytes cut to {cut} (part from {from} to {to}, {plan:?})", bytes.len());
                c.label("truncated");
                let d = &bytes[..cut];
                let p = plan.clone();
                let (got, _) = r.run(Source::new(d, plan), move || Source::new(d, p.clone()))?;
                if way >= 12 {
                    ensure!(got.1.is_some(), "truncated-metadata", "{what}: metadata read");
                }
                if way < 4 && (cut as u64) < needed_end(&bytes, &md.row_groups[group].columns()[col])? {
                    // also when the rest would have been skipped
                    ensure!(got.1.is_some(), "truncated-pages", "{what}: no error (filter {filter})");
                }
                if way < 4 && filter == 0 {
                    // pages that are all there are delivered
                    let whole = whole_pages(&bytes, &md.row_groups[group].columns()[col], cut as u64)?.min(full.0.len());
                    ensure!(got.0.len() >= whole, "earlier-pages", "{what}: {} pages delivered but {whole} are complete", got.0.len());
                }
                got
            }
            k => {
                plan.kind = fault_kind(&mut c.s);
                plan.once = c.s.coin();
                if k == 1 {
                    plan.fail_at_byte = Some(cut);
                } else {
                    plan.fail_at_op = Some(c.s.size(if plan.chunk == 0 { 30 } else { 200 }) as u64);
                }
                what = format!("way {way} of a file of {} bytes (part from {from} to {to}) from a source with {plan:?}", bytes.len());
                let d = &bytes[..];
                let p = plan.clone();
                let (got, failed) = r.run(Source::new(d, plan), move || Source::new(d, p.clone()))?;
                c.label_if(failed, "source failed");
                if failed {
                    ensure!(got.1.is_some(), "source-error-lost", "{what}: the source failed but no error is reported");
                }
                if let (1, true) = (k, way < 4 && filter == 0) {
                    let whole = whole_pages(&bytes, &md.row_groups[group].columns()[col], cut)?.min(full.0.len());
                    ensure!(got.0.len() >= whole, "earlier-pages", "{what}: {} pages delivered but {whole} are complete", got.0.len());
                }
                got
            }
        };
        c.label_if(got.1.is_some(), "error");
        c.label_if(got.1.is_some() && !got.0.is_empty(), "data then an error");
        c.describe(|| what.clone());
        c.evals += 1;
        check_reading(&full, &got, &what)?;
    }
    Ok(())
}
/// end of the page with the last value
fn needed_end(bytes: &[u8], col: &parquet2::metadata::ColumnChunkMetaData) -> Result<u64, Fail> {
    let (a, n) = col.byte_range();
    let (mut at, end) = (a as usize, (a + n) as usize);
    let mut left = col.num_values();
    while at < end && left > 0 {
        let (h, l) = page_header(&bytes[at..end])?;
        at += l + h.compressed_page_size as usize;
        left -= match (&h.data_page_header, &h.data_page_header_v2) {
            (Some(x), _) => x.num_values as i64,
            (_, Some(x)) => x.num_values as i64,
            _ => 0,
        };
    }
    Ok(at as u64)
}
/// number of pages of the chunk that lie entirely before `cut`
fn whole_pages(bytes: &[u8], col: &parquet2::metadata::ColumnChunkMetaData, cut: u64) -> Result<usize, Fail> {
    let (a, n) = col.byte_range();
    let (mut at, end) = (a as usize, (a + n) as usize);
    let mut k = 0;
    while at < end {
        let (h, l) = page_header(&bytes[at..end])?;
        at += l + h.compressed_page_size as usize;
        if at as u64 > cut {
            break;
        }
        k += 1;
    }
    Ok(k)
}
fn p08_prefix(c: &mut Case) -> R {
    let f = gen_file(&mut c.s, &FileOpts { max_rows: 20, max_fields: 3, max_groups: 2, ..FileOpts::default() });
    let bytes = write_vec(&f)?;
    c.nontrivial(true);
    c.describe(|| format!("prefixes of {} bytes, {}", bytes.len(), describe_file(&f)));
    let n = bytes.len();
    let step = 1 + n / 250;
    let mut k = 0;
    while k < n {
        let p = &bytes[..k];
        let (a, b) = (read_metadata(&mut Cursor::new(p)).is_err(), block(read_metadata_async(&mut futures::io::Cursor::new(p))).is_err());
        if !p.ends_with(b"PAR1") || k < 12 {
            ensure!(a, "prefix-metadata", "metadata of the first {k} of {n} bytes read");
            ensure!(b, "prefix-metadata", "metadata of the first {k} of {n} bytes read asynchronously");
        }
        c.evals += 1;
        k += if k + 40 > n { 1 } else { step };
    }
    // the footer alone, cut
    let (_, at) = thrift_footer(&bytes)?;
    let footer = &bytes[at..n - 8];
    for _ in 0..20 {
        let k = c.s.below(footer.len());
        ensure!(deserialize_metadata(&footer[..k], 1 << 20).is_err(), "prefix-footer", "metadata deserialised from the first {k} of {} bytes", footer.len());
    }
    Ok(())
}
fn p08_bloom(c: &mut Case) -> R {
    let b = super::meta::gen_bloom_file(&mut c.s);
    let mut plan = if c.s.coin() { Plan::gen(&mut c.s) } else { Plan::smooth() };
    let end = b.at + b.header_len + b.bitset.len();
    let cut = b.at + c.s.below(end - b.at);
    let data = match c.s.below(3) {
        0 => &b.bytes[..cut],
        k => {
            plan.kind = fault_kind(&mut c.s);
            plan.once = c.s.coin();
            if k == 1 {
                plan.fail_at_byte = Some(cut as u64);
            } else {
                plan.fail_at_op = Some(c.s.below(20) as u64);
            }
            &b.bytes[..]
        }
    };
    c.describe(|| format!("filter of {} bytes at {} in {} bytes, {plan:?}", b.bitset.len(), b.at, data.len()));
    let mut src = Source::new(data, plan);
    let mut bitset = c.s.bytes(7);
    let r = parquet2::bloom_filter::read(&b.column, &mut src, &mut bitset);
    c.nontrivial(r.is_err());
    if src.take_failed() {
        ensure!(r.is_err(), "source-error-lost", "the source failed but no error is reported");
        c.label("source failed");
    }
    if r.is_ok() {
        ensure!(bitset == b.bitset, "less-data", "a bitset of {} bytes read instead of {}", bitset.len(), b.bitset.len());
    }
    Ok(())
}

// ------------------------------------------------------------------ P09
/// (header length, stored size) of each page of the chunk
fn page_sizes(bytes: &[u8], col: &parquet2::metadata::ColumnChunkMetaData) -> Result<Vec<(usize, usize)>, Fail> {
    let (a, n) = col.byte_range();
    let (mut at, end) = (a as usize, (a + n) as usize);
    let mut v = vec![];
    while at < end {
        let (h, l) = page_header(&bytes[at..end])?;
        at += l + h.compressed_page_size as usize;
        v.push((l, h.compressed_page_size as usize));
    }
    Ok(v)
}
fn p09_limit(c: &mut Case) -> R {
    let big = c.s.chance(1, 6);
    let o = FileOpts { max_rows: if big { 6000 } else { 300 }, max_groups: 2, max_fields: if big { 2 } else { 4 }, dict_max: if c.s.coin() { 20 } else { 300 }, ..FileOpts::default() };
    let f = gen_file(&mut c.s, &o);
    let bytes = write_vec(&f)?;
    let md = read_metadata(&mut Cursor::new(&bytes))?;
    label_file(c, &f);
    c.nontrivial = false;
    for (gi, g) in md.row_groups.iter().enumerate() {
        for (ci, col) in g.columns().iter().enumerate() {
            let want = expected(&f.groups[gi].1[ci], &f.schema.columns()[ci].descriptor)?;
            if want.is_empty() {
                continue;
            }
            let sizes = page_sizes(&bytes, col)?;
            let sizes = &sizes[..want.len().min(sizes.len())];
            let (_, x) = sizes[c.s.below(sizes.len())];
            let limit = match c.s.below(6) {
                0 | 1 => x,
                2 => x.saturating_sub(1),
                3 => x + 1,
                4 => sizes.iter().map(|x| x.1).max().unwrap() + c.s.below(2),
                _ => c.s.below(x * 2 + 50),
            };
            let header = sizes.iter().map(|x| x.0).max().unwrap();
            let limit = if limit < header && c.s.coin() { header } else { limit };
            // pages up to the first that is over the limit; under a limit below the header, fewer may do
            let upto = sizes.iter().position(|x| x.1 > limit).unwrap_or(sizes.len());
            let small = header > limit;
            let way = c.s.below(5);
            let filter = if c.s.chance(1, 4) { c.s.below(5) } else { 0 };
            let what = format!("row group {gi} column {ci} (way {way}, filter {filter}), pages of {:?}, limit {limit}", sizes.iter().map(|x| x.1).collect::<Vec<_>>());
            let cap = want.len() + 2;
            let fl = filter_of(filter);
            let (a, _) = col.byte_range();
            let (got, err) = match way {
                0 => pages_until_error(get_page_iterator(col, Cursor::new(&bytes), Some(fl.clone()), vec![], limit)?, cap)?,
                1 => pages_until_error(PageReader::new(&bytes[a as usize..], col, fl.clone(), c.s.bytes(9), limit), cap)?,
                2 => block(async {
                    let mut r = futures::io::Cursor::new(&bytes);
                    let st = get_page_stream(col, &mut r, vec![], fl.clone(), limit).await?;
                    futures::pin_mut!(st);
                    stream_until_error(st, cap).await
                })?,
                3 => block(async {
                    let mut r = &bytes[a as usize..];
                    let st = get_page_stream_from_column_start(col, &mut r, vec![], fl.clone(), limit).await?;
                    futures::pin_mut!(st);
                    stream_until_error(st, cap).await
                })?,
                _ => {
                    // behind other columns, whose pages are read in part
                    let mut cols: Vec<_> = (0..c.s.below(4)).map(|_| g.columns()[c.s.below(g.columns().len())].clone()).collect();
                    cols.push(col.clone());
                    let n = cols.len();
                    c.label_if(n > 1, "later column of an iterator");
                    let mut it = ColumnIterator::new(Cursor::new(&bytes), cols, Some(fl.clone()), c.s.bytes(9), limit);
                    let mut out = None;
                    for i in 0..n {
                        match it.advance()? {
                            State::Some(mut x) if i + 1 == n => {
                                out = Some(pages_until_error(x.get().unwrap().0.by_ref(), cap)?);
                                break;
                            }
                            State::Some(mut x) => {
                                for _ in 0..c.s.below(3) {
                                    let _ = x.get().unwrap().0.next();
                                }
                                it = x;
                            }
                            State::Finished(_) => fail!("column-iterator", "no column"),
                        }
                    }
                    out.unwrap()
                }
            };
            let d = &col.descriptor().descriptor;
            let ms = &f.groups[gi].1[ci];
            let nd = ms.dict.is_some() as usize;
            let keep: Vec<Got> = want[..upto].iter().enumerate().filter(|(i, w)| w.dict || fl(d, &ms.pages[i - nd].header(d))).map(|x| x.1.clone()).collect();
            if upto < sizes.len() {
                c.nontrivial = true;
                c.label(if upto == 0 { "first page over the limit" } else { "later page over the limit" });
                c.label_if(upto == 0 && nd == 1, "dictionary over the limit");
                ensure!(err.is_some(), "over-limit", "{what}: no error");
            }
            c.label_if(sizes.iter().any(|x| x.1 == limit), "page exactly at the limit");
            c.describe(|| what.clone());
            c.evals += 1;
            if small && err.is_some() {
                ensure!(got.len() <= keep.len(), "over-limit", "{what}: {} pages", got.len());
                check_got(&got, &keep[..got.len()], &what)?;
                c.label("limit below the header");
                continue;
            }
            check_got(&got, &keep, &what)?;
            if upto == sizes.len() {
                if let Some(e) = err {
                    fail!("within-limit", "{what}: {e:?}");
                }
            }
        }
    }
    Ok(())
}
/// hostile declarations must not make the reader allocate more than the limit allows
fn p09_declared(c: &mut Case) -> R {
    let f = gen_file(&mut c.s, &FileOpts { max_rows: 60, max_groups: 1, max_fields: 2, ..FileOpts::default() });
    let bytes = write_vec(&f)?;
    let md = read_metadata(&mut Cursor::new(&bytes))?;
    for g in &md.row_groups {
        for col in g.columns() {
            let sizes = page_sizes(&bytes, col)?;
            if sizes.is_empty() || col.num_values() == 0 {
                continue;
            }
            let (a, _) = col.byte_range();
            let k = c.s.below(sizes.len());
            let at = a as usize + sizes[..k].iter().map(|x| x.0 + x.1).sum::<usize>();
            let (mut h, l) = page_header(&bytes[at..])?;
            let limit = match c.s.below(4) {
                0 => sizes.iter().map(|x| x.0.max(x.1)).max().unwrap(),
                1 => 1 << 20,
                _ => 300 + c.s.below(100_000),
            };
            // over the limit, in one way or another
            let huge = limit + 1 + c.s.pick(&[0, 1, 1000, 1 << 20, 1 << 28, (1 << 31) - 2 - limit - 1 - 1]).min((i32::MAX as usize) - limit - 1);
            let kind = c.s.below(3);
            let mut extra = vec![];
            let hb = match kind {
                0 => {
                    h.compressed_page_size = huge as i32;
                    thrift_bytes(|p| h.write_to_out_protocol(p).map(|_| ()))
                }
                1 => {
                    h.compressed_page_size = huge as i32;
                    h.uncompressed_page_size = i32::MAX;
                    // the page is really there
                    if huge < 3 << 20 {
                        extra = vec![0u8; huge];
                    }
                    thrift_bytes(|p| h.write_to_out_protocol(p).map(|_| ()))
                }
                _ => {
                    // statistics longer than the limit, there or not
                    let n = huge.min(3 << 20);
                    let mut st = parquet_format_safe::Statistics { max: None, min: None, null_count: None, distinct_count: None, max_value: None, min_value: None };
                    st.max_value = Some(vec![1; n]);
                    match (&mut h.data_page_header, &mut h.data_page_header_v2) {
                        (Some(x), _) => x.statistics = Some(st),
                        (_, Some(x)) => x.statistics = Some(st),
                        _ => continue,
                    }
                    let mut b = thrift_bytes(|p| h.write_to_out_protocol(p).map(|_| ()));
                    if c.s.coin() {
                        b.truncate(60);
                    }
                    b
                }
            };
            let mut data = bytes[..at].to_vec();
            data.extend(hb);
            data.extend(extra);
            data.extend(&bytes[at + l..]);
            let way = c.s.below(3);
            let what = format!("way {way}: page {k} of {} declares {huge} (kind {kind}), limit {limit}", sizes.len());
            c.describe(|| what.clone());
            c.nontrivial(true);
            c.label(["stored size", "stored size, data there", "statistics"][kind]);
            let base: usize = 4 * (sizes.iter().map(|x| x.1).sum::<usize>() + 4096);
            let ((n, e), peak) = peak_during(|| {
                let mut n = 0;
                let mut e = None;
                match way {
                    0 => {
                        for p in get_page_iterator(col, Cursor::new(&data), None, vec![], limit).unwrap() {
                            match p {
                                Ok(_) => n += 1,
                                Err(x) => {
                                    e = Some(x);
                                    break;
                                }
                            }
                        }
                    }
                    _ => block(async {
                        let mut r = futures::io::Cursor::new(&data);
                        let st = get_page_stream(col, &mut r, vec![], filter_of(if way == 2 { 1 } else { 0 }), limit).await.unwrap();
                        futures::pin_mut!(st);
                        while let Some(p) = st.next().await {
                            match p {
                                Ok(_) => n += 1,
                                Err(x) => {
                                    e = Some(x);
                                    break;
                                }
                            }
                        }
                    }),
                }
                (n, e)
            });
            // trailing empty pages need not be read
            let seen: i64 = md_values(&bytes, a as usize, &sizes[..k])?;
            if seen >= col.num_values() {
                continue;
            }
            ensure!(e.is_some(), "over-limit", "{what}: no error, {n} pages");
            ensure!(n <= k, "over-limit", "{what}: {n} pages delivered");
            ensure!(peak <= base + 2 * limit + (64 << 10), "allocation", "{what}: {peak} bytes allocated");
        }
    }
    Ok(())
}
fn md_values(bytes: &[u8], mut at: usize, sizes: &[(usize, usize)]) -> Result<i64, Fail> {
    let mut n = 0;
    for (a, b) in sizes {
        let (h, _) = page_header(&bytes[at..])?;
        n += h.data_page_header.map(|x| x.num_values).or(h.data_page_header_v2.map(|x| x.num_values)).unwrap_or(0) as i64;
        at += a + b;
    }
    Ok(n)
}
pub fn thrift_bytes(f: impl FnOnce(&mut parquet_format_safe::thrift::protocol::TCompactOutputProtocol<&mut Vec<u8>>) -> parquet_format_safe::thrift::Result<()>) -> Vec<u8> {
    let mut b = vec![];
    let mut p = parquet_format_safe::thrift::protocol::TCompactOutputProtocol::new(&mut b);
    f(&mut p).unwrap();
    drop(p);
    b
}

pub fn props() -> Vec<Prop> {
    let _: Option<(CompressedPage, Interval)> = None;
    vec![Prop {
        id: "P06",
        rule: "non-trivial: the sink fails, something supplied is wrong, a call is cancelled, or the writer is used after completion",
        assumptions: &["a sink that fails once and then works again, accepts part of a write, or accepts nothing is as legitimate as one that fails for good"],
        parts: vec![
            Part { name: "history", f: p06_history, quick: 60000, thorough: 2000000 },
            Part { name: "every-point", f: p06_every, quick: 1500, thorough: 60000 },
            Part { name: "sidecar", f: p06_sidecar, quick: 20000, thorough: 400000 },
        ],
    },
    Prop {
        id: "P08",
        rule: "non-trivial: every reading of a truncated or failing source (bloom: those that end in an error)",
        assumptions: &["a source that fails once and then works again is as legitimate as one that fails for good", "prefixes that end in the magic bytes are skipped"],
        parts: vec![
            Part { name: "source", f: p08_source, quick: 100000, thorough: 800000 },
            Part { name: "prefix", f: p08_prefix, quick: 1500, thorough: 50000 },
            Part { name: "bloom", f: p08_bloom, quick: 50000, thorough: 1000000 },
        ],
    },
    Prop {
        id: "P09",
        rule: "non-trivial: some page is over the limit",
        assumptions: &["under a limit below the size of a page header, reading may fail earlier"],
        parts: vec![Part { name: "limit", f: p09_limit, quick: 25000, thorough: 800000 }, Part { name: "declared", f: p09_declared, quick: 20000, thorough: 400000 }],
    }]
}

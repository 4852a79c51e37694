//! Files of many gigabytes: their pages are zeros that nobody touches, in memory that is not there.
use super::file::*;
use crate::engine::*;
use crate::gen::*;
use crate::io::*;
use crate::src::Src;
use crate::{ensure, ensure_eq};
use futures::StreamExt;
use parquet2::compression::CompressionOptions;
use parquet2::indexes::{select_pages, Interval};
use parquet2::metadata::FileMetaData;
use parquet2::read::*;
use parquet2::write::*;
use std::io::{Cursor, Write};
use std::pin::Pin;
use std::task::{Context, Poll};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}
/// a sparse file: zeros where nothing was written
pub struct Giant {
    at: *mut u8,
    cap: usize,
    pub len: usize,
}
impl Giant {
    pub fn new(cap: usize) -> Option<Giant> {
        // PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
        let at = unsafe { mmap(std::ptr::null_mut(), cap, 3, 0x2 | 0x20 | 0x4000, -1, 0) };
        (at as isize != -1).then_some(Giant { at, cap, len: 0 })
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.at, self.len) }
    }
    /// makes what follows be written at `pos`
    pub fn skip_to(&mut self, pos: usize) {
        assert!(pos <= self.cap);
        self.len = pos;
    }
}
impl Drop for Giant {
    fn drop(&mut self) {
        unsafe { munmap(self.at, self.cap) };
    }
}
impl Write for Giant {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.len() > self.cap - self.len {
            return Err(std::io::ErrorKind::StorageFull.into());
        }
        // large writes are zeros
        if b.len() < 1 << 24 {
            unsafe { std::slice::from_raw_parts_mut(self.at.add(self.len), b.len()) }.copy_from_slice(b);
        }
        self.len += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl futures::io::AsyncWrite for Giant {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        Poll::Ready(self.write(b))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
unsafe impl Send for Giant {}
unsafe impl Sync for Giant {}

const MAX: usize = i32::MAX as usize;
const CAP: usize = 24 << 30;
/// a file some of whose pages are huge, or None where there are no pages or no address space;
/// whether a page does not fit its header
fn gen_huge(c: &mut Case, stats: Option<bool>) -> Option<(FileM, Giant, bool)> {
    let s = &mut c.s;
    let mut f = gen_file(s, &FileOpts { max_rows: 60, max_groups: 3, stats, ..FileOpts::default() });
    let places: Vec<(usize, usize, usize)> =
        f.groups.iter().enumerate().flat_map(|(gi, g)| g.1.iter().enumerate().flat_map(move |(ci, ch)| (0..ch.pages.len() + ch.dict.is_some() as usize).map(move |p| (gi, ci, p)))).collect();
    if places.is_empty() {
        return None;
    }
    let too_large = s.chance(1, 16);
    let n = 1 + s.below(6);
    let mut total = 0usize;
    for i in 0..n {
        // mostly towards the start
        let k = if i < 2 { s.below(places.len().min(3)) } else { s.below(places.len()) };
        let (g, ci, p) = places[k];
        let ch = &mut f.groups[g].1[ci];
        if ch.huge.iter().any(|x| x.0 == p) {
            continue;
        }
        let size = |s: &mut Src| match s.below(4) {
            0 => MAX,
            1 => MAX - s.below(40),
            2 => (1 << 30) + s.below(1 << 20),
            _ => (1 << 24) + s.below(1 << 29),
        };
        // the index of pages counts the header too
        let mut stored = size(s).min(MAX - (1 << 16) - s.below(40));
        let mut declared = if ch.codec == CompressionOptions::Uncompressed { stored } else { size(s) };
        if too_large && i == 0 {
            // the dictionary has no location
            let over = MAX + (ch.dict.is_some() && p == 0) as usize + s.below(2) * s.pick(&[0usize, 1, 99, 1 << 20]);
            match s.below(3) {
                0 => stored = over,
                1 => declared = over.max(MAX + 1),
                _ => (stored, declared) = (over, over),
            }
        }
        total += stored;
        ch.huge.push((p, stored, declared));
    }
    c.label_if(total > 1 << 31, "more than 2 GiB");
    c.label_if(total > 1 << 32, "more than 4 GiB");
    c.label_if(too_large, "too large a page");
    c.nontrivial(total > 1 << 31);
    c.describe(|| format!("{total} bytes in huge pages {:?} of {}", f.groups.iter().flat_map(|g| &g.1).map(|x| x.huge.clone()).collect::<Vec<_>>(), describe_file(&f)));
    let giant = Giant::new(CAP);
    c.label_if(giant.is_none(), "no address space");
    Some((f, giant?, too_large))
}
pub fn p02_huge(c: &mut Case) -> R {
    let Some((f, giant, too_large)) = gen_huge(c, None) else { return Ok(()) };
    let r = write_file(&f, giant, false);
    if too_large {
        ensure!(r.is_err(), "too-large-accepted", "a page that its header cannot describe is written");
        return Ok(());
    }
    let (n, giant, meta) = r?;
    ensure_eq!(n, giant.len as u64, "returned-size");
    let t = scan(&f, giant.bytes())?;
    ensure_eq!(meta, t, "writer-metadata", "metadata exposed by the writer");
    Ok(())
}
pub fn p03_huge(c: &mut Case) -> R {
    let Some((f, giant, too_large)) = gen_huge(c, None) else { return Ok(()) };
    let r = write_file(&f, giant, false);
    let Some(other) = Giant::new(CAP) else { return Ok(()) };
    let mut w = FileStreamer::new(other, f.schema.clone(), f.options, f.created_by.clone());
    let m = block(async {
        for g in 0..f.groups.len() {
            w.write(group_iter(&f, g, false)).await?;
        }
        w.end(f.kv.clone()).await
    });
    if too_large {
        ensure!(r.is_err() && m.is_err(), "too-large-accepted", "a page that its header cannot describe is written");
        return Ok(());
    }
    let (n, giant, _) = r?;
    let other = w.into_inner();
    ensure_eq!(m?, n, "async-size", "size returned by the asynchronous writer");
    ensure_eq!(other.len, giant.len, "async-bytes", "length of the asynchronous writer's file");
    // what lies between the huge pages
    let md = read_metadata(&mut Cursor::new(giant.bytes()))?;
    same_metadata(&read_metadata(&mut Cursor::new(other.bytes()))?, &md, "asynchronous writer")?;
    scan(&f, other.bytes())?;
    Ok(())
}
/// chunks that do not hold a huge page, and pages of chunks that do
fn check_far(c: &mut Case, asynchronous: bool) -> R {
    let Some((f, giant, too_large)) = gen_huge(c, Some(true)) else { return Ok(()) };
    if too_large {
        return Ok(());
    }
    let (_, giant, _) = write_file(&f, giant, false)?;
    let bytes = giant.bytes();
    let md = if asynchronous { block(read_metadata_async(&mut Source::new(bytes, Plan::smooth())))? } else { read_metadata(&mut Cursor::new(bytes))? };
    check_metadata(&f, &md)?;
    for (gi, g) in md.row_groups.iter().enumerate() {
        for (ci, col) in g.columns().iter().enumerate() {
            let m = &f.groups[gi].1[ci];
            let d = &f.schema.columns()[ci].descriptor;
            let what = format!("row group {gi} column {ci}");
            let far = col.byte_range().0 > u32::MAX as u64;
            if m.huge.is_empty() {
                let want = expected(m, d)?;
                let cap = want.len() + 2;
                c.label_if(far && !want.is_empty(), "chunk after 4 GiB");
                if asynchronous {
                    let plan = Plan::gen(&mut c.s);
                    let mut src = Source::new(bytes, plan);
                    let (got, e) = block(async {
                        let st = get_page_stream(col, &mut src, vec![], filter_of(0), 1 << 26).await?;
                        futures::pin_mut!(st);
                        let mut got = vec![];
                        let mut buf = vec![];
                        while let Some(p) = st.next().await {
                            ensure!(got.len() <= cap, "too-many-pages", "{what}: more than {cap} pages");
                            match p {
                                Ok(p) => got.push(flat(p, &mut buf)?.0),
                                Err(e) => return Ok((got, Some(e))),
                            }
                        }
                        Ok::<_, Fail>((got, None))
                    })?;
                    ensure!(e.is_none(), "unexpected-error", "{what}: {e:?}");
                    check_got(&got, &want, &what)?;
                    // the whole chunk, by its name
                    let (a, n) = col.byte_range();
                    let data: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(bytes) };
                    let factory = move || Box::pin(async move { Ok(Source::new(data, Plan::smooth())) }) as futures::future::BoxFuture<'static, std::io::Result<Source<'static>>>;
                    let b = block(read_column_async(factory, col))?;
                    ensure!(b[..] == bytes[a as usize..(a + n) as usize], "async-column-bytes", "{what}: other bytes");
                } else {
                    for way in 0..4 {
                        let got = read_chunk(&mut c.s, bytes, col, way, cap)?;
                        check_got(&got, &want, &format!("{what} way {way}"))?;
                    }
                }
            } else if !asynchronous {
                // refused before it takes any memory
                let (r, peak) = peak_during(|| pages_until_error(get_page_iterator(col, Cursor::new(bytes), None, vec![], 1 << 23)?, m.pages.len() + 2));
                let (_, e) = r?;
                let last = m.pages.iter().rposition(|p| p.num_values() > 0).map(|x| x + m.dict.is_some() as usize);
                if m.huge.iter().any(|x| Some(x.0) <= last) {
                    ensure!(e.is_some(), "limit-ignored", "{what}: a page of gigabytes passes a limit of 8 MiB");
                }
                ensure!(peak < 1 << 27, "memory", "{what}: refusing a page takes {peak} bytes");
            }
            c.evals += 1;
        }
    }
    Ok(())
}
pub fn p01_huge(c: &mut Case) -> R {
    check_far(c, false)
}
pub fn p04_huge(c: &mut Case) -> R {
    check_far(c, true)
}
/// the index of a file of many gigabytes, and the pages that are not huge through it
pub fn p23_huge(c: &mut Case) -> R {
    let Some((f, giant, too_large)) = gen_huge(c, Some(true)) else { return Ok(()) };
    if too_large {
        return Ok(());
    }
    let (_, giant, _) = write_file(&f, giant, false)?;
    let bytes = giant.bytes();
    let md: FileMetaData = read_metadata(&mut Cursor::new(bytes))?;
    for (gi, g) in md.row_groups.iter().enumerate() {
        let rows = g.num_rows();
        let locs = read_pages_locations(&mut Cursor::new(bytes), g.columns())?;
        ensure_eq!(locs.len(), g.columns().len(), "locations", "one list per column");
        for (ci, col) in g.columns().iter().enumerate() {
            let m = &f.groups[gi].1[ci];
            let d = &f.schema.columns()[ci].descriptor;
            let what = format!("row group {gi} column {ci}");
            let first = m.dict.is_some() as usize;
            // walk the pages of the chunk
            let mut at = col.byte_range().0 as usize;
            let mut row = 0;
            let mut iv = vec![];
            let mut want = vec![];
            let all = expected(m, d)?;
            ensure_eq!(locs[ci].len(), m.pages.len(), "locations", "{what}");
            for i in 0..m.pages.len() + first {
                let (h, n) = page_header(&bytes[at..])?;
                let size = n + h.compressed_page_size as usize;
                if i >= first {
                    let l = &locs[ci][i - first];
                    ensure_eq!((l.offset, l.compressed_page_size as i64, l.first_row_index), (at as i64, size as i64, row as i64), "location", "{what} page {i}");
                    let k = m.pages[i - first].rows;
                    if !m.huge.iter().any(|x| x.0 == i) && k > 0 && c.s.chance(2, 3) {
                        iv.push(Interval::new(row, k));
                        want.extend(all.get(i).cloned().map(|x| Got { sel: Some(vec![Interval::new(0, k)]), ..x }));
                        c.label_if(at > u32::MAX as usize, "page after 4 GiB");
                    }
                    row += k;
                }
                at += size;
            }
            ensure_eq!(row, rows, "rows", "{what}");
            if m.huge.iter().any(|x| x.0 < first) || iv.is_empty() {
                continue;
            }
            if first == 1 {
                want.insert(0, all[0].clone());
            }
            let pages = select_pages(&iv, &locs[ci], rows)?;
            let (r, peak) = peak_during(|| collect(IndexedPageReader::new(Cursor::new(bytes), col, pages, vec![], vec![]), want.len() + 2));
            check_got(&r?, &want, &what)?;
            ensure!(peak < 1 << 27, "memory", "{what}: reading small pages takes {peak} bytes");
            c.evals += 1;
        }
    }
    Ok(())
}

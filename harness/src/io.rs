//! Sources and sinks that split, delay, interrupt or fail, blocking and asynchronous.
use crate::src::{Rng, Src};
use futures::io::{AsyncRead, AsyncSeek, AsyncWrite};
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};

/// how a source or sink misbehaves
#[derive(Clone, Debug)]
pub struct Plan {
    /// largest number of bytes moved per call; 0: no limit
    pub chunk: usize,
    /// sizes vary from call to call
    pub vary: bool,
    /// one in `interrupt` calls reports ErrorKind::Interrupted (blocking only); 0: never
    pub interrupt: u64,
    /// one in `pending` polls is pending (async only); 0: never
    pub pending: u64,
    pub seed: u64,
    /// operation (counting reads, writes, flushes and seeks) that fails with an I/O error
    pub fail_at_op: Option<u64>,
    /// byte offset (of the source or sink) from which reads or writes fail
    pub fail_at_byte: Option<u64>,
    /// a write that reaches `fail_at_byte` accepts the bytes before it first
    pub partial: bool,
    /// fails only once, then works again
    pub once: bool,
    pub kind: ErrorKind,
}
impl Plan {
    pub fn smooth() -> Plan {
        Plan { chunk: 0, vary: false, interrupt: 0, pending: 0, seed: 0, fail_at_op: None, fail_at_byte: None, partial: true, once: false, kind: ErrorKind::Other }
    }
    pub fn gen(s: &mut Src) -> Plan {
        Plan {
            chunk: match s.below(5) {
                0 => 0,
                1 => 1,
                2 => 1 + s.below(9),
                3 => 1 + s.below(200),
                _ => 1 + s.below(70_000),
            },
            vary: s.coin(),
            interrupt: s.pick(&[0, 0, 2, 5, 17]),
            pending: s.pick(&[0, 2, 3, 7]),
            seed: s.raw(),
            ..Plan::smooth()
        }
    }
    pub fn splits(&self) -> bool {
        self.chunk > 0 || self.interrupt > 0
    }
}
struct St {
    plan: Plan,
    rng: Rng,
    ops: u64,
    interrupted: bool,
    /// so many interruptions follow this one
    burst: u64,
}
impl St {
    fn new(plan: Plan) -> St {
        St { rng: Rng::new(plan.seed), plan, ops: 0, interrupted: false, burst: 0 }
    }
    fn op(&mut self) -> Result<()> {
        let k = self.ops;
        self.ops += 1;
        if self.plan.fail_at_op.map(|x| k >= x).unwrap_or(false) {
            if self.plan.once {
                self.plan.fail_at_op = None;
            }
            return Err(Error::new(self.plan.kind, "injected"));
        }
        Ok(())
    }
    fn interrupt(&mut self) -> Result<()> {
        if self.burst > 0 {
            self.burst -= 1;
            return Err(Error::new(ErrorKind::Interrupted, "again"));
        }
        if self.plan.interrupt > 0 && !self.interrupted && self.rng.next() % self.plan.interrupt == 0 {
            self.interrupted = true;
            let r = self.rng.next();
            // mostly one alone
            self.burst = match r % 64 {
                0 => r / 64 % 300,
                1..=4 => r / 64 % 10,
                _ => 0,
            };
            return Err(Error::new(ErrorKind::Interrupted, "again"));
        }
        self.interrupted = false;
        Ok(())
    }
    /// how many of `want` bytes at offset `pos` to move now
    fn amount(&mut self, pos: u64, want: usize) -> Result<usize> {
        let mut n = want;
        if self.plan.chunk > 0 {
            let c = if self.plan.vary { 1 + (self.rng.next() % self.plan.chunk as u64) as usize } else { self.plan.chunk };
            n = n.min(c);
        }
        if let Some(f) = self.plan.fail_at_byte {
            if want > 0 && (pos >= f || (!self.plan.partial && pos + n as u64 > f)) {
                if self.plan.once {
                    self.plan.fail_at_byte = None;
                }
                return Err(Error::new(self.plan.kind, "injected"));
            }
            n = n.min((f - pos) as usize);
        }
        Ok(n)
    }
    fn pending(&mut self, cx: &mut Context<'_>) -> bool {
        if self.plan.pending > 0 && !self.interrupted && self.rng.next() % self.plan.pending == 0 {
            self.interrupted = true;
            cx.waker().wake_by_ref();
            return true;
        }
        self.interrupted = false;
        false
    }
}

pub struct Source<'a> {
    pub data: &'a [u8],
    pub pos: u64,
    st: St,
    /// bytes handed out so far, and the highest offset touched
    pub read: Arc<AtomicU64>,
    pub touched: Arc<std::sync::Mutex<Vec<(u64, u64)>>>,
    /// an injected failure was reported
    pub failed: Arc<AtomicBool>,
}
impl<'a> Source<'a> {
    pub fn new(data: &'a [u8], plan: Plan) -> Self {
        Source { data, pos: 0, st: St::new(plan), read: Default::default(), touched: Default::default(), failed: Default::default() }
    }
    fn do_read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let r = self.try_read(buf);
        if r.is_err() {
            self.failed.store(true, Ordering::Relaxed);
        }
        r
    }
    pub fn take_failed(&self) -> bool {
        self.failed.swap(false, Ordering::Relaxed)
    }
    pub fn ops(&self) -> u64 {
        self.st.ops
    }
    fn try_read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.st.op()?;
        let avail = (self.data.len() as u64).saturating_sub(self.pos) as usize;
        let want = avail.min(buf.len());
        // a read that wants to go past the failing byte fails even if the source ends there
        if let Some(f) = self.st.plan.fail_at_byte {
            if !buf.is_empty() && self.pos >= f {
                if self.st.plan.once {
                    self.st.plan.fail_at_byte = None;
                }
                return Err(Error::new(self.st.plan.kind, "injected"));
            }
        }
        let n = self.st.amount(self.pos, want)?;
        if n == 0 {
            return Ok(0);
        }
        buf[..n].copy_from_slice(&self.data[self.pos as usize..self.pos as usize + n]);
        if n > 0 {
            self.touched.lock().unwrap().push((self.pos, self.pos + n as u64));
        }
        self.pos += n as u64;
        self.read.fetch_add(n as u64, Ordering::Relaxed);
        Ok(n)
    }
    fn do_seek(&mut self, p: SeekFrom) -> Result<u64> {
        if let Err(e) = self.st.op() {
            self.failed.store(true, Ordering::Relaxed);
            return Err(e);
        }
        let np = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => self.data.len() as i128 + x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
        };
        if np < 0 || np > u64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek before the start"));
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}
impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.st.interrupt()?;
        self.do_read(buf)
    }
}
impl Seek for Source<'_> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.do_seek(p)
    }
}
impl AsyncRead for Source<'_> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
        if self.st.pending(cx) {
            return Poll::Pending;
        }
        Poll::Ready(self.do_read(buf))
    }
}
impl AsyncSeek for Source<'_> {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, p: SeekFrom) -> Poll<Result<u64>> {
        if self.st.pending(cx) {
            return Poll::Pending;
        }
        Poll::Ready(self.do_seek(p))
    }
}

/// a source that only reads
pub struct ReadOnly<'a>(pub Source<'a>);
impl Read for ReadOnly<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.0.read(buf)
    }
}
impl AsyncRead for ReadOnly<'_> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
        Pin::new(&mut self.0).poll_read(cx, buf)
    }
}

pub struct Sink {
    pub data: Vec<u8>,
    pub flushed: usize,
    st: St,
    pub failed: bool,
}
impl Sink {
    pub fn new(plan: Plan) -> Self {
        Sink { data: vec![], flushed: 0, st: St::new(plan), failed: false }
    }
    pub fn ops(&self) -> u64 {
        self.st.ops
    }
    fn do_write(&mut self, buf: &[u8]) -> Result<usize> {
        let r = self.st.op().and_then(|_| self.st.amount(self.data.len() as u64, buf.len()));
        match r {
            Ok(n) => {
                self.data.extend_from_slice(&buf[..n]);
                Ok(n)
            }
            Err(e) => {
                self.failed = true;
                // a sink that is full may say so by accepting nothing
                if e.kind() == ErrorKind::WriteZero && !buf.is_empty() {
                    return Ok(0);
                }
                Err(e)
            }
        }
    }
    fn do_flush(&mut self) -> Result<()> {
        if let Err(e) = self.st.op() {
            self.failed = true;
            return Err(e);
        }
        self.flushed = self.data.len();
        Ok(())
    }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.st.interrupt()?;
        self.do_write(buf)
    }
    fn flush(&mut self) -> Result<()> {
        self.do_flush()
    }
}
impl AsyncWrite for Sink {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        if self.st.pending(cx) {
            return Poll::Pending;
        }
        Poll::Ready(self.do_write(buf))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        if self.st.pending(cx) {
            return Poll::Pending;
        }
        Poll::Ready(self.do_flush())
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        self.poll_flush(cx)
    }
}

/// a sink that can be looked at while a writer owns it
#[derive(Clone)]
pub struct Shared(pub Arc<std::sync::Mutex<Sink>>);
impl Shared {
    pub fn new(plan: Plan) -> Self {
        Shared(Arc::new(std::sync::Mutex::new(Sink::new(plan))))
    }
    pub fn data(&self) -> Vec<u8> {
        self.0.lock().unwrap().data.clone()
    }
    pub fn ops(&self) -> u64 {
        self.0.lock().unwrap().ops()
    }
    pub fn take_failed(&self) -> bool {
        std::mem::take(&mut self.0.lock().unwrap().failed)
    }
}
impl Write for Shared {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.0.lock().unwrap().write(buf)
    }
    fn flush(&mut self) -> Result<()> {
        self.0.lock().unwrap().flush()
    }
}
impl AsyncWrite for Shared {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        Pin::new(&mut *self.0.lock().unwrap()).poll_write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut *self.0.lock().unwrap()).poll_flush(cx)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut *self.0.lock().unwrap()).poll_close(cx)
    }
}
/// polls a future up to `n` times, then drops it
pub fn poll_some<F: std::future::Future>(f: F, n: u64) -> Option<F::Output> {
    let waker = futures::task::noop_waker();
    let mut cx = Context::from_waker(&waker);
    let mut f = Box::pin(f);
    for _ in 0..n {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return Some(x);
        }
    }
    None
}

/// drives a future to completion
pub fn block<F: std::future::Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}

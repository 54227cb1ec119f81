//! Executor and symbolic I/O endpoints.
use crate::{check, sym};
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite, SeekFrom};
use std::future::Future;
use std::io::{Error, ErrorKind};
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::task::{Context, Poll, Waker};

pub const F: u32 = 1;

/// Number of `Pending`s injected so far; a `Pending` out of the code under test that no endpoint caused is a hang.
static INJECTED: AtomicU32 = AtomicU32::new(0);

/// Drives a future to completion, polling again after each `Pending`.
pub fn run<F_: Future>(f: F_) -> F_::Output {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    loop {
        let before = INJECTED.load(Relaxed);
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return v,
            Poll::Pending => check!(F, INJECTED.load(Relaxed) != before),
        }
    }
}

/// Drives a future; at each `Pending`, it may be dropped instead of being polled again.
pub fn run_or_drop<F_: Future>(f: F_) -> Option<F_::Output> {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    loop {
        let before = INJECTED.load(Relaxed);
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return Some(v),
            Poll::Pending => check!(F, INJECTED.load(Relaxed) != before),
        }
        if sym::flip() {
            return None;
        }
    }
}

/// Like `run`, for futures that yield on their own.
pub fn run_yield<F_: Future>(f: F_) -> F_::Output {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    let mut n = 0;
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        n += 1;
        check!(F, n < 100); // progress
    }
}

/// What an endpoint may do besides serving a request completely: every choice is symbolic, each kind has a budget.
#[derive(Clone, Copy, Default)]
pub struct Sched {
    /// Pendings left to inject.
    pub pend: u8,
    /// Short transfers left to inject.
    pub short: u8,
    /// Largest short transfer, in bytes (its size is chosen in 1..=short_max).
    pub short_max: u8,
    /// I/O errors left to inject (0 or 1).
    pub err: u8,
    /// The kind of an injected error is unexpected end of file.
    pub eof: bool,
    /// From now on accept nothing (left to inject: 0 or 1).
    pub stop: u8,
    pub stopped: bool,
    /// Not ready before every operation.
    pub lazy: bool,
    /// At most so many bytes per transfer, if not zero.
    pub cap: usize,
    pub yielded: bool,
}

static FAILED: AtomicU32 = AtomicU32::new(0);
/// Whether an endpoint has failed an operation (or stopped accepting bytes).
pub fn failed() -> bool {
    FAILED.load(Relaxed) != 0
}

impl Sched {
    pub const NONE: Sched =
        Sched { pend: 0, short: 0, short_max: 1, err: 0, eof: false, stop: 0, stopped: false, lazy: false, cap: 0, yielded: false };
    /// Not ready before every operation and at most one byte per transfer.
    pub const WORST: Sched = Sched { lazy: true, cap: 1, ..Sched::NONE };
    pub fn pending(n: u8) -> Sched {
        Sched { pend: n, ..Sched::NONE }
    }
    pub fn short(n: u8, max: u8) -> Sched {
        Sched { short: n, short_max: max, ..Sched::NONE }
    }
    pub fn capped(n: usize) -> Sched {
        Sched { cap: n, ..Sched::NONE }
    }
    pub fn error() -> Sched {
        Sched { err: 1, ..Sched::NONE }
    }
    pub fn stopping() -> Sched {
        Sched { stop: 1, ..Sched::NONE }
    }
    fn accept(&mut self, n: usize) -> usize {
        if self.stop > 0 && n > 0 && sym::flip() {
            self.stop = 0;
            self.stopped = true;
        }
        if self.stopped {
            FAILED.store(1, Relaxed);
            return 0;
        }
        self.clip(n)
    }
    pub(crate) fn gate(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        if self.lazy {
            self.yielded = !self.yielded;
            if self.yielded {
                INJECTED.fetch_add(1, Relaxed);
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        if self.pend > 0 && sym::flip() {
            self.pend -= 1;
            INJECTED.fetch_add(1, Relaxed);
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if self.err > 0 && sym::flip() {
            self.err -= 1;
            FAILED.store(1, Relaxed);
            return Poll::Ready(Err(if self.eof { ErrorKind::UnexpectedEof } else { ErrorKind::ConnectionAborted }.into()));
        }
        Poll::Ready(Ok(()))
    }
    pub(crate) fn clip(&mut self, n: usize) -> usize {
        if self.cap > 0 {
            return n.min(self.cap);
        }
        if n > 1 && self.short > 0 && sym::flip() {
            self.short -= 1;
            let k = 1 + if self.short_max > 1 { sym::pick(self.short_max) } else { 0 };
            return k.min(n);
        }
        n
    }
}

/// A schedule that replaces that of every sink from now on (for endpoints that are out of reach).
static mut ARMED: Option<Sched> = None;
pub fn arm(s: &Sched) {
    // SAFETY: harnesses are single-threaded.
    unsafe { ARMED = Some(*s) }
}

/// A readable, seekable source over owned bytes.
pub struct Src {
    pub data: Vec<u8>,
    pub pos: u64,
    pub s: Sched,
}

impl Src {
    pub fn new(data: Vec<u8>, s: Sched) -> Src {
        Src { data, pos: 0, s }
    }
    fn rest(&self) -> &[u8] {
        let n = self.data.len() as u64;
        let p = if self.pos < n { self.pos } else { n };
        &self.data[p as usize..]
    }
}

impl AsyncRead for Src {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut [u8]) -> Poll<Result<usize, Error>> {
        match self.s.gate(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            _ => {}
        }
        let n = self.rest().len().min(out.len());
        let n = self.s.clip(n);
        out[..n].copy_from_slice(&self.rest()[..n]);
        self.pos += n as u64;
        Poll::Ready(Ok(n))
    }
}

impl AsyncBufRead for Src {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<&[u8], Error>> {
        let this = self.get_mut();
        match this.s.gate(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            _ => {}
        }
        let n = this.rest().len();
        let n = this.s.clip(n);
        Poll::Ready(Ok(&this.rest()[..n]))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) {
        self.pos += n as u64;
    }
}

impl AsyncSeek for Src {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> Poll<Result<u64, Error>> {
        match self.s.gate(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            _ => {}
        }
        let p = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(d) => (self.data.len() as u64).checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        Poll::Ready(match p {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(ErrorKind::InvalidInput.into()),
        })
    }
}

/// A readable, seekable source of a symbolic (64-bit) length: the given pieces at their positions, zeros between them.
pub struct Far {
    pub parts: Vec<(u64, Vec<u8>)>,
    pub pos: u64,
}

static ZEROS: [u8; 64] = [0; 64];

impl Far {
    fn len(&self) -> u64 {
        let (at, d) = &self.parts[self.parts.len() - 1];
        at + d.len() as u64
    }
    fn rest(&self) -> &[u8] {
        for (at, d) in self.parts.iter() {
            if self.pos < *at {
                let n = (at - self.pos).min(64);
                return &ZEROS[..sym::conc(n) as usize];
            }
            if self.pos - at < d.len() as u64 {
                return &d[sym::conc(self.pos - at) as usize..];
            }
        }
        &[]
    }
}

impl AsyncRead for Far {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, out: &mut [u8]) -> Poll<Result<usize, Error>> {
        let n = self.rest().len().min(out.len());
        out[..n].copy_from_slice(&self.rest()[..n]);
        self.pos += n as u64;
        Poll::Ready(Ok(n))
    }
}

impl AsyncBufRead for Far {
    fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<&[u8], Error>> {
        Poll::Ready(Ok(self.get_mut().rest()))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) {
        self.pos += n as u64;
    }
}

impl AsyncSeek for Far {
    fn poll_seek(mut self: Pin<&mut Self>, _: &mut Context<'_>, to: SeekFrom) -> Poll<Result<u64, Error>> {
        let p = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(d) => self.len().checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        Poll::Ready(match p {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(ErrorKind::InvalidInput.into()),
        })
    }
}

/// A sink collecting what is written.  Contents-free (phantom) writes are counted and recorded as gaps.
pub struct Sink {
    pub data: Vec<u8>,
    /// Virtual length, including gaps.
    pub len: u64,
    /// (position in `data`, length) of each gap.
    pub gaps: Vec<(usize, u64)>,
    pub closes: u32,
    pub flushes: u32,
    pub s: Sched,
}

impl Sink {
    pub fn new(s: Sched) -> Sink {
        Sink { data: Vec::with_capacity(512), len: 0, gaps: Vec::new(), closes: 0, flushes: 0, s }
    }
}

impl AsyncWrite for Sink {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize, Error>> {
        // SAFETY: harnesses are single-threaded.
        if let Some(s) = unsafe { (*std::ptr::addr_of_mut!(ARMED)).take() } {
            self.s = s;
        }
        match self.s.gate(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            _ => {}
        }
        if sym::is_phantom(b) {
            let at = self.data.len();
            self.gaps.push((at, b.len() as u64));
            self.len += b.len() as u64;
            return Poll::Ready(Ok(b.len()));
        }
        let n = self.s.accept(b.len());
        self.data.extend_from_slice(&b[..n]);
        self.len += n as u64;
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        match self.s.gate(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            _ => {}
        }
        self.flushes += 1;
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        self.closes += 1;
        Poll::Ready(Ok(()))
    }
}

// ------------------------------------------------------------------------------------------- the same for tokio's traits

impl tokio::io::AsyncRead for Src {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut tokio::io::ReadBuf<'_>) -> Poll<Result<(), Error>> {
        let n = std::task::ready!(AsyncRead::poll_read(self, cx, out.initialize_unfilled()))?;
        out.advance(n);
        Poll::Ready(Ok(()))
    }
}

impl tokio::io::AsyncBufRead for Src {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<&[u8], Error>> {
        AsyncBufRead::poll_fill_buf(self, cx)
    }
    fn consume(self: Pin<&mut Self>, n: usize) {
        AsyncBufRead::consume(self, n)
    }
}

impl tokio::io::AsyncSeek for Src {
    fn start_seek(mut self: Pin<&mut Self>, to: SeekFrom) -> Result<(), Error> {
        let p = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(d) => (self.data.len() as u64).checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        self.pos = p.ok_or_else(|| Error::from(ErrorKind::InvalidInput))?;
        Ok(())
    }
    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<u64, Error>> {
        match self.s.gate(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            _ => {}
        }
        Poll::Ready(Ok(self.pos))
    }
}

impl tokio::io::AsyncWrite for Sink {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize, Error>> {
        AsyncWrite::poll_write(self, cx, b)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        AsyncWrite::poll_flush(self, cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        AsyncWrite::poll_close(self, cx)
    }
}

/// n bytes that differ from their neighbours and from those a power of two away.
pub fn ramp(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push((i as u8) ^ ((i >> 8) as u8).wrapping_mul(37) ^ ((i >> 16) as u8).wrapping_mul(101));
    }
    v
}

//! A source of bytes with a schedule, and driving readers.
use super::util::*;
use crate::sx;
use futures_lite::io::{AsyncBufRead, AsyncRead};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::task::{Context, Poll, Waker};

pub static PENDS: AtomicUsize = AtomicUsize::new(0);
pub static ERRS: AtomicUsize = AtomicUsize::new(0);

/// A source that hands out its data in pieces of any size, between refusals (not ready, error).
pub struct Src {
    pub data: Vec<u8>,
    pub pos: usize,
    pub avail: usize,
    pub pend: usize,
    pub errs: usize,
    pub whole: bool,
    /// size of the pieces, if not any
    pub piece: usize,
}
impl Src {
    pub fn new(data: Vec<u8>, pend: usize, errs: usize) -> Self {
        PENDS.store(0, SeqCst);
        ERRS.store(0, SeqCst);
        Src { data, pos: 0, avail: 0, pend, errs, whole: false, piece: 0 }
    }
}
impl AsyncBufRead for Src {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        let s = self.get_mut();
        if s.pend > 0 && sx::choice(2) == 1 {
            s.pend -= 1;
            PENDS.fetch_add(1, SeqCst);
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if s.errs > 0 && sx::choice(2) == 1 {
            s.errs -= 1;
            ERRS.fetch_add(1, SeqCst);
            return Poll::Ready(Err(std::io::Error::from(std::io::ErrorKind::TimedOut)));
        }
        let left = s.data.len() - s.pos;
        if s.avail <= s.pos && left > 0 {
            s.avail = s.pos + if s.whole { left } else if s.piece > 0 { left.min(s.piece) } else { 1 + sx::choice(left) };
        }
        let (a, b) = (s.pos, s.avail.max(s.pos));
        Poll::Ready(Ok(&s.data[a..b]))
    }
    fn consume(self: Pin<&mut Self>, amt: usize) {
        self.get_mut().pos += amt;
    }
}
impl AsyncRead for Src {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let k = match self.as_mut().poll_fill_buf(cx) {
            Poll::Ready(Ok(b)) => {
                let k = b.len().min(buf.len());
                buf[..k].copy_from_slice(&b[..k]);
                k
            }
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        };
        self.consume(k);
        Poll::Ready(Ok(k))
    }
}
/// Polls to the end; every `Pending` comes with a wake-up here.
pub fn run<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..4096 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
    panic!("never ready");
}
pub fn length(n: usize) -> Option<u64> {
    if n > 100 {
        return [None, Some(n as u64), Some(n as u64 - 1), Some(n as u64 / 2), Some(n as u64 + 1), Some(u64::MAX)][sx::choice(6)];
    }
    match sx::choice(n + 3) {
        0 => None,
        k => Some(k as u64 - 1),
    }
}
/// One read operation; returns how many bytes were delivered.
pub fn step<R: AsyncBufRead + Unpin>(b: &mut R, want: &[u8], max: usize) -> usize {
    let mut cx = Context::from_waker(Waker::noop());
    let (p, e) = (PENDS.load(SeqCst), ERRS.load(SeqCst));
    if sx::boolean() {
        let mut buf = vec![0xAA; if max > 100 { [1, 1000, 8192, 8193, 40000, max + 1][sx::choice(6)] } else { 1 + sx::choice(max) }];
        match Pin::new(b).poll_read(&mut cx, &mut buf) {
            Poll::Ready(Ok(k)) => {
                chk!(50, "read: within the rest", k <= want.len() && k <= buf.len());
                chk!(51, "read: progress", k > 0 || want.is_empty());
                chk!(52, "read: bytes", same(&buf[..k], &want[..k]));
                chk!(53, "read: no other bytes written", max > 100 || buf[k..].iter().all(|c| *c == 0xAA));
                return k;
            }
            Poll::Ready(Err(x)) => chk!(54, "read: error of the source", ERRS.load(SeqCst) == e + 1 && x.kind() == std::io::ErrorKind::TimedOut),
            Poll::Pending => chk!(55, "read: source not ready", PENDS.load(SeqCst) == p + 1),
        }
    } else {
        match Pin::new(&mut *b).poll_fill_buf(&mut cx) {
            Poll::Ready(Ok(x)) => {
                let k = x.len();
                chk!(60, "fill: within the rest", k <= want.len());
                chk!(61, "fill: progress", k > 0 || want.is_empty());
                chk!(62, "fill: bytes", same(x, &want[..k]));
                let c = if k > 60 { [0, 1, k / 2, k][sx::choice(4)] } else { sx::choice(k + 1) };
                Pin::new(b).consume(c);
                return c;
            }
            Poll::Ready(Err(x)) => chk!(63, "fill: error of the source", ERRS.load(SeqCst) == e + 1 && x.kind() == std::io::ErrorKind::TimedOut),
            Poll::Pending => chk!(64, "fill: source not ready", PENDS.load(SeqCst) == p + 1),
        }
    }
    0
}

//! C24 Trailers and upgrades: what is sent is received, whatever the schedule.
use super::util::*;
use crate::sx;
use futures_lite::io::{AsyncRead, AsyncWrite};
use http_types::trailers::Trailers;
use http_types::upgrade::Connection;
use http_types::{Request, Response};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}
/// A peer that records what it is asked and answers as told.
struct Peer {
    d: u8,
    ready: usize,
    seen: Arc<AtomicUsize>,
}
impl Peer {
    fn answer<T>(&mut self, op: usize, v: T) -> Poll<std::io::Result<T>> {
        self.seen.store(op, SeqCst);
        match self.ready {
            0 => Poll::Ready(Ok(v)),
            1 => Poll::Pending,
            _ => Poll::Ready(Err(std::io::Error::from(std::io::ErrorKind::BrokenPipe))),
        }
    }
}
impl AsyncRead for Peer {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let d = self.d;
        let r = self.answer(100 + buf.len(), buf.len() - 1);
        if let Poll::Ready(Ok(_)) = r {
            buf[0] = d;
        }
        r
    }
}
impl AsyncWrite for Peer {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        self.answer(1000 + buf[0] as usize, buf.len() - 1)
    }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        self.answer(1, ())
    }
    fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        self.answer(2, ())
    }
}
fn outcome<T>(r: Poll<std::io::Result<T>>, ready: usize) -> Option<T> {
    match r {
        Poll::Ready(Ok(v)) if ready == 0 => Some(v),
        Poll::Pending if ready == 1 => None,
        Poll::Ready(Err(e)) if ready == 2 && e.kind() == std::io::ErrorKind::BrokenPipe => None,
        _ => {
            chk!(40, "the peer's answer", false);
            None
        }
    }
}
fn same_conn(mut c: Connection, d: u8, seen: &AtomicUsize, ready: usize) {
    let mut cx = Context::from_waker(Waker::noop());
    let mut buf = [0u8; 3];
    if let Some(k) = outcome(Pin::new(&mut c).poll_read(&mut cx, &mut buf), ready) {
        chk!(41, "read", k == 2 && buf[0] == d);
    }
    chk!(42, "read passed on", seen.load(SeqCst) == 103);
    if let Some(k) = outcome(Pin::new(&mut c).poll_write(&mut cx, &[d, 1, 2]), ready) {
        chk!(43, "written", k == 2);
    }
    chk!(44, "write passed on", seen.load(SeqCst) == 1000 + d as usize);
    outcome(Pin::new(&mut c).poll_flush(&mut cx), ready);
    chk!(45, "flush passed on", seen.load(SeqCst) == 1);
    outcome(Pin::new(&mut c).poll_close(&mut cx), ready);
    chk!(46, "close passed on", seen.load(SeqCst) == 2);
}
#[derive(PartialEq, Clone, Copy)]
enum At {
    Message,
    Held,
    Sending,
    Sent,
    Gone,
}
enum Msg {
    Q(Request),
    S(Response),
}
macro_rules! history {
    ($k:ident, $m:ident, $item:expr, $has:expr, $sender:expr, $receiver:expr, $check:expr) => {{
        let w = Arc::new(Count(AtomicUsize::new(0)));
        let waker = Waker::from(w.clone());
        let mut cx = Context::from_waker(&waker);
        let mut msg = Some($m);
        let mut at = At::Message;
        let mut rx = None;
        let mut tx = None;
        let mut fut: Option<Pin<Box<dyn Future<Output = ()>>>> = None;
        let mut asked = false; // the sender was asked for
        let mut got = false; // the receiver was given
        let mut took = false; // the item was received
        let mut waiting = None; // wake-ups counted when the receiver last had to wait
        for _ in 0..$k {
            match sx::choice(8) {
                0 => if let (Some(m), false) = (&mut msg, asked) {
                    tx = Some($sender(m));
                    asked = true;
                    at = At::Held;
                } else {
                    sx::assume(false)
                },
                1 => if let (Some(m), false) = (&mut msg, got) {
                    rx = Some($receiver(m));
                    got = true;
                } else {
                    sx::assume(false)
                },
                2 => if let Some(r) = &mut rx {
                    match Pin::new(r).poll(&mut cx) {
                        Poll::Pending => {
                            chk!(1, "waits only while something may come", at == At::Message || at == At::Held || at == At::Sending);
                            waiting = Some(w.0.load(SeqCst));
                        }
                        Poll::Ready(Some(x)) => {
                            chk!(2, "received once, after sending", at == At::Sent && !took);
                            $check(x);
                            sx::cover(1);
                            took = true;
                            waiting = None;
                        }
                        Poll::Ready(None) => {
                            chk!(3, "nothing only when nothing can come", at == At::Gone || (at == At::Sent && took));
                            sx::cover(2);
                            waiting = None;
                        }
                    }
                } else {
                    sx::assume(false)
                },
                3 => if let Some(t) = tx.take() {
                    fut = Some(Box::pin(t.send($item)));
                    at = At::Sending;
                } else {
                    sx::assume(false)
                },
                4 => if let Some(mut f) = fut.take() {
                    match f.as_mut().poll(&mut cx) {
                        Poll::Ready(()) => {
                            // without a receiver the item is dropped
                            at = At::Sent;
                        }
                        Poll::Pending => chk!(4, "sending never waits", false),
                    }
                } else {
                    sx::assume(false)
                },
                5 => {
                    if tx.take().is_some() || fut.take().is_some() {
                        at = At::Gone;
                    } else {
                        sx::assume(false)
                    }
                }
                6 => if rx.take().is_some() {
                    waiting = None;
                } else {
                    sx::assume(false)
                },
                _ => if let Some(m) = msg.take() {
                    chk!(5, "in progress", $has(&m, asked, got));
                    drop(m);
                    if at == At::Message {
                        at = At::Gone;
                    }
                } else {
                    sx::assume(false)
                },
            }
            if let Some(n) = waiting {
                if at == At::Sent || at == At::Gone {
                    chk!(6, "woken when there is something to see", w.0.load(SeqCst) > n);
                }
            }
        }
    }};
}

harness! {
    // a history of k operations; kind: 0 request trailers, 1 response trailers; n == 0: trailers without any entry
    fn c24_trailers(k, kind, n) {
        let v = chars(n, 32, 126);
        let m = if kind == 0 { Msg::Q(Request::put("http://a/")) } else { Msg::S(Response::new(200)) };
        history!(k, m, {
                let mut t = Trailers::new();
                for i in 0..if n < 100 { 0 } else { 20 } {
                    t.append(&format!("X{}", i)[..], &"v".repeat(i)[..]).unwrap();
                }
                if n == 9 {
                    full(&mut t, &v);
                } else if n == 0 {
                    t.insert("a", "b").unwrap();
                    t.remove("A");
                } else {
                t.insert("Check-Sum", &v[..]).unwrap();
                t.append("B", "1").unwrap();
                t.append("b", "2").unwrap();
                }
                t
            },
            |m: &Msg, asked: bool, _: bool| match m { Msg::Q(x) => x.has_trailers() == asked, Msg::S(x) => x.has_trailers() == asked },
            |m: &mut Msg| match m { Msg::Q(x) => x.send_trailers(), Msg::S(x) => x.send_trailers() },
            |m: &mut Msg| match m { Msg::Q(x) => x.recv_trailers(), Msg::S(x) => x.recv_trailers() },
            |t: Trailers| {
                if n == 9 {
                    chk!(14, "every predefined name", still_full(&t, &v, &[], 0));
                    return;
                }
                if n == 0 {
                    chk!(12, "nothing in them", t.names().next().is_none());
                    return;
                }
                if n >= 100 {
                    for i in 0..20 {
                        chk!(13, "each of many", t[&format!("x{}", i)[..]].as_str().len() == i);
                    }
                }
                chk!(10, "all of them", t.names().count() == if n < 100 { 2 } else { 22 } && t["b"].iter().count() == 2 && t["B"].last().as_str() == "2");
                chk!(11, "the value", same(t["check-sum"].as_str().as_bytes(), v.as_bytes()));
            });
    }
    fn c24_upgrade(k, ready) {
        let d = sx::byte(0, 255);
        let m = Response::new(101);
        let seen = Arc::new(AtomicUsize::new(0));
        // asking for the receiver announces an upgrade too, so only the lower bound is fixed
        history!(k, m, Connection::new(Peer { d, ready, seen: seen.clone() }),
            |m: &Response, asked: bool, got: bool| if m.has_upgrade() { asked || got } else { !asked },
            |m: &mut Response| m.send_upgrade(),
            |m: &mut Response| super::io::run(m.recv_upgrade()),
            |c: Connection| same_conn(c, d, &seen, ready));
    }
}

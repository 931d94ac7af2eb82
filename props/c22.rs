//! C22 Chained bodies.
use super::io::*;
use super::util::*;
use crate::sx;
use http_types::mime;

const MIMES: [Option<&str>; 4] = [None, Some("application/octet-stream"), Some("text/html;charset=utf-8"), Some("text/plain;charset=utf-8")];

fn set(b: &mut Body, t: usize) {
    match t {
        0 => b.set_mime(None),
        1 => b.set_mime(Some(mime::BYTE_STREAM)),
        2 => b.set_mime(Some(mime::HTML)),
        _ => b.set_mime(Some(mime::PLAIN)),
    }
}
fn is(b: &Body, t: usize) -> bool {
    match (b.mime(), MIMES[t]) {
        (None, None) => true,
        (Some(m), Some(s)) => same(m.to_string().as_bytes(), s.as_bytes()),
        _ => false,
    }
}
fn long(n: usize) -> Option<u64> {
    if sx::boolean() {
        Some(u64::MAX - sx::choice(n + 2) as u64)
    } else {
        length(n)
    }
}
fn left(n: usize, l: Option<u64>) -> usize {
    l.map_or(n, |l| if l < n as u64 { l as usize } else { n })
}
fn sum(a: (Option<u64>, usize), b: (Option<u64>, usize)) -> Option<u64> {
    match (a.0, b.0) {
        (Some(x), Some(y)) => (x - a.1 as u64).checked_add(y - b.1 as u64),
        _ => None,
    }
}

harness! {
    // two bodies of n and m bytes, j read operations on each before, k operations on the chain, then the rest
    fn c22_chain(n, m, j, k, faults) {
        let (x, y) = (bytes(n), bytes(m));
        let (l1, l2) = (long(n), long(m));
        let (s1, s2) = (Src::new(x.clone(), faults, faults), Src::new(y.clone(), 0, 0));
        let (mut a, mut b) = (Body::from_reader(s1, l1), Body::from_reader(s2, l2));
        let (w1, w2) = (&x[..left(n, l1)], &y[..left(m, l2)]);
        let (mut p1, mut p2) = (0, 0);
        for _ in 0..j {
            p1 += step(&mut a, &w1[p1..], n + 1);
            p2 += step(&mut b, &w2[p2..], m + 1);
        }
        let (t1, t2) = (sx::choice(4), sx::choice(4));
        set(&mut a, t1);
        set(&mut b, t2);
        let mut c = a.chain(b);
        let l = sum((l1, p1), (l2, p2));
        chk!(1, "length", c.len() == l);
        chk!(2, "type", is(&c, if t1 == t2 { t1 } else { 1 }));
        let mut want = w1[p1..].to_vec();
        want.extend_from_slice(&w2[p2..]);
        let mut pos = 0;
        for _ in 0..k {
            pos += step(&mut c, &want[pos..], n + m + 1);
        }
        match run(c.into_bytes()) {
            Ok(v) => {
                sx::cover(1);
                chk!(3, "the rest", same(&v, &want[pos..]));
            }
            Err(e) => {
                sx::cover(2);
                chk!(4, "error of the source", faults > 0 && e.status() == 422);
            }
        }
    }
    // long bodies, in pieces of one size
    fn c22_long(n, m, piece, k) {
        let (x, y) = (bytes(n), bytes(m));
        let (l1, l2) = (length(x.len()), length(y.len()));
        let (mut s1, mut s2) = (Src::new(x.clone(), 0, 0), Src::new(y.clone(), 0, 0));
        (s1.whole, s1.piece, s2.whole, s2.piece) = (piece == 0, piece, piece == 0, piece);
        let (mut a, b) = (Body::from_reader(s1, l1), Body::from_reader(s2, l2));
        let (w1, w2) = (&x[..left(x.len(), l1)], &y[..left(y.len(), l2)]);
        let mut p = 0;
        if sx::boolean() {
            p = step(&mut a, w1, x.len() + 1);
        }
        let mut c = a.chain(b);
        let l = sum((l1, p), (l2, 0));
        chk!(1, "length", c.len() == l);
        let mut want = w1[p..].to_vec();
        want.extend_from_slice(w2);
        let mut pos = 0;
        for _ in 0..k {
            pos += step(&mut c, &want[pos..], x.len() + y.len() + 1);
        }
        let r = run(c.into_bytes());
        chk!(3, "the rest", r.is_ok() && same(&r.unwrap(), &want[pos..]));
        sx::cover(1);
    }
    // the lengths and types only
    fn c22_len(n) {
        let (x, y) = (sx::u64_in(0, u64::MAX), sx::u64_in(0, u64::MAX));
        let b = Body::from_reader(Src::new(vec![0; n], 0, 0), if sx::boolean() { Some(x) } else { None });
        let c = Body::from_reader(Src::new(vec![0; n], 0, 0), if sx::boolean() { Some(y) } else { None });
        let want = sum((b.len(), 0), (c.len(), 0));
        let d = b.chain(c);
        chk!(1, "length", d.len() == want);
        sx::cover(if d.len().is_some() { 1 } else { 2 });
    }
    // three bodies, nested either way
    fn c22_three(n, m, o, k) {
        let v = [bytes(n), bytes(m), bytes(o)];
        let l = [length(n), length(m), length(o)];
        let mut want = vec![];
        let mut total = Some(0);
        let mut it = vec![];
        for i in 0..3 {
            want.extend_from_slice(&v[i][..left(v[i].len(), l[i])]);
            total = match (total, l[i]) {
                (Some(a), Some(b)) => Some(a + b),
                _ => None,
            };
            let mut b = Body::from_reader(Src::new(v[i].clone(), 0, 0), l[i]);
            set(&mut b, 2);
            it.push(b);
        }
        let c = it.pop().unwrap();
        let b = it.pop().unwrap();
        let a = it.pop().unwrap();
        let mut d = if sx::boolean() { a.chain(b).chain(c) } else { a.chain(b.chain(c)) };
        chk!(1, "length", d.len() == total);
        chk!(2, "type", is(&d, 2));
        let mut pos = 0;
        for _ in 0..k {
            pos += step(&mut d, &want[pos..], n + m + o + 1);
        }
        let r = run(d.into_bytes()).unwrap();
        chk!(3, "the rest", same(&r, &want[pos..]));
        sx::cover(1);
    }
}

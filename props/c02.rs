//! C02 header map: a case-insensitive multimap, through Headers (Trailers), Request and Response.
use super::util::*;
use crate::sx;
use http_types::headers::{HeaderName, HeaderValue, HeaderValues, Headers, ToHeaderValues};
use http_types::trailers::Trailers;
use std::str::FromStr;

trait Bag: Sized {
    fn make() -> Self;
    fn hd(&self) -> &Headers;
    fn ins(&mut self, n: &str, v: impl ToHeaderValues) -> http_types::Result<Option<HeaderValues>>;
    fn app(&mut self, n: &str, v: impl ToHeaderValues) -> http_types::Result<()>;
    fn rem(&mut self, n: &str) -> Option<HeaderValues>;
    fn g(&self, n: &str) -> Option<&HeaderValues>;
    fn gm(&mut self, n: &str) -> Option<&mut HeaderValues>;
    fn idx(&self, n: &str) -> &HeaderValues;
    fn idxn(&self, n: HeaderName) -> &HeaderValues;
    fn refs(&self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)>;
    fn refs_mut(&mut self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)>;
    fn pairs(&self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)>;
    fn pairs_mut(&mut self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)>;
    fn into_pairs(self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)>;
    fn nms(&self) -> Vec<Vec<u8>>;
    fn vls(&self) -> Vec<Vec<u8>>;
}
fn vv(v: &HeaderValues) -> Vec<Vec<u8>> {
    v.iter().map(|x| x.as_str().as_bytes().to_vec()).collect()
}
fn nb(n: &HeaderName) -> Vec<u8> {
    n.as_str().as_bytes().to_vec()
}
macro_rules! bag {
    ($t:ty, |$s:ident| $h:expr, $new:expr, $ins:ident $app:ident $rem:ident $g:ident $gm:ident $names:ident $values:ident) => {
        impl Bag for $t {
            fn make() -> Self { $new }
            fn hd(&self) -> &Headers { let $s = self; $h }
            fn ins(&mut self, n: &str, v: impl ToHeaderValues) -> http_types::Result<Option<HeaderValues>> { self.$ins(n, v).into_opt() }
            fn app(&mut self, n: &str, v: impl ToHeaderValues) -> http_types::Result<()> { self.$app(n, v) }
            fn rem(&mut self, n: &str) -> Option<HeaderValues> { self.$rem(n) }
            fn g(&self, n: &str) -> Option<&HeaderValues> { self.$g(n) }
            fn gm(&mut self, n: &str) -> Option<&mut HeaderValues> { self.$gm(n) }
            fn idx(&self, n: &str) -> &HeaderValues { &self[n] }
            fn idxn(&self, n: HeaderName) -> &HeaderValues { &self[n] }
            fn refs(&self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)> { self.own_refs() }
            fn refs_mut(&mut self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)> { self.own_refs_mut() }
            fn pairs(&self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)> { self.iter().map(|(n, v)| (nb(n), vv(v))).collect() }
            fn pairs_mut(&mut self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)> { self.iter_mut().map(|(n, v)| (nb(n), vv(v))).collect() }
            fn into_pairs(self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)> { self.own() }
            fn nms(&self) -> Vec<Vec<u8>> { self.$names().map(nb).collect() }
            fn vls(&self) -> Vec<Vec<u8>> { self.$values().map(|x| x.as_str().as_bytes().to_vec()).collect() }
        }
    };
}
trait IntoOpt { fn into_opt(self) -> http_types::Result<Option<HeaderValues>>; }
impl IntoOpt for http_types::Result<Option<HeaderValues>> { fn into_opt(self) -> Self { self } }
trait Own {
    fn own(self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)>;
    fn own_refs(&self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)>;
    fn own_refs_mut(&mut self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)>;
}
impl Own for Request {
    fn own(self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)> { self.into_iter().map(|(n, v)| (nb(&n), vv(&v))).collect() }
    fn own_refs(&self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)> { self.into_iter().map(|(n, v)| (nb(n), vv(v))).collect() }
    fn own_refs_mut(&mut self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)> { self.into_iter().map(|(n, v)| (nb(n), vv(v))).collect() }
}
impl Own for Response {
    fn own(self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)> { self.into_iter().map(|(n, v)| (nb(&n), vv(&v))).collect() }
    fn own_refs(&self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)> { self.into_iter().map(|(n, v)| (nb(n), vv(v))).collect() }
    fn own_refs_mut(&mut self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)> { self.into_iter().map(|(n, v)| (nb(n), vv(v))).collect() }
}
impl Own for Trailers {
    fn own(self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)> {
        let h: Headers = (*self).clone();
        h.into_iter().map(|(n, v)| (nb(&n), vv(&v))).collect()
    }
    fn own_refs(&self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)> { let h: &Headers = self; h.into_iter().map(|(n, v)| (nb(n), vv(v))).collect() }
    fn own_refs_mut(&mut self) -> Vec<(Vec<u8>, Vec<Vec<u8>>)> { let h: &mut Headers = self; h.into_iter().map(|(n, v)| (nb(n), vv(v))).collect() }
}
bag!(Request, |s| s.as_ref(), Request::get("http://a/"), insert_header append_header remove_header header header_mut header_names header_values);
bag!(Response, |s| s.as_ref(), Response::new(StatusCode::Ok), insert_header append_header remove_header header header_mut header_names header_values);
bag!(Trailers, |s| s, Trailers::new(), insert append remove get get_mut names values);

/// The reference: an association list from lowercase names to value lists.
type Model = Vec<(&'static str, Vec<Vec<u8>>)>;
const NAMES: [(&str, &str); 4] = [("a", "a"), ("A", "a"), ("x-B", "x-b"), ("X-b", "x-b")];
fn m_get<'a>(m: &'a Model, n: &str) -> Option<&'a Vec<Vec<u8>>> {
    m.iter().find(|x| x.0 == n).map(|x| &x.1)
}
fn m_set(m: &mut Model, n: &'static str, v: Vec<Vec<u8>>) -> Option<Vec<Vec<u8>>> {
    for x in m.iter_mut() {
        if x.0 == n {
            return Some(std::mem::replace(&mut x.1, v));
        }
    }
    m.push((n, v));
    None
}
fn lists_same(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(true, |s, (x, y)| s & same(x, y))
}
fn opt_same(a: Option<&HeaderValues>, b: Option<&Vec<Vec<u8>>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => lists_same(&vv(a), b),
        _ => false,
    }
}
fn pairs_same(mut p: Vec<(Vec<u8>, Vec<Vec<u8>>)>, m: &Model) -> bool {
    p.sort_by(|a, b| a.0.cmp(&b.0));
    let mut q: Vec<_> = m.iter().collect();
    q.sort_by(|a, b| a.0.cmp(b.0));
    p.len() == q.len() && p.iter().zip(q).fold(true, |s, (x, y)| s & same(&x.0, y.0.as_bytes()) & lists_same(&x.1, &y.1))
}
fn check_all<B: Bag>(b: &mut B, m: &Model, names: &[(&'static str, &'static str)]) {
    for (n, l) in names.iter().chain(&[("c", "c")]) {
        let r = m_get(m, l);
        chk!(1, "lookup by any spelling returns the values in insertion order", opt_same(b.g(n), r));
        chk!(2, "mutable lookup agrees", opt_same(b.gm(n).map(|x| &*x), r));
        let hn = HeaderName::from_str(n).unwrap();
        chk!(3, "lookup by header name agrees", opt_same(b.hd().get(&hn), r));
        if let Some(r) = r {
            let v = b.idx(n);
            chk!(4, "indexing agrees", lists_same(&vv(v), r));
            chk!(15, "indexing by header name agrees", lists_same(&vv(b.idxn(hn.clone())), r));
            chk!(5, "first value", same(v.as_str().as_bytes(), &r[0]) & same(v[0].as_str().as_bytes(), &r[0]));
            chk!(6, "last value", same(v.last().as_str().as_bytes(), &r[r.len() - 1]));
            chk!(7, "value by position", (0..r.len() + 1).fold(true, |s, i| s & match v.get(i) { Some(x) => i < r.len() && same(x.as_str().as_bytes(), &r[i]), None => i >= r.len() }));
        }
    }
    chk!(8, "iteration visits each name once with its values", pairs_same(b.pairs(), m));
    chk!(9, "mutable iteration visits the same", pairs_same(b.pairs_mut(), m));
    chk!(16, "and so do loops over a reference", pairs_same(b.refs(), m) && pairs_same(b.refs_mut(), m));
    let names = b.nms().into_iter().map(|n| (n, vec![])).collect();
    let mm: Model = m.iter().map(|x| (x.0, vec![])).collect();
    chk!(10, "names() visits each name once", pairs_same(names, &mm));
    // values(): all values of all names; each name's values in order. Compare against the order of names().
    let mut want = vec![];
    for n in b.nms() {
        let n = String::from_utf8(n).unwrap();
        if let Some(v) = m_get(m, &n) {
            want.extend(v.iter().cloned());
        }
    }
    let got = b.vls();
    chk!(11, "values() visits every value of every name exactly once", lists_same(&got, &want));
    let it = b.hd().values();
    let (lo, hi) = it.size_hint();
    let total = want.len();
    chk!(12, "values() size hint brackets the number of values", lo <= total && hi.map_or(true, |h| h >= total));
    let it = b.hd().iter();
    let (lo, hi) = it.size_hint();
    chk!(13, "iter() size hint brackets the number of names", lo <= m.len() && hi.map_or(true, |h| h >= m.len()));
    let it = b.hd().names();
    let (lo, hi) = it.size_hint();
    chk!(14, "names() size hint brackets the number of names", lo <= m.len() && hi.map_or(true, |h| h >= m.len()));
}
fn sval() -> String {
    chars(1, 0, 127)
}
fn step<B: Bag>(b: &mut B, m: &mut Model, ops: usize, names: &[(&'static str, &'static str)]) {
    let op = sx::choice(ops);
    let (n, l) = names[sx::choice(names.len())];
    match op {
        0 => {
            let v = sval();
            let old = b.ins(n, v.as_str());
            let r = m_set(m, l, vec![v.into_bytes()]);
            chk!(20, "insert succeeds and returns the previous values", old.map_or(false, |o| opt_same(o.as_ref(), r.as_ref())));
        }
        1 => {
            let v = sval();
            let ok = b.app(n, v.as_str()).is_ok();
            chk!(21, "append succeeds", ok);
            let mut cur = m_get(m, l).cloned().unwrap_or_default();
            cur.push(v.into_bytes());
            m_set(m, l, cur);
        }
        2 => {
            let old = b.rem(n);
            chk!(22, "remove returns the removed values", opt_same(old.as_ref(), m_get(m, l)));
            m.retain(|x| x.0 != l);
        }
        3 => {
            let (v, w) = (sval(), sval());
            let hv = [HeaderValue::from_str(&v).unwrap(), HeaderValue::from_str(&w).unwrap()];
            let old = b.ins(n, &hv[..]);
            let r = m_set(m, l, vec![v.into_bytes(), w.into_bytes()]);
            chk!(23, "insert of several values returns the previous values", old.map_or(false, |o| opt_same(o.as_ref(), r.as_ref())));
        }
        4 => {
            let (v, w) = (sval(), sval());
            let hv: HeaderValues = vec![HeaderValue::from_str(&v).unwrap(), HeaderValue::from_str(&w).unwrap()].into();
            let ok = b.app(n, &hv).is_ok();
            chk!(24, "append of several values succeeds", ok);
            let mut cur = m_get(m, l).cloned().unwrap_or_default();
            cur.push(v.into_bytes());
            cur.push(w.into_bytes());
            m_set(m, l, cur);
        }
        5 => {
            chk!(25, "insert of a non-ASCII value fails", b.ins(n, "\u{e9}").is_err());
            // and changes nothing (checked against the unchanged model)
        }
        6 => {
            chk!(26, "append of a non-ASCII value fails", b.app(n, "z\u{e9}").is_err());
        }
        _ => {
            // modify through the mutable view
            let v = sval();
            if let Some(x) = b.gm(n) {
                let mut more = HeaderValues::from(HeaderValue::from_str(&v).unwrap());
                x.append(&mut more);
                let mut cur = m_get(m, l).cloned().unwrap_or_default();
                cur.push(v.into_bytes());
                m_set(m, l, cur);
            }
        }
    }
}
fn history<B: Bag + Clone>(k: usize, ops: usize, many: usize) {
    history_of::<B>(k, ops, many, &NAMES)
}
fn history_of<B: Bag + Clone>(k: usize, ops: usize, many: usize, names: &[(&'static str, &'static str)]) {
    let mut b = B::make();
    // messages are built without headers of their own
    chk!(40, "a fresh message has no headers", b.pairs().is_empty());
    let mut m: Model = vec![];
    let (many, deep) = if many >= 100 { (many % 10, many / 10) } else { (many, 0) };
    // many names, some with several values, and one name with many values
    for i in 0..many {
        let l: &'static str = Box::leak(format!("h{}-{}", i, "n".repeat(i)).into_boxed_str());
        let v: Vec<String> = (0..1 + i % 3).map(|j| format!("v{}-{}", i, j)).collect();
        for x in &v {
            chk!(45, "append succeeds", b.app(if i % 2 == 0 { l } else { Box::leak(l.to_ascii_uppercase().into_boxed_str()) }, x.as_str()).is_ok());
        }
        m.push((l, v.into_iter().map(|x| x.into_bytes()).collect()));
        let v = if i == 0 { sval() } else { format!("{}{}", i, "w".repeat(i * i)) };
        chk!(46, "append succeeds", b.app(NAMES[i % 2].0, v.as_str()).is_ok());
        let mut cur = m_get(&m, "a").cloned().unwrap_or_default();
        cur.push(v.into_bytes());
        m_set(&mut m, "a", cur);
    }
    // and one name with very many values, most of them equal to their neighbour or to an earlier one
    for i in 0..deep {
        let v = if i + 1 == deep { sval() } else { format!("{}", (i / 3) % 7) };
        chk!(47, "append succeeds", b.app(NAMES[i % 2].0, v.as_str()).is_ok());
        let mut cur = m_get(&m, "a").cloned().unwrap_or_default();
        cur.push(v.into_bytes());
        m_set(&mut m, "a", cur);
    }
    for i in 0..k {
        step(&mut b, &mut m, ops, names);
        if i + 1 < k {
            // the last state is checked completely, earlier ones by lookup
            for &(n, l) in names {
                chk!(41, "lookup after each step", opt_same(b.g(n), m_get(&m, l)));
            }
        }
    }
    check_all(&mut b, &m, names);
    let mut c = b.clone();
    chk!(42, "a clone has the same headers", pairs_same(c.pairs(), &m));
    let _ = c.rem(names[0].0);
    chk!(43, "changing a clone leaves the original alone", pairs_same(b.pairs(), &m));
    chk!(44, "into_iter yields the same pairs", pairs_same(b.into_pairs(), &m));
    sx::cover(1);
}
harness! {
    fn c02_trailers(k, ops) { history::<Trailers>(k, ops, 0) }
    fn c02_request(k, ops) { history::<Request>(k, ops, 0) }
    fn c02_response(k, ops) { history::<Response>(k, ops, 0) }
    // of each predefined name
    fn c02_named(kind, k, from) {
        let all = consts();
        let c = all[from + sx::choice((all.len() - from).min(20))].1.as_str().to_string();
        let u: &'static str = Box::leak(c.to_ascii_uppercase().into_boxed_str());
        let l: &'static str = Box::leak(c.into_boxed_str());
        let names = [(u, l), ("a", "a")];
        match kind {
            0 => history_of::<Trailers>(k, 5, 0, &names),
            1 => history_of::<Request>(k, 5, 0, &names),
            _ => history_of::<Response>(k, 5, 0, &names),
        }
    }
    // after many other headers
    fn c02_many(kind, k, many) {
        match kind {
            0 => history::<Trailers>(k, 8, many),
            1 => history::<Request>(k, 8, many),
            _ => history::<Response>(k, 8, many),
        }
    }
}

//! C29 Conversions from and to the http crate.
use super::io::*;
use super::util::*;
use crate::sx;
use http_types::headers::{HeaderName, HeaderValue, Headers};
use http_types::{Request, Response, Url};
use std::convert::{TryFrom, TryInto};
use std::str::FromStr;

const METHODS: [&str; 6] = ["GET", "POST", "PROPFIND", "VERSION-CONTROL", "PRI", "MKREDIRECTREF"];
const VERSIONS: [(Version, http::Version); 5] = [(Version::Http0_9, http::Version::HTTP_09), (Version::Http1_0, http::Version::HTTP_10), (Version::Http1_1, http::Version::HTTP_11), (Version::Http2_0, http::Version::HTTP_2), (Version::Http3_0, http::Version::HTTP_3)];
const NAMES: [&str; 3] = ["accept", "x-b", "content-type"];

/// What http calls a visible character: no control characters but tab.
fn visible(n: usize) -> String {
    let s = chars(n, 9, 126);
    for c in s.bytes() {
        sx::assume(c == 9 || c >= 32);
    }
    s
}
/// An ordered multimap and what was put in.
type Pairs = Vec<(usize, Vec<u8>)>;
fn of(m: &Pairs, i: usize) -> Vec<&[u8]> {
    m.iter().filter(|p| p.0 == i).map(|p| &p.1[..]).collect()
}
fn equal(a: Vec<&[u8]>, b: Vec<&[u8]>) -> bool {
    a.len() == b.len() && a.iter().zip(&b).all(|(a, b)| same(a, b))
}
fn ours(h: &Headers, n: &str) -> Vec<Vec<u8>> {
    h.get(n).map_or(vec![], |l| l.iter().map(|v| v.as_str().as_bytes().to_vec()).collect())
}
fn theirs(h: &http::HeaderMap, n: &str) -> Vec<Vec<u8>> {
    h.get_all(n).iter().map(|v| v.as_bytes().to_vec()).collect()
}
fn slices(v: &[Vec<u8>]) -> Vec<&[u8]> {
    v.iter().map(|v| &v[..]).collect()
}
fn check_ours(h: &Headers, m: &Pairs, upto: usize) {
    for i in 0..upto {
        chk!(70, "all values, in order", equal(slices(&ours(h, NAMES[i])), of(m, i)));
    }
}
fn check_theirs(h: &http::HeaderMap, m: &Pairs, upto: usize) {
    for i in 0..upto {
        chk!(71, "all values, in order", equal(slices(&theirs(h, NAMES[i])), of(m, i)));
    }
}
fn pairs(k: usize, n: usize, names: usize) -> Pairs {
    (0..k).map(|i| (pick(i, k, names), if k >= 8 && i > 0 && i + 1 < k { pick_text(i, k, n, || 0) } else { visible(n).into_bytes() })).collect()
}
fn map(m: &Pairs) -> http::HeaderMap {
    let mut h = http::HeaderMap::new();
    for (i, v) in m {
        h.append(http::header::HeaderName::from_static(NAMES[*i]), http::HeaderValue::from_bytes(v).unwrap());
    }
    h
}
/// The URL of a message: a fixed beginning and symbolic characters.
fn url(n: usize, at: usize) -> Url {
    let b = ["http://a/", "http://a/?", "https://u:p@a.b:81/x/", "http://[::1]/"][at];
    Url::parse(&(b.to_string() + &chars(n, 33, 126))).unwrap()
}

harness! {
    // names and values of n bytes
    fn c29_name(n) {
        let b = bytes(n);
        if let Ok(h) = http::header::HeaderName::from_bytes(&b) {
            sx::cover(1);
            let o: HeaderName = h.clone().try_into().unwrap();
            chk!(1, "name", same(o.as_str().as_bytes(), h.as_str().as_bytes()));
            let back: http::header::HeaderName = o.try_into().unwrap();
            chk!(2, "name back", same(back.as_str().as_bytes(), h.as_str().as_bytes()));
        } else {
            // names http refuses are refused, too
            sx::cover(2);
            if let Ok(o) = HeaderName::from_bytes(b) {
                let r: std::result::Result<http::header::HeaderName, _> = o.try_into();
                chk!(3, "refused", r.is_err());
            }
        }
    }
    fn c29_value(n) {
        let b = bytes(n);
        match http::HeaderValue::from_bytes(&b) {
            Ok(h) => {
                let o: std::result::Result<HeaderValue, Error> = h.try_into();
                match o {
                    Ok(o) => {
                        sx::cover(1);
                        chk!(1, "ASCII", is_ascii(&b));
                        chk!(2, "value", same(o.as_str().as_bytes(), &b));
                        let back: http::HeaderValue = o.try_into().unwrap();
                        chk!(3, "value back", same(back.as_bytes(), &b));
                    }
                    Err(_) => {
                        sx::cover(2);
                        chk!(4, "not ASCII", !is_ascii(&b));
                    }
                }
            }
            Err(_) => {
                sx::cover(3);
                if let Ok(o) = HeaderValue::from_bytes(b) {
                    let r: std::result::Result<http::HeaderValue, _> = o.try_into();
                    chk!(5, "refused", r.is_err());
                }
            }
        }
    }
    // maps of k values of n characters
    fn c29_map(k, n) {
        let m = pairs(k, n, 3);
        let h = map(&m);
        let o: Headers = h.try_into().unwrap();
        check_ours(&o, &m, 3);
        chk!(1, "no others", o.iter().count() == (0..3).filter(|i| !of(&m, *i).is_empty()).count());
        let back: http::HeaderMap = o.try_into().unwrap();
        check_theirs(&back, &m, 3);
        chk!(2, "no others back", back.len() == k);
        sx::cover(1);
    }
    fn c29_map_bad(n) {
        let mut h = http::HeaderMap::new();
        let b = bytes(n);
        let v = http::HeaderValue::from_bytes(&b);
        sx::assume(v.is_ok());
        h.append("x-b", http::HeaderValue::from_static("1"));
        h.append("x-b", v.unwrap());
        let r: std::result::Result<Headers, _> = h.clone().try_into();
        chk!(1, "only ASCII", r.is_ok() == is_ascii(&b));
        let mut q = http::Request::new(Body::empty());
        *q.uri_mut() = "http://a/".parse().unwrap();
        *q.headers_mut() = h.clone();
        let r: std::result::Result<Request, _> = q.try_into();
        chk!(2, "only ASCII in requests", r.is_ok() == is_ascii(&b));
        let mut s = http::Response::new(Body::empty());
        *s.headers_mut() = h;
        let r: std::result::Result<Response, _> = s.try_into();
        chk!(3, "only ASCII in responses", r.is_ok() == is_ascii(&b));
        sx::cover(if is_ascii(&b) { 1 } else { 2 });
    }
    // methods, statuses and versions
    fn c29_status() {
        let n = sx::u64_in(100, 999) as u16;
        let h = http::StatusCode::from_u16(n).unwrap();
        let s = StatusCode::try_from(n);
        let mut x = http::Response::new(Body::empty());
        *x.status_mut() = h;
        let r: std::result::Result<Response, _> = x.try_into();
        match (&s, r) {
            (Ok(s), Ok(r)) => {
                sx::cover(1);
                chk!(1, "status", r.status() == *s && StatusCode::from(h) == *s);
                chk!(2, "status back", http::StatusCode::from(*s) == h);
                let b: http::Response<Body> = r.into();
                chk!(3, "response back", b.status() == h);
            }
            (Err(_), Err(_)) => sx::cover(2),
            _ => chk!(4, "known statuses only", false),
        }
    }
    fn c29_method(n) {
        let t = if n == 0 { METHODS[sx::choice(6)].to_string() } else { chars(n, b'A', b'Z') };
        let h = http::Method::from_bytes(t.as_bytes()).unwrap();
        let m = Method::from_str(&t);
        let mut x = http::Request::new(Body::empty());
        *x.uri_mut() = "http://a/".parse().unwrap();
        *x.method_mut() = h.clone();
        let r: std::result::Result<Request, _> = x.try_into();
        match (m, r) {
            (Ok(m), Ok(r)) => {
                sx::cover(1);
                chk!(1, "method", r.method() == m && Method::from(h.clone()) == m);
                chk!(2, "method back", http::Method::from(m) == h);
                let b: http::Request<Body> = r.into();
                chk!(3, "request back", *b.method() == h);
            }
            (Err(_), Err(_)) => sx::cover(2),
            _ => chk!(4, "known methods only", false),
        }
    }
    // requests: URL of n characters at a position, k headers and a body
    fn c29_request(n, at, k) {
        let u = url(n, at);
        let mut q = Request::new(Method::from_str(METHODS[sx::choice(3)]).unwrap(), u.clone());
        let m = pairs(k, 1, 2);
        for (i, v) in &m {
            q.append_header(NAMES[*i], st(v)).unwrap();
        }
        let d = sx::byte(0, 255);
        q.set_body(vec![d, 7]);
        let v = sx::choice(6);
        q.set_version(if v < 5 { Some(VERSIONS[v].0) } else { None });
        let method = q.method();
        let h: http::Request<Body> = q.into();
        chk!(1, "method", h.method().as_str() == method.as_ref());
        chk!(2, "version", v == 5 || h.version() == VERSIONS[v].1);
        // a fragment is not sent
        let mut w = u.clone();
        w.set_fragment(None);
        chk!(3, "URL", same(h.uri().to_string().as_bytes(), w.as_str().as_bytes()));
        check_theirs(h.headers(), &m, 2);
        chk!(4, "type", equal(slices(&theirs(h.headers(), "content-type")), vec![b"application/octet-stream"]));
        chk!(5, "no others", h.headers().len() == k + 1);
        let r: Request = h.try_into().unwrap();
        chk!(6, "method back", r.method() == method);
        chk!(7, "version back", v == 5 || r.version() == Some(VERSIONS[v].0));
        chk!(8, "URL back", same(r.url().as_str().as_bytes(), w.as_str().as_bytes()));
        check_ours(r.as_ref(), &m, 2);
        chk!(9, "type back", equal(slices(&ours(r.as_ref(), "content-type")), vec![b"application/octet-stream"]));
        chk!(10, "no others back", r.iter().count() == 1 + (0..2).filter(|i| !of(&m, *i).is_empty()).count());
        let mut r = r;
        let l = r.len();
        let b = run(r.body_bytes()).unwrap();
        chk!(11, "body", l == Some(2) && same(&b, &[d, 7]));
        sx::cover(1);
    }
    fn c29_response(k) {
        let s = [200u16, 404, 511][sx::choice(3)];
        let mut x = http::Response::new(Body::from("abc"));
        *x.status_mut() = http::StatusCode::from_u16(s).unwrap();
        let m = pairs(k, 1, 3);
        let v = sx::choice(5);
        *x.headers_mut() = map(&m);
        *x.version_mut() = VERSIONS[v].1;
        let r: Response = x.try_into().unwrap();
        chk!(1, "status", r.status() == s);
        chk!(2, "version", r.version() == Some(VERSIONS[v].0));
        // without a type in the headers, the body's may be added
        let typed = !of(&m, 2).is_empty();
        check_ours(r.as_ref(), &m, 2 + typed as usize);
        let l = ours(r.as_ref(), "content-type");
        chk!(7, "no other type", typed || l.is_empty() || (l.len() == 1 && l[0] == b"text/plain;charset=utf-8"));
        chk!(3, "length", r.len() == Some(3));
        sx::cover(if typed { 2 } else { 1 });
        let h: http::Response<Body> = r.into();
        chk!(4, "status back", h.status().as_u16() == s);
        chk!(5, "version back", h.version() == VERSIONS[v].1);
        check_theirs(h.headers(), &m, 2 + typed as usize);
        chk!(6, "body", same(&run(h.into_body().into_bytes()).unwrap(), b"abc"));
    }
    // with every predefined header; dir: 0 a map, 1 a request, 2 a response
    fn c29_named(dir, n) {
        let x = visible(n);
        let there = |h: &http::HeaderMap| {
            let mut b = h.len() == 2 * consts().len();
            for (_, name) in consts() {
                let v: Vec<_> = h.get_all(name.as_str()).iter().map(|v| v.as_bytes()).collect();
                b = b && v.len() == 2 && v[1] == b"w" && same(v[0], format!("{}-{}", x, name.as_str()).as_bytes());
            }
            b
        };
        match dir {
            0 => {
                let mut r = Response::new(200);
                full(r.as_mut(), &x);
                let h: &Headers = r.as_ref();
                let m: http::HeaderMap = h.clone().try_into().unwrap();
                chk!(1, "there", there(&m));
                let back: Headers = m.try_into().unwrap();
                chk!(2, "and back", still_full(&back, &x, &[], 0));
            }
            1 => {
                let mut q = Request::put("http://a.b/c?d");
                full(q.as_mut(), &x);
                q.set_body(["", "x"][sx::choice(2)]);
                let h: http::Request<Body> = q.into();
                chk!(3, "request", there(h.headers()) && h.method() == "PUT" && h.uri() == "http://a.b/c?d");
                let q: Request = h.try_into().unwrap();
                chk!(4, "request back", still_full(q.as_ref(), &x, &[], 0) && q.url().as_str() == "http://a.b/c?d" && q.method() == Method::Put);
            }
            _ => {
                let mut s = Response::new([200u16, 204, 304, 100][sx::choice(4)]);
                full(s.as_mut(), &x);
                s.set_body(["", "x"][sx::choice(2)]);
                let c = s.status();
                let h: http::Response<Body> = s.into();
                chk!(5, "response", there(h.headers()) && h.status().as_u16() == c as u16);
                let s: Response = h.try_into().unwrap();
                chk!(6, "response back", still_full(s.as_ref(), &x, &[], 0) && s.status() == c);
            }
        }
        sx::cover(1);
    }
    // bodies of every making go through with type, length and bytes
    fn c29_body(dir) {
        let c = sx::byte(0, 127);
        let (body, bytes): (Body, Vec<u8>) = match sx::choice(7) {
            0 => (Body::empty(), vec![]),
            1 => (Body::from_string(String::new()), vec![]),
            2 => (Body::from_string((c as char).to_string()), vec![c]),
            3 => (Body::from_bytes(vec![]), vec![]),
            4 => (Body::from_json(&true).unwrap(), b"true".to_vec()),
            5 => (Body::from_reader(futures_lite::io::Cursor::new(vec![c, 1]), None), vec![c, 1]),
            _ => (Body::from_reader(futures_lite::io::Cursor::new(vec![c, 1]), Some(2)), vec![c, 1]),
        };
        let (mime, len) = (body.mime().cloned(), body.len());
        let b: Body = match dir {
            0 => {
                let mut x = http::Request::new(body);
                *x.uri_mut() = "http://a/".parse().unwrap();
                let mut r: Request = x.try_into().unwrap();
                chk!(20, "length", r.len() == len);
                r.take_body()
            }
            1 => {
                let mut r: Response = http::Response::new(body).try_into().unwrap();
                chk!(20, "length", r.len() == len);
                r.take_body()
            }
            2 => {
                let mut r = Request::new(Method::Get, "http://a/");
                r.set_body(body);
                let x: http::Request<Body> = r.into();
                x.into_body()
            }
            _ => {
                let mut r = Response::new(200);
                r.set_body(body);
                let x: http::Response<Body> = r.into();
                x.into_body()
            }
        };
        chk!(21, "type", b.mime().cloned() == mime);
        chk!(22, "length", b.len() == len);
        chk!(23, "bytes", same(&run(b.into_bytes()).unwrap(), &bytes));
        sx::cover(1);
    }
    // URIs without a host are refused
    fn c29_uri(n) {
        let p = chars(n, b'a', b'z');
        let mut x = http::Request::new(Body::empty());
        let full = sx::boolean();
        let t = (if full { "http://h/" } else { "/" }).to_string() + &p;
        *x.uri_mut() = t.parse().unwrap();
        let r: std::result::Result<Request, _> = x.try_into();
        match r {
            Ok(r) => {
                sx::cover(1);
                chk!(1, "absolute", full && same(r.url().as_str().as_bytes(), t.as_bytes()));
            }
            Err(_) => {
                sx::cover(2);
                chk!(2, "relative", !full);
            }
        }
    }
}

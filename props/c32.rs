//! C32 Messages keep their parts, each for itself.
use super::util::*;
use crate::sx;
use http_types::{Body, Request, Response, StatusCode, Url, Version};
use std::convert::TryFrom;

const METHODS: [Method; 6] = [Method::Get, Method::Post, Method::Lock, Method::VersionControl, Method::Head, Method::Connect];
const VERSIONS: [Option<Version>; 6] = [None, Some(Version::Http0_9), Some(Version::Http1_0), Some(Version::Http1_1), Some(Version::Http2_0), Some(Version::Http3_0)];
const STATUSES: [StatusCode; 4] = [StatusCode::Ok, StatusCode::Continue, StatusCode::ImATeapot, StatusCode::NetworkAuthenticationRequired];
const URLS: [&str; 3] = ["http://a/", "https://b.c:8/d?e#f", "x:y"];

#[derive(Clone)]
struct Model {
    method: Method,
    url: String,
    status: StatusCode,
    version: Option<Version>,
    peer: Option<String>,
    local: Option<String>,
    header: Option<String>,
    ext: Option<u8>,
    body: Option<String>,
}
/// The two kinds of message.
trait Message: Clone + IntoIterator<Item = (HeaderName, HeaderValues)> {
    const STATUS: bool;
    fn begin(m: &mut Model) -> Self;
    /// Sets one of the parts only this kind has.
    fn own(&mut self, m: &mut Model);
    fn check(&self, m: &Model);
    fn version_(&self) -> Option<Version>;
    fn set_version_(&mut self, v: Option<Version>);
    fn peer(&self) -> Option<&str>;
    fn local(&self) -> Option<&str>;
    fn set_peer(&mut self, v: Option<String>);
    fn set_local(&mut self, v: Option<String>);
    fn head(&self) -> Option<&HeaderValues>;
    fn set_head(&mut self, v: &str);
    fn put(&mut self, v: u8) -> Option<u8>;
    fn look(&self) -> Option<u8>;
    fn body(&mut self, v: &str);
    fn size(&self) -> (Option<u64>, Option<bool>);
    fn body_text(&mut self) -> String;
}
macro_rules! common {
    () => {
        fn version_(&self) -> Option<Version> {
            self.version()
        }
        fn set_version_(&mut self, v: Option<Version>) {
            self.set_version(v)
        }
        fn peer(&self) -> Option<&str> {
            self.peer_addr()
        }
        fn local(&self) -> Option<&str> {
            self.local_addr()
        }
        fn set_peer(&mut self, v: Option<String>) {
            self.set_peer_addr(v)
        }
        fn set_local(&mut self, v: Option<String>) {
            self.set_local_addr(v)
        }
        fn head(&self) -> Option<&HeaderValues> {
            self.header("x-h")
        }
        fn set_head(&mut self, v: &str) {
            self.insert_header("X-H", v).unwrap();
        }
        fn put(&mut self, v: u8) -> Option<u8> {
            self.ext_mut().insert(v)
        }
        fn look(&self) -> Option<u8> {
            self.ext().get::<u8>().copied()
        }
        fn body(&mut self, v: &str) {
            self.set_body(v)
        }
        fn size(&self) -> (Option<u64>, Option<bool>) {
            (self.len(), self.is_empty())
        }
        fn body_text(&mut self) -> String {
            super::io::run(self.body_string()).unwrap()
        }
    };
}
impl Message for Request {
    const STATUS: bool = false;
    fn begin(m: &mut Model) -> Self {
        let k = sx::choice(3);
        m.url = URLS[k].to_string();
        m.method = METHODS[sx::choice(6)];
        Request::new(m.method, URLS[k])
    }
    fn own(&mut self, m: &mut Model) {
        if sx::boolean() {
            m.method = METHODS[sx::choice(6)];
            self.set_method(m.method);
        } else {
            let k = sx::choice(3);
            m.url = URLS[k].to_string();
            *self.url_mut() = Url::parse(URLS[k]).unwrap();
        }
    }
    fn check(&self, m: &Model) {
        chk!(1, "method", self.method() == m.method);
        chk!(2, "URL", self.url().as_str() == m.url);
    }
    common!();
}
impl Message for Response {
    const STATUS: bool = true;
    fn begin(m: &mut Model) -> Self {
        m.status = STATUSES[sx::choice(4)];
        match sx::choice(3) {
            0 => Response::new(m.status),
            1 => Response::new(m.status as u16),
            _ => m.status.into(),
        }
    }
    fn own(&mut self, m: &mut Model) {
        m.status = STATUSES[sx::choice(4)];
        self.set_status(m.status);
    }
    fn check(&self, m: &Model) {
        chk!(3, "status", self.status() == m.status);
    }
    common!();
}
fn text(n: usize) -> Option<String> {
    if sx::boolean() {
        Some(chars(n, 32, 126))
    } else {
        None
    }
}
fn part(a: Option<&str>, b: &Option<String>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a.as_bytes(), b.as_bytes()),
        _ => false,
    }
}
fn all<M: Message>(r: &M, m: &Model) {
    r.check(m);
    chk!(4, "version", r.version_() == m.version);
    chk!(5, "peer address", part(r.peer(), &m.peer));
    chk!(6, "local address", part(r.local(), &m.local));
    chk!(7, "header", part(r.head().map(|h| h.as_str()), &m.header));
    chk!(8, "extension", r.look() == m.ext);
    let n = m.body.as_ref().map_or(0, |b| b.len() as u64);
    chk!(9, "size", r.size() == (Some(n), Some(n == 0)));
}
/// `k` steps with texts of one character; from 100 on `k % 100` steps with long texts.
fn history<M: Message>(k: usize) {
    let (k, n) = if k < 100 { (k, 1) } else { (k % 100, 3003) };
    let mut m = Model { method: Method::Get, url: String::new(), status: StatusCode::Ok, version: None, peer: None, local: None, header: None, ext: None, body: None };
    let mut r = M::begin(&mut m);
    all(&r, &m);
    for _ in 0..k {
        match sx::choice(8) {
            0 => r.own(&mut m),
            1 => {
                m.version = VERSIONS[sx::choice(6)];
                r.set_version_(m.version);
            }
            2 => {
                m.peer = text(n);
                r.set_peer(m.peer.clone());
            }
            3 => {
                m.local = text(n);
                r.set_local(m.local.clone());
            }
            4 => {
                let v = chars(n, 32, 126);
                r.set_head(&v);
                m.header = Some(v);
            }
            5 => {
                let v = sx::byte(0, 255);
                chk!(10, "the old extension", r.put(v) == m.ext);
                m.ext = Some(v);
            }
            6 => {
                let v = chars(n, 32, 126);
                r.body(&v);
                m.body = Some(v);
            }
            _ => {
                let c = r.clone();
                all(&r, &m);
                r = c;
                m.ext = None;
                m.body = None;
            }
        }
        all(&r, &m);
    }
    let body = m.body.take();
    let t = r.body_text();
    chk!(11, "body", part(Some(&t), &Some(body.unwrap_or_default())));
    all(&r, &m);
    let mut found = None;
    for (n, v) in r {
        if n.as_str() == "x-h" {
            found = Some(v);
        }
    }
    chk!(12, "headers of the message", part(found.as_ref().map(|v| v.as_str()), &m.header));
    sx::cover(1);
}

harness! {
    fn c32_request(k) { history::<Request>(k) }
    fn c32_response(k) { history::<Response>(k) }
    // one constructor for each common method, with every kind of URL
    fn c32_methods(n) {
        let url = format!("http://a/{}", chars(n, b'0', b'z'));
        let parsed = Url::parse(&url).unwrap();
        macro_rules! each {
            ($($k:literal $f:ident $m:ident),*) => {
                match sx::choice(9) {
                    $($k => match sx::choice(3) {
                        0 => (Request::$f(&*url), Method::$m),
                        1 => (Request::$f(parsed.clone()), Method::$m),
                        _ => (Request::new(Method::$m, &*url), Method::$m),
                    },)*
                    _ => unreachable!(),
                }
            };
        }
        let (r, m) = each!(0 get Get, 1 head Head, 2 post Post, 3 put Put, 4 delete Delete, 5 connect Connect, 6 options Options, 7 trace Trace, 8 patch Patch);
        chk!(20, "method", r.method() == m);
        chk!(21, "URL", same(r.url().as_str().as_bytes(), parsed.as_str().as_bytes()));
        chk!(22, "nothing else", r.version().is_none() && r.peer_addr().is_none() && r.local_addr().is_none() && r.iter().next().is_none() && r.len() == Some(0) && r.ext().get::<u8>().is_none() && !r.has_trailers());
        sx::cover(1);
    }
    // text that is no URL, numbers that are no status
    fn c32_bad(n) {
        let t = chars(n, 32, 126);
        let want = Url::parse(&t);
        match want {
            Ok(u) => {
                let r = Request::get(&*t);
                chk!(23, "URL", r.url() == &u);
                sx::cover(1);
            }
            Err(_) => {
                sx::cover(2);
                sx::expect_panic(true);
                let _ = Request::get(&*t);
                sx::expect_panic(false);
            }
        }
    }
    fn c32_status() {
        let n = sx::u64_in(0, 65535) as u16;
        if let Ok(s) = StatusCode::try_from(n) {
            let r = Response::new(n);
            chk!(24, "status", r.status() == s && r.status() == n);
            chk!(25, "nothing else", r.version().is_none() && r.peer_addr().is_none() && r.local_addr().is_none() && r.iter().next().is_none() && r.len() == Some(0) && !r.has_trailers() && !r.has_upgrade());
            sx::cover(1);
        } else {
            sx::cover(2);
            sx::expect_panic(true);
            let _ = Response::new(n);
            sx::expect_panic(false);
        }
    }
    // a clone has every header, and is its own
    fn c32_named(kind, n) {
        let x = chars(n, 32, 126);
        macro_rules! go {
            ($m:expr) => {{
                let mut a = $m;
                full(a.as_mut(), &x);
                let mut b = a.clone();
                chk!(30, "the clone", still_full(b.as_ref(), &x, &[], 0));
                let (_, c) = consts().swap_remove(7 * n % 65);
                if sx::boolean() {
                    std::mem::swap(&mut a, &mut b);
                }
                b.remove_header(c.clone());
                chk!(31, "the original", still_full(a.as_ref(), &x, &[], 0));
                chk!(32, "the changed", still_full(b.as_ref(), &x, &[c.as_str()], 0));
                let b = a.clone();
                drop(a);
                chk!(33, "a second clone", still_full(b.as_ref(), &x, &[], 0));
            }};
        }
        match kind {
            0 => go!(Request::put("http://a/")),
            _ => go!(Response::new(404)),
        }
        sx::cover(1);
    }
    fn c32_into(n) {
        let t = chars(n, 32, 126);
        let mut r: Response = match sx::choice(3) {
            0 => t.clone().into(),
            1 => (&*t).into(),
            _ => Body::from(t.as_bytes()).into(),
        };
        chk!(26, "status 200", r.status() == StatusCode::Ok);
        chk!(27, "size", r.len() == Some(t.len() as u64));
        let b = super::io::run(r.body_bytes()).unwrap();
        chk!(28, "body", same(&b, t.as_bytes()));
        let r: Response = ().into();
        chk!(29, "nothing is 204", r.status() == StatusCode::NoContent && r.len() == Some(0));
        sx::cover(1);
    }
}

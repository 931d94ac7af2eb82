//! C35 Printing for debugging shows the parts, never panics and changes nothing.
use super::io;
use super::util::*;
use crate::sx;
use futures_lite::io::{AsyncRead, AsyncReadExt, AsyncWrite};
use http_types::auth::{AuthenticationScheme, Authorization, BasicAuth, WwwAuthenticate};
use http_types::cache::{Age, CacheControl, CacheDirective, ClearDirective, ClearSiteData, Expires};
use http_types::conditional::{ETag, IfMatch, IfNoneMatch, Vary};
use http_types::content::{Accept, AcceptEncoding, ContentEncoding, ContentLength, ContentLocation, ContentType, Encoding as CE, EncodingProposal, MediaTypeProposal};
use http_types::other::{Date, Expect, Referer, RetryAfter, SourceMap};
use http_types::proxies::Forwarded;
use http_types::security::{ContentSecurityPolicy, StrictTransportSecurity, TimingAllowOrigin};
use http_types::server::Allow;
use http_types::trace::{Metric, ServerTiming, TraceContext};
use http_types::transfer::{Encoding as XE, TransferEncoding, TE};
use std::fmt::Debug;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::{Duration, SystemTime};

fn eq(a: &str, b: &str) -> bool {
    same(a.as_bytes(), b.as_bytes())
}
fn has(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut any = false;
    let mut i = 0;
    while i + b.len() <= a.len() {
        any |= same(&a[i..i + b.len()], b);
        i += 1;
    }
    any
}
fn both<A: Debug, B: Debug>(a: &A, b: &B) -> bool {
    eq(&format!("{:?}", a), &format!("{:?}", b)) & eq(&format!("{:#?}", a), &format!("{:#?}", b))
}
/// Prints and gives the text, which is not empty.
fn p<T: Debug>(t: T) -> String {
    let s = format!("{:?}", t);
    chk!(90, "something is printed", !s.is_empty() && !format!("{:#?}", t).is_empty());
    s
}
/// The text of the wrapped error (`_like` only names its type).
fn wrapped<E: AsRef<T>, T: std::fmt::Display>(e: &E, _like: T) -> String {
    let a: &T = e.as_ref();
    a.to_string()
}
struct Pipe;
impl AsyncRead for Pipe {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [u8]) -> Poll<std::io::Result<usize>> {
        b[0] = 7;
        Poll::Ready(Ok(1))
    }
}
impl AsyncWrite for Pipe {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
harness! {
    // names and values print as their texts do
    fn c35_text(n) {
        let s = ascii(n);
        let name: HeaderName = s.parse().unwrap();
        let value: HeaderValue = s.parse().unwrap();
        let low = unsafe { String::from_utf8_unchecked(lower(s.as_bytes())) };
        chk!(1, "name", both(&name, &low) && eq(&name.to_string(), &low));
        chk!(2, "value", both(&value, &s) && eq(&value.to_string(), &s));
        sx::out(format!("{:?}", value).as_bytes());
        sx::cover(1);
    }
    // values under one name, and the map
    fn c35_values(k, n) {
        let mut q = Request::get("http://a/");
        let h: &mut Headers = q.as_mut();
        let mut t = vec![];
        for i in 0..k {
            let s = if k >= 8 && i > 0 && i + 1 < k { st(&pick_text(i, k, n, || 0)).to_string() } else { chars(n, 32, 126) };
            h.append("A", &s[..]).unwrap();
            t.push(s);
        }
        let v = h.get("a").unwrap();
        if k == 1 {
            chk!(10, "a single value prints as it does", both(v, &t[0]));
            chk!(11, "map", eq(&format!("{:?}", h), &format!("{{\"a\": {:?}}}", t[0])));
        } else {
            chk!(12, "several print as a list", both(v, &t));
            chk!(13, "map", eq(&format!("{:?}", h), &format!("{{\"a\": {:?}}}", t)));
        }
        chk!(14, "display", eq(&v.to_string(), &format!("{:?}", t)));
        chk!(15, "unchanged", h.get("a").map_or(0, |v| v.iter().count()) == k);
        sx::cover(1);
    }
    fn c35_map(n) {
        let mut q = Request::get("http://a/");
        let h: &mut Headers = q.as_mut();
        chk!(20, "empty", format!("{:?}", h) == "{}");
        let (s, t) = (chars(n, 32, 126), chars(n, 32, 126));
        h.insert("a", &s[..]).unwrap();
        h.insert("b", &t[..]).unwrap();
        let x = format!("{:?}", h);
        let y = format!("{{\"a\": {:?}, \"b\": {:?}}}", s, t);
        let z = format!("{{\"b\": {:?}, \"a\": {:?}}}", t, s);
        chk!(21, "both entries", eq(&x, &y) | eq(&x, &z));
        let mut q = Request::get("http://a/");
        q.insert_header("a", &s[..]).unwrap();
        let mut r = Response::new(404);
        r.insert_header("a", &s[..]).unwrap();
        let e = format!("\"a\": {:?}", s);
        chk!(22, "shown in messages", has(&p(&q), &e) && has(&p(&r), &e));
        chk!(23, "method, URL, status", { let x = p(&q); has(&x, "Get") || has(&x, "GET") } && has(&p(&q), "a") && has(&p(&r), "404"));
        chk!(24, "unchanged", q.header("a").map_or(false, |v| eq(v.as_str(), &s)) && r.header("a").map_or(false, |v| eq(v.as_str(), &s)));
        sx::cover(1);
    }
    // list headers print as the list of their entries
    fn c35_list(kind, k) {
        macro_rules! go {
            ($h:expr, $push:expr) => {{
                let mut h = $h;
                for i in 0..k {
                    $push(&mut h, pick(i, k, 3));
                }
                let v: Vec<_> = h.iter().collect();
                chk!(30, "entries", both(&h, &v) && v.len() == k);
                sx::out(format!("{:?}", h).as_bytes());
            }};
        }
        match kind {
            0 => go!(CacheControl::new(), |h: &mut CacheControl, c: usize| h.push([CacheDirective::NoStore, CacheDirective::Public, CacheDirective::MaxAge(Duration::from_secs(2))][c].clone())),
            1 => go!(ClearSiteData::new(), |h: &mut ClearSiteData, c: usize| h.push([ClearDirective::Cache, ClearDirective::Cookies, ClearDirective::Storage][c].clone())),
            2 => go!(IfMatch::new(), |h: &mut IfMatch, c: usize| h.push([ETag::new("a".into()), ETag::new_weak("b".into()), ETag::new("".into())][c].clone())),
            3 => go!(IfNoneMatch::new(), |h: &mut IfNoneMatch, c: usize| h.push([ETag::new("a".into()), ETag::new_weak("b".into()), ETag::new("".into())][c].clone())),
            4 => go!(Vary::new(), |h: &mut Vary, c: usize| h.push(["a", "B", "cookie"][c]).unwrap()),
            5 => go!(Accept::new(), |h: &mut Accept, c: usize| h.push(MediaTypeProposal::new(["a/b", "text/html", "c/d;e=f"][c], [None, Some(0.5), Some(1.0)][c]).unwrap())),
            6 => go!(AcceptEncoding::new(), |h: &mut AcceptEncoding, c: usize| h.push(EncodingProposal::new([CE::Gzip, CE::Brotli, CE::Identity][c], [None, Some(0.25), Some(0.0)][c]).unwrap())),
            7 => go!(TE::new(), |h: &mut TE, c: usize| h.push([XE::Gzip, XE::Chunked, XE::Deflate][c])),
            8 => go!(TimingAllowOrigin::new(), |h: &mut TimingAllowOrigin, c: usize| h.push(Url::parse(["http://a", "http://b/", "https://c:1"][c]).unwrap())),
            _ => {
                let mut h = Allow::new();
                let mut set = vec![];
                for i in 0..k {
                    let m = [Method::Get, Method::Put, Method::Head][pick(i, k, 3)];
                    h.insert(m);
                    if !set.contains(&m) {
                        set.push(m);
                    }
                }
                let v: Vec<_> = h.iter().collect();
                chk!(31, "entries", both(&h, &v) && v.len() == set.len());
            }
        }
        sx::cover(1);
    }
    fn c35_encoding() {
        let k = sx::choice(5);
        let c = [CE::Gzip, CE::Deflate, CE::Brotli, CE::Zstd, CE::Identity][k];
        let x = [XE::Gzip, XE::Deflate, XE::Brotli, XE::Zstd, XE::Chunked][k];
        chk!(40, "encodings", both(&ContentEncoding::new(c), &c) && both(&TransferEncoding::new(x), &x));
        sx::cover(1);
    }
    // a body shows its lengths, not its contents; nothing is read
    fn c35_body(n) {
        let data = bytes(n);
        let l = if sx::boolean() { Some(data.len()) } else { None };
        let mut b = match l {
            Some(_) => Body::from_bytes(data.clone()),
            None => {
                let mut b = io::Src::new(data.clone(), 0, 0);
                b.piece = if n < 60 { 0 } else { 100 };
                Body::from_reader(b, None)
            }
        };
        let k = if n < 60 { sx::choice(n + 1) } else { [0, 1, data.len() / 2, data.len()][sx::choice(4)] };
        let mut buf = vec![0; k];
        io::run(b.read_exact(&mut buf)).unwrap();
        let x = p(&b);
        chk!(50, "length", has(&x, &format!("{:?}", l)));
        let rest = io::run(b.into_bytes()).unwrap();
        chk!(51, "nothing was read", same(&rest, &data[k..]));
        let mut q = Request::get("http://a/");
        q.set_body(data.clone());
        let mut r = Response::new(200);
        r.set_body(data.clone());
        p(&q);
        p(&r);
        let (x, y) = (io::run(q.body_bytes()).unwrap(), io::run(r.body_bytes()).unwrap());
        chk!(52, "nothing was read from messages", same(&x, &data) && same(&y, &data));
        sx::cover(1);
    }
    fn c35_error() {
        let s = chars(3, 32, 126);
        let e = Error::from_str(404, s.clone());
        chk!(60, "text", eq(&e.to_string(), &s) && has(&p(&e), &s));
        chk!(61, "as the error it wraps", eq(&wrapped(&e, Error::from_str(500, "").into_inner()), &s));
        let st: &StatusCode = e.as_ref();
        chk!(62, "status", *st == 404 && p(st).starts_with("404"));
        let x: &(dyn std::error::Error + Send + Sync) = e.as_ref();
        chk!(63, "as an error", eq(&x.to_string(), &s));
        let x: &dyn std::error::Error = e.as_ref();
        chk!(64, "as an error", eq(&x.to_string(), &s));
        sx::cover(1);
    }
    // everything else prints something
    fn c35_others() {
        let u = Url::parse("http://a/b").unwrap();
        let t = SystemTime::UNIX_EPOCH + Duration::from_secs(9);
        let d = Duration::from_secs(5);
        let mut q = Request::get("http://a/");
        let e = q.ext_mut();
        e.insert(7u8);
        p(&*e);
        chk!(70, "extensions stay", e.get::<u8>() == Some(&7));
        let mut c = upgrade::Connection::new(Pipe);
        p(&c);
        let mut b = [0];
        chk!(71, "connection stays", io::run(c.read(&mut b)).unwrap() == 1 && b[0] == 7);
        match sx::choice(26) {
            0 => p(Age::new(d)),
            1 => p(Expires::new_at(t)),
            2 => p(Date::new(t)),
            3 => p(ETag::new("a".into())),
            4 => p(Authorization::new(AuthenticationScheme::Bearer, "x".into())),
            5 => p(BasicAuth::new("a", "b")),
            6 => p(WwwAuthenticate::new(AuthenticationScheme::Basic, "r".into())),
            7 => p(ContentLength::new(1)),
            8 => p(ContentType::new("a/b")),
            9 => p(ContentLocation::new(u.clone())),
            10 => p(Referer::new(u.clone())),
            11 => p(SourceMap::new(u.clone())),
            12 => p(RetryAfter::new(d)),
            13 => p(Expect::new()),
            14 => p(StrictTransportSecurity::new(d)),
            15 => p(TraceContext::new()),
            16 => p(Metric::new("a".into(), Some(d), None).unwrap()),
            17 => {
                let mut s = ServerTiming::new();
                s.push(Metric::new("a".into(), Some(d), None).unwrap());
                p(&s)
            }
            18 => {
                let mut f = Forwarded::new();
                f.add_for("a");
                p(&f)
            }
            19 => {
                let mut c = ContentSecurityPolicy::new();
                c.default_src(http_types::security::Source::SameOrigin);
                p(&c)
            }
            20 => p("a/b;c=d".parse::<http_types::mime::Mime>().unwrap()),
            21 => p(Trailers::new()),
            22 => p(Version::Http1_1),
            23 => p(Response::new(200).send_trailers()),
            24 => p(Response::new(200).recv_trailers()),
            _ => p(Forwarded::parse("for=").unwrap_err()),
        };
        sx::cover(1);
    }
}

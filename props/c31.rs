//! C31 Typed headers are written as exactly one header of their name and read from the right lines.
use super::util::*;
use crate::sx;
use http_types::auth::{AuthenticationScheme, Authorization, BasicAuth, WwwAuthenticate};
use http_types::cache::{Age, CacheControl, CacheDirective, ClearDirective, ClearSiteData, Expires};
use http_types::conditional::{ETag, IfMatch, IfModifiedSince, IfNoneMatch, IfUnmodifiedSince, LastModified, Vary};
use http_types::content::{Accept, AcceptEncoding, ContentEncoding, ContentLength, ContentLocation, ContentType, Encoding as CE, MediaTypeProposal};
use http_types::other::{Date, Expect, Referer, RetryAfter, SourceMap};
use http_types::proxies::Forwarded;
use http_types::security::{StrictTransportSecurity, TimingAllowOrigin};
use http_types::server::Allow;
use http_types::trace::{Metric, ServerTiming, TraceContext};
use http_types::transfer::{Encoding as XE, TransferEncoding, TE};
use std::time::{Duration, SystemTime};

#[derive(Clone, Copy, PartialEq)]
enum Lines {
    Last,
    All,
    Open,
}
use Lines::*;
/// What reading gives: the text of the header read, nothing, or the status of the error.
type Read = std::result::Result<Option<String>, u16>;
fn at() -> SystemTime {
    SystemTime::UNIX_EPOCH + Duration::from_secs(784111777)
}
const AT: &str = "Sun, 06 Nov 1994 08:49:37 GMT";
fn url() -> Url {
    Url::parse("http://a.b/c").unwrap()
}
pub const KINDS: usize = 32;
macro_rules! kind {
    ($k:expr, $f:ident($($x:expr),*)) => {{
        macro_rules! go {
            ($h:expr, $n:literal, $t:ty, $l:ident, $v:expr) => {
                $f($($x,)* &$h, $n, &|m: &Headers| <$t>::from_headers(m).map(|h| h.map(|h| h.header_value().as_str().to_string())).map_err(|e| e.status() as u16), $l, &$v)
            };
        }
        macro_rules! go_url {
            ($h:expr, $n:literal, $t:ty, $l:ident, $v:expr) => {
                $f($($x,)* &$h, $n, &|m: &Headers| <$t>::from_headers(url(), m).map(|h| h.map(|h| h.header_value().as_str().to_string())).map_err(|e| e.status() as u16), $l, &$v)
            };
        }
        match $k {
            0 => go!(Age::new(Duration::from_secs(7)), "age", Age, Last, ["7"]),
            1 => go!(Expires::new_at(at()), "expires", Expires, Last, [AT]),
            2 => go!(Date::new(at()), "date", Date, Last, [AT]),
            3 => go!(LastModified::new(at()), "last-modified", LastModified, Last, [AT]),
            4 => go!(IfModifiedSince::new(at()), "if-modified-since", IfModifiedSince, Last, [AT]),
            5 => go!(IfUnmodifiedSince::new(at()), "if-unmodified-since", IfUnmodifiedSince, Last, [AT]),
            6 => go!(ETag::new("a".into()), "etag", ETag, Last, ["\"a\""]),
            7 => go!(Authorization::new(AuthenticationScheme::Bearer, "x".into()), "authorization", Authorization, Last, ["Bearer x"]),
            8 => go!(BasicAuth::new("a", "b"), "authorization", BasicAuth, Last, ["Basic YTpi"]),
            9 => go!(WwwAuthenticate::new(AuthenticationScheme::Basic, "r".into()), "www-authenticate", WwwAuthenticate, Last, ["Basic realm=\"r\", charset=\"UTF-8\""]),
            10 => go!(ContentLength::new(12), "content-length", ContentLength, Last, ["12"]),
            11 => go!(ContentType::new("a/b"), "content-type", ContentType, Last, ["a/b"]),
            12 => go_url!(ContentLocation::new(url()), "content-location", ContentLocation, Last, ["http://a.b/c"]),
            13 => go_url!(Referer::new(url()), "referer", Referer, Last, ["http://a.b/c"]),
            14 => go_url!(SourceMap::new(url()), "sourcemap", SourceMap, Last, ["http://a.b/c"]),
            15 => go!(RetryAfter::new(Duration::from_secs(9)), "retry-after", RetryAfter, Last, ["9"]),
            16 => go!(Expect::new(), "expect", Expect, Last, ["100-continue"]),
            17 => go!(StrictTransportSecurity::new(Duration::from_secs(5)), "strict-transport-security", StrictTransportSecurity, Last, ["max-age=5"]),
            18 => go!(ContentEncoding::new(CE::Gzip), "content-encoding", ContentEncoding, Open, ["gzip"]),
            19 => go!(TransferEncoding::new(XE::Chunked), "transfer-encoding", TransferEncoding, Open, ["chunked"]),
            20 => go!(list(CacheControl::new(), |h| { h.push(CacheDirective::NoStore); h.push(CacheDirective::NoTransform) }), "cache-control", CacheControl, All, ["no-store", "no-transform"]),
            21 => go!(list(ClearSiteData::new(), |h| { h.push(ClearDirective::Cache); h.push(ClearDirective::Cookies) }), "clear-site-data", ClearSiteData, All, ["\"cache\"", "\"cookies\""]),
            22 => go!(list(IfMatch::new(), |h| { h.push(ETag::new("a".into())); h.push(ETag::new_weak("b".into())) }), "if-match", IfMatch, All, ["\"a\"", "W/\"b\""]),
            23 => go!(list(IfNoneMatch::new(), |h| { h.push(ETag::new("a".into())); h.push(ETag::new_weak("b".into())) }), "if-none-match", IfNoneMatch, All, ["\"a\"", "W/\"b\""]),
            24 => go!(list(Vary::new(), |h| { h.push("a").unwrap(); h.push("b").unwrap() }), "vary", Vary, All, ["a", "b"]),
            25 => go!(list(Accept::new(), |h| { h.push(MediaTypeProposal::new("a/b", Some(0.5)).unwrap()); h.push(MediaTypeProposal::new("c/d", None).unwrap()) }), "accept", Accept, All, ["a/b;q=0.500", "c/d;q=1.000"]),
            26 => go!(list(AcceptEncoding::new(), |h| { h.push(CE::Gzip); h.push(CE::Brotli) }), "accept-encoding", AcceptEncoding, All, ["gzip", "br"]),
            27 => go!(list(TE::new(), |h| { h.push(XE::Gzip); h.push(XE::Chunked) }), "te", TE, All, ["gzip", "chunked"]),
            28 => go!(list(Allow::new(), |h| { h.insert(Method::Get); }), "allow", Allow, Open, ["GET"]),
            29 => go!(list(TimingAllowOrigin::new(), |h| { h.push(Url::parse("http://a").unwrap()); h.push(Url::parse("http://b").unwrap()) }), "timing-allow-origin", TimingAllowOrigin, All, ["http://a/", "http://b/"]),
            30 => go!(list(ServerTiming::new(), |h| { h.push(Metric::new("a".into(), None, None).unwrap()); h.push(Metric::new("b".into(), Some(Duration::from_millis(1)), None).unwrap()) }), "server-timing", ServerTiming, All, ["a", "b; dur=1"]),
            _ => $f($($x,)* &list(Forwarded::new(), |h| h.add_for("a")), "forwarded", &|m: &Headers| Forwarded::from_headers(&m).map(|h| h.map(|h| h.header_value().as_str().to_string())).map_err(|_| 400), Open, &["for=a"]),
        }
    }};
}
fn list<T>(mut h: T, f: impl FnOnce(&mut T)) -> T {
    f(&mut h);
    h
}
fn spell(n: &str) -> String {
    match sx::choice(2) {
        0 => n.to_string(),
        _ => n.to_ascii_uppercase(),
    }
}
fn apply<H: Header>(h: &H, name: &str, read: &dyn Fn(&Headers) -> Read, _: Lines, parts: &[&str]) {
    let mut q = Request::get("http://a/");
    let mut s = Response::new(200);
    let x = chars(1, 33, 126);
    q.insert_header("x-other", &x[..]).unwrap();
    s.insert_header("x-other", &x[..]).unwrap();
    chk!(1, "name", h.header_name() == name && h.header_name().as_str() == name);
    chk!(2, "absent", read(q.as_ref()) == Ok(None));
    let n = sx::choice(3);
    for _ in 0..n {
        let v = chars(1, 33, 126);
        q.append_header(&spell(name)[..], &v[..]).unwrap();
        s.append_header(&spell(name)[..], &v[..]).unwrap();
    }
    let way = sx::choice(5);
    let m: &Headers = match way {
        0 => {
            h.apply_header(&mut q);
            q.as_ref()
        }
        1 => {
            h.apply_header(&mut s);
            s.as_ref()
        }
        2 => {
            let old = q.insert_header(h.header_name(), h).unwrap();
            chk!(3, "the old values", old.map_or(0, |o| o.iter().count()) == n);
            q.as_ref()
        }
        3 => {
            s.insert_header(&spell(name)[..], h.header_value()).unwrap();
            s.as_ref()
        }
        _ => {
            let r = &h;
            r.apply_header(&mut s);
            chk!(4, "reference", r.header_name() == name);
            s.as_ref()
        }
    };
    let text = parts.join(", ");
    match m.get(name) {
        Some(v) => {
            let mut i = v.iter();
            chk!(5, "its value", i.next().map_or(false, |v| same(v.as_str().as_bytes(), text.as_bytes())));
            chk!(6, "only its value", i.next().is_none());
        }
        None => chk!(7, "present", false),
    }
    chk!(8, "others stay", m.get("x-other").map_or(false, |v| same(v.as_str().as_bytes(), x.as_bytes())) && m.iter().count() == 2);
    chk!(9, "read", read(m).map(|t| t.map_or(false, |t| same(t.as_bytes(), text.as_bytes()))) == Ok(true));
    sx::cover(1);
}
/// Applied to a message with every header.
fn over<H: Header>(n: usize, h: &H, name: &str, read: &dyn Fn(&Headers) -> Read, _: Lines, parts: &[&str]) {
    let x = chars(n, 33, 126);
    let mut q = Request::get("http://a/");
    let mut s = Response::new(200);
    full(q.as_mut(), &x);
    full(s.as_mut(), &x);
    let m: &Headers = match sx::choice(4) {
        0 => {
            h.apply_header(&mut q);
            q.as_ref()
        }
        1 => {
            h.apply_header(&mut s);
            s.as_ref()
        }
        2 => {
            q.insert_header(h.header_name(), h).unwrap();
            q.as_ref()
        }
        _ => {
            s.insert_header(h.header_name(), h.header_value()).unwrap();
            s.as_ref()
        }
    };
    let text = parts.join(", ");
    chk!(20, "all others stay", still_full(m, &x, &[name], 1));
    chk!(21, "its own value", m.get(name).map_or(false, |v| v.iter().count() == 1 && same(v.last().as_str().as_bytes(), text.as_bytes())));
    chk!(22, "read", read(m).map(|t| t.map_or(false, |t| same(t.as_bytes(), text.as_bytes()))) == Ok(true));
    sx::cover(1);
}
fn equal(a: &Read, b: &Read) -> bool {
    match (a, b) {
        (Ok(Some(a)), Ok(Some(b))) => same(a.as_bytes(), b.as_bytes()),
        (Ok(None), Ok(None)) => true,
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}
/// The lines of one header: a valid one and one of `n` arbitrary characters, or the items of a list.
fn lines<H: Header>(n: usize, h: &H, name: &str, read: &dyn Fn(&Headers) -> Read, l: Lines, parts: &[&str]) {
    let _ = h;
    match l {
        Last => {
            let x = ascii(n);
            let valid = read(&hdrs(name, &[parts[0]]));
            chk!(10, "valid", matches!(valid, Ok(Some(_))));
            let before = read(&hdrs(name, &[&x, parts[0]]));
            chk!(11, "earlier lines do not count", equal(&before, &valid));
            let after = read(&hdrs(name, &[parts[0], &x]));
            chk!(12, "the last line counts", equal(&after, &read(&hdrs(name, &[&x]))));
            if n >= 8 {
                // among many lines, too
                let mut l = vec![&x[..]; 24];
                l.push(parts[0]);
                chk!(16, "many earlier lines do not count", equal(&read(&hdrs(name, &l)), &valid));
            }
            sx::cover(1);
        }
        All => {
            let (mut a, mut b) = (parts[0], parts[1]);
            if sx::boolean() {
                std::mem::swap(&mut a, &mut b);
            }
            let joined = format!("{}, {}", a, b);
            let want: Read = Ok(Some(joined.clone()));
            chk!(13, "one line", equal(&read(&hdrs(name, &[&joined])), &want));
            chk!(14, "two lines", equal(&read(&hdrs(name, &[a, b])), &want));
            let three = format!("{}, {}", joined, a);
            chk!(15, "two lines, three items", equal(&read(&hdrs(name, &[a, &format!("{}, {}", b, a)])), &read(&hdrs(name, &[&three]))));
            if n >= 8 {
                let (mut l, mut one) = (vec![], String::new());
                for i in 0..n {
                    let k = pick(i, n, 3);
                    let t = [a.to_string(), b.to_string(), format!("{}, {}", b, a)][k].clone();
                    one += if i > 0 { ", " } else { "" };
                    one += &t;
                    l.push(t);
                }
                let l: Vec<&str> = l.iter().map(|t| &t[..]).collect();
                chk!(17, "many lines", equal(&read(&hdrs(name, &l)), &read(&hdrs(name, &[&one]))));
            }
            sx::cover(1);
        }
        Open => sx::cover(1),
    }
}

/// Values of a list header, seen through each of its iterators.
fn drain<T>(mut i: impl Iterator<Item = T>, n: usize, eq: impl Fn(usize, T) -> bool) {
    for k in 0..n {
        let (lo, hi) = i.size_hint();
        chk!(40, "size hints bracket what is left", lo <= n - k && hi.map_or(true, |h| h >= n - k));
        match i.next() {
            Some(x) => chk!(41, "the items in order", eq(k, x)),
            None => chk!(42, "no item is missing", false),
        }
    }
    let (lo, _) = i.size_hint();
    chk!(43, "nothing is left", lo == 0 && i.next().is_none());
}
macro_rules! listed {
    ($new:expr, $n:expr, $pick:expr, $push:expr, $eq:expr) => {{
        let of = $pick;
        let eq = $eq;
        let mut h = $new;
        let mut want = vec![];
        for i in 0..$n {
            let k = super::util::pick(i, $n, 3);
            $push(&mut h, of(k));
            want.push(k);
        }
        drain(h.iter(), $n, |i, x| eq(x, &of(want[i])));
        drain((&h).into_iter(), $n, |i, x| eq(x, &of(want[i])));
        drain(h.iter_mut(), $n, |i, x| eq(x, &of(want[i])));
        drain((&mut h).into_iter(), $n, |i, x| eq(x, &of(want[i])));
        if $n > 0 {
            let (at, k) = (if $n < 60 { sx::choice($n) } else { 59 }, sx::choice(3));
            *h.iter_mut().nth(at).unwrap() = of(k).into();
            want[at] = k;
        }
        drain(h.iter(), $n, |i, x| eq(x, &of(want[i])));
        drain(h.into_iter(), $n, |i, x| eq(&x, &of(want[i])));
    }};
}

harness! {
    fn c31_apply(k) {
        kind!(k, apply());
    }
    fn c31_over(k, n) {
        kind!(k, over(n));
    }
    fn c31_lines(k, n) {
        kind!(k, lines(n));
    }
    fn c31_items(t, n) {
        use http_types::content::EncodingProposal as CP;
        use http_types::transfer::EncodingProposal as XP;
        match t {
            0 => listed!(CacheControl::new(), n, |k: usize| [CacheDirective::NoStore, CacheDirective::MaxAge(Duration::from_secs(1)), CacheDirective::Public][k].clone(), |h: &mut CacheControl, x: CacheDirective| h.push(x), |a: &CacheDirective, b: &CacheDirective| a == b),
            1 => listed!(ClearSiteData::new(), n, |k: usize| [ClearDirective::Cache, ClearDirective::Cookies, ClearDirective::Storage][k].clone(), |h: &mut ClearSiteData, x: ClearDirective| h.push(x), |a: &ClearDirective, b: &ClearDirective| a == b),
            2 => listed!(IfMatch::new(), n, |k: usize| [ETag::new("a".into()), ETag::new_weak("a".into()), ETag::new("b".into())][k].clone(), |h: &mut IfMatch, x: ETag| h.push(x), |a: &ETag, b: &ETag| a == b),
            3 => listed!(IfNoneMatch::new(), n, |k: usize| [ETag::new("a".into()), ETag::new_weak("a".into()), ETag::new("b".into())][k].clone(), |h: &mut IfNoneMatch, x: ETag| h.push(x), |a: &ETag, b: &ETag| a == b),
            4 => listed!(Vary::new(), n, |k: usize| HeaderName::from(["a", "b", "c"][k]), |h: &mut Vary, x: HeaderName| h.push(x.as_str()).unwrap(), |a: &HeaderName, b: &HeaderName| a == b),
            5 => listed!(Accept::new(), n, |k: usize| MediaTypeProposal::new(["a/b", "a/c", "a/b"][k], Some([0.5, 0.5, 0.25][k])).unwrap(), |h: &mut Accept, x: MediaTypeProposal| h.push(x), |a: &MediaTypeProposal, b: &MediaTypeProposal| a == b),
            6 => listed!(AcceptEncoding::new(), n, |k: usize| CP::new([CE::Gzip, CE::Brotli, CE::Gzip][k], [Some(0.5), None, Some(0.25)][k]).unwrap(), |h: &mut AcceptEncoding, x: CP| h.push(x), |a: &CP, b: &CP| a == b),
            7 => listed!(TE::new(), n, |k: usize| XP::new([XE::Gzip, XE::Chunked, XE::Gzip][k], [Some(0.5), None, Some(0.25)][k]).unwrap(), |h: &mut TE, x: XP| h.push(x), |a: &XP, b: &XP| a == b),
            8 => listed!(TimingAllowOrigin::new(), n, |k: usize| Url::parse(["http://a", "http://b", "http://c"][k]).unwrap(), |h: &mut TimingAllowOrigin, x: Url| h.push(x), |a: &Url, b: &Url| a == b),
            9 => listed!(ServerTiming::new(), n, |k: usize| Metric::new(["a", "b", "a"][k].into(), None, Some(["x", "y", "y"][k].into())).unwrap(), |h: &mut ServerTiming, x: Metric| h.push(x), |a: &Metric, b: &Metric| a.name() == b.name() && a.description() == b.description()),
            _ => {
                let mut h = Allow::new();
                let all = [Method::Get, Method::Post, Method::Lock];
                let mut has = [false; 3];
                for i in 0..n {
                    let k = pick(i, n, 3);
                    h.insert(all[k]);
                    has[k] = true;
                }
                let size = has.iter().filter(|x| **x).count();
                for k in 0..3 {
                    chk!(44, "contains", h.contains(all[k]) == has[k]);
                    chk!(45, "each method once", h.iter().filter(|m| **m == all[k]).count() == has[k] as usize);
                    chk!(46, "each method once", (&h).into_iter().filter(|m| **m == all[k]).count() == has[k] as usize);
                }
                drain(h.iter(), size, |_, _| true);
                drain(h.into_iter(), size, |_, m| all.contains(&m));
            }
        }
        sx::cover(1);
    }
    fn c31_trace() {
        let t = TraceContext::new();
        let mut q = Request::get("http://a/");
        chk!(20, "absent", matches!(TraceContext::from_headers(&q), Ok(None)));
        if sx::boolean() {
            q.insert_header("Traceparent", "x").unwrap();
        }
        t.apply_header(&mut q);
        let g = TraceContext::from_headers(&q).unwrap().unwrap();
        chk!(21, "one value", q.header("traceparent").unwrap().iter().count() == 1 && q.iter().count() == 1);
        chk!(22, "the same trace", g.trace_id() == t.trace_id() && g.parent_id() == Some(t.id()));
        sx::cover(1);
    }
}

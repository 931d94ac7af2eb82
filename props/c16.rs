//! C16 headers about the message: lengths, types, encodings, locations, retry delays, expectations, methods.
use super::util::*;
use crate::sx;
use http_types::content::{ContentEncoding, ContentLength, ContentLocation, ContentType, Encoding as CE};
use http_types::mime::Mime;
use http_types::other::{Expect, Referer, RetryAfter, SourceMap};
use http_types::server::Allow;
use http_types::transfer::{Encoding as XE, TransferEncoding};
use std::time::{Duration, SystemTime};

const CENC: [(CE, &str); 5] = [(CE::Gzip, "gzip"), (CE::Deflate, "deflate"), (CE::Brotli, "br"), (CE::Zstd, "zstd"), (CE::Identity, "identity")];
const XENC: [(XE, &str); 6] = [(XE::Gzip, "gzip"), (XE::Deflate, "deflate"), (XE::Brotli, "br"), (XE::Chunked, "chunked"), (XE::Zstd, "zstd"), (XE::Identity, "identity")];
const METHODS: [(Method, &str); 12] = [
    (Method::Get, "GET"), (Method::Post, "POST"), (Method::Put, "PUT"), (Method::Delete, "DELETE"), (Method::Head, "HEAD"), (Method::Options, "OPTIONS"),
    (Method::Trace, "TRACE"), (Method::Connect, "CONNECT"), (Method::Patch, "PATCH"), (Method::Acl, "ACL"), (Method::Bind, "BIND"), (Method::VersionControl, "VERSION-CONTROL"),
];
const BIG: [u64; 5] = [0, 99999, u32::MAX as u64 + 1, (1 << 53) + 1, u64::MAX];

fn base() -> Url {
    Url::parse("https://a.b/c/d?q#f").unwrap()
}
harness! {
    fn c16_len(lo, width) {
        let n = lo as u64 + sx::u64_in(0, width as u64);
        let mut h = ContentLength::new(0);
        h.set_len(n);
        let t = applied(&h);
        let x = text(&t, "content-length");
        sx::out(x.as_bytes());
        chk!(1, "text", same(x.as_bytes(), &dec(n)));
        chk!(2, "length", ContentLength::from_headers(&*t).unwrap().unwrap().len() == n);
        sx::cover(1);
    }
    fn c16_len_big() {
        let n = BIG[sx::choice(5)];
        let t = applied(&ContentLength::new(n));
        chk!(1, "text", same(text(&t, "content-length").as_bytes(), &dec(n)));
        chk!(2, "length", ContentLength::from_headers(&*t).unwrap().unwrap().len() == n);
        sx::cover(1);
    }
    // any ASCII value after `lead` ones: a decimal number that fits, or a 400 error; the last line counts
    fn c16_len_any(n, lead) {
        let mut s = vec![if lead < 50 { b'1' } else { b'0' }; lead];
        s.extend_from_slice(chars(n, 0, 127).as_bytes());
        let want = number(trim(&s));
        match ContentLength::from_headers(&*hdrs("content-length", &["7", st(&s)])) {
            Ok(Some(l)) => match want {
                Some(w) => {
                    sx::cover(1);
                    chk!(1, "value", l.len() == w);
                }
                None => chk!(2, "accepted", trim(&s)[0] == b'+'),
            },
            Ok(None) => chk!(3, "present", false),
            Err(e) => {
                sx::cover(2);
                chk!(4, "refused", want.is_none());
                chk!(5, "status", is_4xx(&e));
            }
        }
    }
    // a delay in whole seconds, written and read
    fn c16_retry(lo, width) {
        let n = lo as u64 + sx::u64_in(0, width as u64);
        let t = applied(&RetryAfter::new(Duration::new(n, 0)));
        let x = text(&t, "retry-after");
        sx::out(x.as_bytes());
        chk!(1, "text", same(x.as_bytes(), &dec(n)));
        chk!(2, "delay", RetryAfter::from_headers(&*t).unwrap().unwrap() == RetryAfter::new(Duration::from_secs(n)));
        sx::cover(1);
    }
    fn c16_retry_big() {
        let n = BIG[sx::choice(5)];
        let t = applied(&RetryAfter::new(Duration::new(n, 999_999_999)));
        chk!(1, "text", same(text(&t, "retry-after").as_bytes(), &dec(n)));
        chk!(2, "delay", RetryAfter::from_headers(&*t).unwrap().unwrap() == RetryAfter::new(Duration::from_secs(n)));
        sx::cover(1);
    }
    // an instant stays an instant, the delay from an earlier one is their distance
    fn c16_retry_at(width) {
        let n = 1_600_000_000 + sx::u64_in(0, width as u64);
        let at = SystemTime::UNIX_EPOCH + Duration::from_secs(n);
        let h = RetryAfter::new_at(at);
        let t = applied(&h);
        let g = RetryAfter::from_headers(&*t).unwrap().unwrap();
        chk!(1, "instant", g == h);
        let m = sx::u64_in(0, width as u64);
        let d = g.duration_since(SystemTime::UNIX_EPOCH + Duration::from_secs(1_600_000_000 + m));
        match d {
            Ok(d) => chk!(2, "distance", 1_600_000_000 + m <= n && d.as_secs() == n - 1_600_000_000 - m),
            Err(_) => chk!(3, "earlier", 1_600_000_000 + m > n),
        }
        chk!(4, "into", SystemTime::from(g) == at);
        sx::cover(1);
    }
    fn c16_retry_any(n, lead) {
        let mut s = vec![if lead < 50 { b'1' } else { b'0' }; lead];
        s.extend_from_slice(chars(n, 0, 127).as_bytes());
        let want = number(&s);
        match RetryAfter::from_headers(&*hdrs("retry-after", &["x", st(&s)])) {
            Ok(Some(r)) => match want {
                Some(w) => {
                    sx::cover(1);
                    chk!(1, "delay", r == RetryAfter::new(Duration::from_secs(w)));
                }
                // a sign or blanks around the number are tolerated
                None => chk!(2, "accepted", trim(&s)[0] == b'+' || number(trim(&s)).map(|w| r == RetryAfter::new(Duration::from_secs(w))) == Some(true)),
            },
            Ok(None) => chk!(3, "present", false),
            Err(e) => {
                sx::cover(2);
                chk!(4, "refused", want.is_none());
                chk!(5, "status", is_4xx(&e));
            }
        }
    }
    // Content-Type holds exactly the MIME type its text parses to
    fn c16_type(form, n) {
        let mut v = [&b""[..], b"text/", b"a/b;", b"a/b;c=\"", b"a/b;charset="][form].to_vec();
        v.extend_from_slice(chars(n, 0, 127).as_bytes());
        let r = ContentType::from_headers(&*hdrs("content-type", &["x/y", st(&v)]));
        // and the messages' own reading
        let mut q = Request::post("http://a/");
        let mut a = Response::new(200);
        for l in ["x/y;z=1", st(&v)] {
            q.append_header("content-type", l).unwrap();
            a.append_header("content-type", l).unwrap();
        }
        for m in [q.content_type(), a.content_type()] {
            match (m, &r) {
                (Some(m), Ok(Some(c))) => chk!(8, "the message's type", *c == m),
                (None, Err(_)) => {}
                _ => chk!(9, "the message has the type", false),
            }
        }
        match (r, st(&v).parse::<Mime>()) {
            (Ok(Some(c)), Ok(m)) => {
                sx::cover(1);
                chk!(1, "type", c == m && c == &m);
                let t = applied(&c);
                let w = text(&t, "content-type");
                chk!(2, "text", same(w.as_bytes(), m.to_string().as_bytes()));
                chk!(3, "read back", ContentType::from_headers(&*t).unwrap().unwrap() == m);
                chk!(4, "same header", same(text(&applied(&ContentType::from(m.clone())), "content-type").as_bytes(), w.as_bytes()));
                chk!(5, "same header", same(text(&applied(&ContentType::new(m)), "content-type").as_bytes(), w.as_bytes()));
            }
            (Err(e), Err(_)) => {
                sx::cover(2);
                chk!(6, "status", is_4xx(&e));
            }
            _ => chk!(7, "accepted differently", false),
        }
    }
    fn c16_enc(which) {
        if which == 0 {
            let (e, s) = CENC[sx::choice(5)];
            let t = applied(&ContentEncoding::new(e));
            chk!(1, "text", same(text(&t, "content-encoding").as_bytes(), s.as_bytes()));
            let g = ContentEncoding::from_headers(&*t).unwrap().unwrap();
            chk!(2, "encoding", g.encoding() == e && g == e && g == &e);
        } else {
            let (e, s) = XENC[sx::choice(6)];
            let t = applied(&TransferEncoding::new(e));
            chk!(3, "text", same(text(&t, "transfer-encoding").as_bytes(), s.as_bytes()));
            let g = TransferEncoding::from_headers(&*t).unwrap().unwrap();
            chk!(4, "encoding", g.encoding() == e && g == e && g == &e);
        }
        sx::cover(1);
    }
    // `head` + n arbitrary characters
    fn c16_enc_any(which, n, head) {
        let mut v = ["", "g", "gzi", "b", "zst", "defla", "chunk", "identi"][head].as_bytes().to_vec();
        v.extend_from_slice(chars(n, 0, 127).as_bytes());
        let b = trim(&v);
        let mut known = None;
        if which == 0 {
            for i in 0..5 {
                if same(b, CENC[i].1.as_bytes()) {
                    known = Some(i);
                }
            }
        } else {
            for i in 0..6 {
                if same(b, XENC[i].1.as_bytes()) {
                    known = Some(i);
                }
            }
        }
        let cased = b.iter().any(|c| c.is_ascii_uppercase());
        let t = hdrs(if which == 0 { "content-encoding" } else { "transfer-encoding" }, &[st(&v)]);
        let r = if which == 0 {
            ContentEncoding::from_headers(&*t).map(|e| known.map(|k| e.unwrap().encoding() == CENC[k].0))
        } else {
            TransferEncoding::from_headers(&*t).map(|e| known.map(|k| e.unwrap().encoding() == XENC[k].0))
        };
        match r {
            Ok(k) => {
                sx::cover(1);
                chk!(1, "encoding", k == Some(true) || cased);
            }
            Err(e) => {
                sx::cover(2);
                chk!(2, "refused", known.is_none());
                chk!(3, "status", is_4xx(&e));
            }
        }
    }
    fn c16_expect(n, head) {
        let t = applied(&Expect::new());
        chk!(1, "text", same(text(&t, "expect").as_bytes(), b"100-continue"));
        chk!(2, "read", Expect::from_headers(&*t).unwrap() == Some(Expect::new()));
        let mut v = b"100-continue"[..head].to_vec();
        v.extend_from_slice(chars(n, 0, 127).as_bytes());
        match Expect::from_headers(&*hdrs("expect", &[st(&v)])) {
            Ok(e) => {
                sx::cover(1);
                chk!(3, "accepted", e.is_some() && same(&lower(trim(&v)), b"100-continue"));
            }
            Err(e) => {
                sx::cover(2);
                chk!(4, "refused", !same(&v, b"100-continue"));
                chk!(5, "status", is_4xx(&e));
            }
        }
    }
    // a set of methods, written and read
    fn c16_allow(k, e) {
        let mut a = Allow::new();
        let mut has = [false; 12];
        for i in 0..k {
            let m = pick(i, k, e);
            a.insert(METHODS[m].0);
            has[m] = true;
        }
        let count = has.iter().filter(|x| **x).count();
        chk!(1, "size", a.iter().count() == count);
        let t = applied(&a);
        let x = text(&t, "allow");
        let mut n = 0;
        if k > 0 {
            for p in x.split(", ") {
                let mut i = 12;
                for (j, m) in METHODS.iter().enumerate() {
                    if same(p.as_bytes(), m.1.as_bytes()) {
                        i = j;
                    }
                }
                chk!(2, "listed", i < 12 && has[i]);
                n += 1;
            }
            chk!(3, "each once", n == count);
            let g = Allow::from_headers(&*t).unwrap().unwrap();
            for (j, m) in METHODS.iter().enumerate() {
                chk!(4, "contains", g.contains(m.0) == has[j] && a.contains(m.0) == has[j]);
            }
            let mut n = 0;
            for m in g {
                n += 1;
                chk!(5, "only these", a.contains(m));
            }
            chk!(6, "size", n == count);
        }
        sx::cover(1);
    }
    // lists in any layout
    fn c16_allow_layout(shape) {
        let (a, b, c) = (sx::choice(12), sx::choice(12), sx::choice(12));
        let (x, y, z) = (METHODS[a].1, METHODS[b].1, METHODS[c].1);
        let t = match shape {
            0 => hdrs("allow", &[&format!("{},{},{}", x, y, z)]),
            1 => hdrs("allow", &[&format!("  {}\t , {}, {} ", x, y, z)]),
            2 => hdrs("allow", &[x, y, z]),
            _ => hdrs("allow", &[&format!("{} , {}", x, y), z]),
        };
        let g = Allow::from_headers(&*t).unwrap().unwrap();
        for i in 0..12 {
            chk!(1, "contains", g.contains(METHODS[i].0) == (i == a || i == b || i == c));
        }
        sx::cover(1);
    }
    fn c16_allow_any(n, head) {
        let mut v = ["", "GE", "PUT,", "pos", "OPTION"][head].as_bytes().to_vec();
        v.extend_from_slice(chars(n, 0, 127).as_bytes());
        let mut ok = true;
        for p in v.split(|c| *c == b',') {
            ok &= st(trim(p)).parse::<Method>().is_ok();
        }
        match Allow::from_headers(&*hdrs("allow", &[st(&v)])) {
            Ok(Some(a)) => {
                sx::cover(1);
                for p in v.split(|c| *c == b',') {
                    match st(trim(p)).parse::<Method>() {
                        Ok(m) => chk!(1, "contains", a.contains(m)),
                        // empty items are tolerated
                        Err(_) => chk!(2, "accepted", trim(p).is_empty()),
                    }
                }
            }
            Ok(None) => chk!(3, "present", false),
            Err(e) => {
                sx::cover(2);
                chk!(4, "refused", !ok);
                chk!(5, "status", is_4xx(&e));
            }
        }
    }
    // locations: absolute or relative to the base
    fn c16_url(which, n, head) {
        let mut v = ["", "/", "x?", "//", "http://h/", "../", "https://a.b:"][head].as_bytes().to_vec();
        v.extend_from_slice(chars(n, 0x21, 0x7e).as_bytes());
        let want = base().join(st(&v));
        let got: Result<Url> = match which {
            0 => ContentLocation::from_headers(base(), &*hdrs("content-location", &["http://u/v", st(&v)])).map(|u| u.unwrap().location().clone()),
            1 => Referer::from_headers(base(), &*hdrs("referer", &["http://u/v", st(&v)])).map(|u| u.unwrap().location().clone()),
            _ => SourceMap::from_headers(base(), &*hdrs("sourcemap", &["http://u/v", st(&v)])).map(|u| u.unwrap().location().clone()),
        };
        match (got, want) {
            (Ok(g), Ok(w)) => {
                sx::cover(1);
                chk!(1, "location", same(g.as_str().as_bytes(), w.as_str().as_bytes()));
                let x = match which {
                    0 => text(&applied(&ContentLocation::new(g)), "content-location"),
                    1 => text(&applied(&Referer::new(g)), "referer"),
                    _ => text(&applied(&SourceMap::new(g)), "sourcemap"),
                };
                chk!(2, "text", same(x.as_bytes(), w.as_str().as_bytes()));
            }
            (Err(e), Err(_)) => {
                sx::cover(2);
                chk!(3, "status", which > 0 || is_4xx(&e));
            }
            (Ok(_), Err(_)) => chk!(4, "malformed location accepted", false),
            (Err(_), Ok(_)) => chk!(5, "location refused", false),
        }
    }
    // a base that is no URL: an error where a base is needed, never a location made up
    fn c16_base(n) {
        let bad = ["", "/a", "a.b", "http://"][sx::choice(4)];
        let rel = chars(n, b'a', b'z');
        let abs = format!("http://x/{}", rel);
        let a = sx::boolean();
        let v = if a { &abs } else { &rel };
        let c = ContentLocation::from_headers(bad, &*hdrs("content-location", &[v]));
        chk!(1, "content location", c.is_err() || (a && c.unwrap().unwrap().location().as_str() == abs));
        let c = Referer::from_headers(bad, &*hdrs("referer", &[v]));
        chk!(2, "referer", if a { matches!(c, Ok(Some(ref l)) if l.location().as_str() == abs) } else { c.is_err() });
        let c = SourceMap::from_headers(bad, &*hdrs("sourcemap", &[v]));
        chk!(3, "source map", if a { matches!(c, Ok(Some(ref l)) if l.location().as_str() == abs) } else { c.is_err() });
        chk!(4, "no header, no error", matches!(Referer::from_headers(bad, &*hdrs("x", &["y"])), Ok(None)) && matches!(SourceMap::from_headers(bad, &*hdrs("x", &["y"])), Ok(None)) && matches!(ContentLocation::from_headers(bad, &*hdrs("x", &["y"])), Ok(None)));
        sx::cover(1);
    }
}

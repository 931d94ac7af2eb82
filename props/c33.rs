//! C33 Parts of typed headers: setters, wrappers and conversions.
use super::util::*;
use crate::sx;
use http_types::auth::{AuthenticationScheme, Authorization, BasicAuth, WwwAuthenticate};
use http_types::content::{self, ContentEncoding, ContentLocation, MediaTypeProposal};
use http_types::mime::{self, Mime};
use http_types::other::{Date, Referer, SourceMap};
use http_types::security::StrictTransportSecurity;
use http_types::transfer::{self, TransferEncoding};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

fn cenc(k: usize) -> content::Encoding {
    use content::Encoding::*;
    [Gzip, Deflate, Brotli, Zstd, Identity][k]
}
fn tenc(k: usize) -> transfer::Encoding {
    use transfer::Encoding::*;
    [Gzip, Deflate, Brotli, Zstd, Identity, Chunked][k]
}
fn scheme(k: usize) -> AuthenticationScheme {
    use AuthenticationScheme::*;
    [Basic, Bearer, Digest, Hoba, Mutual, Negotiate, OAuth, ScramSha1, ScramSha256, Vapid][k]
}
/// A type out of four.
fn mime(k: usize) -> Mime {
    [mime::ANY, mime::JSON, mime::HTML, mime::PLAIN][k].clone()
}
fn weight() -> Option<f32> {
    [None, Some(0.0), Some(0.5), Some(1.0)][sx::choice(4)]
}
/// The text of a type read from a header line, through `FromStr`.
fn written(h: &impl Header) -> String {
    let n = h.header_name();
    text(&applied(h), n.as_str())
}
/// The checks the two encoding wrappers share.
macro_rules! wrapper {
    ($W:ident, $m:ident, $enc:ident, $n:expr, $name:expr) => {{
        let (k, l) = (sx::choice($n), sx::choice($n));
        let (e, f) = ($enc(k), $enc(l));
        let p = $m::EncodingProposal::new(e, weight()).unwrap();
        let mut w = match sx::choice(5) {
            0 => $W::new(e),
            1 => $W::from(e),
            2 => $W::from(&e),
            3 => $W::from(&p),
            _ => $W::from(p),
        };
        chk!(40, "the encoding it was made from", w.encoding() == e && *w == e);
        chk!(41, "equal to that encoding only", (w == f) == (k == l) && (w == &f) == (k == l));
        chk!(42, "its text", written(&w) == e.to_string() && w.header_name().as_str() == $name);
        *w = f;
        chk!(43, "the encoding assigned", w.encoding() == f && w == f && written(&w) == f.to_string());
        sx::cover(1);
    }};
}
/// The checks the two encoding proposals share.
macro_rules! proposal {
    ($m:ident, $enc:ident, $n:expr) => {{
        let (k, l) = (sx::choice($n), sx::choice($n));
        let (e, f) = ($enc(k), $enc(l));
        let q = weight();
        let (mut p, want) = if sx::boolean() { ($m::EncodingProposal::from(e), None) } else { ($m::EncodingProposal::new(e, q).unwrap(), Some(q)) };
        chk!(50, "the encoding it was made from", *p.encoding() == e && *p == e);
        chk!(51, "equal to that encoding only", (p == f) == (k == l) && (&p == f) == (k == l));
        if let Some(q) = want {
            chk!(52, "its weight", p.weight() == q || (q.is_none() && p.weight() == Some(1.0)));
        }
        let q = p.weight();
        *p = f;
        chk!(53, "the encoding assigned, with the weight it had", *p.encoding() == f && p == f && p.weight() == q);
        sx::cover(1);
    }};
}
harness! {
    // setters of the two authentication headers, in any order
    fn c33_auth(steps, n) {
        let which = sx::boolean();
        let (mut k, mut t) = (sx::choice(10), ascii(n));
        let mut a = Authorization::new(scheme(k), t.clone());
        let mut w = WwwAuthenticate::new(scheme(k), t.clone());
        for _ in 0..steps {
            if sx::boolean() {
                k = sx::choice(10);
                a.set_scheme(scheme(k));
                w.set_scheme(scheme(k));
            } else {
                t = ascii(n);
                a.set_credentials(t.clone());
                w.set_realm(t.clone());
            }
            chk!(1, "scheme", a.scheme() == scheme(k) && w.scheme() == scheme(k));
            chk!(2, "credentials", same(a.credentials().as_bytes(), t.as_bytes()));
            chk!(3, "realm", same(w.realm().as_bytes(), t.as_bytes()));
        }
        if which {
            let b = Authorization::new(scheme(k), t);
            chk!(4, "text", same(written(&a).as_bytes(), written(&b).as_bytes()));
        } else {
            let b = WwwAuthenticate::new(scheme(k), t);
            chk!(5, "text", same(written(&w).as_bytes(), written(&b).as_bytes()));
        }
        sx::cover(1);
    }
    fn c33_basic(n, m) {
        let (u, p) = (utf8(n), utf8(m));
        let b = BasicAuth::new(&u, p.clone());
        chk!(6, "user and password", same(b.username().as_bytes(), u.as_bytes()) && same(b.password().as_bytes(), p.as_bytes()));
        sx::cover(1);
    }
    // locations: replaced by anything that is a URL, kept when it is not
    fn c33_loc(n) {
        let first = Url::parse("http://a.b/c?d#e").unwrap();
        let mut v = ["", "http://x/", "http:", "data:"][sx::choice(4)].as_bytes().to_vec();
        v.extend_from_slice(chars(n, 0x21, 0x7e).as_bytes());
        let s = st(&v);
        let parsed = Url::parse(s);
        let want = parsed.as_ref().unwrap_or(&first).as_str().as_bytes().to_vec();
        let mut r = Referer::new(first.clone());
        let mut m = SourceMap::new(first.clone());
        chk!(10, "as made", r.location() == &first && m.location() == &first);
        let (x, y) = match &parsed {
            Ok(u) if sx::boolean() => (r.set_location(u.clone()).is_ok(), m.set_location(u.clone()).is_ok()),
            _ => (r.set_location(s).is_ok(), m.set_location(s).is_ok()),
        };
        chk!(11, "taken exactly when it is a URL", x == parsed.is_ok() && y == parsed.is_ok());
        chk!(12, "the location", same(r.location().as_str().as_bytes(), &want) && same(m.location().as_str().as_bytes(), &want));
        chk!(13, "the text", same(written(&r).as_bytes(), &want) && same(written(&m).as_bytes(), &want));
        let mut c = ContentLocation::new(first.clone());
        chk!(14, "as made", c.location() == &first);
        sx::cover(if parsed.is_ok() { 1 } else { 2 });
        sx::expect_panic(parsed.is_err());
        c.set_location(s);
        chk!(15, "the content location", same(c.location().as_str().as_bytes(), &want) && same(written(&c).as_bytes(), &want));
    }
    // the three parts of HSTS, each for itself
    fn c33_hsts(steps) {
        let age = |()| Duration::new(sx::u64_in(0, u64::MAX), sx::u64_in(0, 999_999_999) as u32);
        let mut want = (age(()), false, false);
        let mut h = if sx::boolean() { StrictTransportSecurity::new(want.0) } else { StrictTransportSecurity::from(want.0) };
        if sx::boolean() {
            h = StrictTransportSecurity::default();
            want = (Duration::from_secs(31536000), false, true);
        }
        for i in 0..steps + 1 {
            chk!(20, "max age", h.max_age() == want.0);
            chk!(21, "subdomains", h.include_subdomains() == want.1);
            chk!(22, "preload", h.preload() == want.2);
            if i < steps {
                match sx::choice(3) {
                    0 => {
                        want.0 = age(());
                        h.set_max_age(want.0);
                    }
                    1 => {
                        want.1 = sx::boolean();
                        h.set_include_subdomains(want.1);
                    }
                    _ => {
                        want.2 = sx::boolean();
                        h.set_preload(want.2);
                    }
                }
            }
        }
        chk!(23, "as a duration", Duration::from(h) == want.0);
        sx::cover(1);
    }
    fn c33_enc(which) {
        if which == 0 {
            wrapper!(ContentEncoding, content, cenc, 5, "content-encoding");
        } else {
            wrapper!(TransferEncoding, transfer, tenc, 6, "transfer-encoding");
        }
    }
    fn c33_proposal(which) {
        if which == 0 {
            proposal!(content, cenc, 5);
        } else {
            proposal!(transfer, tenc, 6);
        }
    }
    fn c33_media() {
        let (k, l) = (sx::choice(4), sx::choice(4));
        let q = weight();
        let (mut p, want) = if sx::boolean() { (MediaTypeProposal::from(mime(k)), None) } else { (MediaTypeProposal::new(mime(k), q).unwrap(), Some(q)) };
        let f = mime(l);
        chk!(60, "the type it was made from", *p.media_type() == mime(k) && *p == mime(k) && p.essence() == mime(k).essence());
        chk!(61, "equal to that type only", (p == f) == (k == l) && (&p == f) == (k == l));
        if let Some(q) = want {
            chk!(62, "its weight", p.weight() == q || (q.is_none() && p.weight() == Some(1.0)));
        }
        let q = p.weight();
        *p = f.clone();
        chk!(63, "the type assigned, with the weight it had", *p.media_type() == f && p == f && p.weight() == q);
        chk!(64, "taken out again", Mime::from(p) == f);
        sx::cover(1);
    }
    // parameters of a type compare with texts
    fn c33_param(n, m) {
        let (a, b) = (chars(n, b'a', b'd'), chars(m, b'a', b'd'));
        let t: Mime = format!("x/y;p={}", a).parse().unwrap();
        let v = t.param("p").unwrap();
        let eq = same(a.as_bytes(), b.as_bytes());
        chk!(70, "equal exactly to its text", (v == b.as_str()) == eq && (*v == *b.as_str()) == eq);
        chk!(71, "its text", same(v.as_str().as_bytes(), a.as_bytes()) && same(v.to_string().as_bytes(), a.as_bytes()));
        sx::cover(1);
    }
    // dates are the instants they were made from
    fn c33_date() {
        let at = |()| UNIX_EPOCH + Duration::new(sx::u64_in(0, 253402300799), sx::u64_in(0, 999_999_999) as u32);
        let (a, b) = (at(()), at(()));
        let d = if sx::boolean() { Date::new(a) } else { Date::from(a) };
        chk!(80, "equal to that instant only", (d == b) == (a == b) && d == a);
        chk!(81, "that instant", SystemTime::from(d) == a);
        sx::cover(1);
    }
}

//! C13 authentication headers.
use super::util::*;
use crate::sx;
use http_types::auth::{AuthenticationScheme, Authorization, BasicAuth, WwwAuthenticate};

const NAMES: [&str; 10] = ["Basic", "Bearer", "Digest", "HOBA", "Mutual", "Negotiate", "OAuth", "SCRAM-SHA-1", "SCRAM-SHA-256", "vapid"];
fn scheme(k: usize) -> AuthenticationScheme {
    use AuthenticationScheme::*;
    match k {
        0 => Basic,
        1 => Bearer,
        2 => Digest,
        3 => Hoba,
        4 => Mutual,
        5 => Negotiate,
        6 => OAuth,
        7 => ScramSha1,
        8 => ScramSha256,
        _ => Vapid,
    }
}
fn known(v: &[u8]) -> Option<usize> {
    let l = lower(v);
    for k in 0..10 {
        let n = lower(NAMES[k].as_bytes());
        if same(&l, &n) {
            return Some(k);
        }
    }
    None
}
fn b64(v: &[u8]) -> Vec<u8> {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = vec![];
    let mut i = 0;
    while i < v.len() {
        let b = |k: usize| if i + k < v.len() { v[i + k] } else { 0 };
        let (x, y, z) = (b(0), b(1), b(2));
        o.push(T[(x >> 2) as usize]);
        o.push(T[((x & 3) << 4 | y >> 4) as usize]);
        o.push(if i + 1 < v.len() { T[((y & 15) << 2 | z >> 6) as usize] } else { b'=' });
        o.push(if i + 2 < v.len() { T[(z & 63) as usize] } else { b'=' });
        i += 3;
    }
    o
}
harness! {
    // every scheme and every credentials text
    fn c13_authz(n) {
        let k = sx::choice(10);
        let cred = ascii(n);
        let a = Authorization::new(scheme(k), cred.clone());
        let t = applied(&a);
        let x = text(&t, "authorization");
        sx::out(x.as_bytes());
        let mut want = NAMES[k].as_bytes().to_vec();
        want.push(b' ');
        want.extend_from_slice(cred.as_bytes());
        chk!(1, "text", same(x.as_bytes(), &want));
        let g = Authorization::from_headers(&*t).unwrap().unwrap();
        chk!(2, "scheme", g.scheme() == scheme(k));
        chk!(3, "credentials", same(g.credentials().as_bytes(), cred.as_bytes()));
        sx::cover(1);
    }
    // any scheme text in any case: known or refused; the first blank separates
    fn c13_authz_any(n, form) {
        let v = match form {
            0 => chars(n, 0, 127),
            1 => { let mut s = chars(n, 0, 127); s.push_str(" cred x"); s }
            _ => {
                // a known name with letters flipped
                let mut s = NAMES[form - 2].as_bytes().to_vec();
                for c in s.iter_mut() {
                    if c.is_ascii_alphabetic() && sx::boolean() {
                        *c ^= 32;
                    }
                }
                s.push(b' ');
                s.extend_from_slice(chars(n, 0, 127).as_bytes());
                unsafe { String::from_utf8_unchecked(s) }
            }
        };
        let b = v.as_bytes();
        let mut i = 0;
        while i < b.len() && b[i] != b' ' {
            i += 1;
        }
        let want = if i == b.len() { None } else { known(&b[..i]) };
        match (Authorization::from_headers(&*hdrs("authorization", &["Digest q", &v])), want) {
            (Ok(Some(a)), Some(k)) => {
                sx::cover(1);
                chk!(1, "scheme", a.scheme() == scheme(k));
                chk!(2, "credentials", same(a.credentials().as_bytes(), &b[i + 1..]));
            }
            (Err(e), None) => {
                sx::cover(2);
                chk!(3, "status", is_4xx(&e));
            }
            (Ok(_), _) => chk!(4, "malformed value accepted", false),
            (Err(_), _) => chk!(5, "valid value refused", false),
        }
    }
    // every user name (without colon) and password
    fn c13_basic(n, m) {
        let u = ascii(n);
        let p = ascii(m);
        for c in u.as_bytes() {
            sx::assume(*c != b':');
        }
        let a = BasicAuth::new(&u, &p);
        let t = applied(&a);
        let x = text(&t, "authorization");
        sx::out(x.as_bytes());
        let mut raw = u.as_bytes().to_vec();
        raw.push(b':');
        raw.extend_from_slice(p.as_bytes());
        let mut want = b"Basic ".to_vec();
        want.extend_from_slice(&b64(&raw));
        chk!(1, "text", same(x.as_bytes(), &want));
        match BasicAuth::from_headers(&*t) {
            Ok(Some(g)) => {
                chk!(2, "user", same(g.username().as_bytes(), u.as_bytes()));
                chk!(3, "password", same(g.password().as_bytes(), p.as_bytes()));
            }
            _ => chk!(4, "own text refused", false),
        }
        sx::cover(1);
    }
    // credentials of any bytes: accepted exactly when base64 of UTF-8 text with a colon
    fn c13_basic_bytes(n) {
        let raw = bytes(n);
        let mut colon = None;
        for i in 0..raw.len() {
            if raw[i] == b':' {
                colon = Some(i);
                break;
            }
        }
        let ok = colon.is_some() && std::str::from_utf8(&raw).is_ok();
        match BasicAuth::from_credentials(b64(&raw)) {
            Ok(g) => {
                sx::cover(1);
                chk!(1, "malformed credentials accepted", ok);
                if let Some(i) = colon {
                    chk!(2, "user", same(g.username().as_bytes(), &raw[..i]));
                    chk!(3, "password", same(g.password().as_bytes(), &raw[i + 1..]));
                }
            }
            Err(e) => {
                sx::cover(2);
                chk!(4, "credentials refused", !ok);
                chk!(5, "status", is_4xx(&e));
            }
        }
    }
    // arbitrary credentials never panic; what is not a multiple of four base64 digits is refused
    fn c13_basic_any(n) {
        let c = bytes(n);
        match BasicAuth::from_credentials(&c) {
            Ok(g) => {
                sx::cover(1);
                let mut raw = g.username().as_bytes().to_vec();
                raw.push(b':');
                raw.extend_from_slice(g.password().as_bytes());
                // padding may be left out
                let strip = |v: &[u8]| {
                    let mut n = v.len();
                    while n > 0 && v[n - 1] == b'=' {
                        n -= 1;
                    }
                    v[..n].to_vec()
                };
                chk!(1, "same credentials", same(&strip(&b64(&raw)), &strip(&c)));
            }
            Err(e) => {
                sx::cover(2);
                chk!(2, "status", is_4xx(&e));
            }
        }
    }
    fn c13_basic_scheme() {
        let k = sx::choice(10);
        let mut v = NAMES[k].as_bytes().to_vec();
        v.extend_from_slice(b" YTpi");
        match BasicAuth::from_headers(&*hdrs("authorization", &[st(&v)])) {
            Ok(Some(b)) => chk!(1, "basic only", k == 0 && b.username() == "a" && b.password() == "b"),
            Ok(None) => chk!(2, "present", false),
            Err(e) => chk!(3, "status", k != 0 && is_4xx(&e)),
        }
        chk!(4, "absent", BasicAuth::from_headers(&*hdrs("www-authenticate", &["x"])).unwrap().is_none());
        chk!(5, "absent", Authorization::from_headers(&*hdrs("www-authenticate", &["x"])).unwrap().is_none());
        chk!(6, "absent", WwwAuthenticate::from_headers(&*hdrs("authorization", &["x"])).unwrap().is_none());
        sx::cover(1);
    }
    // every printable realm
    fn c13_www(n) {
        let k = sx::choice(10);
        let r = chars(n, 0x20, 0x7e);
        let t = applied(&WwwAuthenticate::new(scheme(k), r.clone()));
        let x = text(&t, "www-authenticate");
        sx::out(x.as_bytes());
        let mut want = NAMES[k].as_bytes().to_vec();
        want.extend_from_slice(b" realm=\"");
        for c in r.as_bytes() {
            if *c == b'"' || *c == b'\\' {
                want.push(b'\\');
            }
            want.push(*c);
        }
        want.extend_from_slice(b"\", charset=\"UTF-8\"");
        chk!(1, "text", same(x.as_bytes(), &want));
        let g = WwwAuthenticate::from_headers(&*t).unwrap().unwrap();
        chk!(2, "scheme", g.scheme() == scheme(k));
        chk!(3, "realm", same(g.realm().as_bytes(), r.as_bytes()));
        sx::cover(1);
    }
    // any value: the realm is the quoted string after `realm=`, or the value is refused
    fn c13_www_any(n, form) {
        let v = match form {
            0 => chars(n, 0, 127),
            1 => { let mut s = String::from("Basic "); s.push_str(&chars(n, 0x20, 0x7e)); s }
            2 => { let mut s = String::from("hoba realm="); s.push_str(&chars(n, 0x20, 0x7e)); s }
            3 => { let mut s = String::from("Digest   realm=\""); s.push_str(&chars(n, 0x20, 0x7e)); s }
            _ => { let mut s = chars(n, 0x20, 0x7e); s.push_str(" realm=\"x\", charset=\"UTF-8\""); s }
        };
        let b = v.as_bytes();
        let mut i = 0;
        while i < b.len() && b[i] != b' ' {
            i += 1;
        }
        let k = if i == b.len() { None } else { known(&b[..i]) };
        let mut realm = None;
        if k.is_some() {
            while i < b.len() && matches!(b[i], b' ' | b'\t' | b'\n' | b'\r' | 11 | 12) {
                i += 1;
            }
            if b.len() >= i + 7 && same(&b[i..i + 7], b"realm=\"") {
                i += 7;
                let mut r = vec![];
                while i < b.len() && b[i] != b'"' {
                    if b[i] == b'\\' {
                        i += 1;
                        if i == b.len() {
                            break;
                        }
                    }
                    r.push(b[i]);
                    i += 1;
                }
                if i < b.len() {
                    realm = Some(r);
                }
            }
        }
        match (WwwAuthenticate::from_headers(&*hdrs("www-authenticate", &["Bearer realm=\"q\"", &v])), realm) {
            (Ok(Some(w)), Some(r)) => {
                sx::cover(1);
                chk!(1, "scheme", Some(w.scheme()) == k.map(scheme));
                chk!(2, "realm", same(w.realm().as_bytes(), &r));
            }
            (Err(e), None) => {
                sx::cover(2);
                chk!(3, "status", is_4xx(&e));
            }
            (Ok(_), _) => {
                // a realm parameter elsewhere or in another case may be understood as well
                let l = lower(b);
                let mut somewhere = false;
                for j in 0..l.len() {
                    somewhere = somewhere || (j + 6 <= l.len() && same(&l[j..j + 6], b"realm="));
                }
                chk!(4, "value without realm accepted", somewhere && k.is_some());
            }
            (Err(_), _) => chk!(5, "valid value refused", false),
        }
    }
}

//! C19 Forwarded, its X-Forwarded fallback, and what Request derives from them.
use super::util::*;
use crate::sx;
use http_types::proxies::Forwarded;

type B = Vec<u8>;
#[derive(Default, Clone)]
struct F {
    by: Option<B>,
    fors: Vec<B>,
    host: Option<B>,
    proto: Option<B>,
}
fn tch(c: u8) -> bool {
    matches!(c, b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'!' | b'#' | b'$' | b'%' | b'&' | b'\'' | b'*' | b'+' | b'-' | b'.' | b'^' | b'_' | b'`' | b'|' | b'~')
}
/// token or quoted-string at the start of `s` (RFC 7230 3.2.6): value and rest.
fn value(s: &[u8]) -> Option<(B, &[u8])> {
    let n = s.iter().take_while(|c| tch(**c)).count();
    if n > 0 {
        return Some((s[..n].to_vec(), &s[n..]));
    }
    if s.first() != Some(&b'"') {
        return None;
    }
    let (mut v, mut i) = (vec![], 1);
    while i < s.len() {
        match s[i] {
            b'"' => return Some((v, &s[i + 1..])),
            b'\\' => {
                i += 1;
                if i == s.len() || !(s[i] == 9 || (s[i] >= 32 && s[i] < 127)) {
                    return None;
                }
                v.push(s[i]);
            }
            c if c == 9 || (c >= 32 && c < 127) => v.push(c),
            _ => return None,
        }
        i += 1;
    }
    None
}
/// One forwarded-element of RFC 7239, in which `for` may be a list. Err(true): don't care.
fn reference(mut s: &[u8]) -> std::result::Result<F, bool> {
    let mut f = F::default();
    let mut for_seen = false;
    loop {
        if s.is_empty() {
            // empty value, or trailing semicolon
            return Err(true);
        }
        let n = s.iter().take_while(|c| tch(**c)).count();
        if n == 0 || s.get(n) != Some(&b'=') {
            return Err(false);
        }
        let key = lower(&s[..n]);
        let (v, mut r) = value(&s[n + 1..]).ok_or(false)?;
        if same(&key, b"for") {
            if for_seen {
                return Err(true);
            }
            for_seen = true;
            f.fors.push(v);
            while r.first() == Some(&b',') {
                r = &r[1..];
                while matches!(r.first(), Some(b' ' | b'\t')) {
                    r = &r[1..];
                }
                if r.len() < 4 || !same(&lower(&r[..4]), b"for=") {
                    return Err(false);
                }
                let (v, q) = value(&r[4..]).ok_or(false)?;
                f.fors.push(v);
                r = q;
            }
        } else {
            let slot = if same(&key, b"by") {
                &mut f.by
            } else if same(&key, b"host") {
                &mut f.host
            } else if same(&key, b"proto") {
                &mut f.proto
            } else {
                &mut None
            };
            if slot.is_some() {
                return Err(false);
            }
            *slot = Some(v);
        }
        match r.first() {
            None => return Ok(f),
            Some(b';') => s = &r[1..],
            _ => return Err(false),
        }
    }
}
fn opt_same(a: Option<&str>, b: &Option<B>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a.as_bytes(), b),
        _ => false,
    }
}
fn agree(id: u32, g: &Forwarded, f: &F) {
    let l = g.forwarded_for();
    chk!(id, "number of for values", l.len() == f.fors.len());
    for (a, b) in l.iter().zip(&f.fors) {
        chk!(id + 1, "for value", same(a.as_bytes(), b));
    }
    chk!(id + 2, "by", opt_same(g.by(), &f.by));
    chk!(id + 3, "host", opt_same(g.host(), &f.host));
    chk!(id + 4, "proto", opt_same(g.proto(), &f.proto));
}
fn printable(n: usize) -> String {
    let s = chars(n, 9, 126);
    for c in s.bytes() {
        sx::assume((c == 9) | (c >= 32));
    }
    s
}
fn printable_of(i: usize, k: usize, n: usize) -> String {
    if k >= 8 && i > 0 && i + 1 < k {
        st(&pick_text(i, k, n, || 0)).to_string()
    } else {
        printable(n)
    }
}
fn written(g: &Forwarded, f: &F) {
    let t = applied(g);
    let x = text(&t, "forwarded");
    sx::out(x.as_bytes());
    if !x.is_empty() {
        match reference(x.as_bytes()) {
            Ok(r) => {
                chk!(20, "text: number of for values", r.fors.len() == f.fors.len());
                for (a, b) in r.fors.iter().zip(&f.fors) {
                    chk!(21, "text: for value", same(a, b));
                }
                let eq = |a: &Option<B>, b: &Option<B>| match (a, b) {
                    (Some(a), Some(b)) => same(a, b),
                    (None, None) => true,
                    _ => false,
                };
                chk!(22, "text: by", eq(&r.by, &f.by));
                chk!(23, "text: host", eq(&r.host, &f.host));
                chk!(24, "text: proto", eq(&r.proto, &f.proto));
            }
            Err(_) => chk!(25, "text is well formed", false),
        }
    } else {
        chk!(26, "empty", f.fors.is_empty() && f.by.is_none() && f.host.is_none() && f.proto.is_none());
    }
    let mut q = Response::new(200);
    g.apply_header(&mut q);
    match Forwarded::from_headers(&q) {
        Ok(Some(h)) => agree(30, &h, f),
        _ => chk!(35, "read back", false),
    }
    chk!(36, "display", same(g.to_string().as_bytes(), x.as_bytes()));
}
const PRE: [&str; 17] = [
    "", "for=", "by=a;", "host=\"", "for=a,", "for=\"a", "PROTO=x;h", "by=\"\\", "for=a;by=b;", "by=1;b", "x=\"a\";", "for=a, FOR=\"b\\\"", "by=c;Fo", "for=\"a\";p=q;proto=",
    "for=1,for=2,for=3,for=4,for=\"5\",for=6,for=7,for=8,for=9,for=10,for=11,for=12,for=13,for=14,for=15,for=16,for=17,for=",
    "a=1;b=2;c=3;d=4;e=5;f=6;g=7;h=8;i=9;j=10;k=11;l=12;m=13;n=14;o=15;p=16;q=17;r=18;for=x;host=",
    "by=\"0123456789abcdefghijABCDEFGHIJ0123456789abcdefghijABCDEFGHIJ0123456789abcdefghijABCDEFGHIJ\";host=\"0123456789abcdefghijABCDEFGHIJ\\\"0123456789abcdefghijABCDEFGHIJ0123456789abcdefghijABCDEFGHIJ",
];
const ADDR: [(&str, &str); 8] = [("::ffff:192.0.2.1", "[::ffff:192.0.2.1]"), ("2001:DB8:0:0:1:0:0:1", "[2001:db8::1:0:0:1]"), ("192.0.2.1", "192.0.2.1"), ("2001:db8::17", "[2001:db8::17]"), ("unknown", "unknown"), ("a b\"c", "a b\"c"), (" ::1 ", "[::1]"), ("", "")];

harness! {
    // k for values and the fields in `mask`, of n arbitrary printable characters each
    fn c19_new(k, mask, n) {
        let mut g = Forwarded::new();
        let mut f = F::default();
        for i in 0..k {
            let s = printable_of(i, k, n);
            f.fors.push(s.as_bytes().to_vec());
            g.add_for(s);
        }
        if mask & 1 > 0 {
            let s = printable(n);
            f.by = Some(s.as_bytes().to_vec());
            g.set_by(s);
        }
        if mask & 2 > 0 {
            let s = printable(n);
            f.host = Some(s.as_bytes().to_vec());
            g.set_host(s);
        }
        if mask & 4 > 0 {
            let s = printable(n);
            f.proto = Some(s.as_bytes().to_vec());
            g.set_proto(s);
        }
        agree(1, &g, &f);
        written(&g, &f);
        let o = g.into_owned();
        agree(10, &o, &f);
        sx::cover(1);
    }
    // arbitrary text after a beginning
    fn c19_any(n, h) {
        let m = printable(n);
        let x = format!("{}{}", PRE[h], m);
        let mut q = Response::new(200);
        q.append_header("Forwarded", x.as_str()).unwrap();
        q.append_header("X-Forwarded-For", "never").unwrap();
        match (Forwarded::from_headers(&q), reference(x.as_bytes())) {
            (Ok(Some(g)), Ok(f)) => {
                sx::cover(1);
                agree(1, &g, &f);
                let p = Forwarded::parse(&x);
                chk!(7, "parse", matches!(p, Ok(ref p) if *p == g));
                chk!(8, "from_forwarded_header", matches!(Forwarded::from_forwarded_header(&q), Ok(Some(ref p)) if *p == g));
            }
            (Ok(Some(_)), Err(true)) | (Err(_), Err(true)) => {}
            (Err(_), Err(false)) => sx::cover(2),
            (Ok(Some(_)), Err(false)) => chk!(11, "accepted malformed text", false),
            (Err(_), Ok(_)) => chk!(12, "refused well-formed text", false),
            (Ok(None), _) => chk!(13, "present", false),
        }
    }
    // no text at all makes parsing panic
    fn c19_utf8(n, h) {
        let x = format!("{}{}", PRE[h], utf8(n));
        let r = Forwarded::parse(&x);
        sx::out(&[r.is_ok() as u8]);
        match (&r, Forwarded::try_from(&x[..])) {
            (Ok(a), Ok(b)) => chk!(2, "the same conversion", *a == b),
            (Err(a), Err(b)) => chk!(3, "the same error", a.to_string() == b.to_string() && !b.to_string().is_empty()),
            _ => chk!(4, "the same outcome", false),
        }
        sx::cover(1);
        if let Ok(g) = r {
            // values are parts of the text
            let l: usize = g.forwarded_for().iter().map(|s| s.len()).sum();
            chk!(1, "within the text", l <= x.len());
        }
    }
    fn c19_ctl(n, h) {
        let m = ascii(n);
        let x = format!("{}{}", PRE[h], m);
        let t = Forwarded::parse(&x);
        sx::out(&[t.is_ok() as u8]);
        sx::cover(1);
    }
    // the historical headers
    fn c19_x(k, mask, n) {
        let mut q = Response::new(200);
        let mut f = F::default();
        if k > 0 {
            let mut l = String::new();
            for i in 0..k {
                let (a, b) = ADDR[pick(i, k, 8)];
                if i > 0 {
                    l.push_str([",", ", "][pick(i, k, 2)]);
                }
                l.push_str(a);
                f.fors.push(b.as_bytes().to_vec());
            }
            q.append_header("X-Forwarded-For", l.as_str()).unwrap();
        }
        for (b, h) in ["X-Forwarded-By", "X-Forwarded-Host", "x-forwarded-proto"].iter().enumerate() {
            if mask & (1 << b) > 0 {
                let s = printable(n);
                q.append_header(*h, s.as_str()).unwrap();
                let v = Some(s.into_bytes());
                match b {
                    0 => f.by = v,
                    1 => f.host = v,
                    _ => f.proto = v,
                }
            }
        }
        chk!(1, "no Forwarded header", matches!(Forwarded::from_forwarded_header(&q), Ok(None)));
        let a = Forwarded::from_headers(&q);
        let b = Forwarded::from_x_headers(&q);
        match (a, b) {
            (Ok(Some(a)), Ok(Some(b))) => {
                sx::cover(1);
                chk!(2, "same", a == b);
                chk!(3, "present", k > 0 || mask > 0);
                agree(4, &a, &f);
                written(&a, &f);
            }
            (Ok(None), Ok(None)) => {
                sx::cover(2);
                chk!(9, "absent", k == 0 && mask == 0);
            }
            _ => chk!(10, "fallback", false),
        }
    }
    // addresses with n arbitrary characters in them, as the standard library reads addresses
    fn c19_x_any(n, h) {
        const P: [(&str, &str); 9] = [("", ""), ("::ffff:1.2.3.", ""), ("2001:db8::", ""), ("1:2:3:4:5:6:", ":8"), ("1.2.", ".4"), ("fe80::1", ""), ("::", ".2.3.4"), ("[::", "]"), ("0:0:0:0:0:FFFF:c000:", "")];
        let s = printable(n);
        sx::assume(s.bytes().fold(true, |a, c| a & (c != b',')));
        let x = format!("{}{}{}", P[h].0, s, P[h].1);
        let mut q = Request::get("http://a/");
        q.append_header("X-Forwarded-For", x.as_str()).unwrap();
        let t = x.trim();
        let want = match t.parse::<std::net::IpAddr>() {
            Ok(std::net::IpAddr::V6(a)) => {
                sx::cover(1);
                format!("[{}]", a)
            }
            _ => {
                sx::cover(2);
                t.to_string()
            }
        };
        let f = F { fors: vec![want.into_bytes()], ..F::default() };
        match Forwarded::from_headers(&q) {
            Ok(Some(g)) => {
                agree(1, &g, &f);
                written(&g, &f);
            }
            _ => chk!(9, "read", false),
        }
    }
    // Request::remote and Request::host
    // k pairs under any keys, in letters of either case: each key at most once
    fn c19_dup(k, n) {
        const KEYS: [&str; 4] = ["by", "host", "proto", "ext"];
        let mut t = vec![];
        let mut want: [Option<String>; 4] = [None, None, None, None];
        let mut twice = false;
        for i in 0..k {
            let w = if k >= 8 && i > 0 && i + 1 < k { 3 } else { sx::choice(4) };
            let up = 32 * sx::byte(0, 1);
            if i > 0 {
                t.push(b';');
            }
            t.push(KEYS[w].as_bytes()[0] - up);
            t.extend_from_slice(&KEYS[w].as_bytes()[1..]);
            t.push(b'=');
            let v = if k >= 8 && i > 0 && i + 1 < k { format!("v{}", i) } else { chars(n, b'a', b'z') };
            t.extend_from_slice(v.as_bytes());
            twice |= w < 3 && want[w].is_some();
            want[w] = Some(v);
        }
        match Forwarded::parse(st(&t)) {
            Ok(f) => {
                sx::cover(1);
                chk!(80, "a key given twice", !twice);
                let is = |a: Option<&str>, b: &Option<String>| match (a, b) {
                    (Some(a), Some(b)) => same(a.as_bytes(), b.as_bytes()),
                    (None, None) => true,
                    _ => false,
                };
                chk!(81, "the values given", is(f.by(), &want[0]) && is(f.host(), &want[1]) && is(f.proto(), &want[2]));
                chk!(82, "nothing else", f.forwarded_for().is_empty());
            }
            Err(_) => {
                sx::cover(2);
                chk!(83, "refused", twice);
            }
        }
    }
    fn c19_req(n, form) {
        let mut r = Request::get("http://u.example/");
        let tok = || {
            let s = chars(n, b'!', b'~');
            for c in s.bytes() {
                sx::assume(tch(c));
            }
            s
        };
        let quoted = || {
            let s = chars(n, b' ', b'~');
            for c in s.bytes() {
                sx::assume(c != b'"' && c != b'\\');
            }
            s
        };
        let (mut remote, mut host) = (None, None);

        if form > 5 {
            let (a, b) = match form {
                6 => (quoted(), quoted()),
                7 => (tok(), quoted()),
                _ => (tok(), tok()),
            };
            let x = match form {
                6 => format!("for=\"{}\";host=\"{}\"", a, b),
                7 => format!("by=\"{},for=x;host=y;\";host=\"{0}\";For={}", b, a),
                8 => format!("by=\"\\{}\\\";for=x\";for={};host={}", chars(1, b' ', b'~'), a, b),
                _ => format!("for={} , for=z;host={} ,for=y;host=w", a, b),
            };
            r.insert_header("Forwarded", x.as_str());
            if let Ok(Some(f)) = Forwarded::from_headers(&r) {
                sx::cover(3);
                chk!(7, "as Forwarded reads it", f.forwarded_for().first() == Some(&&a[..]) && f.host() == Some(&b[..]));
            }
            remote = Some(a);
            host = Some(b);
        } else if form > 0 {
            let (a, b) = (tok(), tok());
            let x = match form {
                1 => format!("for={}", a),
                2 => format!("host={}", b),
                3 => format!("by=x;For={};proto=q;HOST={}", a, b),
                4 => format!("for={}, for=z;host={}", a, b),
                _ => "garbage".to_string(),
            };
            r.insert_header("Forwarded", x.as_str());
            if matches!(form, 1 | 3 | 4) {
                remote = Some(a);
            }
            if matches!(form, 2 | 3 | 4) {
                host = Some(b);
            }
        }
        if sx::boolean() {
            let a = ["[::1]:80", "h_x"][sx::choice(2)].to_string();
            r.insert_header("X-Forwarded-For", [a.clone(), format!("{},z", a)][sx::choice(2)].as_str());
            remote = remote.or(Some(a));
        }
        if sx::boolean() {
            r.set_peer_addr(Some("peer:1"));
            remote = remote.or(Some("peer:1".to_string()));
            chk!(1, "peer", r.peer_addr() == Some("peer:1"));
        }
        if sx::boolean() {
            let a = ["[::1]:80", "h_x"][sx::choice(2)].to_string();
            r.insert_header("X-Forwarded-Host", [a.clone(), format!("{},z", a)][sx::choice(2)].as_str());
            host = host.or(Some(a));
        }
        if sx::boolean() {
            let a = ["[::1]:80", "h_x"][sx::choice(2)].to_string();
            r.insert_header("Host", a.as_str());
            host = host.or(Some(a));
        }
        let host = host.unwrap_or_else(|| "u.example".to_string());
        match (r.remote(), &remote) {
            (Some(a), Some(b)) => {
                sx::cover(1);
                chk!(2, "remote", same(a.as_bytes(), b.as_bytes()));
            }
            (None, None) => sx::cover(2),
            _ => chk!(3, "remote", false),
        }
        match r.host() {
            Some(h) => chk!(4, "host", same(h.as_bytes(), host.as_bytes())),
            None => chk!(5, "host", false),
        }
        r.set_local_addr(Some("l:2"));
        chk!(6, "local", r.local_addr() == Some("l:2"));
    }
}

//! C17 Strict-Transport-Security and Timing-Allow-Origin.
use super::util::*;
use crate::sx;
use http_types::security::{StrictTransportSecurity, TimingAllowOrigin};
use std::time::Duration;

const BIG: [u64; 4] = [0, 31536000, u32::MAX as u64 + 1, u64::MAX];
const URLS: [&str; 4] = ["https://example.com/", "http://a.b:8080/", "https://x/", "file:///q"];

fn cased(s: &str, mode: usize) -> Vec<u8> {
    match mode {
        0 => s.as_bytes().to_vec(),
        1 => lower(s.as_bytes()),
        _ => s.as_bytes().iter().map(|c| c.to_ascii_uppercase()).collect(),
    }
}
fn hsts_round(secs: u64, sub: bool, pre: bool) {
    let mut h = StrictTransportSecurity::new(Duration::from_secs(secs));
    chk!(1, "new", !h.include_subdomains() && !h.preload());
    h.set_include_subdomains(sub);
    h.set_preload(pre);
    let t = applied(&h);
    let x = text(&t, "strict-transport-security");
    sx::out(x.as_bytes());
    // the directives, in any order
    let mut age = 0;
    let (mut s, mut p) = (0, 0);
    for d in x.as_bytes().split(|c| *c == b';') {
        let d = trim(d);
        if same(&lower(d), b"includesubdomains") {
            s += 1;
        } else if same(d, b"preload") {
            p += 1;
        } else {
            let mut w = b"max-age=".to_vec();
            w.extend_from_slice(&dec(secs));
            chk!(2, "text", same(d, &w));
            age += 1;
        }
    }
    chk!(3, "directives", age == 1 && s == sub as u32 && p == pre as u32);
    let g = StrictTransportSecurity::from_headers(&*t).unwrap().unwrap();
    chk!(4, "age", g.max_age() == Duration::from_secs(secs));
    chk!(5, "flags", g.include_subdomains() == sub && g.preload() == pre);
}
harness! {
    fn c17_hsts(lo, width) {
        hsts_round(lo as u64 + sx::u64_in(0, width as u64), sx::boolean(), sx::boolean());
        sx::cover(1);
    }
    fn c17_hsts_big() {
        hsts_round(BIG[sx::choice(4)], sx::boolean(), sx::boolean());
        let d = StrictTransportSecurity::default();
        chk!(10, "default", d.max_age() == Duration::from_secs(31536000) && d.preload() && !d.include_subdomains());
        sx::cover(1);
    }
    // k directives in any order, spelling and layout; unknown ones are ignored
    fn c17_hsts_read(k, sep) {
        let mut v: Vec<u8> = vec![];
        let (mut age, mut sub, mut pre) = (None, false, false);
        for i in 0..k {
            if i > 0 {
                v.extend_from_slice([&b";"[..], b" ; ", b";\t", b";;"][sep]);
            }
            let c = pick(i, k, 3);
            match if k >= 8 && i > 0 && i + 1 < k { 3 + i % 2 } else { sx::choice(5) } {
                0 => {
                    v.extend_from_slice(&cased("max-age=12", c));
                    sx::assume(age.is_none());
                    age = Some(12);
                }
                1 => { v.extend_from_slice(&cased("includeSubDomains", c)); sub = true; }
                2 => { v.extend_from_slice(&cased("preload", c)); pre = true; }
                3 => v.extend_from_slice(&cased("foo", c)),
                _ => v.extend_from_slice(&cased(&format!("bar{}=x", "y".repeat(i)), c)),
            }
        }
        match (StrictTransportSecurity::from_headers(&*hdrs("strict-transport-security", &["max-age=9;preload", st(&v)])), age) {
            (Ok(Some(h)), Some(a)) => {
                sx::cover(1);
                chk!(1, "age", h.max_age() == Duration::from_secs(a));
                chk!(2, "flags", h.include_subdomains() == sub && h.preload() == pre);
            }
            (Err(e), None) => {
                sx::cover(2);
                chk!(3, "status", is_4xx(&e));
            }
            (Ok(_), _) => chk!(4, "accepted without max-age", false),
            (Err(_), _) => chk!(5, "refused", false),
        }
    }
    // arbitrary characters in several places
    fn c17_hsts_any(n, form) {
        let m = chars(n, 0, 127);
        let b = m.as_bytes();
        let v = match form {
            0 => m.clone(),
            1 => format!("max-age={}", m),
            2 => format!("preload;max-age=5;{}", m),
            3 => format!("max-age=1{};includeSubDomains", m),
            _ => format!("max-{}=5", m),
        };
        let want = match form {
            1 => number(b),
            3 => { let mut w = b"1".to_vec(); w.extend_from_slice(b); number(&w) }
            _ => None,
        };
        match StrictTransportSecurity::from_headers(&*hdrs("strict-transport-security", &[&v])) {
            Ok(Some(h)) => {
                sx::cover(1);
                match form {
                    1 | 3 => {
                        if let Some(w) = want {
                            chk!(1, "age", h.max_age() == Duration::from_secs(w));
                        } else {
                            // signs, quotes, blanks and further directives after the number are tolerated
                            chk!(2, "age", b.iter().any(|c| matches!(*c, b'+' | b'"' | b';') || c.is_ascii_whitespace() || *c == 11));
                        }
                    }
                    2 => {
                        chk!(3, "age", h.max_age() == Duration::from_secs(5) || n >= 8);
                        chk!(4, "flags", h.preload() && (!h.include_subdomains() || n >= 17));
                    }
                    4 => chk!(5, "name", same(&lower(trim(b)), b"age") || n > 3),
                    _ => chk!(6, "accepted", n >= 9),
                }
            }
            Ok(None) => chk!(7, "present", false),
            Err(e) => {
                sx::cover(2);
                chk!(8, "status", is_4xx(&e));
                chk!(9, "refused", want.is_none() && (form != 2 || n >= 8));
            }
        }
    }
    // origins written and read
    fn c17_origin(k) {
        let mut h = TimingAllowOrigin::new();
        let mut x: Vec<u8> = vec![];
        let mut us = vec![];
        for i in 0..k {
            let u = pick(i, k, 4);
            h.push(Url::parse(URLS[u]).unwrap());
            if i > 0 {
                x.extend_from_slice(b", ");
            }
            x.extend_from_slice(URLS[u].as_bytes());
            us.push(u);
        }
        let wild = k == 0 || sx::boolean();
        h.set_wildcard(wild);
        if wild {
            if k > 0 {
                x.extend_from_slice(b", ");
            }
            x.push(b'*');
        }
        let t = applied(&h);
        chk!(1, "text", same(text(&t, "timing-allow-origin").as_bytes(), &x));
        let g = TimingAllowOrigin::from_headers(&*t).unwrap().unwrap();
        chk!(2, "wildcard", g.wildcard() == wild && h.wildcard() == wild);
        chk!(3, "equal", g == h);
        let mut n = 0;
        for u in g.iter() {
            chk!(4, "origin", n < k && same(u.as_str().as_bytes(), URLS[us[n]].as_bytes()));
            n += 1;
        }
        chk!(5, "count", n == k);
        n = 0;
        for u in g {
            chk!(6, "by value", same(u.as_str().as_bytes(), URLS[us[n]].as_bytes()));
            n += 1;
        }
        sx::cover(1);
    }
    // layouts: blanks, several lines, "null"
    fn c17_origin_layout(shape) {
        let mut lines: Vec<String> = vec![String::new()];
        let (mut wild, mut us) = (false, vec![]);
        for i in 0..3 {
            if i > 0 {
                match shape {
                    0 => lines.last_mut().unwrap().push(','),
                    1 => lines.last_mut().unwrap().push_str(" ,\t "),
                    _ => lines.push(String::new()),
                }
            } else if shape == 1 {
                lines[0].push(' ');
            }
            let u = sx::choice(6);
            let l = lines.last_mut().unwrap();
            match u {
                4 => { l.push('*'); wild = true; }
                5 => l.push_str("\"null\""),
                _ => { l.push_str(URLS[u]); us.push(u); }
            }
        }
        let l: Vec<&str> = lines.iter().map(|x| &x[..]).collect();
        let g = TimingAllowOrigin::from_headers(&*hdrs("timing-allow-origin", &l)).unwrap().unwrap();
        chk!(1, "wildcard", g.wildcard() == wild);
        let mut n = 0;
        for u in &g {
            chk!(2, "origin", n < us.len() && same(u.as_str().as_bytes(), URLS[us[n]].as_bytes()));
            n += 1;
        }
        chk!(3, "count", n == us.len());
        sx::cover(1);
    }
    // an item is a URL, a wildcard or "null"
    fn c17_origin_any(n, head) {
        let mut v = ["", "http://", "*,", "https://a.b/"][head].as_bytes().to_vec();
        v.extend_from_slice(chars(n, 0, 127).as_bytes());
        let mut ok = true;
        let mut urls = vec![];
        let mut wild = false;
        for i in v.split(|c| *c == b',') {
            let i = trim(i);
            if same(i, b"*") {
                wild = true;
            } else if !same(i, b"\"null\"") {
                match Url::parse(st(i)) {
                    Ok(u) => urls.push(u),
                    Err(_) => ok &= i.is_empty(),
                }
            }
        }
        let empty = v.split(|c| *c == b',').any(|i| trim(i).is_empty());
        match TimingAllowOrigin::from_headers(&*hdrs("timing-allow-origin", &[st(&v)])) {
            Ok(Some(g)) => {
                sx::cover(1);
                chk!(1, "accepted", ok);
                chk!(2, "wildcard", g.wildcard() == wild);
                let mut n = 0;
                for u in &g {
                    chk!(3, "origin", n < urls.len() && same(u.as_str().as_bytes(), urls[n].as_str().as_bytes()));
                    n += 1;
                }
                chk!(4, "count", n == urls.len());
            }
            Ok(None) => chk!(5, "present", false),
            Err(e) => {
                sx::cover(2);
                chk!(6, "refused", !ok || empty);
                chk!(7, "status", is_4xx(&e));
            }
        }
    }
}

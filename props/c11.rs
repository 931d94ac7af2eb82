//! C11 cache headers: Age, Cache-Control, Clear-Site-Data.
use super::util::*;
use crate::sx;
use http_types::cache::{Age, CacheControl, CacheDirective, ClearDirective, ClearSiteData};
use std::time::Duration;

const SEC: [u64; 6] = [0, 9, 31536000, u32::MAX as u64 + 1, (1 << 53) + 1, u64::MAX];

fn dirs(k: usize, d: u64) -> CacheDirective {
    use CacheDirective::*;
    let d = Duration::new(d, 0);
    match k {
        0 => Immutable,
        1 => MaxAge(d),
        2 => MaxStale(Some(d)),
        3 => MaxStale(None),
        4 => MinFresh(d),
        5 => MustRevalidate,
        6 => NoCache,
        7 => NoStore,
        8 => NoTransform,
        9 => OnlyIfCached,
        10 => Private,
        11 => ProxyRevalidate,
        12 => Public,
        13 => SMaxAge(d),
        14 => StaleIfError(d),
        _ => StaleWhileRevalidate(d),
    }
}
fn word(k: usize) -> &'static [u8] {
    match k {
        0 => b"immutable",
        1 => b"max-age",
        2 | 3 => b"max-stale",
        4 => b"min-fresh",
        5 => b"must-revalidate",
        6 => b"no-cache",
        7 => b"no-store",
        8 => b"no-transform",
        9 => b"only-if-cached",
        10 => b"private",
        11 => b"proxy-revalidate",
        12 => b"public",
        13 => b"s-maxage",
        14 => b"stale-if-error",
        _ => b"stale-while-revalidate",
    }
}
fn timed(k: usize) -> bool {
    k == 1 || k == 2 || k == 4 || k >= 13
}
fn push(v: &mut Vec<u8>, k: usize, d: u64) {
    v.extend_from_slice(word(k));
    if timed(k) {
        v.push(b'=');
        v.extend_from_slice(&dec(d));
    }
}
fn cmp(c: CacheControl, want: &[CacheDirective]) {
    let mut i = c.iter();
    for w in want {
        match i.next() {
            Some(g) => chk!(1, "directive", g == w),
            None => chk!(2, "directive missing", false),
        }
    }
    chk!(3, "extra directive", i.next().is_none());
    let mut n = 0;
    for g in &c {
        chk!(4, "by reference", *g == want[n]);
        n += 1;
    }
    let mut n = 0;
    for g in c {
        chk!(5, "by value", g == want[n]);
        n += 1;
    }
    chk!(6, "count", n == want.len());
}
fn clear(k: usize) -> ClearDirective {
    match k {
        0 => ClearDirective::Cache,
        1 => ClearDirective::Cookies,
        2 => ClearDirective::Storage,
        _ => ClearDirective::ExecutionContexts,
    }
}
fn clear_word(k: usize) -> &'static [u8] {
    match k {
        0 => b"\"cache\"",
        1 => b"\"cookies\"",
        2 => b"\"storage\"",
        _ => b"\"executionContexts\"",
    }
}
harness! {
    // an age written and read back; lo = 10^k .. 10^k * 10 - 1 relative offsets
    fn c11_age(base, width) {
        let n = base as u64 + sx::u64_in(0, width as u64);
        let t = applied(&Age::from_secs(n));
        let x = text(&t, "age");
        sx::out(x.as_bytes());
        chk!(1, "text", same(x.as_bytes(), &dec(n)));
        let a = Age::from_headers(&*t).unwrap().unwrap();
        chk!(2, "age", a.duration().as_secs() == n);
        chk!(3, "age", a.duration().subsec_nanos() == 0);
        sx::cover(1);
    }
    fn c11_age_big() {
        let n = SEC[sx::choice(6)];
        let t = applied(&Age::new(Duration::new(n, 999_999_999)));
        chk!(1, "text", same(text(&t, "age").as_bytes(), &dec(n)));
        let a = Age::from_headers(&*t).unwrap().unwrap();
        chk!(2, "age", a.duration() == Duration::from_secs(n));
        sx::cover(1);
    }
    // any ASCII value: accepted exactly when it is a decimal number that fits
    fn c11_age_any(n, lead) {
        let mut s = vec![if lead < 50 { b'1' } else { b'0' }; lead];
        s.extend_from_slice(chars(n, 0, 127).as_bytes());
        let mut ok = s.len() > 0;
        let mut sum: u128 = 0;
        for c in &s {
            ok = ok && c.is_ascii_digit();
            if !ok {
                break;
            }
            sum = sum * 10 + (*c - b'0') as u128;
        }
        let plus = !s.is_empty() && s[0] == b'+';
        ok = ok && sum <= u64::MAX as u128;
        match Age::from_headers(&*hdrs("age", &[st(&s)])) {
            Ok(Some(a)) => {
                sx::cover(1);
                chk!(1, "accepted", ok || plus);
                if ok {
                    chk!(2, "value", a.duration() == Duration::from_secs(sum as u64));
                }
            }
            Ok(None) => chk!(3, "present", false),
            Err(e) => {
                sx::cover(2);
                chk!(4, "refused", !ok);
                chk!(5, "status", is_4xx(&e));
            }
        }
    }
    // k directives written and read back
    fn c11_cc(k, max) {
        let (lo, max) = if max > 1_000_000 { (max as u64, 9) } else { (0, max) };
        let mut c = CacheControl::new();
        let mut want = vec![];
        let mut x = vec![];
        for i in 0..k {
            let w = pick(i, k, 16);
            let d = if timed(w) { lo + pick_u64(i, k, max as u64) } else { 0 };
            if i > 0 {
                x.extend_from_slice(b", ");
            }
            push(&mut x, w, d);
            c.push(dirs(w, d));
            want.push(dirs(w, d));
        }
        let t = applied(&c);
        let got = text(&t, "cache-control");
        sx::out(got.as_bytes());
        chk!(10, "text", same(got.as_bytes(), &x));
        for e in c.iter_mut() {
            let _: &mut CacheDirective = e;
        }
        cmp(c, &want);
        cmp(CacheControl::from_headers(&*t).unwrap().unwrap(), &want);
        sx::cover(1);
    }
    fn c11_cc_big() {
        let w = [1, 2, 4, 13, 14, 15][sx::choice(6)];
        let d = SEC[sx::choice(6)];
        let mut c = CacheControl::new();
        c.push(dirs(w, d));
        let t = applied(&c);
        let mut x = vec![];
        push(&mut x, w, d);
        chk!(10, "text", same(text(&t, "cache-control").as_bytes(), &x));
        cmp(CacheControl::from_headers(&*t).unwrap().unwrap(), &[dirs(w, d)]);
        sx::cover(1);
    }
    // directives in any case, with blanks, over several header lines, unknown ones skipped
    fn c11_cc_read(shape) {
        let mut want = vec![];
        let mut lines: Vec<Vec<u8>> = vec![vec![]];
        for i in 0..2 {
            let w = sx::choice(17);
            let mut item = vec![];
            let mut d = 0u64;
            if w == 16 {
                item.extend_from_slice(b"x-other=\"5\"");
            } else {
                item.extend_from_slice(word(w));
                if sx::boolean() {
                    for c in item.iter_mut() {
                        *c = c.to_ascii_uppercase();
                    }
                }
                if timed(w) {
                    item.push(b'=');
                    for _ in 0..2 {
                        let c = sx::byte(b'0', b'9');
                        d = d * 10 + (c - b'0') as u64;
                        item.push(c);
                    }
                }
                want.push(dirs(w, d));
            }
            let l = lines.len() - 1;
            match (shape, i) {
                (0, 0) => {}
                (0, _) => lines[l].push(b','),
                (1, 0) => lines[l].extend_from_slice(b" \t"),
                (1, _) => lines[l].extend_from_slice(b" ,\t "),
                (2, 0) => lines[l].extend_from_slice(b",, "),
                (2, _) => lines[l].extend_from_slice(b",,"),
                (_, 0) => {}
                (_, _) => lines.push(vec![]),
            }
            let l = lines.len() - 1;
            lines[l].extend_from_slice(&item);
            if shape == 1 {
                lines[l].push(b' ');
            }
        }
        let v: Vec<&str> = lines.iter().map(|l| st(l)).collect();
        cmp(CacheControl::from_headers(&*hdrs("Cache-Control", &v)).unwrap().unwrap(), &want);
        sx::cover(1);
    }
    // a timed directive needs a number
    fn c11_cc_bad(n) {
        let w = [1, 2, 4, 13, 14, 15][sx::choice(6)];
        let tail = chars(n, 0x21, 0x7e);
        let b = tail.as_bytes();
        let mut digits = n > 0;
        for c in b {
            // commas start a new directive, a plus sign may be tolerated, what follows a second = is not looked at
            sx::assume(*c != b',' && *c != b'+' && *c != b'=');
            digits = digits && c.is_ascii_digit();
        }
        let mut v = word(w).to_vec();
        v.push(b'=');
        v.extend_from_slice(b);
        match CacheControl::from_headers(&*hdrs("cache-control", &[st(&v)])) {
            Ok(_) => {
                sx::cover(1);
                chk!(1, "accepted", digits)
            }
            Err(e) => {
                sx::cover(2);
                chk!(2, "refused", !digits);
                chk!(3, "status", is_4xx(&e));
            }
        }
    }
    fn c11_valid() {
        let w = sx::choice(16);
        let d = dirs(w, 1);
        // RFC 5861 and RFC 8246 leave room for stale-if-error in requests and immutable in responses
        chk!(1, "requests", w == 14 || d.valid_in_req() == matches!(w, 1 | 2 | 3 | 4 | 6 | 7 | 8 | 9));
        chk!(2, "responses", w == 0 || d.valid_in_res() == matches!(w, 5 | 6 | 7 | 8 | 12 | 10 | 11 | 1 | 13 | 14 | 15));
        chk!(3, "absent", CacheControl::from_headers(&*hdrs("age", &["1"])).unwrap().is_none());
        chk!(4, "absent", Age::from_headers(&*hdrs("cache-control", &["1"])).unwrap().is_none());
        chk!(5, "absent", ClearSiteData::from_headers(&*hdrs("cache-control", &["1"])).unwrap().is_none());
        sx::cover(1);
    }
    fn c11_clear(k) {
        let mut c = ClearSiteData::new();
        let mut want = vec![];
        let mut x: Vec<u8> = vec![];
        for i in 0..k {
            let w = pick(i, k, 4);
            if !x.is_empty() {
                x.extend_from_slice(b", ");
            }
            x.extend_from_slice(clear_word(w));
            c.push(clear(w));
            want.push(clear(w));
        }
        let wild = k == 0 || sx::boolean();
        c.set_wildcard(wild);
        if wild {
            if !x.is_empty() {
                x.extend_from_slice(b", ");
            }
            x.extend_from_slice(b"\"*\"");
        }
        let t = applied(&c);
        let got = text(&t, "clear-site-data");
        chk!(1, "text", same(got.as_bytes(), &x));
        let c = ClearSiteData::from_headers(&*t).unwrap().unwrap();
        chk!(2, "wildcard", c.wildcard() == wild);
        let mut n = 0;
        for g in c.iter() {
            chk!(3, "directive", n < k && *g == want[n]);
            n += 1;
        }
        chk!(4, "count", n == k);
        n = 0;
        for g in c {
            chk!(5, "directive", g == want[n]);
            n += 1;
        }
        sx::cover(1);
    }
    // any ASCII value is either a known directive list or refused
    fn c11_clear_any(n, head) {
        let mut v: Vec<u8> = match head {
            0 => vec![],
            1 => b"\"cache\"".to_vec(),
            2 => b"\"cache\" , ".to_vec(),
            _ => b"\"".to_vec(),
        };
        v.extend_from_slice(chars(n, 0x20, 0x7e).as_bytes());
        if head == 3 {
            v.extend_from_slice(b"okies\"");
        }
        // its items, blanks around them aside
        let mut items: Vec<&[u8]> = vec![];
        let mut from = 0;
        for i in 0..=v.len() {
            if i == v.len() || v[i] == b',' {
                let mut p = &v[from..i];
                while !p.is_empty() && p[0] == b' ' {
                    p = &p[1..];
                }
                while !p.is_empty() && p[p.len() - 1] == b' ' {
                    p = &p[..p.len() - 1];
                }
                items.push(p);
                from = i + 1;
            }
        }
        match ClearSiteData::from_headers(&*hdrs("clear-site-data", &[st(&v)])) {
            Ok(Some(c)) => {
                sx::cover(1);
                let mut g = c.iter();
                for i in &items {
                    if same(i, b"\"*\"") {
                        chk!(1, "wildcard", c.wildcard());
                        continue;
                    }
                    match g.next() {
                        Some(d) => chk!(2, "directive", same(d.as_str().as_bytes(), i)),
                        None => chk!(3, "directive missing", false),
                    }
                }
                chk!(4, "extra", g.next().is_none());
            }
            Ok(None) => chk!(5, "present", false),
            Err(e) => {
                sx::cover(2);
                let mut known = true;
                for i in &items {
                    let mut k = same(i, b"\"*\"");
                    for w in 0..4 {
                        k = k | same(i, clear_word(w));
                    }
                    known &= k;
                }
                chk!(6, "valid list refused", !known);
                chk!(7, "status", is_4xx(&e));
            }
        }
    }
}

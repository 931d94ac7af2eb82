//! Shared helpers. Comparisons are written without branches so that they become one solver query.
use crate::sx;
pub use http_types::headers::*;
pub use http_types::*;

/// Branch-free equality of byte strings.
#[inline(never)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn lower1(c: u8) -> u8 {
    // branch free ASCII lowercase, independent of std
    let up = (c.wrapping_sub(b'A') < 26) as u8;
    c | (up << 5)
}
pub fn lower(b: &[u8]) -> Vec<u8> {
    b.iter().map(|c| lower1(*c)).collect()
}
pub fn is_ascii(b: &[u8]) -> bool {
    let mut d = 0u8;
    for c in b {
        d |= *c;
    }
    d < 128
}
/// `n` bytes made by `f`. From 100 on, `n` stands for a long text: `n / 10` bytes of padding (letters of both
/// cases, or what else fits between `lo` and `hi`) around `n % 10` made ones.
pub fn long(n: usize, lo: u8, hi: u8, f: impl Fn() -> u8) -> Vec<u8> {
    let (pad, k) = if n < 100 { (0, n) } else { (n / 10, n % 10) };
    let mut v = Vec::with_capacity(pad + k);
    for i in 0..k + 1 {
        if i == (k + 1) / 2 {
            for j in 0..pad {
                let l = ((j * 7 + j / 26 + 1) % 26) as u8;
                v.push(if pad % 10 == 1 && lo <= b'a' && hi >= b'z' {
                    b'a' + l
                } else if pad % 10 == 2 && lo <= b'a' && hi >= b'z' {
                    b'x'
                } else if pad % 10 == 3 && lo <= b'A' && hi >= b'Z' {
                    b'A' + l
                } else if lo > b'a' || hi < b'z' {
                    lo + ((j * 7 + j / 26 + 1) % (hi - lo + 1) as usize) as u8
                } else if lo <= b'A' && j % 5 == 3 {
                    b'A' + l
                } else {
                    b'a' + l
                });
            }
        }
        if i < k {
            v.push(f());
        }
    }
    v
}
/// How many bytes `long` gives.
pub fn size(n: usize) -> usize {
    if n < 100 {
        n
    } else {
        n / 10 + n % 10
    }
}
/// One of `m` things for the `i`th of `k` places: any at the ends, a fixed one in between when there are many.
pub fn pick(i: usize, k: usize, m: usize) -> usize {
    if k >= 8 && i > 0 && i + 1 < k {
        (i * 7 + i / m + 3) % m
    } else {
        sx::choice(m)
    }
}
/// Likewise a number up to `max`.
pub fn pick_u64(i: usize, k: usize, max: u64) -> u64 {
    if k >= 8 && i > 0 && i + 1 < k {
        (i as u64).wrapping_mul(1_234_567) % (max.wrapping_add(1).max(1))
    } else {
        sx::u64_in(0, max)
    }
}
/// Texts of `n` bytes made by `f`, long or short; in the middle of many entries fixed ones of growing length.
pub fn pick_text(i: usize, k: usize, n: usize, f: impl Fn() -> u8) -> Vec<u8> {
    if k >= 8 && i > 0 && i + 1 < k {
        format!("t{}{}", i, "z".repeat(3 * i)).into_bytes()
    } else {
        long(n, 0, 255, f)
    }
}
/// `n` symbolic ASCII bytes as a string.
pub fn ascii(n: usize) -> String {
    unsafe { String::from_utf8_unchecked(long(n, 0, 127, || sx::byte(0, 127))) }
}
/// `n` symbolic bytes from `lo..=hi` as a string (hi < 128).
pub fn chars(n: usize, lo: u8, hi: u8) -> String {
    unsafe { String::from_utf8_unchecked(long(n, lo, hi, || sx::byte(lo, hi))) }
}
/// `n` symbolic bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    long(n, 0, 255, || sx::byte(0, 255))
}
/// A symbolic string of `n` bytes that is valid UTF-8 (invalid ones are assumed away by real validation).
pub fn utf8(n: usize) -> String {
    let v = bytes(n);
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            sx::assume(false);
            String::new()
        }
    }
}
pub fn is_4xx(e: &Error) -> bool {
    let s = e.status() as u16;
    (400..500).contains(&s)
}
pub use http_types::headers::Headers;
pub use http_types::trailers::Trailers;
/// A header map holding the given values under one name.
pub fn hdrs(name: &str, vals: &[&str]) -> Trailers {
    let mut t = Trailers::new();
    for v in vals {
        t.append(name, *v).unwrap();
    }
    t
}
/// The map holding what a typed header writes.
pub fn applied(h: &impl Header) -> Trailers {
    let mut t = Trailers::new();
    h.apply_header(&mut *t);
    t
}
/// Decimal text of a number.
pub fn dec(mut n: u64) -> Vec<u8> {
    let mut v = vec![b'0' + (n % 10) as u8];
    n /= 10;
    while n > 0 {
        v.push(b'0' + (n % 10) as u8);
        n /= 10;
    }
    v.reverse();
    v
}
/// The only value stored under `name`.
pub fn text(t: &Trailers, name: &str) -> String {
    match t.get(name) {
        Some(v) => {
            let mut i = v.iter();
            let r = i.next().map(|x| x.as_str().to_string());
            chk!(90, "one value", i.next().is_none());
            match r {
                Some(r) => r,
                None => {
                    chk!(91, "a value", false);
                    String::new()
                }
            }
        }
        None => {
            chk!(92, "header written", false);
            String::new()
        }
    }
}
pub fn st(v: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(v) }
}
/// Whether the error is one the sender of the header is to blame for.
pub fn refused(e: &Error) -> bool {
    is_4xx(e)
}
/// ASCII blanks cut off both ends.
pub fn trim(mut b: &[u8]) -> &[u8] {
    let w = |c: u8| c == b' ' || (9..14).contains(&c);
    while !b.is_empty() && w(b[0]) {
        b = &b[1..];
    }
    while !b.is_empty() && w(b[b.len() - 1]) {
        b = &b[..b.len() - 1];
    }
    b
}
/// The number a decimal text denotes, if it fits.
pub fn number(b: &[u8]) -> Option<u64> {
    let mut n: u128 = 0;
    for c in b {
        if !c.is_ascii_digit() {
            return None;
        }
        n = n * 10 + (*c - b'0') as u128;
    }
    if b.is_empty() || n > u64::MAX as u128 {
        None
    } else {
        Some(n as u64)
    }
}
/// Every predefined header name.
pub fn consts() -> Vec<(&'static str, http_types::headers::HeaderName)> {
    use http_types::headers::*;
    macro_rules! all {
        ($($n:ident),* $(,)?) => { vec![$((stringify!($n), $n)),*] };
    }
    all![
        CONTENT_ENCODING, CONTENT_LANGUAGE, CONTENT_LENGTH, CONTENT_LOCATION, CONTENT_MD5, CONTENT_RANGE,
        CONTENT_TYPE, COOKIE, SET_COOKIE, TRANSFER_ENCODING, DATE, HOST,
        ORIGIN, ACCESS_CONTROL_MAX_AGE, ACCESS_CONTROL_ALLOW_ORIGIN, ACCESS_CONTROL_ALLOW_HEADERS, ACCESS_CONTROL_ALLOW_METHODS, ACCESS_CONTROL_EXPOSE_HEADERS,
        ACCESS_CONTROL_REQUEST_METHOD, ACCESS_CONTROL_REQUEST_HEADERS, ACCESS_CONTROL_ALLOW_CREDENTIALS, ACCEPT, ACCEPT_CHARSET, ACCEPT_ENCODING,
        ACCEPT_LANGUAGE, ACCEPT_RANGES, AGE, ALLOW, AUTHORIZATION, CACHE_CONTROL,
        CLEAR_SITE_DATA, CONNECTION, ETAG, EXPECT, EXPIRES, FORWARDED,
        FROM, IF_MATCH, IF_MODIFIED_SINCE, IF_NONE_MATCH, IF_RANGE, IF_UNMODIFIED_SINCE,
        LAST_MODIFIED, LOCATION, MAX_FORWARDS, PRAGMA, PROXY_AUTHENTICATE, PROXY_AUTHORIZATION,
        PROXY_CONNECTION, REFERER, RETRY_AFTER, SERVER, SERVER_TIMING, SOURCE_MAP,
        STRICT_TRANSPORT_SECURITY, TE, TIMING_ALLOW_ORIGIN, TRACEPARENT, TRAILER, UPGRADE,
        USER_AGENT, VARY, VIA, WARNING, WWW_AUTHENTICATE,
    ]
}
/// Gives `h` two values under every predefined name.
pub fn full(h: &mut Headers, x: &str) {
    for (_, n) in consts() {
        h.append(&n, &format!("{}-{}", x, n.as_str())[..]).unwrap();
        h.append(n, "w").unwrap();
    }
}
/// Whether `h` has those two, in order, under each of the names but `except`, and `other` more names.
pub fn still_full(h: &Headers, x: &str, except: &[&str], other: usize) -> bool {
    let mut n = 0;
    let mut all = true;
    for (_, name) in consts() {
        if except.contains(&name.as_str()) {
            continue;
        }
        n += 1;
        all &= match h.get(&name) {
            Some(v) => {
                let v: Vec<&str> = v.iter().map(|v| v.as_str()).collect();
                v.len() == 2 && same(v[0].as_bytes(), format!("{}-{}", x, name.as_str()).as_bytes()) && v[1] == "w"
            }
            None => false,
        };
    }
    all & (h.names().count() == n + other)
}

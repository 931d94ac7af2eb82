//! C05 reading HTTP dates: three formats, exact accept set, client errors otherwise.
use super::dates::*;
use super::util::*;
use crate::sx;

fn put2(v: &mut Vec<u8>, x: u64) {
    v.push(b'0' + (x / 10) as u8);
    v.push(b'0' + (x % 10) as u8);
}
/// The text of an instant in format `f` (0 IMF-fixdate, 1 RFC 850, 2 asctime with padding SP, 3 asctime zero-padded).
fn text(f: usize, wd: usize, y: u64, mo: u64, d: u64, h: u64, m: u64, s: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(40);
    let mon = MON[(mo - 1) as usize].as_bytes();
    match f {
        0 => {
            v.extend_from_slice(WD[wd].as_bytes());
            v.extend_from_slice(b", ");
            put2(&mut v, d);
            v.push(b' ');
            v.extend_from_slice(mon);
            v.push(b' ');
            put2(&mut v, y / 100);
            put2(&mut v, y % 100);
            v.push(b' ');
        }
        1 => {
            v.extend_from_slice(WDL[wd].as_bytes());
            v.extend_from_slice(b", ");
            put2(&mut v, d);
            v.push(b'-');
            v.extend_from_slice(mon);
            v.push(b'-');
            put2(&mut v, y % 100);
            v.push(b' ');
        }
        _ => {
            v.extend_from_slice(WD[wd].as_bytes());
            v.push(b' ');
            v.extend_from_slice(mon);
            v.push(b' ');
            put2(&mut v, d);
            if f == 2 {
                let i = v.len() - 2;
                let pad = (v[i] == b'0') as u8;
                v[i] -= pad * 16;
            }
            v.push(b' ');
        }
    }
    put2(&mut v, h);
    v.push(b':');
    put2(&mut v, m);
    v.push(b':');
    put2(&mut v, s);
    if f < 2 {
        v.extend_from_slice(b" GMT");
    } else {
        v.push(b' ');
        put2(&mut v, y / 100);
        put2(&mut v, y % 100);
    }
    v
}
fn parse(w: usize, v: &[u8]) -> Result<Option<std::time::SystemTime>> {
    let s = unsafe { std::str::from_utf8_unchecked(v) };
    read(w, &hdrs(name(w), &[s]))
}

fn num(v: &[u8]) -> Option<u64> {
    let mut x = 0u64;
    for c in v {
        let d = c.wrapping_sub(b'0');
        if d >= 10 {
            return None;
        }
        x = x * 10 + d as u64;
    }
    Some(x)
}
/// The year: its digits become concrete, one path per year.
fn yr(v: &mut [u8]) -> Option<u64> {
    num(v)?;
    sx::conc_bytes(v);
    num(v)
}
fn lit(v: &[u8], at: usize, s: &[u8]) -> Option<()> {
    for i in 0..s.len() {
        if v[at + i] != s[i] {
            return None;
        }
    }
    Some(())
}
fn find(v: &[u8], names: &[&str]) -> Option<u64> {
    for k in 0..names.len() {
        if lit(v, 0, names[k].as_bytes()).is_some() {
            return Some(k as u64 + 1);
        }
    }
    None
}
fn hms(t: &[u8]) -> Option<u64> {
    lit(t, 2, b":")?;
    lit(t, 5, b":")?;
    let (h, m, s) = (num(&t[0..2])?, num(&t[3..5])?, num(&t[6..8])?);
    if (h < 24) & (m < 60) & (s < 60) {
        Some(h * 3600 + m * 60 + s)
    } else {
        None
    }
}
/// Independent recogniser of the three formats: the instant a text denotes, and whether the weekday fits.
fn oracle(v: &mut [u8]) -> Option<(u64, bool)> {
    let (wd, y, mo, d, t);
    if v.len() == 29 {
        lit(v, 3, b", ")?;
        lit(v, 7, b" ")?;
        lit(v, 11, b" ")?;
        lit(v, 16, b" ")?;
        lit(v, 25, b" GMT")?;
        d = num(&v[5..7])?;
        y = yr(&mut v[12..16])?;
        t = hms(&v[17..25])?;
        wd = find(&v[0..3], &WD)?;
        mo = find(&v[8..11], &MON)?;
    } else if v.len() == 24 {
        lit(v, 3, b" ")?;
        lit(v, 7, b" ")?;
        lit(v, 10, b" ")?;
        lit(v, 19, b" ")?;
        d = if v[8] == b' ' { num(&v[9..10])? } else { num(&v[8..10])? };
        y = yr(&mut v[20..24])?;
        t = hms(&v[11..19])?;
        wd = find(&v[0..3], &WD)?;
        mo = find(&v[4..7], &MON)?;
    } else {
        if v.len() < 30 || v.len() > 33 {
            return None;
        }
        let k = v.len() - 24;
        lit(v, k, b", ")?;
        let (name, r) = v.split_at_mut(k + 2);
        lit(r, 2, b"-")?;
        lit(r, 6, b"-")?;
        lit(r, 9, b" ")?;
        lit(r, 18, b" GMT")?;
        d = num(&r[0..2])?;
        let yy = yr(&mut r[7..9])?;
        t = hms(&r[10..18])?;
        let long: Vec<&str> = WDL.iter().copied().filter(|x| x.len() == k).collect();
        let i = find(&name[0..k], &long)?;
        wd = 1 + WDL.iter().position(|x| *x == long[i as usize - 1]).unwrap() as u64;
        mo = find(&r[3..6], &MON)?;
        y = if yy < 70 { 2000 + yy } else { 1900 + yy };
    }
    if y < 1970 {
        return None;
    }
    if (d < 1) | (d > mlen(y, mo)) {
        return None;
    }
    let day = days(y, mo, 1) + (d - 1);
    Some((day * 86400 + t, (day + 3) % 7 + 1 == wd))
}
fn judge(w: usize, v: &mut [u8]) {
    let o = oracle(v);
    let r = parse(w, &*v);
    match o {
        Some((t, fits)) => {
            sx::cover(1);
            match &r {
                Ok(Some(x)) => chk!(1, "denotes the instant", secs(*x) == t),
                Ok(None) => chk!(2, "present", false),
                // a date whose weekday does not fit may be refused
                Err(e) => {
                    chk!(3, "valid date refused", !fits);
                    chk!(4, "client error", e.status() as u16 == 400);
                }
            }
        }
        None => {
            sx::cover(2);
            match &r {
                Ok(_) => chk!(5, "malformed date accepted", false),
                Err(e) => chk!(6, "client error", e.status() as u16 == 400),
            }
        }
    }
}
harness! {
    // every instant of the years, in format f, through header w
    fn c05_valid(f, from, n, w) {
        let y = year(from, n);
        let mo = 1 + sx::choice(12) as u64;
        let d = sx::u64_in(1, mlen(y, mo));
        let (h, m, s) = (sx::u64_in(0, 23), sx::u64_in(0, 59), sx::u64_in(0, 59));
        let day = days(y, mo, 1) + (d - 1);
        let wd = sx::conc((day + 3) % 7) as usize;
        let v = text(f, wd, y, mo, d, h, m, s);
        match parse(w, &v) {
            Ok(Some(x)) => chk!(11, "same instant", secs(x) == day * 86400 + h * 3600 + m * 60 + s),
            _ => chk!(12, "accepted", false),
        }
        sx::cover(1);
    }
    // `n` bytes at `at` of a valid date of format f (one for each weekday name) replaced by arbitrary ASCII
    fn c05_edit(f, at, n, w) {
        let wd = if f == 1 { sx::choice(7) } else { 2 };
        let mut v = text(f, wd, 2004, 2, 9, 18, 47, 36);
        sx::assume(at + n <= v.len());
        for i in at..at + n {
            v[i] = sx::byte(0, 127);
        }
        if at == 0 || at + n == v.len() {
            sx::assume((v[0] > 32) & (v[v.len() - 1] > 32));
        }
        judge(w, &mut v);
    }
    // every ASCII string of `n` bytes
    fn c05_any(n, w) {
        let mut v = chars(n, 0, 127).into_bytes();
        let n = v.len();
        if n > 0 {
            sx::assume((v[0] > 32) & (v[n - 1] > 32));
        }
        // years: the last two digits are those of a few representative years
        let yat = match n {
            29 => 14,
            24 => 22,
            30..=33 => n - 24 + 9,
            _ => 0,
        };
        if yat > 0 {
            let (a, b) = (v[yat], v[yat + 1]);
            let digits = (a.wrapping_sub(b'0') < 10) & (b.wrapping_sub(b'0') < 10);
            sx::assume(!digits | ((a == b'0') & ((b == b'0') | (b == b'4'))));
            if n < 30 {
                let (a, b) = (v[yat - 2], v[yat - 1]);
                let digits = (a.wrapping_sub(b'0') < 10) & (b.wrapping_sub(b'0') < 10);
                sx::assume(!digits | ((a == b'2') & ((b == b'0') | (b == b'1'))));
            }
        }
        judge(w, &mut v);
    }
    // blanks around a date do not matter
    fn c05_blank(f, a, b, w) {
        let d = sx::u64_in(1, 28);
        let wd = sx::conc((days(2021, 2, 1) + d - 1 + 3) % 7) as usize;
        let t = text(f, wd, 2021, 2, d, 1, 2, 3);
        let mut v = vec![];
        for _ in 0..a {
            v.push(if sx::boolean() { b' ' } else { b'\t' });
        }
        v.extend_from_slice(&t);
        for _ in 0..b {
            v.push(if sx::boolean() { b' ' } else { b'\t' });
        }
        let r = parse(w, &v);
        chk!(21, "blanks ignored", matches!(&r, Ok(Some(x)) if secs(*x) == (days(2021, 2, 1) + d - 1) * 86400 + 3723));
        sx::cover(1);
    }
}

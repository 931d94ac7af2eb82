//! C04 written HTTP dates: IMF-fixdate of the right calendar day; read back as the same second.
use super::dates::*;
use super::util::*;
use crate::sx;
use std::time::Duration;

fn two(b: &[u8]) -> u64 {
    (b[0].wrapping_sub(b'0') as u64) * 10 + b[1].wrapping_sub(b'0') as u64
}
fn digits(b: &[u8]) -> bool {
    b.iter().fold(true, |s, c| s & (c.wrapping_sub(b'0') < 10))
}
/// Check the text `v` of an instant.
fn check_text(v: &[u8], y: u64, mo: u64, d: u64, h: u64, m: u64, s: u64, day: u64) {
    chk!(1, "29 characters", v.len() == 29);
    chk!(2, "punctuation and zone", same(&v[3..5], b", ") & (v[7] == b' ') & (v[11] == b' ') & (v[16] == b' ') & (v[19] == b':') & (v[22] == b':') & same(&v[25..], b" GMT"));
    chk!(3, "digits", digits(&v[5..7]) & digits(&v[12..16]) & digits(&v[17..19]) & digits(&v[20..22]) & digits(&v[23..25]));
    chk!(4, "hour", two(&v[17..19]) == h);
    chk!(5, "minute", two(&v[20..22]) == m);
    chk!(6, "second", two(&v[23..25]) == s);
    chk!(7, "day of the month", two(&v[5..7]) == d);
    chk!(8, "year", two(&v[12..14]) * 100 + two(&v[14..16]) == y);
    chk!(9, "month", same(&v[8..11], MON[(mo - 1) as usize].as_bytes()));
    // 1970-01-01 was a Thursday
    let wd = (day + 3) % 7;
    let mut okw = false;
    for k in 0..7u64 {
        okw |= same(&v[0..3], WD[k as usize].as_bytes()) & (wd == k);
    }
    chk!(10, "weekday", okw);
}
harness! {
    // every month of `n` years from `from`: symbolic day of the month and time of day; through header `w`
    fn c04_format(from, n, w) {
        let y = year(from, n);
        let mo = 1 + sx::choice(12) as u64;
        let d = sx::u64_in(1, mlen(y, mo));
        let h = sx::u64_in(0, 23);
        let m = sx::u64_in(0, 59);
        let s = sx::u64_in(0, 59);
        let day = days(y, mo, 1) + (d - 1);
        let sod = h * 3600 + m * 60 + s;
        let t = write(w, at(day * 86400 + sod));
        let v = t.get(name(w)).unwrap().as_str().as_bytes();
        check_text(v, y, mo, d, h, m, s, day);
        sx::out(v);
        sx::cover(1);
    }
    // ... and reading the written text gives the same instant
    fn c04_round(from, n, w) {
        let y = year(from, n);
        let mo = 1 + sx::choice(12) as u64;
        let d = sx::u64_in(1, mlen(y, mo));
        let (h, m, s) = (sx::u64_in(0, 23), sx::u64_in(0, 59), sx::u64_in(0, 59));
        let t = at((days(y, mo, 1) + (d - 1)) * 86400 + h * 3600 + m * 60 + s);
        let r = read(w, &write(w, t));
        chk!(11, "reads back", matches!(&r, Ok(Some(x)) if *x == t));
        sx::cover(1);
    }
}

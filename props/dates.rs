//! Independent calendar and the six headers that carry an HTTP date.
use super::util::*;
use crate::sx;
use http_types::cache::Expires;
use http_types::conditional::{IfModifiedSince, IfUnmodifiedSince, LastModified};
use http_types::other::{Date, RetryAfter};
use http_types::trailers::Trailers;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub const MON: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
pub const WD: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
pub const WDL: [&str; 7] = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"];

/// Days since 1970-01-01 of a proleptic Gregorian date (y >= 1, branch-free in y and d).
pub fn days(y: u64, m: u64, d: u64) -> u64 {
    // days before year y, counted from 0001-01-01
    let p = y - 1;
    let before = p * 365 + p / 4 - p / 100 + p / 400;
    let cum = [0u64, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
    let leap = ((y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0))) as u64;
    before + cum[(m - 1) as usize] + leap * ((m > 2) as u64) + d - 1 - 719162
}
pub fn mlen(y: u64, m: u64) -> u64 {
    let leap = ((y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0))) as u64;
    let l = [31u64, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    l[(m - 1) as usize] + leap * ((m == 2) as u64)
}
pub fn at(secs: u64) -> SystemTime {
    UNIX_EPOCH + Duration::from_secs(secs)
}
pub const CARRIERS: usize = 6;
pub fn name(c: usize) -> &'static str {
    ["date", "expires", "if-modified-since", "if-unmodified-since", "last-modified", "retry-after"][c]
}
/// Write the instant with carrier header `c`.
pub fn write(c: usize, t: SystemTime) -> Trailers {
    match c {
        0 => applied(&Date::new(t)),
        1 => applied(&Expires::new_at(t)),
        2 => applied(&IfModifiedSince::new(t)),
        3 => applied(&IfUnmodifiedSince::new(t)),
        4 => applied(&LastModified::new(t)),
        _ => applied(&RetryAfter::new_at(t)),
    }
}
/// Read it back.
pub fn read(c: usize, h: &Headers) -> http_types::Result<Option<SystemTime>> {
    match c {
        0 => Date::from_headers(h).map(|x| x.map(|d| d.into())),
        1 => Expires::from_headers(h).map(|x| x.map(|d| d.expiration())),
        2 => IfModifiedSince::from_headers(h).map(|x| x.map(|d| d.modified())),
        3 => IfUnmodifiedSince::from_headers(h).map(|x| x.map(|d| d.modified())),
        4 => LastModified::from_headers(h).map(|x| x.map(|d| d.modified())),
        _ => RetryAfter::from_headers(h).map(|x| x.map(|d| at_of(d))),
    }
}
/// RetryAfter has no accessor for an absolute instant other than its remaining duration.
fn at_of(r: RetryAfter) -> SystemTime {
    // equality with a candidate is observable; here the written form is parsed back through Date
    let v = r.header_value();
    let mut t = Trailers::new();
    t.insert("date", v).unwrap();
    Date::from_headers(&*t).unwrap().unwrap().into()
}
pub fn secs(t: SystemTime) -> u64 {
    let d = t.duration_since(UNIX_EPOCH).unwrap();
    // whole seconds only
    d.as_secs() * ((d.subsec_nanos() == 0) as u64) + u64::MAX * ((d.subsec_nanos() != 0) as u64)
}
/// One of `n` years from `from`.
pub fn year(from: usize, n: usize) -> u64 {
    let hi = sx::choice((n + 63) / 64);
    let lo = sx::choice(n.min(64));
    let k = hi * 64 + lo;
    sx::assume(k < n);
    (from + k) as u64
}

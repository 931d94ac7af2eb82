//! C34 Times relative to now.
use super::util::*;
use crate::sx;
use http_types::cache::Expires;
use http_types::other::{Date, RetryAfter};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

fn instant(hi: u64) -> SystemTime {
    UNIX_EPOCH + Duration::new(sx::u64_in(0, hi), sx::u64_in(0, 999_999_999) as u32)
}
/// Any time an HTTP date can express.
const LAST: u64 = 253402300799;
/// The clock stands at any instant.
fn now() -> SystemTime {
    now_to(LAST)
}
fn now_to(hi: u64) -> SystemTime {
    let (s, n) = (sx::u64_in(0, hi), sx::u64_in(0, 999_999_999));
    sx::clock(s, n);
    UNIX_EPOCH + Duration::new(s, n as u32)
}
fn until(r: &RetryAfter, at: SystemTime) {
    let earlier = instant(2 * LAST);
    match (r.duration_since(earlier), at.duration_since(earlier)) {
        (Ok(a), Ok(b)) => {
            sx::cover(1);
            chk!(1, "the time between", a == b);
        }
        (Err(a), Err(b)) => {
            sx::cover(2);
            chk!(2, "the time after", a.duration() == b.duration());
        }
        _ => chk!(3, "an error exactly when that point is later", false),
    }
    chk!(4, "as an instant", SystemTime::from(r.clone()) == at);
}
harness! {
    fn c34_now() {
        let t = now();
        chk!(10, "the date now", SystemTime::from(Date::now()) == t);
        let d = Duration::new(sx::u64_in(0, LAST), sx::u64_in(0, 999_999_999) as u32);
        let e = Expires::new(d);
        chk!(11, "expires that long from now", e.expiration() == t + d);
        now();
        chk!(12, "and keeps expiring then", e.expiration() == t + d);
        let at = instant(LAST);
        chk!(13, "or at the instant given", Expires::new_at(at).expiration() == at);
        sx::cover(1);
    }
    // a delay counts from the time of asking
    fn c34_after() {
        now();
        let d = Duration::new(sx::u64_in(0, LAST), sx::u64_in(0, 999_999_999) as u32);
        let r = RetryAfter::new(d);
        let t = now();
        until(&r, t + d);
    }
    fn c34_at() {
        now();
        let at = instant(LAST);
        let r = RetryAfter::new_at(at);
        now();
        until(&r, at);
    }
    // read from a header: k digits
    fn c34_read(k) {
        let digits = chars(k, b'0', b'9');
        let n = number(digits.as_bytes()).unwrap();
        now();
        let r = RetryAfter::from_headers(&*hdrs("retry-after", &[&digits])).unwrap().unwrap();
        let t = now();
        until(&r, t + Duration::from_secs(n));
    }
    // delays the clock cannot represent do no harm
    fn c34_far() {
        let t = now_to(LAST - 1);
        let n = sx::u64_in(0, u64::MAX);
        let r = if sx::boolean() {
            RetryAfter::new(Duration::from_secs(n))
        } else {
            let v = [1 << 62, i64::MAX as u64 - 1_000, i64::MAX as u64, 1 << 63, u64::MAX][sx::choice(5)];
            RetryAfter::from_headers(&*hdrs("retry-after", &[st(&dec(v))])).unwrap().unwrap()
        };
        let later = SystemTime::from(r.clone());
        chk!(20, "not before now", later >= t);
        chk!(21, "the same each way", r.duration_since(t).ok() == later.duration_since(t).ok());
        sx::cover(1);
    }
}

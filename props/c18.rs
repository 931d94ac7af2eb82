//! C18 trace headers: traceparent and Server-Timing.
use super::util::*;
use crate::sx;
use http_types::trace::{Metric, ServerTiming, TraceContext};
use std::time::Duration;

/// Value of a hexadecimal text without sign that fits `bits`.
fn hex(b: &[u8], bits: u32) -> Option<u128> {
    let mut v: u128 = 0;
    for c in b {
        let c = lower1(*c);
        let d = if c.is_ascii_digit() { c - b'0' } else { c.wrapping_sub(b'a').wrapping_add(10) };
        if !(c.is_ascii_digit() || (b'a'..=b'f').contains(&c)) {
            return None;
        }
        if v >> (bits - 4) != 0 {
            return None;
        }
        v = v * 16 + d as u128;
    }
    if b.is_empty() {
        None
    } else {
        Some(v)
    }
}
fn digits(mut v: u128, n: usize) -> Vec<u8> {
    let mut o = vec![b'0'; n];
    for i in (0..n).rev() {
        let d = (v & 15) as u8;
        o[i] = d + b'0' + ((d > 9) as u8) * (b'a' - b'0' - 10);
        v >>= 4;
    }
    o
}
fn trace_text(ver: u64, tid: u128, id: u64, fl: u64) -> Vec<u8> {
    let mut v = digits(ver as u128, 2);
    v.push(b'-');
    v.extend_from_slice(&digits(tid, 32));
    v.push(b'-');
    v.extend_from_slice(&digits(id as u128, 16));
    v.push(b'-');
    v.extend_from_slice(&digits(fl as u128, 2));
    v
}
const NAMES: [&str; 3] = ["db", "cache-hit", "x!"];

/// n characters, each one of a few that matter for quoting or arbitrary
fn desc(n: usize) -> Vec<u8> {
    chars(n, 0x20, 0x7e).into_bytes()
}
fn quoted(d: &[u8]) -> Vec<u8> {
    let mut o = vec![b'"'];
    for c in d {
        if *c == b'"' || *c == b'\\' {
            o.push(b'\\');
        }
        o.push(*c);
    }
    o.push(b'"');
    o
}
/// equal up to rounding of the decimal text
fn close(a: Option<Duration>, b: Option<Duration>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a.checked_sub(b).or(b.checked_sub(a)).unwrap() < Duration::from_nanos(100),
        (a, b) => a == b,
    }
}
/// (seconds, microseconds)
const DURS: [(u64, u32); 10] = [(0, 0), (0, 1), (0, 57_000), (0, 47_200), (1, 0), (0, 999_999), (59, 999_001), (3600, 123_456), (86_400, 1), (31_536_000, 500_000)];

harness! {
    // the four fields of a full traceparent; the window [at, at+n) of each hexadecimal field is arbitrary
    fn c18_trace(at, n) {
        let tid0: u128 = 0x0af7651916cd43dd8448eb211c80319c;
        let pid0: u64 = 0x00f067aa0ba902b7;
        let mask = (1u64 << (4 * n)) - 1;
        let x = sx::u64_in(0, mask);
        let y = sx::u64_in(0, mask);
        let tid = (tid0 & !((mask as u128) << (4 * at))) | ((x as u128) << (4 * at));
        let sh = 4 * (at % (17 - n));
        let pid = (pid0 & !(mask << sh)) | (y << sh);
        let ver = sx::u64_in(0, 255);
        let fl = sx::u64_in(0, 255);
        let v = trace_text(ver, tid, pid, fl);
        let c = TraceContext::from_headers(&*hdrs("traceparent", &[st(&v)])).unwrap().unwrap();
        chk!(1, "version", c.version() as u64 == ver);
        chk!(2, "trace id", c.trace_id() == tid);
        chk!(3, "parent id", c.parent_id() == Some(pid));
        chk!(4, "sampled", c.sampled() == (fl & 1 == 1));
        // what is sent on names this context as the parent
        let t = applied(&c);
        let w = text(&t, "traceparent");
        chk!(5, "text", same(w.as_bytes(), &trace_text(ver, tid, c.id(), fl)));
        chk!(6, "display", same(w.as_bytes(), c.to_string().as_bytes()));
        sx::cover(1);
    }
    // a child keeps the trace and hangs under its parent
    fn c18_child(n) {
        let mask = (1u64 << (4 * n)) - 1;
        let x = sx::u64_in(0, mask);
        let ver = sx::u64_in(0, 255);
        let fl = sx::u64_in(0, 255);
        let mut c = TraceContext::from_headers(&*hdrs("traceparent", &[st(&trace_text(ver, x as u128, 7, fl))])).unwrap().unwrap();
        let s = sx::boolean();
        c.set_sampled(s);
        chk!(1, "sampled", c.sampled() == s);
        let d = c.child();
        chk!(2, "trace id", d.trace_id() == x as u128 && c.trace_id() == x as u128);
        chk!(3, "parent", d.parent_id() == Some(c.id()));
        chk!(4, "version", d.version() as u64 == ver && d.sampled() == s);
        let want = trace_text(ver, x as u128, d.id(), (fl & 254) | s as u64);
        chk!(5, "other flags kept", same(d.to_string().as_bytes(), &want));
        let e = TraceContext::from_headers(&*applied(&d)).unwrap().unwrap();
        chk!(6, "received by the next one", e.trace_id() == x as u128 && e.parent_id() == Some(d.id()) && e.sampled() == s);
        sx::cover(1);
    }
    fn c18_new() {
        let mut c = TraceContext::new();
        chk!(1, "root", c.parent_id().is_none() && c.sampled() && c.version() == 0);
        let s = sx::boolean();
        c.set_sampled(s);
        let d = c.child();
        chk!(2, "child", d.trace_id() == c.trace_id() && d.parent_id() == Some(c.id()) && d.sampled() == s);
        let e = TraceContext::from_headers(&*applied(&d)).unwrap().unwrap();
        chk!(3, "received", e.trace_id() == c.trace_id() && e.parent_id() == Some(d.id()) && e.sampled() == s && e.version() == 0);
        sx::cover(1);
    }
    // any characters: four hexadecimal fields or a 400 error
    fn c18_trace_any(n, form) {
        let m = chars(n, 0, 127);
        let v = match form {
            0 => m.clone(),
            1 => format!("{}-01-02-03", m),
            2 => format!("00-{}-02-03", m),
            3 => format!("00-01-{}-03", m),
            4 => format!("00-01-02-{}", m),
            5 => format!("00-01-1fffffffffffff{}-01", m),
            _ => format!("00-1fffffffffffffffffffffffffffff{}-1-01", m),
        };
        let p: Vec<&[u8]> = v.as_bytes().split(|c| *c == b'-').collect();
        let want = if p.len() < 4 { None } else {
            match (hex(p[0], 8), hex(p[1], 128), hex(p[2], 64), hex(p[3], 8)) {
                (Some(a), Some(b), Some(c), Some(d)) => Some((a, b, c, d)),
                _ => None,
            }
        };
        let signed = p.iter().any(|f| !f.is_empty() && f[0] == b'+');
        match TraceContext::from_headers(&*hdrs("traceparent", &[&v])) {
            Ok(Some(c)) => match want {
                Some((a, b, p, d)) => {
                    sx::cover(1);
                    chk!(1, "version", c.version() as u128 == a);
                    chk!(2, "trace id", c.trace_id() == b);
                    chk!(3, "parent id", c.parent_id().map(|x| x as u128) == Some(p));
                    chk!(4, "sampled", c.sampled() == (d & 1 == 1));
                }
                None => chk!(5, "malformed value accepted", signed),
            },
            Ok(None) => chk!(6, "present", false),
            Err(e) => {
                sx::cover(2);
                chk!(7, "refused", want.is_none() || p.len() > 4);
                chk!(8, "status", is_4xx(&e));
            }
        }
    }
    // k metrics written and read
    fn c18_timing(k, n, nd) {
        let mut h = ServerTiming::new();
        let mut want = vec![];
        for i in 0..k {
            let name = NAMES[pick(i, k, 3)];
            let dur = match pick(i, k, nd + 1) {
                0 => None,
                i => Some(Duration::new(DURS[i - 1].0, DURS[i - 1].1 * 1000)),
            };
            let d = if pick(i, k, 2) == 1 { Some(pick_text(i, k, n, || sx::byte(0x20, 0x7e))) } else { None };
            h.push(Metric::new(name.to_string(), dur, d.as_ref().map(|d| st(d).to_string())).unwrap());
            want.push((name, dur, d));
        }
        chk!(1, "held", h.iter().count() == k);
        let t = applied(&h);
        let x = text(&t, "server-timing");
        sx::out(x.as_bytes());
        let g = ServerTiming::from_headers(&*t).unwrap().unwrap();
        let mut i = 0;
        for m in &g {
            chk!(2, "name", i < k && same(m.name().as_bytes(), want[i].0.as_bytes()));
            chk!(3, "duration", close(m.duration(), want[i].1));
            match (m.description(), &want[i].2) {
                (Some(a), Some(b)) => chk!(4, "description", same(a.as_bytes(), b)),
                (None, None) => {}
                _ => chk!(5, "description", false),
            }
            i += 1;
        }
        chk!(6, "count", i == k);
        i = 0;
        for m in g {
            chk!(7, "by value", same(m.name().as_bytes(), want[i].0.as_bytes()) && close(m.duration(), want[i].1));
            i += 1;
        }
        sx::cover(1);
    }
    // durations of whole milliseconds
    fn c18_dur(lo, n) {
        let ms = lo as u64 + sx::conc(sx::u64_in(0, n as u64));
        let mut h = ServerTiming::new();
        h.push(Metric::new("a".to_string(), Some(Duration::from_millis(ms)), None).unwrap());
        let t = applied(&h);
        let mut w = b"a; dur=".to_vec();
        w.extend_from_slice(&dec(ms));
        let g = ServerTiming::from_headers(&*t).unwrap().unwrap();
        chk!(1, "duration", g.iter().next().unwrap().duration() == Some(Duration::from_millis(ms)));
        let r = ServerTiming::from_headers(&*hdrs("server-timing", &[st(&w)])).unwrap().unwrap();
        chk!(2, "read", r.iter().next().unwrap().duration() == Some(Duration::from_millis(ms)));
        sx::cover(1);
    }
    // layouts of three metrics with blanks, several lines, params in any order, unknown params
    fn c18_layout(shape) {
        let mut lines: Vec<String> = vec![String::new()];
        let mut want = vec![];
        for i in 0..3 {
            if i > 0 {
                match shape {
                    0 => lines.last_mut().unwrap().push(','),
                    1 => lines.last_mut().unwrap().push_str(" ,\t "),
                    _ => lines.push(String::new()),
                }
            }
            let name = NAMES[i];
            let l = lines.last_mut().unwrap();
            l.push_str(name);
            let (d, e) = match sx::choice(8) {
                0 => ("", (None, None)),
                1 => (";dur=5", (Some(5), None)),
                2 => ("; desc=\"a b\" ;dur = 7", (Some(7), Some("a b"))),
                3 => (" ; desc=tok", (None, Some("tok"))),
                4 => (";desc=\"x,y;z=\\\"w\\\\\"", (None, Some("x,y;z=\"w\\"))),
                5 => (";foo=\"a,b\";dur=1000", (Some(1000), None)),
                6 => ("; desc = \"\"", (None, Some(""))),
                _ => (";dur=0;desc=q", (Some(0), Some("q"))),
            };
            l.push_str(d);
            want.push((name, e));
        }
        let l: Vec<&str> = lines.iter().map(|x| &x[..]).collect();
        let g = ServerTiming::from_headers(&*hdrs("server-timing", &l)).unwrap().unwrap();
        let mut i = 0;
        for m in g {
            chk!(1, "name", i < 3 && same(m.name().as_bytes(), want[i].0.as_bytes()));
            chk!(2, "duration", m.duration() == (want[i].1).0.map(Duration::from_millis));
            chk!(3, "description", m.description() == (want[i].1).1);
            i += 1;
        }
        chk!(4, "count", i == 3);
        sx::cover(1);
    }
    // descriptions of arbitrary characters between or without quotes
    fn c18_desc_any(n, form) {
        let m = chars(n, 0, 127);
        let b = m.as_bytes();
        let v = match form {
            0 => format!("a;desc=\"{}\"", m),
            1 => format!("a;desc=\"{}\";dur=5, b", m),
            _ => format!("a;desc=\"{}", m),
        };
        // the text of the quoted string, if all of m is inside one
        let mut d = vec![];
        let mut i = 0;
        let mut inside = true;
        while i < b.len() && inside {
            if b[i] == b'"' {
                inside = false;
            } else if b[i] == b'\\' {
                i += 1;
                if i < b.len() {
                    d.push(b[i]);
                } else {
                    inside = false;
                }
            } else {
                d.push(b[i]);
            }
            i += 1;
        }
        match ServerTiming::from_headers(&*hdrs("server-timing", &[&v])) {
            Ok(Some(g)) => {
                sx::cover(1);
                if inside {
                    chk!(1, "terminated", form != 2);
                    let mut i = g.iter();
                    let e = i.next().unwrap();
                    chk!(2, "name", same(e.name().as_bytes(), b"a"));
                    chk!(3, "description", same(e.description().unwrap().as_bytes(), &d));
                    chk!(4, "duration", e.duration() == if form == 1 { Some(Duration::from_millis(5)) } else { None });
                    chk!(5, "rest", i.next().is_some() == (form == 1) && i.next().is_none());
                }
            }
            Ok(None) => chk!(6, "present", false),
            Err(e) => {
                sx::cover(2);
                chk!(7, "refused", !inside || form == 2);
                chk!(8, "status", is_4xx(&e));
            }
        }
    }
    // durations of arbitrary text: a plain decimal number is read, nothing panics
    fn c18_dur_any(n, head) {
        let mut m = ["", "1", "-", "1e", "18446744073709551", "na", "in"][head].as_bytes().to_vec();
        m.extend_from_slice(chars(n, 0x21, 0x7e).as_bytes());
        for c in &m {
            sx::assume(*c != b',' && *c != b';' && *c != b'"' && *c != b'=');
        }
        let want = number(&m);
        let v = format!("a;dur={}", st(&m));
        match ServerTiming::from_headers(&*hdrs("server-timing", &[&v])) {
            Ok(Some(g)) => {
                sx::cover(1);
                let d = g.iter().next().unwrap().duration();
                if let Some(w) = want {
                    chk!(1, "duration", d == Some(Duration::from_millis(w)) || w > 1 << 50);
                }
                chk!(2, "duration", d.is_some());
            }
            Ok(None) => chk!(3, "present", false),
            Err(e) => {
                sx::cover(2);
                chk!(4, "refused", want.is_none() || m.len() > 18);
                chk!(5, "status", is_4xx(&e));
            }
        }
    }
    // any value: no panic, errors blame the sender
    fn c18_timing_any(n, head) {
        let mut v = ["", "a;", "a;d=", "a;desc"][head].as_bytes().to_vec();
        v.extend_from_slice(chars(n, 0, 127).as_bytes());
        match ServerTiming::from_headers(&*hdrs("server-timing", &[st(&v)])) {
            Ok(g) => {
                sx::cover(1);
                chk!(1, "present", g.is_some());
            }
            Err(e) => {
                sx::cover(2);
                chk!(2, "status", is_4xx(&e));
            }
        }
    }
    // only ASCII can be written
    fn c18_metric(n) {
        let s = utf8(n);
        let a = is_ascii(s.as_bytes());
        chk!(1, "name", Metric::new(s.clone(), None, None).is_ok() == a);
        chk!(2, "description", Metric::new("a".to_string(), None, Some(s)).is_ok() == a);
        sx::cover(1);
    }
}

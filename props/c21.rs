//! C21 Reading bodies under every schedule of their source, and building them.
use super::io::*;
use super::util::*;
use futures_lite::io::AsyncReadExt;
use crate::sx;
use http_types::mime;
use std::sync::atomic::Ordering::SeqCst;

fn mime_is(b: &Body, s: &str) -> bool {
    b.mime().map_or(false, |m| same(m.to_string().as_bytes(), s.as_bytes()))
}
const BEGIN: [&str; 8] = ["", "\"", "\"\\u00", "[tr", "1", "-", "\"\\", "k=%"];

harness! {
    // a history of k read operations on a body of n bytes with any declared length, then the rest at once
    fn c21_read(n, k, pend, errs, via) {
        let data = bytes(n);
        let len = length(n);
        let total = len.map_or(n, |l| n.min(l as usize));
        let src = Src::new(data.clone(), pend, errs);
        let b = Body::from_reader(src, len);
        chk!(1, "length", b.len() == len && b.is_empty() == len.map(|l| l == 0));
        chk!(2, "type", mime_is(&b, "application/octet-stream"));
        let want = &data[..total];
        let mut pos = 0;
        let b = match via {
            0 => {
                let mut b = b;
                for _ in 0..k {
                    pos += step(&mut b, &want[pos..], n + 1);
                    chk!(3, "declared length stays", b.len() == len);
                }
                b
            }
            1 => {
                let mut r = Request::post("http://a/");
                r.set_body(b);
                chk!(4, "request length", r.len() == len && r.is_empty() == len.map(|l| l == 0));
                for _ in 0..k {
                    pos += step(&mut r, &want[pos..], n + 1);
                }
                r.take_body()
            }
            _ => {
                let mut r = Response::new(200);
                r.set_body(b);
                chk!(5, "response length", r.len() == len && r.is_empty() == len.map(|l| l == 0));
                for _ in 0..k {
                    pos += step(&mut r, &want[pos..], n + 1);
                }
                r.take_body()
            }
        };
        match run(b.into_bytes()) {
            Ok(v) => {
                sx::cover(1);
                chk!(6, "the rest", same(&v, &want[pos..]));
            }
            Err(e) => {
                sx::cover(2);
                chk!(7, "error of the source", ERRS.load(SeqCst) > 0 && e.status() == 422);
            }
        }
    }
    // a long body, in pieces of one size
    fn c21_long(n, piece, k, how) {
        let data = if how == 1 { chars(n, 0, 127).into_bytes() } else { bytes(n) };
        let n = data.len();
        let len = length(n);
        let total = len.map_or(n, |l| n.min(l as usize));
        let mut src = Src::new(data.clone(), 0, 0);
        src.whole = piece == 0;
        src.piece = piece;
        let mut b = Body::from_reader(src, len);
        let want = &data[..total];
        let mut pos = 0;
        for _ in 0..k {
            pos += step(&mut b, &want[pos..], n + 1);
            chk!(3, "declared length stays", b.len() == len);
        }
        match how {
            0 => {
                let r = run(b.into_bytes());
                chk!(6, "the rest", r.is_ok() && same(&r.unwrap(), &want[pos..]));
            }
            1 => {
                let mut q = Request::post("http://a/");
                q.set_body(b);
                let r = run(q.body_string());
                chk!(7, "the rest", r.is_ok() && same(r.unwrap().as_bytes(), &want[pos..]));
            }
            _ => {
                let mut q = Response::new(200);
                q.set_body(b);
                let mut v = vec![];
                let r = run(q.read_to_end(&mut v));
                chk!(8, "the rest", r.is_ok() && same(&v, &want[pos..]));
            }
        }
        sx::cover(1);
    }
    // the declared length is only an upper bound on what is read, whatever it is
    fn c21_string(n) {
        let data = bytes(n);
        let len = [None, Some(n as u64), Some(n as u64 / 2), Some(u64::MAX), Some(1 << 62), Some(1 << 40), Some(n as u64 + 1)][sx::choice(7)];
        let total = len.map_or(n, |l| if l < n as u64 { l as usize } else { n });
        let mut src = Src::new(data.clone(), 0, 0);
        src.whole = true;
        let b = Body::from_reader(src, len);
        match (run(b.into_string()), std::str::from_utf8(&data[..total])) {
            (Ok(s), Ok(_)) => {
                sx::cover(1);
                chk!(1, "text", same(s.as_bytes(), &data[..total]));
            }
            (Err(e), Err(_)) => {
                sx::cover(2);
                chk!(2, "status", e.status() == 422);
            }
            _ => chk!(3, "accepted exactly UTF-8", false),
        }
    }
    // constructors
    fn c21_make(n, how) {
        let v = bytes(n);
        let (b, ty, want) = match how {
            0 => (Body::from_bytes(v.clone()), "application/octet-stream", v),
            1 => (Body::from(&v[..]), "application/octet-stream", v),
            2 => (Body::from(v.clone()), "application/octet-stream", v),
            3 => (Body::empty(), "application/octet-stream", vec![]),
            _ => {
                let s = chars(n, 0, 127);
                let v = s.clone().into_bytes();
                match how {
                    4 => (Body::from_string(s), "text/plain;charset=utf-8", v),
                    5 => (Body::from(&s[..]), "text/plain;charset=utf-8", v),
                    6 => (Body::from(s), "text/plain;charset=utf-8", v),
                    9 => {
                        let t = s.replace(|c: char| c < ' ' || c == '"' || c == '\\', "x");
                        let (v, w) = match sx::choice(6) {
                            0 => (serde_json::Value::from(t.as_str()), format!("\"{}\"", t)),
                            1 => (serde_json::Value::from(n as u64), n.to_string()),
                            2 => (serde_json::Value::from(true), "true".to_string()),
                            3 => (serde_json::Value::Null, "null".to_string()),
                            4 => (serde_json::json!({ "k": t }), format!("{{\"k\":\"{}\"}}", t)),
                            _ => (serde_json::json!([null, [t]]), format!("[null,[\"{}\"]]", t)),
                        };
                        (Body::from(v), "application/json", w.into_bytes())
                    }
                    _ => {
                        let l: Vec<bool> = s.bytes().map(|c| c % 2 == 0).collect();
                        let mut w = b"[".to_vec();
                        for (i, c) in l.iter().enumerate() {
                            if i > 0 { w.push(b','); }
                            w.extend_from_slice(if *c { b"true" } else { b"false" });
                        }
                        w.push(b']');
                        let b = if how == 7 { Body::from_json(&l).unwrap() } else { Body::from(serde_json::Value::from(l)) };
                        (b, "application/json", w)
                    }
                }
            }
        };
        chk!(1, "length", b.len() == Some(want.len() as u64) && b.is_empty() == Some(want.is_empty()));
        chk!(2, "type", mime_is(&b, ty));
        let mut b = b;
        b.set_mime(Some(mime::HTML));
        chk!(3, "type set", mime_is(&b, "text/html;charset=utf-8"));
        b.set_mime(None);
        chk!(4, "no type", b.mime().is_none());
        let got = run(b.into_bytes()).unwrap();
        sx::out(&got);
        chk!(5, "content", same(&got, &want));
        sx::cover(1);
    }
    // the reader taken out of a body goes on where the body stood
    fn c21_reader(n) {
        let v = bytes(n);
        let mut b = Body::from_bytes(v.clone());
        let k = sx::choice(n + 1);
        let mut part = vec![0; k];
        chk!(1, "a part", run(b.read_exact(&mut part)).is_ok() && same(&part, &v[..k]));
        let mut r = b.into_reader();
        let mut rest = vec![];
        chk!(2, "the rest", run(r.read_to_end(&mut rest)).is_ok() && same(&rest, &v[k..]));
        sx::cover(1);
    }
    // JSON and forms of arbitrary text come back
    fn c21_json(n) {
        let s = utf8(n);
        let b = Body::from_json(&s).unwrap();
        chk!(1, "type", mime_is(&b, "application/json"));
        match run(b.into_json::<String>()) {
            Ok(t) => chk!(2, "text", same(t.as_bytes(), s.as_bytes())),
            Err(_) => chk!(3, "read back", false),
        }
        sx::cover(1);
    }
    fn c21_form(n, m) {
        let (k, v) = (utf8(n), utf8(m));
        let b = Body::from_form(&[(k.clone(), v.clone())]).unwrap();
        chk!(1, "type", mime_is(&b, "application/x-www-form-urlencoded"));
        match run(b.into_form::<Vec<(String, String)>>()) {
            Ok(l) => {
                // an empty pair leaves no trace apart from '='
                chk!(2, "pairs", l.len() == 1);
                for (a, b) in &l {
                    chk!(3, "name", same(a.as_bytes(), k.as_bytes()));
                    chk!(4, "value", same(b.as_bytes(), v.as_bytes()));
                }
            }
            Err(_) => chk!(5, "read back", false),
        }
        sx::cover(1);
    }
    // arbitrary text: a value or status 422
    fn c21_json_any(n, h, t) {
        let mut v = BEGIN[h].as_bytes().to_vec();
        v.extend_from_slice(&bytes(n));
        let b = Body::from_bytes(v);
        let r = match t {
            0 => run(b.into_json::<String>()).map(|_| ()),
            1 => run(b.into_json::<Vec<bool>>()).map(|_| ()),
            2 => run(b.into_json::<u8>()).map(|_| ()),
            _ => run(b.into_form::<Vec<(String, String)>>()).map(|_| ()),
        };
        match r {
            Ok(()) => sx::cover(1),
            Err(e) => {
                sx::cover(2);
                chk!(1, "status", e.status() == 422);
            }
        }
    }
}

//! C23 Messages hold the body they are given and name its type.
use super::io::*;
use super::util::*;
use crate::sx;
use futures_lite::io::AsyncReadExt;
use http_types::mime;
use http_types::{Request, Response};

/// A body of one of five kinds, its content and its type.
fn body(d: u8, big: bool) -> (Body, Vec<u8>, Option<&'static str>) {
    let pad = |v: &[u8]| {
        let mut v = v.to_vec();
        if big {
            v.extend((0..9000).map(|i| b'a' + (i % 25) as u8));
            v.push(v[0]);
        }
        v
    };
    match sx::choice(5) {
        0 => (Body::from(pad(&[d])), pad(&[d]), Some("application/octet-stream")),
        1 => (Body::from(st(&pad(b"ab"))), pad(b"ab"), Some("text/plain;charset=utf-8")),
        2 => {
            let mut b = Body::from(pad(&[d, 2]));
            b.set_mime(None);
            (b, pad(&[d, 2]), None)
        }
        3 => {
            let mut b = Body::from(pad(&[d, 3, 3]));
            b.set_mime(Some(mime::HTML));
            (b, pad(&[d, 3, 3]), Some("text/html;charset=utf-8"))
        }
        _ => (Body::empty(), vec![], Some("application/octet-stream")),
    }
}
enum Msg {
    Q(Request),
    S(Response),
}
macro_rules! on {
    ($m:expr, $x:ident => $e:expr) => {
        match $m {
            Msg::Q($x) => $e,
            Msg::S($x) => $e,
        }
    };
}
fn value(m: &Msg) -> Vec<String> {
    let h: Option<&HeaderValues> = on!(m, x => x.header("Content-Type"));
    h.map_or(vec![], |l| l.iter().map(|v| v.as_str().to_string()).collect())
}
fn content(b: Body) -> Vec<u8> {
    run(b.into_bytes()).unwrap()
}

harness! {
    // a history of k operations; kind: 0 a request, 1 a response; 2 and 3: with long bodies
    fn c23_history(k, kind) {
        let mut m = if kind % 2 == 0 { Msg::Q(Request::put("http://a/")) } else { Msg::S(Response::new(201)) };
        let mut held: Vec<u8> = vec![];
        let mut kind_of: Option<&'static str> = Some("application/octet-stream");
        let mut ty: Option<String> = None;
        for i in 0..k {
            let d = sx::byte(0, 255);
            match sx::choice(9) {
                0 => {
                    let (b, c, t) = body(d, kind > 1);
                    on!(&mut m, x => x.set_body(b));
                    held = c;
                    kind_of = t;
                    ty = ty.or(t.map(|t| t.to_string()));
                }
                1 => {
                    let (b, c, t) = body(d, kind > 1);
                    let old = on!(&mut m, x => x.replace_body(b));
                    chk!(1, "replace: the old body", same(&content(old), &held));
                    held = c;
                    kind_of = t;
                    ty = ty.or(t.map(|t| t.to_string()));
                }
                2 => {
                    let (mut b, c, t) = body(d, kind > 1);
                    on!(&mut m, x => x.swap_body(&mut b));
                    chk!(2, "swap: type of the old body", b.mime().map(|m| m.to_string()) == kind_of.map(|m| m.to_string()));
                    chk!(3, "swap: the old body", same(&content(b), &held));
                    held = c;
                    kind_of = t;
                    ty = ty.or(t.map(|t| t.to_string()));
                }
                3 | 4 => {
                    // taking leaves an empty body; whether it names a type then is left open
                    let l = on!(&m, x => x.len());
                    chk!(4, "length before", l == Some(held.len() as u64));
                    let v = match sx::choice(4) {
                        0 => content(on!(&mut m, x => x.take_body())),
                        1 => on!(&mut m, x => run(x.body_bytes())).unwrap(),
                        2 => {
                            let mut v = vec![];
                            on!(&mut m, x => run(x.read_to_end(&mut v))).unwrap();
                            // reading through the message leaves the (drained) body in place
                            on!(&mut m, x => { x.take_body(); });
                            v
                        }
                        _ => match on!(&mut m, x => run(x.body_string())) {
                            Ok(s) => s.into_bytes(),
                            Err(e) => {
                                chk!(5, "string: only bad text fails", std::str::from_utf8(&held).is_err() && e.status() == 422);
                                held.clone()
                            }
                        },
                    };
                    chk!(6, "take: the body", same(&v, &held));
                    held = vec![];
                    kind_of = Some("application/octet-stream");
                    if ty.is_none() {
                        ty = value(&m).pop();
                        chk!(7, "take: type", ty.as_ref().map_or(true, |t| t == "application/octet-stream"));
                    }
                }
                5 => {
                    let old = on!(&mut m, x => x.set_content_type(mime::CSS));
                    chk!(8, "the old type", old.map(|v| v.last().as_str().to_string()) == ty);
                    ty = Some("text/css;charset=utf-8".to_string());
                }
                6 => {
                    // a value that is no MIME type counts, too
                    let t = chars(1, b'a', b'z') + ["/b", ""][sx::choice(2)];
                    on!(&mut m, x => x.insert_header("content-TYPE", &t[..])).unwrap();
                    ty = Some(t);
                }
                7 => {
                    on!(&mut m, x => x.remove_header("Content-Type"));
                    ty = None;
                }
                _ => {
                    // a clone has everything but the body
                    let c = match &m {
                        Msg::Q(x) => {
                            let c = x.clone();
                            chk!(9, "clone: method and URL", c.method() == Method::Put && c.url() == x.url());
                            Msg::Q(c)
                        }
                        Msg::S(x) => {
                            let c = x.clone();
                            chk!(10, "clone: status", c.status() == 201);
                            Msg::S(c)
                        }
                    };
                    chk!(11, "clone: headers", value(&c) == value(&m));
                    chk!(12, "clone: empty", on!(&c, x => x.len() == Some(0) && x.is_empty() == Some(true)));
                    let got = match c {
                        Msg::Q(x) => content(x.into()),
                        Msg::S(mut x) => content(x.take_body()),
                    };
                    chk!(13, "clone: no content", got.is_empty());
                }
            }
            chk!(14, "length", on!(&m, x => x.len() == Some(held.len() as u64) && x.is_empty() == Some(held.is_empty())));
            let v = value(&m);
            chk!(15, "one type", v.len() == ty.is_some() as usize);
            if let Some(t) = &ty {
                chk!(16, "the type", same(v[0].as_bytes(), t.as_bytes()));
                let p = on!(&m, x => x.content_type());
                chk!(17, "the type read", if t.len() > 1 { p.map(|p| p.to_string()).as_ref() == Some(t) } else { p.is_none() });
            } else {
                chk!(18, "no type read", on!(&m, x => x.content_type()).is_none());
            }
            if i + 1 == k {
                sx::cover(1);
            }
        }
        let b = on!(&mut m, x => x.take_body());
        chk!(19, "type of the body", b.mime().map(|m| m.to_string()) == kind_of.map(|m| m.to_string()));
        chk!(20, "the body", same(&content(b), &held));
    }
    // bodies come and go, every other header stays
    fn c23_named(kind, n) {
        let x = chars(n, 32, 126);
        let mut m = if kind == 0 { Msg::Q(Request::put("http://a/")) } else { Msg::S(Response::new(201)) };
        on!(&mut m, h => full(h.as_mut(), &x));
        let typed = sx::boolean();
        if !typed {
            on!(&mut m, h => h.remove_header("Content-Type"));
        }
        let not: &[&str] = if typed { &[] } else { &["content-type"] };
        let d = sx::byte(0, 255);
        let (b, c, t) = body(d, false);
        match sx::choice(3) {
            0 => on!(&mut m, h => h.set_body(b)),
            1 => on!(&mut m, h => { h.replace_body(b); }),
            _ => {
                let mut b = b;
                on!(&mut m, h => h.swap_body(&mut b));
            }
        }
        let other = (!typed && t.is_some()) as usize;
        chk!(30, "given", still_full(on!(&m, h => h.as_ref()), &x, not, other));
        chk!(31, "length", on!(&m, h => h.len()) == Some(c.len() as u64));
        let got = match sx::choice(3) {
            0 => content(on!(&mut m, h => h.take_body())),
            1 => on!(&mut m, h => run(h.body_bytes())).unwrap(),
            _ => {
                let mut v = vec![];
                on!(&mut m, h => run(h.read_to_end(&mut v))).unwrap();
                v
            }
        };
        chk!(32, "the body", same(&got, &c));
        let now = if typed { 0 } else { value(&m).len() };
        chk!(33, "taken", still_full(on!(&m, h => h.as_ref()), &x, not, now));
        sx::cover(1);
    }
    // conversions of values to responses
    fn c23_from(n) {
        let s = chars(n, 32, 126);
        let (mut r, t): (Response, &str) = match sx::choice(5) {
            0 => (s[..].into(), "text/plain;charset=utf-8"),
            1 => (s.clone().into(), "text/plain;charset=utf-8"),
            2 => (s.as_bytes().into(), "application/octet-stream"),
            3 => (s.clone().into_bytes().into(), "application/octet-stream"),
            _ => {
                let r: Response = ().into();
                chk!(1, "nothing", r.status() == 204 && r.len() == Some(0) && r.header("Content-Type").is_none());
                let r: Response = StatusCode::Found.into();
                chk!(2, "status", r.status() == 302 && r.len() == Some(0) && r.header("Content-Type").is_none());
                let mut b = Src::new(s.clone().into_bytes(), 0, 0);
                b.piece = if n < 100 { 0 } else { 33 };
                let mut b = Body::from_reader(b, None);
                b.set_mime(Some(mime::HTML));
                let r: Response = b.into();
                chk!(3, "unknown length", r.len().is_none() && r.is_empty().is_none());
                (r, "text/html;charset=utf-8")
            }
        };
        chk!(4, "status", r.status() == 200);
        chk!(5, "type", r["Content-Type"].iter().count() == 1 && r["Content-Type"].last().as_str() == t);
        let v = run(r.body_string()).unwrap();
        chk!(6, "content", same(v.as_bytes(), s.as_bytes()));
        let mut q = Request::put("http://a/");
        q.set_body(&s[..]);
        let b: Body = q.into();
        chk!(7, "body of a request", b.len() == Some(s.len() as u64) && same(&content(b), s.as_bytes()));
        sx::cover(1);
    }
    // JSON and forms through messages
    fn c23_json(n, kind) {
        let s = utf8(n);
        let b = Body::from_json(&s).unwrap();
        let f = Body::from_form(&[(s.clone(), "x".to_string())]).unwrap();
        let (j, l): (http_types::Result<String>, http_types::Result<Vec<(String, String)>>) = if kind == 0 {
            let mut m = Request::put("http://a/");
            m.set_body(b);
            chk!(1, "type", m.header("content-type").unwrap().last().as_str() == "application/json");
            let j = run(m.body_json());
            m.set_body(f);
            (j, run(m.body_form()))
        } else {
            let mut m = Response::new(200);
            m.set_body(b);
            chk!(2, "type", m.header("content-type").unwrap().last().as_str() == "application/json");
            let j = run(m.body_json());
            m.set_body(f);
            (j, run(m.body_form()))
        };
        chk!(3, "JSON", same(j.unwrap().as_bytes(), s.as_bytes()));
        let l = l.unwrap();
        chk!(4, "form", l.len() == 1);
        chk!(5, "form name", same(l[0].0.as_bytes(), s.as_bytes()) && same(l[0].1.as_bytes(), b"x"));
        sx::cover(1);
    }
}

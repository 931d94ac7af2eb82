//! C06 MIME parsing and serialisation against a reference implementation of the WHATWG algorithms (ASCII).
use super::mimes::*;
use super::util::*;
use crate::sx;
use http_types::mime::Mime;

fn judge(v: &[u8]) {
    let s = unsafe { std::str::from_utf8_unchecked(v) };
    let want = reference(v);
    let got = s.parse::<Mime>();
    match (&want, &got) {
        (None, Err(_)) => sx::cover(2),
        (Some(w), Ok(m)) => {
            sx::cover(1);
            chk!(1, "type", same(m.basetype().as_bytes(), &w.base));
            chk!(2, "subtype", same(m.subtype().as_bytes(), &w.sub));
            let mut e = w.base.clone();
            e.push(b'/');
            e.extend_from_slice(&w.sub);
            chk!(3, "essence", same(m.essence().as_bytes(), &e));
            for (n, v) in &w.params {
                let p = m.param(unsafe { std::str::from_utf8_unchecked(n) });
                chk!(4, "parameter", match p {
                    Some(p) => same(p.as_str().as_bytes(), v),
                    None => false,
                });
            }
            let t = m.to_string();
            sx::out(t.as_bytes());
            chk!(5, "serialisation", same(t.as_bytes(), &serial(w)));
        }
        (Some(_), Err(_)) => chk!(6, "valid type refused", false),
        (None, Ok(_)) => chk!(7, "invalid type accepted", false),
    }
}
fn tpl(a: usize) -> &'static [u8] {
    match a {
        10 => b"application/vnd.openxmlformats-officedocument.wordprocessingml.document-and-then-some-more-of-this;x=",
        11 => b"multipart/form-data;a1=1; a2=22; a3=333 ; a4=\"4 4\"; a5=5;a6=6;a7=7;a8=8;a9=9;a10=10;a11=11;a12=12;A1=x;a13=",
        12 => b"a/b;title=\"a long quoted text with blanks, commas, = signs; semicolons and 'other' \\\"marks\\\" that goes on for more than a hundred characters ",
        13 => b"a/a-type-that-is-longer-than-sixty-four-characters-because-somebody-thought-this-was-useful;a-parameter-name-that-is-longer-than-sixty-four-characters-as-well-for-the-same-reason=",
        0 => b"",
        1 => b"a/b",
        2 => b"a/b;",
        3 => b"a/b;x=",
        4 => b"a/b;x=\"",
        5 => b"a/b;charset=utf-8;",
        6 => b"text/html;charset=",
        7 => b"a/b;x=1;X",
        8 => b"a/b;charset=\"utf-8\"",
        _ => b"A/",
    }
}
fn tail(b: usize) -> &'static [u8] {
    match b {
        6 => b";y=2;z1=1;z2=\"\";z3=3;z4=a-value-that-is-longer-than-sixty-four-characters-because-somebody-thought-this-was-useful;z5=5;z6=6;z7=7;z8=8;z9=9;z1=11",
        0 => b"",
        1 => b";y=2",
        2 => b";charset=utf-8",
        3 => b"=1;CharSet=utf-8",
        4 => b"=utf-8",
        _ => b"\";z=\"q\\\"\" ",
    }
}
harness! {
    // head, n arbitrary ASCII characters, tail
    fn c06_parse(a, n, b) {
        let mut v = tpl(a).to_vec();
        v.extend_from_slice(chars(n, 0, 127).as_bytes());
        v.extend_from_slice(tail(b));
        judge(&v);
    }
    // whatever is accepted, serialised and parsed again, is the same type
    fn c06_round(a, n, b) {
        let mut v = tpl(a).to_vec();
        v.extend_from_slice(chars(n, 0, 127).as_bytes());
        v.extend_from_slice(tail(b));
        if let Ok(m) = unsafe { std::str::from_utf8_unchecked(&v) }.parse::<Mime>() {
            let t = m.to_string();
            match t.parse::<Mime>() {
                Ok(m2) => {
                    chk!(11, "same type", same(m.essence().as_bytes(), m2.essence().as_bytes()));
                    chk!(12, "same text", same(t.as_bytes(), m2.to_string().as_bytes()));
                    chk!(13, "equal", m == m2);
                }
                Err(_) => chk!(14, "own text refused", false),
            }
            sx::cover(1);
        }
    }
    // any UTF-8 string: no panic
    fn c06_utf8(a, n, b) {
        let mut s = String::from(std::str::from_utf8(tpl(a)).unwrap());
        s.push_str(&utf8(n));
        s.push_str(std::str::from_utf8(tail(b)).unwrap());
        match s.parse::<Mime>() {
            Ok(m) => {
                sx::cover(1);
                let t = m.to_string();
                match t.parse::<Mime>() {
                    Ok(m2) => chk!(21, "same text", same(t.as_bytes(), m2.to_string().as_bytes())),
                    Err(_) => chk!(22, "own text refused", false),
                }
            }
            Err(_) => {}
        }
    }
}

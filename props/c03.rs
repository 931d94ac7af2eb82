//! C03 header values: ASCII text preserved byte for byte, in order.
use super::util::*;
use crate::sx;
use http_types::headers::{Header, HeaderName, HeaderValue, HeaderValues, ToHeaderValues};
use http_types::trailers::Trailers;
use std::borrow::Cow;
use std::convert::TryFrom;
use std::str::FromStr;

fn only<I: Iterator<Item = HeaderValue>>(r: http_types::Result<I>) -> Option<Vec<Vec<u8>>> {
    r.ok().map(|i| i.map(|v| v.as_str().as_bytes().to_vec()).collect())
}
fn is1(r: &Option<Vec<Vec<u8>>>, s: &[u8]) -> bool {
    match r {
        Some(v) => v.len() == 1 && same(&v[0], s),
        None => false,
    }
}
harness! {
    fn c03_ctor(n) {
        let b = bytes(n);
        let ok = is_ascii(&b);
        let r = HeaderValue::from_bytes(b.clone());
        chk!(1, "from_bytes accepts exactly ASCII", r.is_ok() == ok);
        if let Ok(v) = &r {
            chk!(2, "text is preserved", same(v.as_str().as_bytes(), &b));
            chk!(3, "display is the text", same(v.to_string().as_bytes(), &b));
            sx::out(v.as_str().as_bytes());
            sx::cover(1);
        } else {
            sx::cover(2);
        }
        if let Ok(s) = String::from_utf8(b.clone()) {
            let a = HeaderValue::from_str(&s);
            let c = HeaderValue::try_from(s.as_str());
            chk!(4, "from_str and try_from accept exactly ASCII", a.is_ok() == ok && c.is_ok() == ok);
            let cow: Cow<str> = Cow::Borrowed(&s);
            let rs = [only(s.as_str().to_header_values()), only(s.to_header_values()), only((&s).to_header_values()), only(cow.to_header_values())];
            for x in &rs {
                chk!(5, "string to header values: one value with the same text, or an error", if ok { is1(x, &b) } else { x.is_none() });
            }
            if let (Ok(a), Ok(c)) = (a, c) {
                chk!(6, "text is preserved", same(a.as_str().as_bytes(), &b) && same(c.as_str().as_bytes(), &b));
                chk!(7, "value to header values", is1(&only(a.to_header_values()), &b));
                let sl = [a.clone(), c.clone()];
                let l = only((&sl[..]).to_header_values()).unwrap();
                chk!(8, "slice to header values keeps every value", l.len() == 2 && same(&l[0], &b) && same(&l[1], &b));
                let hv: HeaderValues = a.clone().into();
                chk!(9, "value -> values -> value is the identity", same(HeaderValue::from(hv.clone()).as_str().as_bytes(), &b));
                chk!(10, "values equal the string iff single and equal", hv == s.as_str() && hv == s && hv == &s && hv == *s.as_str());
                chk!(11, "header pair", same(("x-Y", s.as_str()).header_value().as_str().as_bytes(), &b) && ("x-Y", s.as_str()).header_name().as_str() == "x-y");
                let mut t = Trailers::new();
                ("X-y", s.as_str()).apply_header(&mut *t);
                chk!(12, "apply_header stores the value under the name", t.get("x-Y").map_or(false, |v| v.iter().count() == 1 && same(v.last().as_str().as_bytes(), &b)));
            }
        }
    }
    fn c03_eq(n, m) {
        let a = ascii(n);
        let b = ascii(m);
        let eq = same(a.as_bytes(), b.as_bytes());
        let va = HeaderValue::from_str(&a).unwrap();
        let vb = HeaderValue::from_str(&b).unwrap();
        chk!(20, "values are equal iff their bytes are", (va == vb) == eq);
        chk!(21, "value == string iff bytes equal", (va == b.as_str()) == eq && (va == b) == eq && (va == &b) == eq && (va == *b.as_str()) == eq);
        let l: HeaderValues = vec![va.clone(), vb.clone()].into();
        chk!(22, "contains", l.contains(&va) && l.contains(&vb));
        let l1: HeaderValues = va.clone().into();
        chk!(23, "contains iff equal", l1.contains(&vb) == eq);
        chk!(24, "single list == string iff equal", (l1 == b.as_str()) == eq && (l1 == b) == eq && (l1 == &b) == eq && (l1 == *b.as_str()) == eq);
        chk!(25, "a list of two is not equal to a string", !(l == a.as_str()) && !(l == b) && !(l == &b));
        chk!(26, "list == slice of strings iff equal element-wise", l == [a.as_str(), b.as_str()][..] && (l == [b.as_str(), a.as_str()][..]) == eq && !(l == [a.as_str()][..]) && (l1 == [b.as_str()][..]) == eq && !(l1 == [][..]));
        if eq { sx::cover(1) } else { sx::cover(2) }
    }
    // list operations against a plain vector
    fn c03_list(k, many) {
        let mut v: Vec<String> = vec![chars(1, 0, 127)];
        let mut l: HeaderValues = HeaderValue::from_str(&v[0]).unwrap().into();
        for i in 0..many {
            let s = "x".repeat(i);
            l.append(&mut HeaderValue::from_str(&s).unwrap().into());
            v.push(s);
        }
        for _ in 0..k {
            match sx::choice(3) {
                0 => {
                    let s = chars(1, 0, 127);
                    let mut o: HeaderValues = HeaderValue::from_str(&s).unwrap().into();
                    l.append(&mut o);
                    v.push(s);
                }
                1 => {
                    let (s, t) = (chars(1, 0, 127), chars(1, 0, 127));
                    let mut o: HeaderValues = [&s, &t].iter().map(|x| HeaderValue::from_str(x).unwrap()).collect();
                    l.append(&mut o);
                    v.push(s);
                    v.push(t);
                }
                _ => {
                    let i = if many > 0 { [0, 1, many / 2, many, many + 1][sx::choice(5)] } else { sx::choice(3) };
                    let s = chars(1, 0, 127);
                    chk!(30, "get_mut is Some exactly inside the list", l.get_mut(i).is_some() == (i < v.len()));
                    if let Some(x) = l.get_mut(i) {
                        *x = HeaderValue::from_str(&s).unwrap();
                        v[i] = s;
                    }
                }
            }
        }
        let it: Vec<&HeaderValue> = l.iter().collect();
        chk!(31, "iteration yields every value in order", it.len() == v.len() && it.iter().zip(&v).fold(true, |s, (a, b)| s & same(a.as_str().as_bytes(), b.as_bytes())));
        for i in 0..v.len() {
            chk!(32, "indexing", same(l[i].as_str().as_bytes(), v[i].as_bytes()) & l.get(i).map_or(false, |x| same(x.as_str().as_bytes(), v[i].as_bytes())));
        }
        chk!(33, "get beyond the end is None", l.get(v.len()).is_none());
        chk!(34, "last", same(l.last().as_str().as_bytes(), v[v.len() - 1].as_bytes()));
        chk!(35, "the list dereferences to its first value", same(l.as_str().as_bytes(), v[0].as_bytes()));
        let first = v[0].as_bytes();
        let r: &HeaderValue = l.as_ref();
        chk!(39, "so does as_ref", same(r.as_str().as_bytes(), first));
        chk!(40, "and as one value it is the first", same(HeaderValue::from(l.clone()).as_str().as_bytes(), first));
        let mut c = l.clone();
        let (s, t) = (chars(1, 0, 127), chars(1, 0, 127));
        *std::ops::DerefMut::deref_mut(&mut c) = HeaderValue::from_str(&s).unwrap();
        chk!(41, "the first value is changed in place", same(c[0].as_str().as_bytes(), s.as_bytes()));
        *c.as_mut() = HeaderValue::from_str(&t).unwrap();
        chk!(42, "the first value is changed in place", same(c[0].as_str().as_bytes(), t.as_bytes()) && c.iter().count() == v.len());
        chk!(43, "a clone is independent", same(l[0].as_str().as_bytes(), first) && c.iter().skip(1).zip(l.iter().skip(1)).all(|(a, b)| a == b));
        let mut h = l.iter();
        let mut left = v.len();
        loop {
            let (lo, hi) = h.size_hint();
            chk!(36, "size hints bracket what is left", lo <= left && hi.map_or(true, |x| x >= left));
            if h.next().is_none() {
                break;
            }
            left -= 1;
        }
        chk!(38, "the iterator ends after the last value", left == 0);
        let own: Vec<HeaderValue> = l.into_iter().collect();
        chk!(37, "into_iter yields every value in order", own.len() == v.len() && own.iter().zip(&v).fold(true, |s, (a, b)| s & same(a.as_str().as_bytes(), b.as_bytes())));
        sx::cover(1);
    }
    // lists collected from iterators that promise fewer values than they give
    fn c03_collect(k) {
        let v: Vec<String> = (0..k).map(|_| chars(1, 0, 127)).collect();
        let said = sx::choice(k + 1);
        let known = sx::boolean();
        let l: HeaderValues = Hinted(v.iter(), said, known).map(|x| HeaderValue::from_str(x).unwrap()).collect();
        let it: Vec<&HeaderValue> = l.iter().collect();
        chk!(50, "every value in order", it.len() == k && it.iter().zip(&v).fold(true, |s, (a, b)| s & same(a.as_str().as_bytes(), b.as_bytes())));
        let mut h = http_types::Response::new(200);
        h.insert_header("x", &l).unwrap();
        chk!(51, "and in a header", k == 0 || h.header("x").map_or(false, |m| m.iter().count() == k && m.iter().zip(&v).fold(true, |s, (a, b)| s & same(a.as_str().as_bytes(), b.as_bytes()))));
        sx::cover(1);
    }
    // values made from cookies and MIME types: exactly their text
    fn c03_from(n, m) {
        let (a, b) = (chars(n, b'a', b'z'), chars(m, 33, 126));
        for c in b.bytes() {
            sx::assume(c != b'"' && c != b';' && c != b'%');
        }
        let mut text = format!("{}={}", a, b);
        let mut c = http_types::cookies::Cookie::new(a.clone(), b.clone());
        if sx::boolean() {
            c.set_http_only(true);
            text.push_str("; HttpOnly");
        }
        if sx::boolean() {
            c.set_secure(true);
            text.push_str("; Secure");
        }
        if sx::boolean() {
            c.set_path("/p");
            text.push_str("; Path=/p");
        }
        chk!(60, "a cookie", same(HeaderValue::from(c).as_str().as_bytes(), text.as_bytes()));
        let mut mime = http_types::mime::Mime::from_str("x/y").unwrap();
        if let Ok(u) = http_types::mime::Mime::from_str(&format!("x/{}", a)) {
            mime = u;
        }
        let text = mime.to_string();
        chk!(61, "a MIME type", same(HeaderValue::from(&mime).as_str().as_bytes(), text.as_bytes()));
        chk!(63, "a MIME type", mime.to_header_values().map_or(false, |mut i| i.next().map_or(false, |v| same(v.as_str().as_bytes(), text.as_bytes())) && i.next().is_none()));
        chk!(64, "a typed header", HeaderName::from(http_types::content::ContentType::new(mime.clone())) == "content-type" && HeaderName::from(http_types::cache::Age::new(std::time::Duration::ZERO)) == "age");
        chk!(62, "a MIME type", same(HeaderValue::from(mime).as_str().as_bytes(), text.as_bytes()));
        sx::cover(1);
    }
}
struct Hinted<I>(I, usize, bool);
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.1 = self.1.saturating_sub(1);
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, if self.2 { self.0.size_hint().1 } else { None })
    }
}

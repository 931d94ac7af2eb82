//! C01 header names: ASCII check, lowercasing, case-insensitive identity.
use super::util::*;
use crate::sx;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

harness! {
    // every constructor on every byte string of n bytes
    fn c01_ctor(n) {
        let b = bytes(n);
        let ok = is_ascii(&b);
        let low = lower(&b);
        let r1 = HeaderName::from_bytes(b.clone());
        chk!(1, "from_bytes accepts exactly ASCII", r1.is_ok() == ok);
        if let Ok(h) = &r1 {
            sx::cover(1);
            chk!(2, "from_bytes yields the lowercase form", same(h.as_str().as_bytes(), &low));
            chk!(3, "display is as_str", same(h.to_string().as_bytes(), &low));
            sx::out(h.as_str().as_bytes());
        } else {
            sx::cover(2);
        }
        if let Ok(s) = String::from_utf8(b) {
            let r2 = HeaderName::from_str(&s);
            let r3 = HeaderName::from_string(s.clone());
            chk!(4, "from_str accepts exactly ASCII", r2.is_ok() == ok);
            chk!(5, "from_string accepts exactly ASCII", r3.is_ok() == ok);
            if let (Ok(a), Ok(b), Ok(c)) = (&r1, &r2, &r3) {
                chk!(6, "from_str yields the lowercase form", same(b.as_str().as_bytes(), &low));
                chk!(7, "from_string yields the lowercase form", same(c.as_str().as_bytes(), &low));
                chk!(8, "constructors agree", a == b && b == c && *a == s.as_str() && *a == s && *a == &s);
                let d: HeaderName = s.as_str().into();
                chk!(9, "From<&str> agrees", &d == a);
                let e: HeaderName = (&d).into();
                chk!(10, "From<&HeaderName> is identity", &e == a);
            }
            if !ok {
                sx::expect_panic(true);
                let _: HeaderName = s.as_str().into();
            }
        }
    }
    // identity of two names and of a name and a string, over all ASCII strings
    fn c01_eq(n, m) {
        let a = ascii(n);
        let b = ascii(m);
        let same_ci = same(&lower(a.as_bytes()), &lower(b.as_bytes()));
        let ha = HeaderName::from_str(&a).unwrap();
        let hb = HeaderName::from_str(&b).unwrap();
        chk!(20, "names are equal iff equal ignoring ASCII case", (ha == hb) == same_ci);
        chk!(21, "name == str iff equal ignoring ASCII case", (ha == b.as_str()) == same_ci);
        chk!(22, "name == String iff equal ignoring ASCII case", (ha == b) == same_ci);
        chk!(23, "name == &String iff equal ignoring ASCII case", (ha == &b) == same_ci);
        chk!(24, "name == *str iff equal ignoring ASCII case", (ha == *b.as_str()) == same_ci);
        if same_ci {
            sx::cover(1);
        } else {
            sx::cover(2);
        }
    }
    fn c01_eq_nonascii(n) {
        let a = utf8(n);
        sx::assume(!a.is_ascii());
        let h = HeaderName::from_str("ab").unwrap();
        chk!(30, "a non-ASCII string equals no name", !(h == a.as_str()) && !(h == a) && !(h == &a) && !(h == *a.as_str()));
        sx::cover(1);
    }
    // characters that Unicode case mapping or folding takes to ASCII letters (and a few others
    // that look like them) are not those letters
    fn c01_eq_special(n) {
        let c = ['\u{212A}', '\u{17F}', '\u{130}', '\u{131}', '\u{FF4B}', '\u{FB01}', '\u{DF}'][sx::choice(7) as usize];
        let l = sx::byte(b'a', b'z');
        let at = sx::choice(n + 1) as usize;
        let mut name = vec![];
        let mut other = String::new();
        for i in 0..n + 1 {
            if i as usize == at {
                name.push(l);
                if c == '\u{FB01}' || c == '\u{DF}' {
                    name.push(sx::byte(b'a', b'z'));
                }
                other.push(c);
            } else {
                let o = sx::byte(b'a', b'z');
                name.push(o);
                other.push((o - 32 * sx::byte(0, 1)) as char);
            }
        }
        let h = HeaderName::from_bytes(name).unwrap();
        chk!(32, "a string with a character outside ASCII equals no name", !(h == other.as_str()) && !(h == other) && !(h == &other) && !(h == *other.as_str()));
        chk!(33, "and is no name", HeaderName::from_str(&other).is_err() && HeaderName::from_bytes(other.clone().into_bytes()).is_err() && HeaderName::from_string(other.clone()).is_err());
        sx::cover(1);
    }
    // equal names hash equally (checked structurally: the same hasher state is fed the same bytes)
    fn c01_hash(n) {
        let a = ascii(n);
        let ha = HeaderName::from_str(&a).unwrap();
        let hb = HeaderName::from_bytes(lower(a.as_bytes())).unwrap();
        struct Rec(Vec<u8>);
        impl Hasher for Rec {
            fn finish(&self) -> u64 { 0 }
            fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
        }
        let (mut x, mut y) = (Rec(vec![]), Rec(vec![]));
        ha.hash(&mut x);
        hb.hash(&mut y);
        chk!(31, "names equal ignoring case hash equally", same(&x.0, &y.0));
        sx::cover(1);
    }
    // predefined names, in every mixture of letter cases
    fn c01_const(from, count) {
        for (id, c) in consts().into_iter().skip(from).take(count) {
            let text = if id == "SOURCE_MAP" { "sourcemap".to_string() } else { id.to_ascii_lowercase().replace('_', "-") };
            chk!(60, "the text of a predefined name", c.as_str() == text);
            let mixed: Vec<u8> = text.bytes().map(|b| if b.is_ascii_lowercase() { b - 32 * sx::byte(0, 1) } else { b }).collect();
            let mixed = String::from_utf8(mixed).unwrap();
            let n = HeaderName::from_str(&mixed).unwrap();
            chk!(61, "the same name in other letters", n == c && c == mixed && c == mixed.as_str());
            chk!(62, "and as bytes", same(n.as_str().as_bytes(), text.as_bytes()));
        }
        sx::cover(1);
    }
}

//! C30 Query strings.
use super::util::*;
use crate::sx;
use http_types::{Request, Url};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize)]
struct Q {
    a: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    o: Option<String>,
    b: bool,
}
#[derive(Serialize, Deserialize)]
struct N {
    n: u16,
    c: char,
}
#[derive(Serialize, Deserialize)]
struct L {
    l: Vec<String>,
}
#[derive(Serialize, Deserialize)]
struct I {
    i: Inner,
}
#[derive(Serialize, Deserialize)]
struct Inner {
    x: String,
    y: u8,
}
#[derive(Deserialize)]
struct O {
    a: Option<String>,
    n: Option<u8>,
}
const URLS: [&str; 5] = ["http://a/", "http://a/p?", "https://b.c:8/d?x=y#f", "http://a/#f", "http://a/?a=%20&b"];

fn start(at: usize) -> Request {
    Request::get(URLS[at])
}
/// All but the query stays as it was.
fn rest(r: &Request, at: usize) {
    let mut u = Url::parse(URLS[at]).unwrap();
    let mut v = r.url().clone();
    u.set_query(None);
    v.set_query(None);
    chk!(80, "the rest of the URL", u.as_str() == v.as_str());
    // the URL is a URL with this query
    let w = Url::parse(r.url().as_str());
    chk!(81, "a URL", w.map_or(false, |w| w.query() == r.url().query()));
}

harness! {
    // what is set is read, with text of n bytes and m more
    fn c30_struct(n, m, at) {
        let mut r = start(at);
        let q = Q { a: utf8(n), o: if m == 9 { None } else { Some(utf8(m)) }, b: sx::boolean() };
        r.set_query(&q).unwrap();
        rest(&r, at);
        let p: Q = r.query().unwrap();
        chk!(1, "text", same(p.a.as_bytes(), q.a.as_bytes()));
        chk!(2, "optional text", match (&p.o, &q.o) {
            (None, None) => true,
            (Some(x), Some(y)) => same(x.as_bytes(), y.as_bytes()),
            _ => false,
        });
        chk!(3, "truth value", p.b == q.b);
        // setting it again replaces it
        let q = Q { a: "z".to_string(), o: None, b: true };
        r.set_query(&q).unwrap();
        chk!(4, "replaced", r.url().query() == Some("a=z&b=true"));
        sx::cover(1);
    }
    fn c30_number(at, max) {
        let mut r = start(at);
        let c = if max < 100 { sx::byte(32, 126) } else { b'&' };
        let q = N { n: sx::u64_in(0, max as u64) as u16, c: c as char };
        r.set_query(&q).unwrap();
        rest(&r, at);
        let p: N = r.query().unwrap();
        chk!(1, "number", p.n == q.n);
        chk!(2, "character", p.c == q.c);
        sx::cover(1);
    }
    // numbers of every kind, with free last digits
    fn c30_wide(digits) {
        #[derive(Serialize, Deserialize, PartialEq, Clone, Copy)]
        struct W {
            a: u64,
            b: i64,
            c: i8,
            d: [u64; 2],
            e: f64,
            f: f32,
        }
        let mut max = 1;
        for _ in 0..digits {
            max *= 10;
        }
        let x = sx::u64_in(0, max - 1);
        let i = sx::choice(6);
        let base = [0u64, 4294967290, 9007199254740990, 12345678901234567000, u64::MAX - 999][i % 5];
        let q = W {
            a: base + x,
            b: [i64::MIN, -9007199254740995, -5, i64::MAX - 999][i % 4] + x as i64,
            c: sx::byte(0, 255) as i8,
            d: [base, 7],
            e: [0.0, -0.5, 1e300, 0.1, 1.0 / 3.0, f64::MIN_POSITIVE][i],
            f: [0.1f32, -3.5e38, 16777217.0, 1e-40][(i + 1) % 4],
        };
        let mut r = start(3);
        r.set_query(&q).unwrap();
        rest(&r, 3);
        let p: W = r.query().unwrap();
        chk!(1, "unsigned", p.a == q.a);
        chk!(2, "signed", p.b == q.b);
        chk!(3, "small", p.c == q.c);
        chk!(4, "wide", p.d == q.d);
        chk!(5, "fractions", p.e == q.e && p.f == q.f);
        sx::cover(1);
    }
    fn c30_list(k, n) {
        let mut r = start(0);
        let q = L { l: (0..k).map(|i| if k >= 8 && i > 0 && i + 1 < k { format!("{}&=%", i) } else { utf8(n) }).collect() };
        r.set_query(&q).unwrap();
        let p: L = r.query().unwrap();
        chk!(1, "count", p.l.len() == k);
        for i in 0..k {
            chk!(2, "element", same(p.l[i].as_bytes(), q.l[i].as_bytes()));
        }
        sx::cover(1);
    }
    fn c30_inner(n) {
        let mut r = start(2);
        let q = I { i: Inner { x: utf8(n), y: sx::byte(0, 255) } };
        r.set_query(&q).unwrap();
        rest(&r, 2);
        let p: I = r.query().unwrap();
        chk!(1, "inner text", same(p.i.x.as_bytes(), q.i.x.as_bytes()));
        chk!(2, "inner number", p.i.y == q.i.y);
        sx::cover(1);
    }
    // records inside each other, as deep as queries are read
    fn c30_deep(n, deep, map) {
        type M<T> = BTreeMap<String, T>;
        fn one<T>(k: &str, t: T) -> M<T> {
            let mut m = M::new();
            m.insert(k.to_string(), t);
            m
        }
        let v = utf8(n);
        let w = v.clone();
        fn go<T: Serialize + serde::de::DeserializeOwned>(q: T, f: impl Fn(&T) -> Option<&String>, w: &str) {
            let mut r = start(2);
            r.set_query(&q).unwrap();
            rest(&r, 2);
            let p: T = r.query().unwrap();
            chk!(1, "the text", f(&p).map_or(false, |x| same(x.as_bytes(), w.as_bytes())));
        }
        if map == 1 {
            let a = one("x", v);
            match deep {
                0 => go(a, |p| p.get("x"), &w),
                1 => go(one("a", a), |p| p.get("a")?.get("x"), &w),
                2 => go(one("b", one("a", a)), |p| p.get("b")?.get("a")?.get("x"), &w),
                3 => go(one("c", one("b", one("a", a))), |p| p.get("c")?.get("b")?.get("a")?.get("x"), &w),
                4 => go(one("d", one("c", one("b", one("a", a)))), |p| p.get("d")?.get("c")?.get("b")?.get("a")?.get("x"), &w),
                _ => go(one("e", one("d", one("c", one("b", one("a", a))))), |p| p.get("e")?.get("d")?.get("c")?.get("b")?.get("a")?.get("x"), &w),
            }
        } else {
            let i = |x: String| Inner { x, y: 7 };
            match deep {
                1 => go(I { i: i(v) }, |p| Some(&p.i.x), &w),
                2 => go(one("a", I { i: i(v) }), |p| Some(&p.get("a")?.i.x), &w),
                3 => go(one("b", vec![one("a", I { i: i(v) })]), |p| Some(&p.get("b")?.get(0)?.get("a")?.i.x), &w),
                _ => go(one("c", one("b", one("a", I { i: i(v) }))), |p| Some(&p.get("c")?.get("b")?.get("a")?.i.x), &w),
            }
        }
        sx::cover(1);
    }
    fn c30_map(n, m) {
        let mut r = start(2);
        let k = chars(n, b'a', b'z');
        let v = utf8(m);
        let mut q = BTreeMap::new();
        q.insert(k.clone(), v.clone());
        r.set_query(&q).unwrap();
        rest(&r, 2);
        let p: BTreeMap<String, String> = r.query().unwrap();
        chk!(1, "count", p.len() == 1);
        for (a, b) in &p {
            chk!(2, "name", same(a.as_bytes(), k.as_bytes()));
            chk!(3, "value", same(b.as_bytes(), v.as_bytes()));
        }
        sx::cover(1);
    }
    // k pairs, the text of one any
    fn c30_many(k, n, at) {
        let mut r = start(at);
        let j = sx::choice(3) * (k - 1) / 2;
        let v = utf8(n);
        let q: BTreeMap<String, String> = (0..k).map(|i| (format!("k{}", i * 3), if i == j { v.clone() } else { format!("{}+{}", i, "w".repeat(i)) })).collect();
        r.set_query(&q).unwrap();
        rest(&r, at);
        let p: BTreeMap<String, String> = r.query().unwrap();
        chk!(1, "count", p.len() == k);
        for (a, b) in &p {
            chk!(2, "value", q.get(a).map_or(false, |w| same(w.as_bytes(), b.as_bytes())));
        }
        sx::cover(1);
    }
    // any query: a value or status 400
    fn c30_any(n, h, t) {
        let b = ["", "a=", "a=1&", "a[", "n=", "i[x]=", "l[0]=1&l[", "b=true&a="][h];
        let r = Request::get(&*format!("http://a/?{}{}", b, chars(n, 32, 126)));
        let e = match t {
            0 => r.query::<Q>().err(),
            1 => r.query::<O>().err(),
            2 => r.query::<L>().err(),
            3 => r.query::<I>().err(),
            _ => r.query::<BTreeMap<String, String>>().err(),
        };
        match e {
            None => sx::cover(1),
            Some(e) => {
                sx::cover(2);
                chk!(1, "status", e.status() == 400);
            }
        }
    }
    // numbers in queries, read exactly
    fn c30_digits(n, at) {
        let d = chars(n, 33, 90);
        for c in d.bytes() {
            sx::assume(c != b'&' && c != b'#' && c != b'%' && c != b'+');
        }
        let r = Request::get(&*(["http://a/?n=", "http://a/?a=&n="][at].to_string() + &d));
        let want = number(d.as_bytes()).filter(|v| *v < 256);
        let signed = d.bytes().next() == Some(b'-');
        match r.query::<O>() {
            Ok(o) => {
                sx::cover(1);
                match o.n {
                    Some(v) => chk!(1, "the number", want == Some(v as u64) || signed),
                    None => chk!(2, "only nothing is none", n == 0),
                }
                chk!(3, "the text", o.a.map_or(true, |a| at == 1 && a.is_empty()));
            }
            Err(_) => {
                sx::cover(2);
                chk!(4, "refused", want.is_none());
            }
        }
    }
    // without a query everything optional is absent
    fn c30_none(at) {
        let r = start(at);
        if at == 4 {
            let o: O = r.query().unwrap();
            chk!(1, "read", o.a.as_ref().map(|s| s.as_str()) == Some(" ") && o.n.is_none());
        } else if at != 2 {
            let o: O = r.query().unwrap();
            chk!(2, "nothing", o.a.is_none() && o.n.is_none());
            chk!(3, "missing", r.query::<Q>().err().map(|e| e.status() as u16) == Some(400));
        }
        sx::cover(1);
    }
    // a record with nothing in it, and then one with something, on each URL
    fn c30_empty(at) {
        let mut r = start(at);
        if sx::boolean() {
            let mut q = BTreeMap::new();
            q.insert("k".to_string(), chars(1, 32, 126));
            r.set_query(&q).unwrap();
            rest(&r, at);
        }
        r.set_query(&BTreeMap::<String, String>::new()).unwrap();
        rest(&r, at);
        chk!(1, "nothing", r.url().query().map_or(true, |q| q.is_empty()));
        let p: BTreeMap<String, String> = r.query().unwrap();
        chk!(2, "no entries", p.is_empty());
        let v = chars(1, 32, 126);
        let mut q = BTreeMap::new();
        q.insert("z".to_string(), v.clone());
        r.set_query(&q).unwrap();
        rest(&r, at);
        let p: BTreeMap<String, String> = r.query().unwrap();
        chk!(3, "one entry", p.len() == 1 && p.get("z").map_or(false, |w| same(w.as_bytes(), v.as_bytes())));
        sx::cover(1);
    }
}

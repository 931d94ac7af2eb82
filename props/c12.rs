//! C12 conditional headers: ETag, If-Match, If-None-Match, Vary.
use super::util::*;
use crate::sx;
use http_types::conditional::{ETag, IfMatch, IfNoneMatch, Vary};

fn etagc(c: u8) -> bool {
    c == 0x21 || (0x23..=0x7e).contains(&c)
}
/// a tag of `n` symbolic entity-tag characters (backslashes are advised against and left out)
fn tag(n: usize) -> String {
    unsafe { String::from_utf8_unchecked(long(n, 0, 255, tagc)) }
}
fn tagc() -> u8 {
    let c = sx::byte(0x21, 0x7e);
    sx::assume((c != b'"') & (c != b'\\'));
    c
}
fn mk(weak: bool, s: &str) -> ETag {
    if weak {
        ETag::new_weak(s.to_string())
    } else {
        ETag::new(s.to_string())
    }
}
fn push(v: &mut Vec<u8>, weak: bool, s: &str) {
    if weak {
        v.extend_from_slice(b"W/");
    }
    v.push(b'"');
    v.extend_from_slice(s.as_bytes());
    v.push(b'"');
}
fn is(e: &ETag, weak: bool, s: &str) -> bool {
    match e {
        ETag::Strong(x) => !weak && same(x.as_bytes(), s.as_bytes()),
        ETag::Weak(x) => weak && same(x.as_bytes(), s.as_bytes()),
    }
}
fn trim(v: &[u8]) -> &[u8] {
    let mut v = v;
    while !v.is_empty() && v[0] == b' ' {
        v = &v[1..];
    }
    while !v.is_empty() && v[v.len() - 1] == b' ' {
        v = &v[..v.len() - 1];
    }
    v
}
/// (weak, start, end) of the tag when `v` is an entity tag
fn parse(v: &[u8]) -> Option<(bool, usize, usize)> {
    let weak = v.len() >= 2 && v[0] == b'W' && v[1] == b'/';
    let b = if weak { 2 } else { 0 };
    if v.len() < b + 2 || v[b] != b'"' || v[v.len() - 1] != b'"' {
        return None;
    }
    for c in &v[b + 1..v.len() - 1] {
        if !etagc(*c) {
            return None;
        }
    }
    Some((weak, b + 1, v.len() - 1))
}
struct Got {
    tags: Vec<ETag>,
    wild: bool,
}
/// the two list headers behind one interface
fn read(none: usize, t: &Trailers) -> Result<Got> {
    if none == 1 {
        let h = IfNoneMatch::from_headers(&**t)?.unwrap();
        let wild = h.wildcard();
        let a: Vec<ETag> = h.iter().cloned().collect();
        let tags: Vec<ETag> = h.into_iter().collect();
        chk!(80, "views", a == tags);
        Ok(Got { tags, wild })
    } else {
        let h = IfMatch::from_headers(&**t)?.unwrap();
        let wild = h.wildcard();
        let a: Vec<ETag> = h.iter().cloned().collect();
        let tags: Vec<ETag> = h.into_iter().collect();
        chk!(80, "views", a == tags);
        Ok(Got { tags, wild })
    }
}
fn name(none: usize) -> &'static str {
    if none == 1 {
        "if-none-match"
    } else {
        "if-match"
    }
}
harness! {
    fn c12_etag(n) {
        let weak = sx::boolean();
        let s = tag(n);
        let e = mk(weak, &s);
        chk!(1, "kind", e.is_weak() == weak && e.is_strong() != weak);
        let t = applied(&e);
        let x = text(&t, "etag");
        sx::out(x.as_bytes());
        let mut want = vec![];
        push(&mut want, weak, &s);
        chk!(2, "text", same(x.as_bytes(), &want));
        let g = ETag::from_headers(&*t).unwrap().unwrap();
        chk!(3, "read back", is(&g, weak, &s));
        chk!(4, "equal", g == e);
        sx::cover(1);
    }
    // any ASCII value: accepted exactly when it is an entity tag
    fn c12_etag_any(n, head, tail) {
        let mut v = match head { 0 => vec![], 1 => b"\"".to_vec(), 2 => b"W/\"".to_vec(), _ => b"W".to_vec() };
        v.extend_from_slice(chars(n, 0, 127).as_bytes());
        if tail == 1 {
            v.push(b'"');
        }
        let want = parse(&v);
        match (ETag::from_headers(&*hdrs("etag", &[st(&v)])), want) {
            (Ok(Some(e)), Some((w, a, b))) => {
                sx::cover(1);
                chk!(1, "tag", is(&e, w, st(&v[a..b])));
                sx::out(e.to_string().as_bytes());
            }
            (Err(e), None) => {
                sx::cover(2);
                chk!(2, "status", is_4xx(&e));
            }
            (Ok(_), _) => chk!(3, "malformed tag accepted", false),
            (Err(_), _) => chk!(4, "entity tag refused", false),
        }
    }
    fn c12_eq(n) {
        let (a, b) = (sx::boolean(), sx::boolean());
        let (s, t) = (tag(n), tag(n));
        chk!(1, "equality", (mk(a, &s) == mk(b, &t)) == ((a == b) & same(s.as_bytes(), t.as_bytes())));
        chk!(2, "absent", ETag::from_headers(&*hdrs("if-match", &["x"])).unwrap().is_none());
        chk!(3, "absent", IfMatch::from_headers(&*hdrs("etag", &["x"])).unwrap().is_none());
        chk!(4, "absent", IfNoneMatch::from_headers(&*hdrs("if-match", &["x"])).unwrap().is_none());
        chk!(5, "absent", Vary::from_headers(&*hdrs("if-match", &["x"])).unwrap().is_none());
        sx::cover(1);
    }
    // k tags of n characters and perhaps the wildcard, written and read back
    fn c12_list(none, k, n) {
        let mut im = IfMatch::new();
        let mut inm = IfNoneMatch::new();
        let mut x = vec![];
        let mut want = vec![];
        for i in 0..k {
            let weak = pick(i, k, 2) == 1;
            let s = unsafe { String::from_utf8_unchecked(pick_text(i, k, n, tagc)) };
            if !x.is_empty() {
                x.extend_from_slice(b", ");
            }
            push(&mut x, weak, &s);
            im.push(mk(weak, &s));
            inm.push(mk(weak, &s));
            want.push((weak, s));
        }
        let wild = k == 0 || sx::boolean();
        if wild {
            if !x.is_empty() {
                x.extend_from_slice(b", ");
            }
            x.push(b'*');
        }
        im.set_wildcard(wild);
        inm.set_wildcard(wild);
        let t = if none == 1 { applied(&inm) } else { applied(&im) };
        let y = text(&t, name(none));
        sx::out(y.as_bytes());
        chk!(1, "text", same(y.as_bytes(), &x));
        match read(none, &t) {
            Ok(g) => {
                chk!(2, "wildcard", g.wild == wild);
                chk!(3, "count", g.tags.len() == k);
                for i in 0..k {
                    chk!(4, "tag", is(&g.tags[i], want[i].0, &want[i].1));
                }
            }
            Err(_) => chk!(5, "own text refused", false),
        }
        sx::cover(1);
    }
    // any printable ASCII list over two lines, split at the commas outside quotes
    fn c12_list_any(none, n, head) {
        let mut v = match head { 0 => vec![], 1 => b"\"a,\" ".to_vec(), 2 => b"*,".to_vec(), _ => b" W/\"".to_vec() };
        v.extend_from_slice(chars(n, 0x20, 0x7e).as_bytes());
        if head == 3 {
            v.push(b'"');
        }
        let mut items: Vec<&[u8]> = vec![];
        let mut from = 0;
        let mut quoted = false;
        for i in 0..=v.len() {
            if i < v.len() && v[i] == b'"' {
                quoted = !quoted;
            }
            if i == v.len() || (v[i] == b',' && !quoted) {
                items.push(trim(&v[from..i]));
                from = i + 1;
            }
        }
        let mut ok = true;
        let mut wild = false;
        let mut tags = vec![];
        for p in &items {
            if p.len() == 1 && p[0] == b'*' {
                wild = true;
                continue;
            }
            match parse(p) {
                Some((w, a, b)) => tags.push((w, &p[a..b])),
                None => {
                    ok = false;
                    break;
                }
            }
        }
        match read(none, &hdrs(name(none), &["\"z\"", st(&v)])) {
            Ok(g) => {
                sx::cover(1);
                chk!(1, "malformed list accepted", ok);
                if ok {
                    chk!(2, "wildcard", g.wild == wild);
                    chk!(3, "count", g.tags.len() == tags.len() + 1);
                    for i in 0..tags.len() {
                        chk!(4, "tag", is(&g.tags[i + 1], tags[i].0, st(tags[i].1)));
                    }
                }
            }
            Err(e) => {
                sx::cover(2);
                chk!(5, "list refused", !ok);
                chk!(6, "status", is_4xx(&e));
            }
        }
    }
    fn c12_vary(k, n) {
        let mut h = Vary::new();
        let mut x: Vec<u8> = vec![];
        let mut want = vec![];
        for i in 0..k {
            let s = pick_text(i, k, n, || {
                let c = sx::byte(0x21, 0x7e);
                sx::assume(super::mimes::token(c) && c != b'*');
                c
            });
            let s = lower(&s);
            if !x.is_empty() {
                x.extend_from_slice(b", ");
            }
            x.extend_from_slice(&s);
            h.push(st(&s)).unwrap();
            want.push(s);
        }
        let wild = k == 0 || sx::boolean();
        h.set_wildcard(wild);
        if wild {
            if !x.is_empty() {
                x.extend_from_slice(b", ");
            }
            x.push(b'*');
        }
        let t = applied(&h);
        let y = text(&t, "vary");
        sx::out(y.as_bytes());
        chk!(1, "text", same(y.as_bytes(), &x));
        let g = Vary::from_headers(&*t).unwrap().unwrap();
        chk!(2, "wildcard", g.wildcard() == wild);
        let mut i = 0;
        for e in g.iter() {
            chk!(3, "name", i < k && same(e.as_str().as_bytes(), &want[i]));
            i += 1;
        }
        chk!(4, "count", i == k);
        i = 0;
        for e in g {
            chk!(5, "name", same(e.as_str().as_bytes(), &want[i]));
            i += 1;
        }
        sx::cover(1);
    }
    // any printable ASCII value over two lines
    fn c12_vary_any(n) {
        let v = chars(n, 0x20, 0x7e);
        let v = v.as_bytes();
        let mut items: Vec<&[u8]> = vec![];
        let mut from = 0;
        for i in 0..=v.len() {
            if i == v.len() || v[i] == b',' {
                items.push(trim(&v[from..i]));
                from = i + 1;
            }
        }
        for p in &items {
            sx::assume(!p.is_empty()); // empty list items may be skipped or kept
        }
        let mut wild = false;
        let mut names = vec![];
        for p in &items {
            if p.len() == 1 && p[0] == b'*' {
                wild = true;
            } else {
                names.push(lower(p));
            }
        }
        match Vary::from_headers(&*hdrs("vary", &["Z", st(v)])) {
            Ok(Some(g)) => {
                chk!(1, "wildcard", g.wildcard() == wild);
                let mut i = g.iter();
                chk!(2, "first", i.next().map_or(false, |z| z == "z"));
                for w in &names {
                    chk!(3, "name", i.next().map_or(false, |z| same(z.as_str().as_bytes(), w)));
                }
                chk!(4, "extra", i.next().is_none());
                sx::cover(1);
            }
            Ok(None) => chk!(5, "present", false),
            Err(e) => {
                // only names that are not tokens may be refused
                let mut tok = true;
                for p in &names {
                    for c in p {
                        tok = tok && super::mimes::token(*c);
                    }
                }
                chk!(6, "valid list refused", !tok);
                chk!(7, "status", is_4xx(&e));
            }
        }
    }
}

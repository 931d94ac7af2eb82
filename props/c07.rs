//! C07 MIME types: subset relation, parameters, constants, file extensions, sniffing.
use super::mimes::*;
use super::util::*;
use crate::sx;
use http_types::mime::{self, Mime};

fn s(v: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(v) }
}
/// A MIME text `bb/ss` plus parameters: base and subtype letters are drawn from a small alphabet that includes `*`.
fn text(n: usize, params: usize) -> Vec<u8> {
    let mut v = vec![];
    // '*', 'a' or 'A'
    let part = || long(n, 0, 255, || [b'*', b'a', b'A'][sx::byte(0, 2) as usize]);
    v.extend_from_slice(&part());
    v.push(b'/');
    v.extend_from_slice(&part());
    match params {
        0 => {}
        1 => {
            v.extend_from_slice(b";p=");
            v.push(sx::byte(b'x', b'z'));
        }
        2 => v.extend_from_slice(b";charset=utf-8"),
        3 => {
            v.extend_from_slice(b";CHARSET=");
            v.push(sx::byte(b'x', b'z'));
        }
        4 => {
            v.extend_from_slice(b";p=");
            v.push(sx::byte(b'x', b'z'));
            v.extend_from_slice(b";q=");
            v.push(sx::byte(b'x', b'z'));
        }
        5 => {
            v.extend_from_slice(b";q=");
            v.push(sx::byte(b'x', b'z'));
            v.extend_from_slice(b";charset=utf-8;p=");
            v.push(sx::byte(b'x', b'z'));
        }
        // many and long ones, in two orders
        8 | 9 => {
            let k = 14;
            for i in 0..k {
                let i = if params == 8 { i } else { (i * 5 + 2) % k };
                v.push(b';');
                v.extend_from_slice(match i {
                    0 => b"p=".to_vec(),
                    11 => b"q=".to_vec(),
                    12 => b"charset=utf-8".to_vec(),
                    13 => b"r=\"a b\"".to_vec(),
                    _ => format!("n{}{}=v{}", i, "n".repeat(i * i), "v".repeat(9 * i)).into_bytes(),
                }.as_slice());
                if i == 0 || i == 11 {
                    v.push(sx::byte(b'x', b'z'));
                }
            }
        }
        7 => {
            for n in [b";q=", b";r=", b";p="] {
                v.extend_from_slice(n);
                v.push(sx::byte(b'x', b'z'));
            }
        }
        _ => {
            v.extend_from_slice(b";p=\"");
            v.push(sx::byte(b' ', b'z'));
            v.extend_from_slice(b"\";P=w");
        }
    }
    v
}
fn subset(a: &M, b: &M) -> bool {
    let t = (same(&b.base, b"*") | same(&a.base, &b.base)) & (same(&b.sub, b"*") | same(&a.sub, &b.sub));
    let mut p = true;
    for (n, v) in &b.params {
        let mut found = false;
        for (m, w) in &a.params {
            found |= same(m, n) && same(v, w);
        }
        p &= found;
    }
    t & p
}
harness! {
    fn c07_subset(n, pa, pb) {
        let a = text(n, pa);
        let b = text(n, pb);
        let ra = match reference(&a) { Some(r) => r, None => { sx::assume(false); return } };
        let rb = match reference(&b) { Some(r) => r, None => { sx::assume(false); return } };
        let want = subset(&ra, &rb);
        let ma: Mime = s(&a).parse().unwrap();
        let mb: Mime = s(&b).parse().unwrap();
        let got = ma.subset_eq(&mb);
        sx::out_u64(got as u64);
        chk!(1, "subset", got == want);
        chk!(2, "everything is a subset of */*", ma.subset_eq(&mime::ANY));
        chk!(3, "reflexive", ma.subset_eq(&ma));
        sx::cover(1);
    }
    // a parameter of any name and one of a name that is or is not the same
    fn c07_named(n, m, at) {
        let name = chars(n, b'a', b'z');
        let value = chars(m, b'a', b'z');
        let other = if sx::boolean() { name.clone() } else { format!("{}x", name) };
        let mut a = "t/s".to_string();
        let mut b = "t/s".to_string();
        if at & 1 == 1 {
            a.push_str(";aa=1");
        }
        if at & 2 == 2 {
            a.push_str(&format!(";{}={}", other.to_ascii_uppercase(), value));
        }
        if at & 4 == 4 {
            a.push_str(";zz=2");
        }
        b.push_str(&format!(";{}={}", name, value));
        let (ra, rb) = match (reference(a.as_bytes()), reference(b.as_bytes())) { (Some(x), Some(y)) => (x, y), _ => { sx::assume(false); return } };
        let ma: Mime = a.parse().unwrap();
        let mut mb: Mime = b.parse().unwrap();
        chk!(1, "subset", ma.subset_eq(&mb) == subset(&ra, &rb));
        chk!(2, "subset", mb.subset_eq(&ma) == subset(&rb, &ra));
        chk!(3, "equal", (ma == mb) == same(ma.to_string().as_bytes(), mb.to_string().as_bytes()));
        chk!(4, "looked up", mb.param(&name[..]).map_or(false, |v| same(v.as_str().as_bytes(), value.as_bytes())));
        chk!(5, "not found", mb.param(&format!("{}x", name)[..]).is_none());
        let t = mb.to_string();
        chk!(6, "text", same(t.as_bytes(), b.as_bytes()));
        chk!(7, "removed", mb.remove_param(&name[..]).map_or(false, |v| same(v.as_str().as_bytes(), value.as_bytes())));
        chk!(8, "gone", mb.param(&name[..]).is_none() && same(mb.to_string().as_bytes(), b"t/s"));
        sx::cover(1);
    }
    fn c07_trans(n, pa, pb, pc) {
        let a: Mime = match s(&text(n, pa)).parse() { Ok(m) => m, Err(_) => { sx::assume(false); return } };
        let b: Mime = match s(&text(n, pb)).parse() { Ok(m) => m, Err(_) => { sx::assume(false); return } };
        let c: Mime = match s(&text(n, pc)).parse() { Ok(m) => m, Err(_) => { sx::assume(false); return } };
        if a.subset_eq(&b) && b.subset_eq(&c) {
            sx::cover(1);
            chk!(1, "transitive", a.subset_eq(&c));
        }
    }
    // equality is equality of the texts
    fn c07_eq(n, pa, pb) {
        let a = text(n, pa);
        let b = text(n, pb);
        let ma: Mime = s(&a).parse().unwrap();
        let mb: Mime = s(&b).parse().unwrap();
        let want = same(ma.to_string().as_bytes(), mb.to_string().as_bytes());
        chk!(1, "equality", (ma == mb) == want);
        sx::cover(1);
    }
    // removing a parameter takes away exactly that parameter
    fn c07_remove(pa, k) {
        let a = text(1, pa);
        let r = reference(&a).unwrap();
        let mut m: Mime = s(&a).parse().unwrap();
        let mut left = M { base: r.base.clone(), sub: r.sub.clone(), params: vec![] };
        let names: [&[u8]; 4] = [b"p", b"q", b"charset", b"r"];
        let mut gone = [false; 4];
        for _ in 0..k {
            let w = sx::choice(4);
            // the name in any case
            let mut name = names[w].to_vec();
            let up = sx::boolean();
            if up {
                name[0] -= 32;
            }
            let want = if gone[w] { None } else { r.params.iter().find(|(n, _)| &n[..] == names[w]) };
            let got = m.remove_param(s(&name));
            gone[w] = true;
            match (want, got) {
                (None, None) => {}
                (Some((_, v)), Some(g)) => chk!(1, "removed value", same(g.as_str().as_bytes(), v)),
                _ => chk!(2, "removed value present", false),
            }
        }
        for (n, v) in &r.params {
            let w = names.iter().position(|m| *m == &n[..]);
            let p = m.param(s(n));
            if w.map_or(false, |w| gone[w]) {
                chk!(3, "still there", p.is_none());
            } else {
                chk!(4, "gone", p.map_or(false, |p| same(p.as_str().as_bytes(), v)));
                left.params.push((n.clone(), v.clone()));
            }
        }
        let t = m.to_string();
        sx::out(t.as_bytes());
        chk!(5, "text", same(t.as_bytes(), &serial(&left)));
        sx::cover(1);
    }
    // every predefined type is the type its documented text denotes
    fn c07_const() {
        let t: [(Mime, &str); 35] = [
            (mime::JAVASCRIPT, "text/javascript;charset=utf-8"), (mime::CSS, "text/css;charset=utf-8"), (mime::HTML, "text/html;charset=utf-8"),
            (mime::PLAIN, "text/plain;charset=utf-8"), (mime::XML, "application/xml;charset=utf-8"), (mime::RSS, "application/rss+xml;charset=utf-8"),
            (mime::ATOM, "application/atom+xml;charset=utf-8"), (mime::ANY, "*/*"), (mime::JSON, "application/json"), (mime::SSE, "text/event-stream"),
            (mime::BYTE_STREAM, "application/octet-stream"), (mime::FORM, "application/x-www-form-urlencoded"), (mime::MULTIPART_FORM, "multipart/form-data"),
            (mime::WASM, "application/wasm"), (mime::BMP, "image/bmp"), (mime::JPEG, "image/jpeg"), (mime::PNG, "image/png"), (mime::SVG, "image/svg+xml"),
            (mime::WEBP, "image/webp"), (mime::MIDI, "audio/midi"), (mime::MP3, "audio/mpeg"), (mime::OGG, "audio/ogg"), (mime::OPUS, "audio/opus"),
            (mime::M4A, "audio/mp4"), (mime::MP4, "video/mp4"), (mime::MPEG, "video/mpeg"), (mime::WEBM, "video/webm"), (mime::AVI, "video/x-msvideo"),
            (mime::ICO, "image/x-icon"), (mime::OTF, "font/otf"), (mime::TTF, "font/ttf"), (mime::WOFF, "font/woff"), (mime::WOFF2, "font/woff2"),
            (mime::ZIP, "application/zip"), (mime::SEVENZIP, "application/x-7z-compressed"),
        ];
        let k = sx::choice(35);
        let (m, x) = &t[k];
        chk!(1, "text", same(m.to_string().as_bytes(), x.as_bytes()));
        let p: Mime = x.parse().unwrap();
        chk!(2, "equal to its parsed text", &p == m);
        sx::cover(1);
    }
    fn c07_ext(n) {
        let t: [(&str, &str); 43] = [
            ("7z", "application/x-7z-compressed"), ("atom", "application/atom+xml"), ("avi", "video/x-msvideo"), ("bin", "application/octet-stream"),
            ("exe", "application/octet-stream"), ("dll", "application/octet-stream"), ("iso", "application/octet-stream"), ("img", "application/octet-stream"),
            ("bmp", "image/bmp"), ("css", "text/css"), ("html", "text/html"), ("ico", "image/x-icon"), ("js", "text/javascript"), ("mjs", "text/javascript"),
            ("jsonp", "text/javascript"), ("json", "application/json"), ("m4a", "audio/mp4"), ("mid", "audio/midi"), ("midi", "audio/midi"), ("kar", "audio/midi"),
            ("mp3", "audio/mpeg"), ("mp4", "video/mp4"), ("mpeg", "video/mpeg"), ("mpg", "video/mpeg"), ("ogg", "audio/ogg"), ("otf", "font/otf"),
            ("rss", "application/rss+xml"), ("svg", "image/svg+xml"), ("svgz", "image/svg+xml"), ("ttf", "font/ttf"), ("txt", "text/plain"),
            ("wasm", "application/wasm"), ("webm", "video/webm"), ("webp", "image/webp"), ("woff", "font/woff"), ("woff2", "font/woff2"),
            ("xml", "application/xml"), ("zip", "application/zip"), ("7z", "application/x-7z-compressed"), ("7z", "application/x-7z-compressed"),
            ("7z", "application/x-7z-compressed"), ("7z", "application/x-7z-compressed"), ("7z", "application/x-7z-compressed"),
        ];
        let e = utf8(n);
        match Mime::from_extension(&e) {
            Some(m) => {
                sx::cover(1);
                let mut ok = false;
                for (x, y) in &t {
                    ok |= same(x.as_bytes(), e.as_bytes()) && same(y.as_bytes(), m.essence().as_bytes());
                }
                chk!(1, "type of a known extension", ok);
            }
            None => {
                let mut ok = true;
                for (x, _) in &t {
                    ok &= !same(x.as_bytes(), e.as_bytes());
                }
                chk!(2, "known extension not recognised", ok);
            }
        }
    }
    // sniffing never panics and yields a type only for non-empty content
    fn c07_sniff(n) {
        let b = bytes(n);
        match Mime::sniff(&b) {
            Ok(m) => {
                sx::cover(1);
                chk!(1, "own text", m.to_string().parse::<Mime>().map_or(false, |x| x == m));
            }
            Err(_) => sx::cover(2),
        }
    }
}

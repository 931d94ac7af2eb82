//! C14 weighted proposals: Accept, Accept-Encoding, TE written and read.
use super::util::*;
use crate::sx;
use http_types::content::{self, Accept, AcceptEncoding, MediaTypeProposal};
use http_types::mime::Mime;
use http_types::transfer::{self, TE};

const ENC: [&str; 6] = ["gzip", "deflate", "br", "zstd", "identity", "chunked"];
pub fn cenc(k: usize) -> content::Encoding {
    use content::Encoding::*;
    [Gzip, Deflate, Brotli, Zstd, Identity][k]
}
pub fn tenc(k: usize) -> transfer::Encoding {
    use transfer::Encoding::*;
    [Gzip, Deflate, Brotli, Zstd, Identity, Chunked][k]
}
/// a weight in thousandths: one of 0..=1000
fn thousandths() -> u64 {
    let hi = sx::choice(16) as u64;
    let n = hi * 63 + sx::choice(63) as u64;
    sx::assume(n <= 1000);
    n
}
fn qtext(v: &mut Vec<u8>, n: u64) {
    v.extend_from_slice(b";q=");
    v.push(b'0' + (n / 1000) as u8);
    v.push(b'.');
    v.push(b'0' + (n / 100 % 10) as u8);
    v.push(b'0' + (n / 10 % 10) as u8);
    v.push(b'0' + (n % 10) as u8);
}
fn q(n: u64) -> f32 {
    (n as f64 / 1000.0) as f32
}
/// (encoding index or 99, weight) of what one header reads
fn read(which: usize, t: &Trailers) -> Result<(bool, Vec<(usize, Option<f32>)>)> {
    let mut v = vec![];
    if which == 0 {
        let a = AcceptEncoding::from_headers(&**t)?.unwrap();
        for e in &a {
            v.push(((0..5).find(|k| cenc(*k) == *e.encoding()).unwrap_or(99), e.weight()));
        }
        let mut i = 0;
        let w = a.wildcard();
        for e in a {
            chk!(70, "views agree", i < v.len() && e.weight() == v[i].1);
            i += 1;
        }
        Ok((w, v))
    } else {
        let a = TE::from_headers(&**t)?.unwrap();
        for e in &a {
            v.push(((0..6).find(|k| tenc(*k) == *e.encoding()).unwrap_or(99), e.weight()));
        }
        let mut i = 0;
        let w = a.wildcard();
        for e in a {
            chk!(70, "views agree", i < v.len() && e.weight() == v[i].1);
            i += 1;
        }
        Ok((w, v))
    }
}
fn name(which: usize) -> &'static str {
    ["accept-encoding", "te", "accept"][which]
}
/// Some(weight) exactly for RFC 7231 qvalues
fn qvalue(v: &[u8]) -> Option<f32> {
    if v.is_empty() || v.len() > 5 || (v[0] != b'0' && v[0] != b'1') {
        return None;
    }
    let mut n = (v[0] - b'0') as u64 * 1000;
    if v.len() > 1 && v[1] != b'.' {
        return None;
    }
    let mut unit = 100;
    for c in v.iter().skip(2) {
        if !c.is_ascii_digit() {
            return None;
        }
        n += unit * (*c - b'0') as u64;
        unit /= 10;
    }
    if n > 1000 {
        return None;
    }
    Some(q(n))
}
harness! {
    // k encodings with weights, written and read back
    fn c14_enc(which, k, fine) {
        let mut ae = AcceptEncoding::new();
        let mut te = TE::new();
        let mut x: Vec<u8> = vec![];
        let mut want = vec![];
        for i in 0..k {
            let e = pick(i, k, if which == 0 { 5 } else { 6 });
            let w = if fine == 1 { Some(thousandths()) } else { [None, Some(0), Some(1), Some(500), Some(1000)][pick(i, k, 5)] };
            let f = w.map(q);
            if which == 0 {
                ae.push(content::EncodingProposal::new(cenc(e), f).unwrap());
            } else {
                te.push(transfer::EncodingProposal::new(tenc(e), f).unwrap());
            }
            if !x.is_empty() {
                x.extend_from_slice(b", ");
            }
            x.extend_from_slice(ENC[e].as_bytes());
            if let Some(n) = w {
                qtext(&mut x, n);
            }
            want.push((e, f));
        }
        let wild = k == 0 || sx::boolean();
        ae.set_wildcard(wild);
        te.set_wildcard(wild);
        if wild {
            if !x.is_empty() {
                x.extend_from_slice(b", ");
            }
            x.push(b'*');
        }
        let t = if which == 0 { applied(&ae) } else { applied(&te) };
        let y = text(&t, name(which));
        sx::out(y.as_bytes());
        chk!(1, "text", same(y.as_bytes(), &x));
        let (w, got) = read(which, &t).unwrap();
        chk!(2, "wildcard", w == wild);
        chk!(3, "count", got.len() == k);
        for i in 0..k {
            chk!(4, "encoding", got[i].0 == want[i].0);
            chk!(5, "weight", got[i].1 == want[i].1);
        }
        sx::cover(1);
    }
    // media types with weights
    fn c14_accept(k, fine) {
        let mut a = Accept::new();
        let mut x: Vec<u8> = vec![];
        let mut want = vec![];
        for i in 0..k {
            let m = ["text/html", "text/*", "*/*", "application/json;v=1", "text/css;charset=utf-8"][pick(i, k, 5)];
            let w = if fine == 1 { thousandths() } else { [0, 1, 500, 1000][pick(i, k, 4)] };
            a.push(MediaTypeProposal::new(m.parse::<Mime>().unwrap(), Some(q(w))).unwrap());
            if !x.is_empty() {
                x.extend_from_slice(b", ");
            }
            x.extend_from_slice(m.as_bytes());
            qtext(&mut x, w);
            want.push((m, q(w)));
        }
        let wild = k == 0 || sx::boolean();
        a.set_wildcard(wild);
        if wild {
            if !x.is_empty() {
                x.extend_from_slice(b", ");
            }
            x.push(b'*');
        }
        let t = applied(&a);
        let y = text(&t, "accept");
        sx::out(y.as_bytes());
        chk!(1, "text", same(y.as_bytes(), &x));
        let g = Accept::from_headers(&*t).unwrap().unwrap();
        chk!(2, "wildcard", g.wildcard() == wild);
        let mut i = 0;
        for e in g.iter() {
            chk!(3, "type", i < k && e.media_type() == &want[i].0.parse::<Mime>().unwrap());
            chk!(4, "weight", e.weight() == Some(want[i].1));
            i += 1;
        }
        chk!(5, "count", i == k);
        let mut j = 0;
        for e in g {
            chk!(6, "views agree", e.weight() == Some(want[j].1));
            j += 1;
        }
        sx::cover(1);
    }
    // a media type proposed without weight is written bare and reads as fully weighted
    fn c14_bare() {
        let m = ["text/html", "text/*", "*/*", "application/json;v=1", "text/css;charset=utf-8"][sx::choice(5)];
        let mut a = Accept::new();
        a.push(m.parse::<Mime>().unwrap());
        let t = applied(&a);
        chk!(1, "text", same(text(&t, "accept").as_bytes(), m.as_bytes()));
        let g = Accept::from_headers(&*t).unwrap().unwrap();
        let e = g.iter().next().unwrap();
        chk!(2, "type", e.media_type() == &m.parse::<Mime>().unwrap());
        chk!(3, "weight", e.weight() == Some(1.0));
        chk!(4, "one", g.iter().count() == 1);
        sx::cover(1);
    }
    // `name;q=` followed by any n printable characters
    fn c14_weight(which, n) {
        let mut w = chars(n, 0x21, 0x7e).into_bytes();
        for c in &w {
            sx::assume((*c != b',') & (*c != b';') & (*c != b'=') & (*c != b'"') & (*c != b'\\'));
        }
        let want = qvalue(&w);
        let mut v = if which == 2 { b"a/b;q=".to_vec() } else { b"gzip;q=".to_vec() };
        v.extend_from_slice(&w);
        let t = hdrs(name(which), &[st(&v)]);
        let got: Result<Option<f32>> = if which == 2 {
            Accept::from_headers(&*t).map(|a| a.unwrap().iter().next().and_then(|e| e.weight()))
        } else {
            read(which, &t).map(|(_, v)| v[0].1)
        };
        match (got, want) {
            (Ok(g), Some(w)) => {
                sx::cover(1);
                chk!(1, "weight", g == Some(w));
            }
            (Ok(g), None) => {
                // lenient number forms are tolerated, weights outside 0..=1 are not
                chk!(2, "weight in range", g.map_or(n == 0 && which == 2, |w| w >= 0.0 && w <= 1.0));
            }
            (Err(e), None) => {
                sx::cover(2);
                chk!(3, "status", is_4xx(&e));
            }
            (Err(_), Some(_)) => chk!(4, "valid weight refused", false),
        }
    }
    // constructor range check
    fn c14_new() {
        let b = sx::u64_in(0, u32::MAX as u64) as u32;
        let f = f32::from_bits(b);
        let ok = f >= 0.0 && f <= 1.0;
        let neg0 = b == 0x8000_0000;
        chk!(1, "content", neg0 || content::EncodingProposal::new(cenc(0), Some(f)).is_ok() == ok);
        chk!(2, "transfer", neg0 || transfer::EncodingProposal::new(tenc(0), Some(f)).is_ok() == ok);
        chk!(3, "media", neg0 || MediaTypeProposal::new(http_types::mime::ANY, Some(f)).is_ok() == ok);
        sx::cover(1);
    }
    // lists in any layout: blanks, empty items, unknown encodings, several lines
    fn c14_layout(which, shape) {
        let mut lines: Vec<Vec<u8>> = vec![vec![]];
        let mut want = vec![];
        let mut wild = false;
        for i in 0..3 {
            let e = sx::choice(8);
            let l = lines.len() - 1;
            match (shape, i) {
                (0, 0) | (3, 0) => {}
                (0, _) => lines[l].push(b','),
                (1, 0) => lines[l].extend_from_slice(b" \t"),
                (1, _) => lines[l].extend_from_slice(b" ,\t "),
                (2, _) => lines[l].extend_from_slice(b",, "),
                (_, _) => lines.push(vec![]),
            }
            let l = lines.len() - 1;
            let x = &mut lines[l];
            if which == 2 {
                if e == 6 {
                    x.push(b'*');
                    wild = true;
                } else {
                    let m = ["a/b", "a/*", "c/d;x=y", "e/f", "g/h", "i/j", "", "k/l"][e];
                    x.extend_from_slice(m.as_bytes());
                    x.extend_from_slice(b";q=0.5");
                    want.push(e);
                }
            } else if e == 6 {
                x.push(b'*');
                wild = true;
            } else if e == 7 {
                x.extend_from_slice(b"lzma");
            } else {
                x.extend_from_slice(ENC[e].as_bytes());
                x.extend_from_slice(b";q=0.5");
                if which == 1 || e != 5 {
                    want.push(e);
                }
            }
            if shape == 1 {
                x.push(b' ');
            }
        }
        let v: Vec<&str> = lines.iter().map(|l| st(l)).collect();
        let t = hdrs(name(which), &v);
        if which == 2 {
            let a = Accept::from_headers(&*t).unwrap().unwrap();
            chk!(1, "wildcard", a.wildcard() == wild);
            let mut i = 0;
            for e in a.iter() {
                let m = ["a/b", "a/*", "c/d;x=y", "e/f", "g/h", "i/j", "", "k/l"];
                chk!(2, "type", i < want.len() && same(e.media_type().to_string().as_bytes(), m[want[i]].as_bytes()));
                chk!(3, "weight", e.weight() == Some(0.5));
                i += 1;
            }
            chk!(4, "count", i == want.len());
        } else {
            let (w, got) = read(which, &t).unwrap();
            chk!(5, "wildcard", w == wild);
            chk!(6, "count", got.len() == want.len());
            for i in 0..want.len() {
                chk!(7, "encoding", i < got.len() && got[i].0 == want[i] && got[i].1 == Some(0.5));
            }
        }
        sx::cover(1);
    }
    // any short value never panics, errors blame the sender
    fn c14_any(which, n) {
        let v = chars(n, 0, 127);
        let t = hdrs(name(which), &[&v]);
        let e = if which == 2 { Accept::from_headers(&*t).err() } else { read(which, &t).err() };
        match e {
            Some(e) => chk!(1, "status", is_4xx(&e)),
            None => sx::cover(1),
        }
    }
}

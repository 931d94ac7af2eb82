//! C15 negotiation and ordering by weight.
use super::util::*;
use crate::sx;
use http_types::content::{Accept, AcceptEncoding, EncodingProposal, MediaTypeProposal};
use http_types::mime::Mime;
use http_types::transfer::{self, TE};
use http_types::content::Encoding as CE;
use http_types::transfer::Encoding as XE;

const CENC: [CE; 5] = [CE::Gzip, CE::Deflate, CE::Brotli, CE::Zstd, CE::Identity];
const TENC: [XE; 6] = [XE::Gzip, XE::Deflate, XE::Brotli, XE::Chunked, XE::Zstd, XE::Identity];
const MIMES: [&str; 5] = ["text/html", "text/*", "*/*", "text/html;v=1", "image/png"];
const AVAIL: [&str; 5] = ["text/html", "text/css", "text/html;v=1", "image/png", "audio/ogg"];
/// weights by rank: none, then increasing
fn weight(k: usize) -> Option<f32> {
    [None, Some(0.0), Some(0.001), Some(0.5), Some(1.0)][k]
}
/// the order negotiation considers entries in: heavier first, unweighted last, later entries before earlier equal ones
fn order(w: &[usize]) -> Vec<usize> {
    let mut o: Vec<usize> = vec![];
    for rank in [4, 3, 2, 1, 0] {
        for i in (0..w.len()).rev() {
            if w[i] == rank {
                o.push(i);
            }
        }
    }
    o
}
fn subset(a: usize, m: usize) -> bool {
    match m {
        0 => a == 0 || a == 2,
        1 => a <= 2,
        2 => true,
        3 => a == 2,
        _ => a == 3,
    }
}
harness! {
    fn c15_sort(which, k, e) {
        let mut enc = vec![];
        let mut w = vec![];
        for i in 0..k {
            enc.push(pick(i, k, e));
            w.push(pick(i, k, 5));
        }
        let o = order(&w);
        let mut n = 0;
        match which {
            0 => {
                let mut a = AcceptEncoding::new();
                for i in 0..k {
                    a.push(EncodingProposal::new(CENC[enc[i]], weight(w[i])).unwrap());
                }
                a.sort();
                for p in a.iter() {
                    chk!(1, "order", *p.encoding() == CENC[enc[o[n]]] && p.weight() == weight(w[o[n]]));
                    n += 1;
                }
            }
            1 => {
                let mut a = TE::new();
                for i in 0..k {
                    a.push(transfer::EncodingProposal::new(TENC[enc[i]], weight(w[i])).unwrap());
                }
                a.sort();
                for p in a.iter() {
                    chk!(2, "order", *p.encoding() == TENC[enc[o[n]]] && p.weight() == weight(w[o[n]]));
                    n += 1;
                }
            }
            _ => {
                let mut a = Accept::new();
                for i in 0..k {
                    let m: Mime = MIMES[enc[i]].parse().unwrap();
                    match weight(w[i]) {
                        None => a.push(m),
                        x => a.push(MediaTypeProposal::new(m, x).unwrap()),
                    }
                }
                a.sort();
                for p in a.iter() {
                    chk!(3, "order", same(p.media_type().to_string().as_bytes(), MIMES[enc[o[n]]].as_bytes()) && p.weight() == weight(w[o[n]]));
                    n += 1;
                }
            }
        }
        chk!(4, "nothing lost", n == k);
        sx::cover(1);
    }
    // k proposals over e encodings, m available
    fn c15_enc(which, k, e, m) {
        let mut enc = vec![];
        let mut w = vec![];
        for i in 0..k {
            enc.push(pick(i, k, e));
            w.push(pick(i, k, 5));
        }
        let mut av = vec![];
        for i in 0..m {
            av.push(pick(i, m, e));
        }
        let wild = sx::boolean();
        let mut want = None;
        for i in order(&w) {
            if w[i] != 1 && av.contains(&enc[i]) {
                want = Some(enc[i]);
                break;
            }
        }
        if want.is_none() && wild {
            for a in &av {
                let mut refused = false;
                for i in 0..k {
                    refused = refused || (w[i] == 1 && enc[i] == *a);
                }
                if !refused {
                    want = Some(*a);
                    break;
                }
            }
        }
        let got = if which == 0 {
            let mut a = AcceptEncoding::new();
            for i in 0..k {
                a.push(EncodingProposal::new(CENC[enc[i]], weight(w[i])).unwrap());
            }
            a.set_wildcard(wild);
            let v: Vec<_> = av.iter().map(|i| CENC[*i]).collect();
            a.negotiate(&v).map(|c| CENC.iter().position(|x| *x == c.encoding()).unwrap())
        } else {
            let mut a = TE::new();
            for i in 0..k {
                a.push(transfer::EncodingProposal::new(TENC[enc[i]], weight(w[i])).unwrap());
            }
            a.set_wildcard(wild);
            let v: Vec<_> = av.iter().map(|i| TENC[*i]).collect();
            a.negotiate(&v).map(|c| TENC.iter().position(|x| *x == c.encoding()).unwrap())
        };
        match (got, want) {
            (Ok(g), Some(w)) => {
                sx::cover(1);
                chk!(1, "choice", g == w);
            }
            (Err(e), None) => {
                sx::cover(2);
                chk!(2, "status", e.status() == StatusCode::NotAcceptable);
            }
            (Ok(_), None) => chk!(3, "nothing was acceptable", false),
            (Err(_), Some(_)) => chk!(4, "something was acceptable", false),
        }
    }
    fn c15_mime(k, e, m) {
        let mut mt = vec![];
        let mut w = vec![];
        for i in 0..k {
            mt.push(pick(i, k, e));
            w.push(pick(i, k, 5));
        }
        let mut av = vec![];
        for i in 0..m {
            av.push(pick(i, m, 5));
        }
        let wild = sx::boolean();
        let mut want = None;
        for i in order(&w) {
            if w[i] == 1 {
                continue;
            }
            want = av.iter().cloned().find(|a| subset(*a, mt[i]));
            if want.is_some() {
                break;
            }
        }
        if want.is_none() && wild {
            for a in &av {
                let mut refused = false;
                for i in 0..k {
                    refused = refused || (w[i] == 1 && subset(*a, mt[i]));
                }
                if !refused {
                    want = Some(*a);
                    break;
                }
            }
        }
        let mut a = Accept::new();
        for i in 0..k {
            let m: Mime = MIMES[mt[i]].parse().unwrap();
            match weight(w[i]) {
                None => a.push(m),
                x => a.push(MediaTypeProposal::new(m, x).unwrap()),
            }
        }
        a.set_wildcard(wild);
        let v: Vec<Mime> = av.iter().map(|i| AVAIL[*i].parse().unwrap()).collect();
        match (a.negotiate(&v), want) {
            (Ok(g), Some(w)) => {
                sx::cover(1);
                chk!(1, "choice", same(text(&applied(&g), "content-type").as_bytes(), AVAIL[w].as_bytes()));
            }
            (Err(e), None) => {
                sx::cover(2);
                chk!(2, "status", e.status() == StatusCode::NotAcceptable);
            }
            (Ok(_), None) => chk!(3, "nothing was acceptable", false),
            (Err(_), Some(_)) => chk!(4, "something was acceptable", false),
        }
    }
}

//! Reference implementation of the WHATWG MIME algorithms over ASCII, shared by several properties.
use super::util::*;

pub fn token(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'!' | b'#' | b'$' | b'%' | b'&' | b'\'' | b'*' | b'+' | b'-' | b'.' | b'^' | b'_' | b'`' | b'|' | b'~')
}
pub fn white(c: u8) -> bool {
    matches!(c, b' ' | b'\t' | b'\r' | b'\n')
}
pub fn quotable(c: u8) -> bool {
    c == b'\t' || (0x20..0x7f).contains(&c)
}
pub struct M {
    pub base: Vec<u8>,
    pub sub: Vec<u8>,
    pub params: Vec<(Vec<u8>, Vec<u8>)>,
}
pub fn reference(v: &[u8]) -> Option<M> {
    let mut v = v;
    while !v.is_empty() && white(v[0]) {
        v = &v[1..];
    }
    while !v.is_empty() && white(v[v.len() - 1]) {
        v = &v[..v.len() - 1];
    }
    let mut i = 0;
    while i < v.len() && v[i] != b'/' {
        if !token(v[i]) {
            return None;
        }
        i += 1;
    }
    if i == 0 || i == v.len() {
        return None;
    }
    let base = lower(&v[..i]);
    i += 1;
    let st = i;
    while i < v.len() && v[i] != b';' {
        i += 1;
    }
    let mut e = i;
    while e > st && white(v[e - 1]) {
        e -= 1;
    }
    if e == st {
        return None;
    }
    for k in st..e {
        if !token(v[k]) {
            return None;
        }
    }
    let sub = lower(&v[st..e]);
    let mut params: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    while i < v.len() {
        i += 1;
        while i < v.len() && white(v[i]) {
            i += 1;
        }
        let ns = i;
        while i < v.len() && v[i] != b';' && v[i] != b'=' {
            i += 1;
        }
        let ne = i;
        if i >= v.len() {
            break;
        }
        if v[i] == b';' {
            continue;
        }
        i += 1;
        if i >= v.len() {
            break;
        }
        let mut val = vec![];
        if v[i] == b'"' {
            i += 1;
            loop {
                if i >= v.len() || v[i] == b'"' {
                    break;
                }
                if v[i] == b'\\' {
                    i += 1;
                    if i >= v.len() {
                        val.push(b'\\');
                        break;
                    }
                }
                val.push(v[i]);
                i += 1;
            }
            while i < v.len() && v[i] != b';' {
                // what follows the closing quote is ignored
                i += 1;
            }
        } else {
            let vs = i;
            while i < v.len() && v[i] != b';' {
                i += 1;
            }
            let mut ve = i;
            while ve > vs && white(v[ve - 1]) {
                ve -= 1;
            }
            if ve == vs {
                continue;
            }
            val.extend_from_slice(&v[vs..ve]);
        }
        let mut ok = ne > ns;
        for k in ns..ne {
            ok = ok && token(v[k]);
        }
        for c in &val {
            ok = ok && quotable(*c);
        }
        if !ok {
            continue;
        }
        let n = lower(&v[ns..ne]);
        if !params.iter().any(|(m, _)| same(m, &n)) {
            params.push((n, val));
        }
    }
    Some(M { base, sub, params })
}
/// WHATWG serialisation; `charset=utf-8` goes first.
pub fn serial(m: &M) -> Vec<u8> {
    let mut o = m.base.clone();
    o.push(b'/');
    o.extend_from_slice(&m.sub);
    for pass in 0..2 {
        for (n, v) in &m.params {
            let utf8 = same(n, b"charset") && same(v, b"utf-8");
            if utf8 != (pass == 0) {
                continue;
            }
            o.push(b';');
            o.extend_from_slice(n);
            o.push(b'=');
            if !v.is_empty() && v.iter().all(|c| token(*c)) {
                o.extend_from_slice(v);
            } else {
                o.push(b'"');
                for c in v {
                    if *c == b'"' || *c == b'\\' {
                        o.push(b'\\');
                    }
                    o.push(*c);
                }
                o.push(b'"');
            }
        }
    }
    o
}

//! C25 Status codes, methods and versions.
use super::util::*;
use crate::sx;
use serde::de::IntoDeserializer;
use serde::Deserialize;
use std::convert::TryFrom;
use std::str::FromStr;

type E = serde::de::value::Error;

/// The codes this crate knows, with their registered names (letters only, RFC 7231 names where renamed since).
const CODES: [(u16, &str); 59] = [
    (100, "continue"), (101, "switchingprotocols"), (103, "earlyhints"),
    (200, "ok"), (201, "created"), (202, "accepted"), (203, "nonauthoritativeinformation"), (204, "nocontent"), (205, "resetcontent"), (206, "partialcontent"), (207, "multistatus"), (226, "imused"),
    (300, "multiplechoice"), (301, "movedpermanently"), (302, "found"), (303, "seeother"), (304, "notmodified"), (307, "temporaryredirect"), (308, "permanentredirect"),
    (400, "badrequest"), (401, "unauthorized"), (402, "paymentrequired"), (403, "forbidden"), (404, "notfound"), (405, "methodnotallowed"), (406, "notacceptable"), (407, "proxyauthenticationrequired"), (408, "requesttimeout"), (409, "conflict"), (410, "gone"), (411, "lengthrequired"), (412, "preconditionfailed"), (413, "payloadtoolarge"), (414, "uritoolong"), (415, "unsupportedmediatype"), (416, "rangenotsatisfiable"), (417, "expectationfailed"), (418, "imateapot"), (421, "misdirectedrequest"), (422, "unprocessableentity"), (423, "locked"), (424, "faileddependency"), (425, "tooearly"), (426, "upgraderequired"), (428, "preconditionrequired"), (429, "toomanyrequests"), (431, "requestheaderfieldstoolarge"), (451, "unavailableforlegalreasons"),
    (500, "internalservererror"), (501, "notimplemented"), (502, "badgateway"), (503, "serviceunavailable"), (504, "gatewaytimeout"), (505, "httpversionnotsupported"), (506, "variantalsonegotiates"), (507, "insufficientstorage"), (508, "loopdetected"), (510, "notextended"), (511, "networkauthenticationrequired"),
];
const METHODS: [&str; 39] = [
    "ACL", "BASELINE-CONTROL", "BIND", "CHECKIN", "CHECKOUT", "CONNECT", "COPY", "DELETE", "GET", "HEAD", "LABEL", "LINK", "LOCK", "MERGE", "MKACTIVITY", "MKCALENDAR", "MKCOL", "MKREDIRECTREF", "MKWORKSPACE", "MOVE", "OPTIONS", "ORDERPATCH", "PATCH", "POST", "PRI", "PROPFIND", "PROPPATCH", "PUT", "REBIND", "REPORT", "SEARCH", "TRACE", "UNBIND", "UNCHECKOUT", "UNLINK", "UNLOCK", "UPDATE", "UPDATEREDIRECTREF", "VERSION-CONTROL",
];
const SAFE: [&str; 8] = ["GET", "HEAD", "OPTIONS", "PRI", "PROPFIND", "REPORT", "SEARCH", "TRACE"];
const VERSIONS: [(&str, Version); 5] = [("HTTP/0.9", Version::Http0_9), ("HTTP/1.0", Version::Http1_0), ("HTTP/1.1", Version::Http1_1), ("HTTP/2", Version::Http2_0), ("HTTP/3", Version::Http3_0)];

fn known(n: u64) -> bool {
    let mut k = false;
    for (c, _) in CODES {
        k |= c as u64 == n;
    }
    k
}
fn letters(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_alphabetic()).map(|c| c.to_ascii_lowercase()).collect()
}
fn check(r: std::result::Result<StatusCode, E>, ok: bool, n: u16) {
    match r {
        Ok(s) => {
            sx::cover(1);
            chk!(60, "only known numbers", ok);
            chk!(61, "the same number", u16::from(s) == n);
        }
        Err(_) => {
            sx::cover(2);
            chk!(62, "known numbers", !ok);
        }
    }
}

harness! {
    // every number
    fn c25_status() {
        let n = sx::u64_in(0, 65535) as u16;
        match StatusCode::try_from(n) {
            Err(_) => {
                sx::cover(2);
                chk!(1, "known numbers", !known(n as u64));
            }
            Ok(s) => {
                sx::cover(1);
                chk!(2, "only known numbers", known(n as u64));
                chk!(3, "back", u16::from(s) == n && s as u16 == n && s == n && n == s);
                let m = sx::u64_in(0, 65535) as u16;
                chk!(4, "equality with numbers", (s == m) == (n == m) && (m == s) == (n == m));
                let kinds = [s.is_informational(), s.is_success(), s.is_redirection(), s.is_client_error(), s.is_server_error()];
                for i in 0..5 {
                    chk!(5, "class", kinds[i] == (n / 100 == i as u16 + 1));
                }
                if let Ok(t) = StatusCode::try_from(m) {
                    chk!(6, "equality", (s == t) == (n == m));
                }
            }
        }
    }
    // every known code: names and JSON
    fn c25_names(part) {
        let (n, name) = CODES[(sx::choice(15) + 15 * part) % 59];
        let s = StatusCode::try_from(n).unwrap();
        let l = letters(s.canonical_reason());
        // 416 was renamed by RFC 7233
        chk!(1, "reason", l == name || (n == 416 && l == "requestedrangenotsatisfiable"));
        let want = format!("{}: {}", n, s.canonical_reason());
        chk!(2, "text", s.to_string() == want && format!("{:?}", s) == want);
        let j = serde_json::to_string(&s).unwrap();
        chk!(3, "JSON", j == n.to_string());
        chk!(4, "JSON back", serde_json::from_str::<StatusCode>(&j).unwrap() == s);
        let v = serde_json::to_value(s).unwrap();
        chk!(5, "JSON value", v.as_u64() == Some(n as u64));
        chk!(6, "JSON value back", serde_json::from_value::<StatusCode>(v).unwrap() == s);
        sx::cover(1);
    }
    // every number of every width that can be read
    fn c25_serde(w) {
        let x = sx::u64_in(0, u64::MAX);
        match w {
            0 => check(StatusCode::deserialize(IntoDeserializer::<E>::into_deserializer(x)), known(x), x as u16),
            1 => {
                let y = x as i64;
                check(StatusCode::deserialize(IntoDeserializer::<E>::into_deserializer(y)), y >= 0 && known(x), x as u16)
            }
            2 => {
                let y = x as u32;
                check(StatusCode::deserialize(IntoDeserializer::<E>::into_deserializer(y)), known(y as u64), y as u16)
            }
            3 => {
                let y = x as i32;
                check(StatusCode::deserialize(IntoDeserializer::<E>::into_deserializer(y)), y >= 0 && known(y as u64), y as u16)
            }
            4 => {
                let y = x as u16;
                check(StatusCode::deserialize(IntoDeserializer::<E>::into_deserializer(y)), known(y as u64), y)
            }
            _ => {
                let y = x as i16;
                check(StatusCode::deserialize(IntoDeserializer::<E>::into_deserializer(y)), y >= 0 && known(y as u64), y as u16)
            }
        }
    }
    // JSON numbers of n digits
    fn c25_json(n, neg) {
        let mut d = chars(1, b'1', b'9');
        d.push_str(&chars(n - 1, b'0', b'9'));
        let mut v = Some(0u64);
        for c in d.bytes() {
            v = v.and_then(|v| v.checked_mul(10)).and_then(|v| v.checked_add((c - b'0') as u64));
        }
        let r = serde_json::from_str::<StatusCode>(&if neg == 1 { "-".to_string() + &d } else { d });
        let ok = neg == 0 && v.map_or(false, known);
        match r {
            Ok(s) => {
                sx::cover(1);
                chk!(1, "only known numbers", ok);
                chk!(2, "the same number", s as u64 == v.unwrap());
            }
            Err(_) => {
                sx::cover(2);
                chk!(3, "known numbers", !ok);
            }
        }
    }
    // every method in every case
    fn c25_method(i) {
        let m = METHODS[i];
        let mut t = String::new();
        for c in m.chars() {
            t.push(if c != '-' && sx::boolean() { c.to_ascii_lowercase() } else { c });
        }
        let x = Method::from_str(&t).unwrap();
        sx::out(x.as_ref().as_bytes());
        chk!(1, "text", x.as_ref() == m && x.to_string() == m);
        chk!(2, "same", Method::try_from(m).unwrap() == x);
        chk!(3, "safe", x.is_safe() == SAFE.contains(&m));
        let j = serde_json::to_string(&x).unwrap();
        chk!(4, "JSON", j == format!("\"{}\"", m));
        chk!(5, "JSON back", serde_json::from_str::<Method>(&j).unwrap() == x);
        let r = http_types::Request::new(x, "http://a/");
        chk!(6, "request", r.method() == x);
        sx::cover(1);
    }
    // any text; serde reads it, too, from characters that need no escaping in its error message
    fn c25_method_any(n, how) {
        let t = match how {
            0 => chars(n, 0, 127),
            1 => chars(n, b'-', b'Z'),
            _ => chars(n, b'a', b'z'),
        };
        let up: String = t.to_ascii_uppercase();
        let mut k = None;
        for m in METHODS {
            if m.len() == n && same(m.as_bytes(), up.as_bytes()) {
                k = Some(m);
            }
        }
        let r: Option<Method> = if how == 0 {
            Method::from_str(&t).ok()
        } else {
            let d: std::result::Result<Method, E> = Method::deserialize(IntoDeserializer::<E>::into_deserializer(&t[..]));
            d.ok()
        };
        match k {
            Some(m) => {
                sx::cover(1);
                chk!(1, "known", r.map_or(false, |r| r.as_ref() == m));
            }
            None => {
                sx::cover(2);
                chk!(2, "unknown", r.is_none());
            }
        }
    }
    fn c25_method_utf8(n) {
        let t = utf8(n);
        sx::assume(!is_ascii(t.as_bytes()));
        chk!(1, "unknown", Method::from_str(&t).is_err());
        sx::cover(1);
    }
    // versions: text of n characters, order and serde
    fn c25_version(n, h) {
        let mut t = ["", "HTTP/"][h].to_string();
        t.push_str(&if h == 1 { chars(n, 0, 127) } else { chars(n, b'-', b'Z') });
        let d: std::result::Result<Version, E> = Version::deserialize(IntoDeserializer::<E>::into_deserializer(&t[..]));
        let o: std::result::Result<Version, E> = Version::deserialize(IntoDeserializer::<E>::into_deserializer(t.clone()));
        let mut k = None;
        for (s, v) in VERSIONS {
            if same(s.as_bytes(), t.as_bytes()) {
                k = Some(v);
            }
        }
        sx::cover(if k.is_some() { 1 } else { 2 });
        chk!(1, "read", d.ok() == k);
        chk!(2, "read from a string", o.ok() == k);
    }
    fn c25_versions() {
        let (i, j) = (sx::choice(5), sx::choice(5));
        let (s, v) = VERSIONS[i];
        let w = VERSIONS[j].1;
        chk!(1, "text", v.as_ref() == s && v.to_string() == s);
        chk!(2, "JSON", serde_json::to_string(&v).unwrap() == format!("\"{}\"", s));
        chk!(3, "order", v.cmp(&w) == i.cmp(&j) && (v == w) == (i == j) && (v < w) == (i < j) && v.partial_cmp(&w) == i.partial_cmp(&j));
        let mut q = http_types::Request::get("http://a/");
        let mut r = http_types::Response::new(200);
        chk!(4, "none at first", q.version().is_none() && r.version().is_none());
        q.set_version(Some(v));
        r.set_version(Some(v));
        chk!(5, "kept", q.version() == Some(v) && r.version() == Some(v) && q.clone().version() == Some(v) && r.clone().version() == Some(v));
        q.set_version(None);
        chk!(6, "removed", q.version().is_none());
        sx::cover(1);
    }
}

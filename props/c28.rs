//! C28 Security headers and content security policies.
use super::util::*;
use crate::sx;
use http_types::security::{self, ContentSecurityPolicy, FrameOptions, ReferrerOptions, ReportTo, Source};
use http_types::Response;

fn all(r: &Response, n: &str) -> Vec<String> {
    r.header(n).map_or(vec![], |l| l.iter().map(|v| v.as_str().to_string()).collect())
}
fn one(r: &Response, n: &str, v: &str) -> bool {
    let l = all(r, n);
    l.len() == 1 && same(&lower(l[0].as_bytes()), v.as_bytes())
}
const SOURCES: [(Source, &str); 12] = [
    (Source::SameOrigin, "'self'"), (Source::Src, "'src'"), (Source::None, "'none'"), (Source::UnsafeInline, "'unsafe-inline'"), (Source::Data, "data:"), (Source::Mediastream, "mediastream:"),
    (Source::Https, "https:"), (Source::Blob, "blob:"), (Source::Filesystem, "filesystem:"), (Source::StrictDynamic, "'strict-dynamic'"), (Source::UnsafeEval, "'unsafe-eval'"), (Source::Wildcard, "*"),
];
const REFERRERS: [(Option<ReferrerOptions>, &str); 9] = [
    (None, "no-referrer"), (Some(ReferrerOptions::NoReferrer), "no-referrer"), (Some(ReferrerOptions::NoReferrerDowngrade), "no-referrer-when-downgrade"), (Some(ReferrerOptions::SameOrigin), "same-origin"), (Some(ReferrerOptions::Origin), "origin"),
    (Some(ReferrerOptions::StrictOrigin), "strict-origin"), (Some(ReferrerOptions::CrossOrigin), "origin-when-cross-origin"), (Some(ReferrerOptions::StrictCrossOrigin), "strict-origin-when-cross-origin"), (Some(ReferrerOptions::UnsafeUrl), "unsafe-url"),
];
const DIRECTIVES: [&str; 17] = ["base-uri", "connect-src", "default-src", "font-src", "form-action", "frame-ancestors", "frame-src", "img-src", "media-src", "object-src", "plugin-types", "require-sri-for", "report-uri", "sandbox", "script-src", "style-src", "worker-src"];

fn add<T: AsRef<str>>(p: &mut ContentSecurityPolicy, d: usize, s: T) {
    match d {
        0 => p.base_uri(s),
        1 => p.connect_src(s),
        2 => p.default_src(s),
        3 => p.font_src(s),
        4 => p.form_action(s),
        5 => p.frame_ancestors(s),
        6 => p.frame_src(s),
        7 => p.img_src(s),
        8 => p.media_src(s),
        9 => p.object_src(s),
        10 => p.plugin_types(s),
        11 => p.require_sri_for(s),
        12 => p.report_uri(s),
        13 => p.sandbox(s),
        14 => p.script_src(s),
        15 => p.style_src(s),
        _ => p.worker_src(s),
    };
}
/// The directives called for, each with its sources in order; 17 and 18 have none.
#[derive(Default)]
struct Model {
    d: Vec<(usize, Vec<Vec<u8>>)>,
}
impl Model {
    fn add(&mut self, d: usize, s: Option<Vec<u8>>) {
        if !self.d.iter().any(|e| e.0 == d) {
            self.d.push((d, vec![]));
        }
        let e = self.d.iter_mut().find(|e| e.0 == d).unwrap();
        e.1.extend(s);
    }
    fn is(&self, t: &str) {
        let mut seen = vec![0; 19];
        for x in t.as_bytes().split(|c| *c == b';') {
            let mut w = trim(x).split(|c| *c == b' ').filter(|w| !w.is_empty());
            let name = match w.next() {
                Some(n) => n,
                None => {
                    chk!(50, "no empty directive", self.d.is_empty());
                    continue;
                }
            };
            let d = match name {
                b"block-all-mixed-content" => 17,
                b"upgrade-insecure-requests" => 18,
                _ => match DIRECTIVES.iter().position(|d| d.as_bytes() == name) {
                    Some(d) => d,
                    None => {
                        chk!(51, "known directive", false);
                        return;
                    }
                },
            };
            seen[d] += 1;
            let want = match self.d.iter().find(|e| e.0 == d) {
                Some(e) => &e.1,
                None => {
                    chk!(52, "only the directives called for", false);
                    return;
                }
            };
            let got: Vec<&[u8]> = w.collect();
            chk!(53, "all sources", got.len() == want.len());
            for i in 0..got.len() {
                chk!(54, "the source", same(got[i], &want[i]));
            }
        }
        for (d, _) in &self.d {
            // repeating a directive without sources changes nothing
            chk!(55, "each directive once", seen[*d] == 1 || (*d >= 17 && seen[*d] > 1));
        }
    }
}
fn source(n: usize) -> Vec<u8> {
    long(n, 33, 126, || {
        let c = sx::byte(33, 126);
        sx::assume(c != b';' && c != b',');
        c
    })
}

harness! {
    // the defaults replace what was there
    fn c28_default(n) {
        let mut r = Response::new(200);
        let names = ["X-DNS-Prefetch-Control", "X-Frame-Options", "x-powered-BY", "strict-Transport-security", "X-Content-Type-Options", "X-XSS-Protection", "Server"];
        let v = chars(n, 32, 126);
        let i = sx::choice(7);
        for _ in 0..sx::choice(3) {
            r.append_header(names[i], &v[..]).unwrap();
        }
        let server = all(&r, "server").len();
        security::default(&mut r);
        chk!(1, "DNS prefetch", one(&r, "x-dns-prefetch-control", "on"));
        chk!(2, "frames", one(&r, "x-frame-options", "sameorigin"));
        chk!(3, "powered by", r.header("X-Powered-By").is_none());
        chk!(4, "transport", one(&r, "strict-transport-security", "max-age=5184000"));
        chk!(5, "sniffing", one(&r, "x-content-type-options", "nosniff"));
        chk!(6, "scripts", one(&r, "x-xss-protection", "1; mode=block"));
        chk!(7, "others stay", all(&r, "server").len() == server);
        chk!(8, "nothing else", r.header_names().count() == 5 + (server > 0) as usize);
        sx::cover(1);
    }
    // whatever other headers there are, they stay
    fn c28_named(how, n) {
        let x = chars(n, 32, 126);
        let mut r = Response::new(200);
        full(r.as_mut(), &x);
        let mut other = 1;
        let mut not = vec![];
        match how {
            0 => {
                security::default(&mut r);
                not.push("strict-transport-security");
                other = 4;
            }
            1 => {
                let mut p = ContentSecurityPolicy::new();
                p.default_src(Source::SameOrigin).script_src("a.b");
                if sx::boolean() {
                    p.report_only();
                }
                p.apply(&mut r);
            }
            2 => {
                security::referrer_policy(&mut r, Some(ReferrerOptions::Origin));
            }
            3 => {
                security::frameguard(&mut r, None);
            }
            4 => {
                security::powered_by(&mut r, None);
                other = 0;
            }
            5 => {
                security::hsts(&mut r);
                not.push("strict-transport-security");
                other = 0;
            }
            6 => {
                security::dns_prefetch_control(&mut r);
            }
            7 => {
                security::nosniff(&mut r);
            }
            _ => {
                security::xss_filter(&mut r);
            }
        }
        chk!(9, "the others stay", still_full(r.as_ref(), &x, &not, other + not.len()));
        for n in not {
            chk!(10, "replaced", one(&r, n, "max-age=5184000"));
        }
        sx::cover(1);
    }
    fn c28_single(n) {
        let v = chars(n, 32, 126);
        let mut r = Response::new(200);
        if sx::boolean() {
            r.insert_header("X-POWERED-by", "x").unwrap();
            r.insert_header("x-frame-options", "x").unwrap();
        }
        let (f, s) = [(None, "sameorigin"), (Some(FrameOptions::SameOrigin), "sameorigin"), (Some(FrameOptions::Deny), "deny")][sx::choice(3)];
        security::frameguard(&mut r, f);
        chk!(1, "frames", one(&r, "X-Frame-Options", s));
        security::powered_by(&mut r, Some(v.parse().unwrap()));
        let l = all(&r, "x-powered-by");
        chk!(2, "powered by", l.len() == 1 && same(l[0].as_bytes(), v.as_bytes()));
        chk!(3, "nothing else", r.header_names().count() == 2);
        security::powered_by(&mut r, None);
        chk!(4, "not powered by", r.header("X-Powered-By").is_none());
        sx::cover(1);
    }
    fn c28_referrer(k) {
        let mut r = Response::new(200);
        let mut want = vec![];
        for i in 0..k {
            let (o, s) = REFERRERS[pick(i, k, 9)];
            security::referrer_policy(&mut r, o);
            want.push(s);
        }
        let l = all(&r, "Referrer-Policy");
        chk!(1, "all, in order", l.len() == k && l.iter().zip(&want).all(|(a, b)| a == b));
        chk!(2, "nothing else", r.header_names().count() == (k > 0) as usize);
        sx::cover(1);
    }
    fn c28_sources() {
        let (s, t) = SOURCES[sx::choice(12)];
        chk!(1, "text", s.to_string() == t && s.as_ref() == t);
        let mut p = ContentSecurityPolicy::new();
        let d = sx::choice(17);
        add(&mut p, d, s);
        let mut r = Response::new(200);
        p.apply(&mut r);
        let mut m = Model::default();
        m.add(d, Some(t.as_bytes().to_vec()));
        m.is(r["Content-Security-Policy"].last().as_str());
        sx::cover(1);
    }
    // k calls with sources of n characters, out of a directives from b; applied in between, too
    fn c28_csp(k, n, a, b) {
        let mut p = ContentSecurityPolicy::new();
        let mut m = Model::default();
        let mut report = false;
        let mut r = Response::new(200);
        for i in 0..k {
            let mid = k >= 8 && i > 0 && i + 1 < k;
            match if !mid { sx::choice(a + 4) } else if i % 10 < 7 { 4 + i * 5 % a } else { i % 10 - 7 + (i % 10 == 9) as usize } {
                0 => {
                    p.block_all_mixed_content();
                    m.add(17, None);
                }
                1 => {
                    p.upgrade_insecure_requests();
                    m.add(18, None);
                }
                2 => {
                    p.report_only();
                    report = true;
                }
                3 => {
                    p.apply(&mut r);
                    m.is(r[if report { "Content-Security-Policy-Report-Only" } else { "Content-Security-Policy" }].last().as_str());
                }
                d => {
                    let d = (b + d - 4) % 17;
                    let s = if mid { pick_text(i, k, n, || 0) } else { source(n) };
                    add(&mut p, d, st(&s));
                    m.add(d, Some(s));
                }
            }
        }
        let mut r = Response::new(200);
        let names = if report { ["Content-Security-Policy-Report-Only", "Content-Security-Policy"] } else { ["Content-Security-Policy", "Content-Security-Policy-Report-Only"] };
        if sx::boolean() {
            r.insert_header(names[0], "script-src x").unwrap();
        }
        for _ in 0..2 {
            p.apply(&mut r);
            let l = all(&r, names[0]);
            chk!(1, "one header", l.len() == 1 && r.header(names[1]).is_none() && r.header_names().count() == 1);
            m.is(&l[0]);
        }
        sx::cover(if report { 2 } else { 1 });
    }
    fn c28_report_to(n) {
        let g = chars(n, b'a', b'z');
        let t = [format!("{{\"group\":\"{}\",\"max_age\":9,\"endpoints\":[{{\"url\":\"http://a/\"}}]}}", g), "{\"max_age\":-1,\"endpoints\":[],\"include_subdomains\":true}".to_string()];
        let l: Vec<ReportTo> = t.iter().map(|t| serde_json::from_str(t).unwrap()).collect();
        let mut p = ContentSecurityPolicy::default();
        p.report_to(l);
        let mut r = Response::new(200);
        p.apply(&mut r);
        let v = all(&r, "content-security-policy");
        chk!(1, "one", v.len() == 1);
        let mut seen = [0; 4];
        for d in v[0].as_bytes().split(|c| *c == b';') {
            let d = trim(d);
            for (i, w) in ["script-src 'self'".to_string(), "object-src 'self'".to_string(), format!("report-to {}", t[0]), format!("report-to {}", t[1])].iter().enumerate() {
                if same(d, w.as_bytes()) {
                    seen[i] += 1;
                }
            }
        }
        chk!(2, "the defaults and the reports", seen == [1; 4]);
        sx::cover(1);
    }
}

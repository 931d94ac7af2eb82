//! C20 Bodies made from files. The symbolic build has an in-memory stand-in for async-std's files
//! (/verif/standin), the native replay uses the real async-std on real files in a scratch directory.
use super::io;
use super::util::*;
use crate::sx;
use http_types::mime::Mime;
use futures_lite::io::{AsyncReadExt, AsyncSeekExt, SeekFrom};
use std::future::Future;
use std::path::{Path, PathBuf};

/// A scratch directory with files in it; gone again when this goes.
struct Dir {
    root: String,
    made: Vec<(PathBuf, bool)>,
}
#[cfg(sx_sym)]
mod fs {
    use super::*;
    pub fn dir() -> Dir {
        async_std::fs::clear();
        Dir { root: "scratch/".to_string(), made: vec![] }
    }
    impl Dir {
        pub fn add(&mut self, name: &str, data: Option<&[u8]>) -> String {
            let p = format!("{}{}", self.root, name);
            async_std::fs::install(&p, data.map(|d| d.to_vec()));
            p
        }
    }
    pub fn schedule(bits: u64) {
        async_std::fs::schedule(bits)
    }
    pub fn drive<F: Future>(f: F) -> F::Output {
        io::run(f)
    }
}
#[cfg(not(sx_sym))]
mod fs {
    use super::*;
    pub fn dir() -> Dir {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let root = std::env::temp_dir().join(format!("sx-c20-{}-{}", std::process::id(), n));
        std::fs::create_dir(&root).unwrap();
        Dir { root: format!("{}/", root.display()), made: vec![(root, true)] }
    }
    impl Dir {
        pub fn add(&mut self, name: &str, data: Option<&[u8]>) -> String {
            let p = PathBuf::from(format!("{}{}", self.root, name));
            if let Some((up, _)) = name.rsplit_once('/') {
                let up = PathBuf::from(format!("{}{}", self.root, up));
                std::fs::create_dir(&up).unwrap();
                self.made.push((up, true));
            }
            match data {
                Some(d) => std::fs::write(&p, d).unwrap(),
                None => std::fs::create_dir(&p).unwrap(),
            }
            self.made.push((p.clone(), data.is_none()));
            p.display().to_string()
        }
    }
    impl Drop for Dir {
        fn drop(&mut self) {
            for (p, dir) in self.made.iter().rev() {
                let _ = if *dir { std::fs::remove_dir(p) } else { std::fs::remove_file(p) };
            }
        }
    }
    pub fn schedule(_bits: u64) {}
    pub fn drive<F: Future>(f: F) -> F::Output {
        futures_lite::future::block_on(f)
    }
}
use fs::*;

/// What follows the last dot of the last part of the path, unless that dot begins the part.
fn ext(path: &str) -> Option<&str> {
    let b = path.as_bytes();
    let mut i = b.len();
    while i > 0 && b[i - 1] != b'/' {
        i -= 1;
    }
    let name = &path[i..];
    if name == ".." {
        return None;
    }
    match name.rfind('.') {
        Some(k) if k > 0 => Some(&name[k + 1..]),
        _ => None,
    }
}
fn guess(data: &[u8], path: &str) -> String {
    match Mime::sniff(&data[..data.len().min(300)]) {
        Ok(m) => {
            sx::cover(11);
            m.to_string()
        }
        Err(_) => match ext(path).and_then(Mime::from_extension) {
            Some(m) => {
                sx::cover(12);
                m.to_string()
            }
            None => {
                sx::cover(13);
                "application/octet-stream".to_string()
            }
        },
    }
}
fn open(p: &str) -> async_std::fs::File {
    drive(async_std::fs::File::open(p)).unwrap()
}
fn check(b: std::io::Result<Body>, data: &[u8], ty: Option<&str>) {
    let b = match b {
        Ok(b) => b,
        Err(_) => return chk!(1, "a readable file gives a body", false),
    };
    chk!(2, "length", b.len() == Some(data.len() as u64));
    chk!(3, "empty", b.is_empty() == Some(data.is_empty()));
    if let Some(t) = ty {
        chk!(4, "type", b.mime().map_or(false, |m| same(m.to_string().as_bytes(), t.as_bytes())));
        sx::out(t.as_bytes());
    }
    match sx::choice(3) {
        0 => match drive(b.into_bytes()) {
            Ok(x) => chk!(5, "contents", same(&x, data)),
            Err(_) => chk!(6, "contents can be read", false),
        },
        1 => {
            let mut res = Response::new(200);
            res.set_body(b);
            if let Some(t) = ty {
                chk!(7, "type of the message", res.header("content-type").map_or(false, |v| v.iter().count() == 1 && same(v[0].as_str().as_bytes(), t.as_bytes())));
            }
            chk!(8, "length of the message", res.len() == Some(data.len() as u64));
            match drive(res.body_bytes()) {
                Ok(x) => chk!(9, "contents of the message", same(&x, data)),
                Err(_) => chk!(10, "contents can be read", false),
            }
        }
        _ => {
            // piecewise
            let mut b = b;
            let mut got = vec![];
            let mut buf = vec![0; if data.len() > 400 { 3000 } else { 3 }];
            loop {
                match drive(b.read(&mut buf)) {
                    Ok(0) => break,
                    Ok(k) => got.extend_from_slice(&buf[..k]),
                    Err(_) => return chk!(11, "contents can be read", false),
                }
            }
            chk!(12, "contents in pieces", same(&got, data));
        }
    }
    sx::cover(1);
}
fn contents(shape: usize, n: usize) -> Vec<u8> {
    let mut v = vec![];
    match shape {
        // all symbolic
        0 => v = bytes(n),
        // a text with two symbolic bytes in front and two at the end
        1 => {
            v.resize(n, b'x');
            v[0] = sx::byte(0, 255);
            v[1] = sx::byte(0, 255);
            v[n - 2] = sx::byte(0, 255);
            v[n - 1] = sx::byte(0, 255);
        }
        // perhaps an archive: the mark stands at 257
        2 => {
            v.resize(n, 0);
            for (i, c) in b"ustar".iter().enumerate() {
                if 257 + i < n {
                    v[257 + i] = if i == 2 || i == 4 { sx::byte(0, 255) } else { *c };
                }
            }
        }
        // a known first part, cut short, followed by zeros or not
        _ => {
            let k: &[&[u8]] = &[b"\x89PNG\r\n\x1a\n", b"%PDF-1.7", b"GIF89a", b"\0\x01\0\0\0", b"PK\x03\x04", b"\x7fELF", b"wOFF\0\x01\0\0", b"\0asm"];
            v.extend_from_slice(k[sx::choice(k.len())]);
            let cut = sx::choice(v.len() + 1);
            v.truncate(cut);
            if sx::boolean() {
                v.resize(cut + n, 0);
            }
        }
    }
    v
}
const NAMES: &[&str] = &["a.html", "b.css", "c.tar.gz", "d.HTML", "e", ".html", "f.", "g.x.txt", "h.html/i", "j.html/k.json", "l..js", "m.woff2"];

harness! {
    // a file given by its path
    fn c20_path(shape, n, name) {
        let data = contents(shape, n);
        let mut d = dir();
        let p = d.add(NAMES[name], Some(&data));
        let t = guess(&data, NAMES[name]);
        schedule(sx::choice(16) as u64);
        check(drive(Body::from_path(&p)), &data, Some(&t));
    }
    // an open file, with and without a path; the name the file has does not count
    fn c20_open(shape, n, name) {
        let data = contents(shape, n);
        let mut d = dir();
        let p = d.add("x.json", Some(&data));
        let f = open(&p);
        schedule(sx::choice(8) as u64);
        if sx::boolean() {
            sx::cover(2);
            let t = guess(&data, NAMES[name]);
            check(drive(Body::from_file_with_path(f, Path::new(NAMES[name]))), &data, Some(&t));
        } else {
            let t = guess(&data, "");
            check(drive(Body::from_file(f)), &data, Some(&t));
        }
    }
    // an open file and a path with any extension of `k` letters
    fn c20_ext(k) {
        let data = b"plain text".to_vec();
        let mut d = dir();
        let p = d.add("x.json", Some(&data));
        let f = open(&p);
        let mut q = "dir.css/name.".to_string();
        q.push_str(&chars(k, b'0', b'z'));
        let t = guess(&data, &q);
        check(drive(Body::from_file_with_path(f, Path::new(&q))), &data, Some(&t));
    }
    // a file that was read from, or moved in, before
    fn c20_used(n) {
        let data = bytes(n);
        let mut d = dir();
        let p = d.add("x.json", Some(&data));
        let mut f = open(&p);
        let k = sx::choice(n + 1);
        if sx::boolean() {
            let mut buf = vec![0; k];
            let got = drive(f.read(&mut buf)).unwrap();
            chk!(20, "as many bytes", got == k);
            sx::cover(2);
        } else {
            drive(f.seek(SeekFrom::Start(k as u64))).unwrap();
        }
        check(drive(Body::from_file(f)), &data, None);
    }
    // no file, or a directory: an error
    fn c20_missing() {
        let mut d = dir();
        let here = d.add("a.html", Some(b"x"));
        let sub = d.add("sub", None);
        schedule(sx::choice(16) as u64);
        let r = match sx::choice(4) {
            0 => drive(Body::from_path(format!("{}x", here))),
            1 => drive(Body::from_path(format!("{}/none", sub))),
            2 => drive(Body::from_path(&sub)),
            _ => drive(Body::from_path("")),
        };
        chk!(30, "an error", r.is_err());
        sx::cover(1);
    }
    // two files at once
    fn c20_two(n, m) {
        let (x, y) = (bytes(n), bytes(m));
        let mut d = dir();
        let (p, q) = (d.add("x.txt", Some(&x)), d.add("y.css", Some(&y)));
        let b = drive(Body::from_path(&p)).unwrap();
        let c = drive(Body::from_path(&q)).unwrap();
        let (b, c) = if sx::boolean() { (b, c) } else {
            let mut req = Request::new(http_types::Method::Get, "http://a/");
            req.set_body(b);
            let b = req.replace_body(c);
            (b, req.take_body())
        };
        chk!(40, "lengths", b.len() == Some(n as u64) && c.len() == Some(m as u64));
        let g = drive(c.into_bytes()).unwrap();
        chk!(41, "second", same(&g, &y));
        let g = drive(b.into_bytes()).unwrap();
        chk!(42, "first", same(&g, &x));
        sx::cover(1);
    }
    // a file, then another body chained behind it
    fn c20_chain(n, m) {
        let (x, y) = (bytes(n), bytes(m));
        let mut d = dir();
        let p = d.add("x.txt", Some(&x));
        let b = drive(Body::from_path(&p)).unwrap().chain(Body::from_bytes(y.clone()));
        chk!(50, "length", b.len() == Some((n + m) as u64));
        let mut want = x.clone();
        want.extend_from_slice(&y);
        let g = drive(b.into_bytes()).unwrap();
        chk!(51, "both", same(&g, &want));
        sx::cover(1);
    }
}

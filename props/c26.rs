//! C26 Errors keep their status, message and cause.
use super::util::*;
use crate::sx;
use http_types::{bail, ensure, ensure_eq, format_err};
use std::convert::TryFrom;
use std::io::{Error as Io, ErrorKind};

type Res<T> = std::result::Result<T, Error>;

const KINDS: [ErrorKind; 3] = [ErrorKind::NotFound, ErrorKind::TimedOut, ErrorKind::BrokenPipe];

/// Any status, or a number that is none.
fn status() -> (u16, Option<StatusCode>) {
    let n = sx::u64_in(0, 999) as u16;
    (n, StatusCode::try_from(n).ok())
}
fn dbg_has(e: &Error, m: &str) -> bool {
    format!("{:?}", e).as_bytes().windows(m.len().max(1)).any(|w| same(w, m.as_bytes())) || m.is_empty()
}
fn is_text(mut e: Error, s: StatusCode, m: &str) {
    sx::out(m.as_bytes());
    chk!(50, "status", e.status() == s && *AsRef::<StatusCode>::as_ref(&e) == s);
    chk!(51, "message", same(e.to_string().as_bytes(), m.as_bytes()));
    chk!(52, "no type", e.type_name().is_none());
    chk!(53, "not another type", e.downcast_ref::<Io>().is_none() && e.downcast_mut::<u8>().is_none());
    chk!(54, "its error", same(AsRef::<dyn std::error::Error + Send + Sync>::as_ref(&e).to_string().as_bytes(), m.as_bytes()) && same(AsRef::<dyn std::error::Error>::as_ref(&e).to_string().as_bytes(), m.as_bytes()));
    let e = match e.downcast::<Io>() {
        Ok(_) => {
            chk!(55, "not another type", false);
            return;
        }
        Err(e) => e,
    };
    chk!(56, "kept when not of the type", e.status() == s && same(e.to_string().as_bytes(), m.as_bytes()));
    match sx::choice(3) {
        0 => chk!(57, "the inner error", same(e.into_inner().to_string().as_bytes(), m.as_bytes())),
        1 => chk!(58, "boxed", same(Box::<dyn std::error::Error + Send + Sync>::from(e).to_string().as_bytes(), m.as_bytes())),
        _ => chk!(59, "boxed", same(Box::<dyn std::error::Error>::from(e).to_string().as_bytes(), m.as_bytes())),
    }
}
fn is_io(mut e: Error, s: StatusCode, k: ErrorKind) {
    let m = Io::from(k).to_string();
    chk!(60, "status", e.status() == s && *AsRef::<StatusCode>::as_ref(&e) == s);
    chk!(61, "message", e.to_string() == m && AsRef::<dyn std::error::Error>::as_ref(&e).to_string() == m);
    chk!(62, "type", e.type_name() == Some(std::any::type_name::<Io>()));
    chk!(63, "of the type", e.downcast_ref::<Io>().map(|e| e.kind()) == Some(k));
    if let Some(x) = e.downcast_mut::<Io>() {
        chk!(64, "of the type, mutably", x.kind() == k);
        *x = Io::from(ErrorKind::Other);
    } else {
        chk!(65, "of the type, mutably", false);
    }
    chk!(66, "not another type", e.downcast_ref::<std::fmt::Error>().is_none());
    let e = match e.downcast::<std::fmt::Error>() {
        Ok(_) => {
            chk!(67, "not another type", false);
            return;
        }
        Err(e) => e,
    };
    chk!(68, "kept when not of the type", e.status() == s);
    match e.downcast::<Io>() {
        Ok(x) => chk!(69, "the error itself", x.kind() == ErrorKind::Other),
        Err(_) => chk!(70, "the error itself", false),
    }
}
fn bailing(how: usize, a: u8, b: u8) -> http_types::Result<u8> {
    match how {
        0 => bail!("fixed"),
        1 => bail!("n {}", a),
        2 => ensure!(a < b, "a {} b {}", a, b),
        3 => ensure_eq!(a, b, "fixed"),
        4 => ensure!(a < b, "fixed"),
        _ => ensure_eq!(a, b, "a {} b {}", a, b),
    }
    Ok(a)
}

harness! {
    // errors from text with any status
    fn c26_text(n) {
        let m = chars(n, 32, 126);
        let (num, s) = status();
        sx::expect_panic(s.is_none());
        let e = Error::from_str(num, m.clone());
        sx::expect_panic(false);
        let s = s.unwrap();
        sx::cover(1);
        if sx::boolean() {
            let mut e = e;
            let (num, t) = status();
            sx::expect_panic(t.is_none());
            e.set_status(num);
            sx::expect_panic(false);
            let t = t.unwrap();
            chk!(1, "the new status", e.status() == t);
            *AsMut::<StatusCode>::as_mut(&mut e) = s;
            is_text(e, s, &m);
        } else {
            match e.downcast::<String>() {
                Ok(x) => chk!(2, "the text itself", same(x.as_bytes(), m.as_bytes())),
                Err(_) => chk!(3, "the text itself", false),
            }
        }
    }
    // errors from errors
    fn c26_error() {
        let k = KINDS[sx::choice(3)];
        let (num, s) = status();
        match sx::choice(4) {
            0 => {
                sx::expect_panic(s.is_none());
                let e = Error::new(num, Io::from(k));
                sx::expect_panic(false);
                is_io(e, s.unwrap(), k);
            }
            1 => is_io(Error::from(Io::from(k)), StatusCode::InternalServerError, k),
            2 => {
                sx::assume(s.is_some());
                is_io(Error::new(s.unwrap(), Io::from(k)), s.unwrap(), k)
            }
            _ => {
                fn f(k: ErrorKind) -> http_types::Result<()> {
                    Err(Io::from(k))?;
                    Ok(())
                }
                is_io(f(k).unwrap_err(), StatusCode::InternalServerError, k)
            }
        }
        sx::cover(1);
    }
    fn c26_display(n) {
        let m = chars(n, 32, 126);
        chk!(1, "displayed", same(Error::from_display(&m).to_string().as_bytes(), m.as_bytes()));
        chk!(2, "status", Error::from_display(&m).status() == 500 && Error::from_debug(&m).status() == 500);
        let d = format!("{:?}", m);
        chk!(3, "debugged", same(Error::from_debug(&m).to_string().as_bytes(), d.as_bytes()));
        // of structured values, too
        let l = vec![Some(m.clone()), None];
        let d = format!("{:?}", l);
        chk!(5, "debugged list", same(Error::from_debug(&l).to_string().as_bytes(), d.as_bytes()));
        let t = (&m, 7u8, [(); 0], Ok::<(), bool>(()));
        let d = format!("{:?}", t);
        chk!(6, "debugged tuple", same(Error::from_debug(&t).to_string().as_bytes(), d.as_bytes()));
        chk!(4, "debug has the message", dbg_has(&Error::from_str(404u16, m.clone()), &m));
        sx::cover(1);
    }
    // the Status trait; how: 0 io results, 1 this crate's results, 2 options; lazy: with_status
    fn c26_status(how, lazy) {
        let (num, s) = status();
        let v = sx::byte(0, 255);
        let ok = sx::boolean();
        let k = KINDS[sx::choice(3)];
        let mut called = 0;
        sx::expect_panic(s.is_none() && !ok);
        let r: Res<u8> = match how {
            0 => {
                let r = if ok { Ok(v) } else { Err(Io::from(k)) };
                if lazy == 1 { r.with_status(|| { called += 1; num }) } else { r.status(num) }
            }
            1 => {
                let r: Res<u8> = if ok { Ok(v) } else { Err(Error::new(404u16, Io::from(k))) };
                if lazy == 1 { r.with_status(|| { called += 1; num }) } else { r.status(num) }
            }
            _ => {
                let r = if ok { Some(v) } else { None };
                if lazy == 1 { r.with_status(|| { called += 1; num }) } else { r.status(num) }
            }
        };
        sx::expect_panic(false);
        chk!(1, "asked for a status once and only for an error", lazy == 0 || called == !ok as usize);
        match r {
            Ok(x) => {
                sx::cover(1);
                chk!(2, "the value", ok && x == v);
            }
            Err(e) => {
                sx::cover(2);
                chk!(3, "an error stays one", !ok);
                let s = s.unwrap();
                if how == 2 {
                    chk!(4, "status", e.status() == s && e.type_name().is_none());
                } else {
                    is_io(e, s, k);
                }
            }
        }
    }
    // the macros
    fn c26_macros(how) {
        let (a, b) = (sx::byte(0, 255), sx::byte(0, 255));
        let fails = [true, true, a >= b, a != b, a >= b, a != b][how];
        let m = match how {
            0 | 3 | 4 => "fixed".to_string(),
            1 => format!("n {}", a),
            _ => format!("a {} b {}", a, b),
        };
        match bailing(how, a, b) {
            Ok(x) => {
                sx::cover(1);
                chk!(1, "passes", !fails && x == a);
            }
            Err(e) => {
                sx::cover(2);
                chk!(2, "fails", fails);
                chk!(3, "error", e.status() == 500 && same(e.to_string().as_bytes(), m.as_bytes()));
            }
        }
        let e = format_err!("x {}", a);
        chk!(4, "made", e.status() == 500 && same(e.to_string().as_bytes(), format!("x {}", a).as_bytes()));
    }
}

//! C27 Extensions: one value per type, whatever the history.
use super::util::*;
use crate::sx;
use http_types::{Extensions, Request, Response};

#[derive(Debug, PartialEq, Clone)]
struct A(u8);
#[derive(Debug, PartialEq, Clone)]
struct B(Vec<u8>);
type C = Option<A>;
/// A type without data.
#[derive(Debug, PartialEq, Clone)]
struct Z;

/// What each type holds.
#[derive(Default)]
struct Model {
    a: Option<u8>,
    b: Option<u8>,
    c: Option<u8>,
    n: Option<u8>,
    z: Option<Z>,
}
fn agrees(x: &Extensions, m: &Model) {
    chk!(1, "A", x.get::<A>().map(|v| v.0) == m.a && x.contains::<A>() == m.a.is_some());
    chk!(2, "B", x.get::<B>().map(|v| v.0[0]) == m.b && x.contains::<B>() == m.b.is_some());
    chk!(3, "C", x.get::<C>().map(|v| v.as_ref().unwrap().0) == m.c && x.contains::<C>() == m.c.is_some());
    chk!(4, "u8", x.get::<u8>().copied() == m.n && x.contains::<u8>() == m.n.is_some());
    chk!(6, "Z", x.get::<Z>() == m.z.as_ref() && x.contains::<Z>() == m.z.is_some());
    chk!(5, "others", x.get::<u16>().is_none() && !x.contains::<()>());
}
fn step(x: &mut Extensions, m: &mut Model) {
    let v = sx::byte(0, 255);
    match sx::choice(15) {
        0 => chk!(10, "insert A", x.insert(A(v)).map(|o| o.0) == m.a.replace(v)),
        1 => chk!(11, "insert B", x.insert(B(vec![v])).map(|o| o.0[0]) == m.b.replace(v)),
        2 => chk!(12, "insert C", x.insert(Some(A(v))).map(|o| o.unwrap().0) == m.c.replace(v)),
        3 => chk!(13, "insert u8", x.insert(v) == m.n.replace(v)),
        4 => chk!(14, "remove A", x.remove::<A>().map(|o| o.0) == m.a.take()),
        5 => chk!(15, "remove B", x.remove::<B>().map(|o| o.0[0]) == m.b.take()),
        6 => chk!(16, "remove C", x.remove::<C>().map(|o| o.unwrap().0) == m.c.take()),
        7 => chk!(17, "remove u8", x.remove::<u8>() == m.n.take()),
        8 => {
            let r = x.get_mut::<A>();
            chk!(18, "change A", r.as_ref().map(|o| o.0) == m.a);
            if let Some(o) = r {
                o.0 = v;
                m.a = Some(v);
            }
        }
        9 => {
            let r = x.get_mut::<B>();
            chk!(19, "change B", r.as_ref().map(|o| o.0[0]) == m.b);
            if let Some(o) = r {
                o.0[0] = v;
                m.b = Some(v);
            }
        }
        10 => {
            let r = x.get_mut::<u8>();
            chk!(20, "change u8", r.as_ref().map(|o| **o) == m.n);
            if let Some(o) = r {
                *o = v;
                m.n = Some(v);
            }
        }
        11 => chk!(22, "insert Z", x.insert(Z) == m.z.replace(Z)),
        12 => chk!(23, "remove Z", x.get_mut::<Z>().cloned() == m.z && x.remove::<Z>() == m.z.take()),
        13 => chk!(21, "remove another", x.remove::<u16>().is_none() && x.get_mut::<()>().is_none()),
        _ => {
            x.clear();
            *m = Model::default();
        }
    }
}

#[derive(Clone)]
struct Other<const I: usize>(u16);
macro_rules! others {
    ($x:expr, $f:ident: $($i:literal)*) => { $($f::<$i>($x);)* };
}
fn put<const I: usize>(x: &mut Extensions) {
    chk!(30, "new", x.insert(Other::<I>(7 * I as u16)).is_none());
}
fn there<const I: usize>(x: &mut Extensions) {
    chk!(31, "the others stay", x.get::<Other<I>>().map(|o| o.0) == Some(7 * I as u16) && x.contains::<Other<I>>());
}
fn gone<const I: usize>(x: &mut Extensions) {
    chk!(32, "all gone", !x.contains::<Other<I>>() && x.remove::<Other<I>>().is_none());
}

harness! {
    // k operations among 40 other types
    fn c27_many(k) {
        let mut m = Model::default();
        let mut x = Extensions::default();
        others!(&mut x, put: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39);
        for _ in 0..k {
            let all = x.contains::<Other<3>>();
            step(&mut x, &mut m);
            agrees(&x, &m);
            if x.contains::<Other<3>>() {
                chk!(33, "not put back", all);
                others!(&mut x, there: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39);
                sx::cover(1);
            } else {
                chk!(34, "cleared", x.get::<A>().is_none() || !all);
                others!(&mut x, gone: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39);
                sx::cover(2);
            }
        }
    }
    // k operations; via: 0 directly, 1 a request's, 2 a response's
    fn c27_history(k, via) {
        let mut m = Model::default();
        match via {
            0 => {
                let mut x = Extensions::default();
                agrees(&x, &m);
                for _ in 0..k {
                    step(&mut x, &mut m);
                    agrees(&x, &m);
                }
            }
            1 => {
                let mut r = Request::get("http://a/");
                for _ in 0..k {
                    step(r.ext_mut(), &mut m);
                    agrees(r.ext(), &m);
                }
                agrees(r.clone().ext(), &Model::default());
            }
            _ => {
                let mut r = Response::new(200);
                for _ in 0..k {
                    step(r.ext_mut(), &mut m);
                    agrees(r.ext(), &m);
                }
                agrees(r.clone().ext(), &Model::default());
            }
        }
        sx::cover(1);
    }
    // values are dropped exactly once
    fn c27_drop(k) {
        use std::sync::{atomic::{AtomicUsize, Ordering::SeqCst}, Arc};
        struct D<const I: u8>(Arc<AtomicUsize>);
        impl<const I: u8> Drop for D<I> {
            fn drop(&mut self) {
                self.0.fetch_add(1, SeqCst);
            }
        }
        let n = Arc::new(AtomicUsize::new(0));
        let mut x = Extensions::default();
        let (mut made, mut held) = (0, [false; 3]);
        for _ in 0..k {
            match sx::choice(7) {
                0 => {
                    x.insert(D::<0>(n.clone()));
                    made += 1;
                    held[0] = true;
                }
                1 => {
                    x.insert(D::<1>(n.clone()));
                    made += 1;
                    held[1] = true;
                }
                2 => {
                    x.insert(D::<2>(n.clone()));
                    made += 1;
                    held[2] = true;
                }
                3 => {
                    x.remove::<D<0>>();
                    held[0] = false;
                }
                4 => {
                    x.remove::<D<1>>();
                    held[1] = false;
                }
                5 => {
                    x.insert(1u8);
                }
                _ => {
                    x.clear();
                    held = [false; 3];
                }
            }
            chk!(1, "dropped", n.load(SeqCst) == made - held.iter().filter(|h| **h).count());
        }
        drop(x);
        chk!(2, "all dropped", n.load(SeqCst) == made);
        sx::cover(1);
    }
}

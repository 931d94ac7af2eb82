//! Native side of the harness API: values come from a list.
use std::cell::RefCell;
struct St {
    vals: Vec<u128>,
    pos: usize,
    out: Vec<u8>,
    expect: bool,
    end: Option<(String, String)>,
}
thread_local! { static S: RefCell<St> = const { RefCell::new(St { vals: vec![], pos: 0, out: vec![], expect: false, end: None }) }; }
struct Halt;
fn halt(o: &str, d: String) -> ! {
    S.with(|s| s.borrow_mut().end = Some((o.to_string(), d)));
    std::panic::resume_unwind(Box::new(Halt))
}
fn next(lo: u128) -> u128 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let p = s.pos;
        s.pos += 1;
        s.vals.get(p).copied().unwrap_or(lo)
    })
}
pub fn run(f: fn(&[u64]), args: &[u64], vals: Vec<u128>) -> (String, String, Vec<u8>) {
    NOW.with(|n| n.set(None));
    S.with(|s| *s.borrow_mut() = St { vals, pos: 0, out: vec![], expect: false, end: None });
    let msg = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let m2 = msg.clone();
    std::panic::set_hook(Box::new(move |i| *m2.lock().unwrap() = i.to_string()));
    let r = std::panic::catch_unwind(|| f(args));
    let _ = std::panic::take_hook();
    S.with(|s| {
        let mut s = s.borrow_mut();
        let out = std::mem::take(&mut s.out);
        if let Some((o, d)) = s.end.take() {
            return (o, d, out);
        }
        match r {
            Ok(()) if s.expect => ("missing-panic".into(), String::new(), out),
            Ok(()) => ("done".into(), String::new(), out),
            Err(_) if s.expect => ("expected-panic".into(), msg.lock().unwrap().clone(), out),
            Err(_) => ("panic".into(), msg.lock().unwrap().clone(), out),
        }
    })
}
pub fn bytes(n: usize) -> Vec<u8> {
    (0..n).map(|_| next(0) as u8).collect()
}
pub fn byte(lo: u8, _hi: u8) -> u8 {
    next(lo as u128) as u8
}
pub fn u64_in(lo: u64, _hi: u64) -> u64 {
    next(lo as u128) as u64
}
pub fn boolean() -> bool {
    next(0) != 0
}
pub fn choice(_n: usize) -> usize {
    next(0) as usize
}
pub fn conc(x: u64) -> u64 {
    x
}
pub fn conc_bytes(_p: &mut [u8]) {}
pub fn assume(b: bool) {
    if !b {
        halt("assume", String::new())
    }
}
pub fn assert_msg(b: bool, id: u32, msg: &str) {
    if !b {
        halt("assert", format!("{} {}", id, msg))
    }
}
pub fn out(b: &[u8]) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.out.extend_from_slice(&(b.len() as u32).to_le_bytes());
        s.out.extend_from_slice(b);
    })
}
pub fn out_u64(x: u64) {
    S.with(|s| s.borrow_mut().out.extend_from_slice(&x.to_le_bytes()))
}
pub fn expect_panic(b: bool) {
    S.with(|s| s.borrow_mut().expect = b)
}
pub fn cover(_id: u32) {}
thread_local! { static NOW: std::cell::Cell<Option<(u64, u64)>> = const { std::cell::Cell::new(None) }; }
/// From here on the clock of this thread stands at this instant.
pub fn clock(secs: u64, nanos: u64) {
    NOW.with(|n| n.set(Some((secs, nanos))))
}
/// Stands in for the C library's function of this name, which the standard library reads the time with.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut u64) -> i32 {
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    match NOW.try_with(|n| n.get()) {
        Ok(Some((s, n))) => {
            *ts = s;
            *ts.add(1) = n;
            0
        }
        _ => syscall(228, id, ts) as i32,
    }
}
macro_rules! harness {
    ($(fn $name:ident ( $($a:ident),* ) $body:block)*) => {
        $( fn $name(args: &[u64]) { let mut _it = args.iter(); $(let $a = *_it.next().unwrap() as usize;)* $body } )*
        pub fn register(t: &mut Vec<(&'static str, fn(&[u64]))>) {
            $( t.push((stringify!($name), $name as fn(&[u64]))); )*
        }
    };
}
macro_rules! chk {
    ($id:expr, $msg:expr, $c:expr) => {
        crate::sx::assert_msg($c, $id, $msg)
    };
}

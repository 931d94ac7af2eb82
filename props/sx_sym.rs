//! Symbolic side of the harness API: the `sx_*` functions are intercepted by the engine.
mod ffi {
    extern "C" {
        pub fn sx_bytes(p: *mut u8, n: usize);
        pub fn sx_byte(lo: u8, hi: u8) -> u8;
        pub fn sx_u64(lo: u64, hi: u64) -> u64;
        pub fn sx_bool() -> bool;
        pub fn sx_choice(n: u8) -> u8;
        pub fn sx_pick(n: u64) -> u64;
        pub fn sx_conc(x: u64) -> u64;
        pub fn sx_conc_bytes(p: *mut u8, n: usize);
        pub fn sx_assume(b: bool);
        pub fn sx_assert(b: bool, id: u32);
        pub fn sx_out(p: *const u8, n: usize);
        pub fn sx_out_u64(x: u64);
        pub fn sx_expect_panic(b: bool);
        pub fn sx_cover(id: u32);
        pub fn sx_clock(secs: u64, nanos: u64);
    }
}
/// `n` unconstrained bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { ffi::sx_bytes(v.as_mut_ptr(), n) };
    v
}
pub fn byte(lo: u8, hi: u8) -> u8 {
    unsafe { ffi::sx_byte(lo, hi) }
}
pub fn u64_in(lo: u64, hi: u64) -> u64 {
    unsafe { ffi::sx_u64(lo, hi) }
}
pub fn boolean() -> bool {
    unsafe { ffi::sx_bool() }
}
/// A value in `0..n`, split into one path per value.
pub fn choice(n: usize) -> usize {
    unsafe { ffi::sx_pick(n as u64) as usize }
}
/// Case-split on the value.
pub fn conc(x: u64) -> u64 {
    unsafe { ffi::sx_conc(x) }
}
pub fn conc_bytes(p: &mut [u8]) {
    unsafe { ffi::sx_conc_bytes(p.as_mut_ptr(), p.len()) }
}
pub fn assume(b: bool) {
    unsafe { ffi::sx_assume(b) }
}
pub fn assert(b: bool, id: u32) {
    unsafe { ffi::sx_assert(b, id) }
}
/// Observable output: compared with the native run on every replayed path.
pub fn out(b: &[u8]) {
    unsafe { ffi::sx_out(b.as_ptr(), b.len()) }
}
pub fn out_u64(x: u64) {
    unsafe { ffi::sx_out_u64(x) }
}
/// From here on the code under test must panic (true) / must not panic (false).
pub fn expect_panic(b: bool) {
    unsafe { ffi::sx_expect_panic(b) }
}
/// Reachability witness.
pub fn cover(id: u32) {
    unsafe { ffi::sx_cover(id) }
}
/// From here on the clock stands at this instant.
pub fn clock(secs: u64, nanos: u64) {
    unsafe { ffi::sx_clock(secs, nanos) }
}
/// `harness! { fn name(a, b) { .. } ... }` defines symbolic entry points with constant `u64` arguments.
macro_rules! harness {
    ($(fn $name:ident ( $($a:ident),* ) $body:block)*) => {
        $( #[no_mangle] pub extern "C" fn $name($($a: u64),*) { $(let $a = $a as usize;)* $body } )*
    };
}
/// `chk!(id, "what must hold", condition)`
macro_rules! chk {
    ($id:expr, $msg:expr, $c:expr) => {
        crate::sx::assert($c, $id)
    };
}

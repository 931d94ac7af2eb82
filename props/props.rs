pub mod dates;
pub mod mimes;
pub mod io;
pub mod util;
macro_rules! props {
    ($($m:ident = $f:literal),* $(,)?) => {
        $( #[cfg(any(p = $f, p = "all"))] mod $m; )*
        #[cfg(not(sx_sym))]
        pub fn register(t: &mut Vec<(&'static str, fn(&[u64]))>) {
            $( #[cfg(any(p = $f, p = "all"))] $m::register(t); )*
            let _ = t;
        }
    };
}
props! {
    c01 = "C01",
    c02 = "C02",
    c03 = "C03",
    c04 = "C04",
    c05 = "C05",
    c06 = "C06",
    c07 = "C07",
    c11 = "C11",
    c12 = "C12",
    c13 = "C13",
    c14 = "C14",
    c15 = "C15",
    c16 = "C16",
    c17 = "C17",
    c18 = "C18",
    c19 = "C19",
    c20 = "C20",
    c21 = "C21",
    c22 = "C22",
    c23 = "C23",
    c24 = "C24",
    c25 = "C25",
    c26 = "C26",
    c27 = "C27",
    c28 = "C28",
    c29 = "C29",
    c30 = "C30",
    c31 = "C31",
    c32 = "C32",
    c33 = "C33",
    c34 = "C34",
    c35 = "C35",
}

//! Native replay of the harnesses on concrete values (validates the symbolic runs, confirms violations).
#![allow(unexpected_cfgs, dead_code, unused_imports, unused_macros)]
#[path = "../../props/sx_nat.rs"]
#[macro_use]
mod sx;
#[path = "../../props/props.rs"]
mod props;

use std::io::{BufRead, Write};
/// stdin lines: `<entry>\t<arg,arg>\t<value,value,...>`; stdout: `<outcome>\t<detail>\t<hex out>`
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut table: Vec<(&str, fn(&[u64]))> = vec![];
    props::register(&mut table);
    let stdin = std::io::stdin();
    let so = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split('\t').collect();
        let args: Vec<u64> = f[1].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        let vals: Vec<u128> = f[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        let g = table.iter().find(|(n, _)| *n == f[0]).unwrap_or_else(|| panic!("entry {}", f[0])).1;
        let (o, d, out) = sx::run(g, &args, vals);
        let hex: String = out.iter().map(|b| format!("{:02x}", b)).collect();
        let mut l = so.lock();
        writeln!(l, "{}\t{}\t{}", o, d.replace(['\t', '\n'], " "), hex).unwrap();
        l.flush().unwrap();
    }
}

//! Map executed IR blocks back to source functions through debug locations.
use crate::ir::Module;
use std::collections::{BTreeSet, HashMap};

fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let p = l.find(&format!("{}: ", k))?;
    let r = &l[p + k.len() + 2..];
    let r = if let Some(x) = r.strip_prefix('"') {
        &x[..x.find('"')?]
    } else {
        r.split(|c| c == ',' || c == ')').next()?
    };
    Some(r)
}

pub fn functions(m: &Module, cover: &[u64]) -> Vec<String> {
    let text = String::from_utf8_lossy(&m.text[m.md_start..]);
    let mut md: HashMap<u32, &str> = HashMap::new();
    for l in text.lines() {
        if let Some(r) = l.strip_prefix('!') {
            if let Some(p) = r.find(" = ") {
                if let Ok(n) = r[..p].parse::<u32>() {
                    md.insert(n, &r[p + 3..]);
                }
            }
        }
    }
    let num = |s: Option<&str>| -> Option<u32> { s?.strip_prefix('!')?.parse().ok() };
    let mut out = BTreeSet::new();
    let mut seen = std::collections::HashSet::new();
    for f in &m.funcs {
        if let Some(Ok(b)) = f.body.get() {
            for bl in &b.blocks {
                if cover.get(bl.gid >> 6).map_or(false, |x| x >> (bl.gid & 63) & 1 == 1) {
                    for d in &bl.dbg {
                        let mut cur = Some(*d);
                        while let Some(id) = cur {
                            if id == 0 || !seen.insert(id) {
                                break;
                            }
                            let l = match md.get(&id) {
                                Some(l) => *l,
                                None => break,
                            };
                            // resolve scope to subprogram
                            let mut sc = num(field(l, "scope"));
                            for _ in 0..40 {
                                let s = match sc.and_then(|s| md.get(&s)) {
                                    Some(s) => *s,
                                    None => break,
                                };
                                if s.contains("DISubprogram(") {
                                    let file = num(field(s, "file")).and_then(|f| md.get(&f)).copied().unwrap_or("");
                                    let fname = field(file, "filename").unwrap_or("");
                                    let dir = field(file, "directory").unwrap_or("");
                                    if fname.starts_with("/repo/src") || dir.starts_with("/repo") {
                                        let rel = fname.trim_start_matches("/repo/");
                                        let rel = rel.split("/@/").next().unwrap_or(rel);
                                        out.insert(format!("{}:{} {}", rel, field(s, "line").unwrap_or("?"), field(s, "name").unwrap_or("?")));
                                    }
                                    break;
                                }
                                sc = num(field(s, "scope"));
                            }
                            cur = num(field(l, "inlinedAt"));
                        }
                    }
                }
            }
        }
    }
    out.into_iter().collect()
}

mod cov;
mod exec;
mod expr;
mod ir;
mod smt;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Shared {
    q: Mutex<Queue>,
    cv: Condvar,
}
struct Queue {
    stack: Vec<Work>,
    active: usize,
    stop: bool,
}

#[derive(Default)]
struct Agg {
    stats: Stats,
    queries: u64,
    sat: u64,
    unsat: u64,
    unknown: u64,
    smt_us: u64,
    max_us: u64,
    violations: Vec<(Violation, String)>,
    errors: BTreeMap<String, u64>,
    samples: Vec<(Vec<(u32, u128)>, String, Vec<u8>)>,
    covered: BTreeSet<u32>,
    cover: Vec<u64>,
    seen: u64,
    max_dec: u64,
}

struct Job {
    entry: String,
    args: Vec<u64>,
    budget: u64,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jinput(i: &[(u32, u128)]) -> String {
    let v: Vec<String> = i.iter().map(|(_, x)| format!("\"{}\"", x)).collect();
    format!("[{}]", v.join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let ll = &args[1];
    let mut jobs = vec![];
    let mut workers = 8usize;
    let mut timeout_ms = 20000u32;
    let mut out = String::new();
    let mut nsamples = 64usize;
    let mut max_instr = 50_000_000u64;
    let mut max_viol = 40usize;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--workers" => {
                workers = args[i + 1].parse().unwrap();
                i += 2;
            }
            "--timeout-ms" => {
                timeout_ms = args[i + 1].parse().unwrap();
                i += 2;
            }
            "--samples" => {
                nsamples = args[i + 1].parse().unwrap();
                i += 2;
            }
            "--max-instr" => {
                max_instr = args[i + 1].parse().unwrap();
                i += 2;
            }
            "--max-viol" => {
                max_viol = args[i + 1].parse().unwrap();
                i += 2;
            }
            "--out" => {
                out = args[i + 1].clone();
                i += 2;
            }
            "--job" => {
                // entry:args,..:budget
                let p: Vec<&str> = args[i + 1].split(':').collect();
                jobs.push(Job {
                    entry: p[0].to_string(),
                    args: p.get(1).map_or(vec![], |s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
                    budget: p.get(2).map_or(600, |s| s.parse().unwrap()),
                });
                i += 2;
            }
            x => panic!("arg {}", x),
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read(ll).expect("read ll");
    let m = ir::Module::parse(text).unwrap_or_else(|e| {
        eprintln!("IR parse error: {}", e);
        std::process::exit(3)
    });
    let im = Image::new(m).unwrap_or_else(|e| {
        eprintln!("image error: {}", e);
        std::process::exit(3)
    });
    eprintln!("loaded {} functions in {:.2}s; z3 {}", im.m.funcs.len(), t0.elapsed().as_secs_f64(), smt::version());
    let mut results = vec![];
    let mut allcover: Vec<u64> = vec![];
    for job in &jobs {
        let t = Instant::now();
        let deadline = t + Duration::from_secs(job.budget);
        let sh = Shared {
            q: Mutex::new(Queue {
                stack: vec![Work {
                    input: vec![],
                    bound: 0,
                    expect: 0,
                }],
                active: 0,
                stop: false,
            }),
            cv: Condvar::new(),
        };
        let agg = Mutex::new(Agg::default());
        std::thread::scope(|s| {
            for _ in 0..workers {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, || worker(&im, job, &sh, &agg, deadline, timeout_ms, nsamples, max_instr, max_viol))
                    .unwrap();
            }
        });
        let q = sh.q.into_inner().unwrap();
        let a = agg.into_inner().unwrap();
        let exhausted = q.stack.is_empty() && a.errors.is_empty() && a.stats.inconclusive == 0;
        let wall = t.elapsed().as_secs_f64();
        eprintln!(
            "{}{:?}: paths {} (done {}, assumed-away {}, expected-panic {}) pending {} decisions {} instrs {:.1}M; z3 queries {} (sat {} unsat {} unknown {}) {:.1}s max {:.2}s; fast unary {} range {} cache {}; asserts: solver {} path {}; conc {}; violations {}; errors {:?}; cov {:?}; {:.1}s {}",
            job.entry, job.args, a.stats.paths, a.stats.done, a.stats.assumed, a.stats.panics_ok, q.stack.len(), a.stats.decisions,
            a.stats.instrs as f64 / 1e6, a.queries, a.sat, a.unsat, a.unknown, a.smt_us as f64 / 1e6, a.max_us as f64 / 1e6,
            a.stats.fast_unary, a.stats.fast_range, a.stats.cache_hits, a.stats.asserts_solver, a.stats.asserts_path, a.stats.concretised,
            a.violations.len(), a.errors, a.covered, wall, if exhausted { "EXHAUSTED" } else { "INCOMPLETE" }
        );
        for (v, why) in a.violations.iter().take(5) {
            let bytes: Vec<u8> = v.input.iter().map(|(_, x)| *x as u8).collect();
            eprintln!("   VIOL {} id {} input {:?} {:?} {}", v.kind, v.id, String::from_utf8_lossy(&bytes), v.input.iter().map(|x| x.1).collect::<Vec<_>>(), why);
        }
        let mut r = String::new();
        let _ = write!(r, "{{\"entry\":{},\"args\":[{}],", jstr(&job.entry), job.args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        let _ = write!(
            r,
            "\"exhausted\":{},\"wall_s\":{:.3},\"pending\":{},\"paths\":{},\"done\":{},\"assumed\":{},\"expected_panics\":{},\"decisions\":{},\"max_depth\":{},\"instructions\":{},",
            exhausted, wall, q.stack.len(), a.stats.paths, a.stats.done, a.stats.assumed, a.stats.panics_ok, a.stats.decisions, a.max_dec, a.stats.instrs
        );
        let _ = write!(
            r,
            "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"unary_domain_decisions\":{},\"interval_decisions\":{},\"query_cache_hits\":{},\"asserts_solver\":{},\"asserts_on_path\":{},\"concretised\":{},\"selfchecks\":{},\"inconclusive\":{},",
            a.queries, a.sat, a.unsat, a.unknown, a.smt_us as f64 / 1e6, a.max_us as f64 / 1e6, a.stats.fast_unary, a.stats.fast_range, a.stats.cache_hits,
            a.stats.asserts_solver, a.stats.asserts_path, a.stats.concretised, a.stats.selfchecks, a.stats.inconclusive
        );
        let _ = write!(
            r,
            "\"covered\":[{}],\"errors\":[{}],",
            a.covered.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            a.errors.iter().map(|(k, n)| format!("[{},{}]", jstr(k), n)).collect::<Vec<_>>().join(",")
        );
        let vs: Vec<String> = a
            .violations
            .iter()
            .map(|(v, why)| format!("{{\"kind\":{},\"id\":{},\"why\":{},\"input\":{}}}", jstr(&v.kind), v.id, jstr(why), jinput(&v.input)))
            .collect();
        let ss: Vec<String> = a
            .samples
            .iter()
            .map(|(i, o, b)| {
                let hex: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                format!("{{\"input\":{},\"outcome\":{},\"out\":\"{}\"}}", jinput(i), jstr(o), hex)
            })
            .collect();
        let _ = write!(r, "\"violations\":[{}],\"samples\":[{}]", vs.join(","), ss.join(","));
        if allcover.len() < a.cover.len() {
            allcover.resize(a.cover.len(), 0);
        }
        for (i, x) in a.cover.iter().enumerate() {
            allcover[i] |= x;
        }
        let fns = cov::functions(&im.m, &a.cover);
        let _ = write!(r, ",\"functions\":[{}]", fns.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
        r.push('}');
        results.push(r);
    }
    if !out.is_empty() {
        std::fs::write(
            &out,
            format!("{{\"z3\":{},\"jobs\":[{}]}}\n", jstr(&smt::version()), results.join(",\n")),
        )
        .expect("write out");
    }
}

fn worker(im: &Image, job: &Job, sh: &Shared, agg: &Mutex<Agg>, deadline: Instant, timeout_ms: u32, nsamples: usize, max_instr: u64, max_viol: usize) {
    let mut ex = Exec::new(im, timeout_ms);
    ex.max_instrs = max_instr;
    ex.deadline = Some(deadline);
    let mut errors: BTreeMap<String, u64> = BTreeMap::new();
    let mut local: Vec<Work> = vec![];
    let mut samples = vec![];
    let mut nseen = 0u64;
    let mut max_dec = 0;
    let mut rng = 0x9E3779B97F4A7C15u64;
    let mut check = 0;
    loop {
        // get work
        let w = if let Some(w) = local.pop() {
            w
        } else {
            let mut q = sh.q.lock().unwrap();
            loop {
                if q.stop {
                    break;
                }
                if !q.stack.is_empty() || q.active == 0 {
                    break;
                }
                q = sh.cv.wait(q).unwrap();
            }
            if q.stop || q.stack.is_empty() {
                q.stop = true;
                sh.cv.notify_all();
                break;
            }
            q.active += 1;
            // take a share of the oldest (shallowest) work
            let k = (q.stack.len() / 16).clamp(1, 64);
            let k2 = k.min(q.stack.len());
            let rest = q.stack.split_off(k2);
            let mine = std::mem::replace(&mut q.stack, rest);
            local.extend(mine);
            local.pop().unwrap()
        };
        let d0 = ex.stats.decisions;
        let r = ex.run(&job.entry, &job.args, &w);
        max_dec = max_dec.max(ex.stats.decisions - d0);
        let mut outcome = "done";
        match r {
            Stop::Done => {
                if ex.panic_expected() {
                    outcome = "missing-panic";
                    ex.violations.push(Violation {
                        kind: "missing-panic".into(),
                        id: 0,
                        input: ex.full_input(),
                    });
                } else {
                    ex.stats.done += 1
                }
            }
            Stop::AssumeFalse => {
                ex.stats.assumed += 1;
                outcome = "assume";
            }
            Stop::AssertFail => {
                outcome = "fail";
            }
            Stop::Panic(p) => {
                if ex.panic_expected() {
                    ex.stats.panics_ok += 1;
                    outcome = "panic";
                } else {
                    outcome = "panic";
                    let v = Violation {
                        kind: "panic".into(),
                        id: 0,
                        input: ex.full_input(),
                    };
                    push_viol(agg, v, p, max_viol, sh);
                }
            }
            Stop::Ub(p) => {
                outcome = "ub";
                let v = Violation {
                    kind: "ub".into(),
                    id: 0,
                    input: ex.full_input(),
                };
                push_viol(agg, v, p, max_viol, sh);
            }
            Stop::Unsupported(s) => {
                outcome = "error";
                *errors.entry(format!("unsupported: {}", s)).or_insert(0) += 1;
            }
            Stop::Limit(s) => {
                outcome = "error";
                *errors.entry(format!("limit: {}", s)).or_insert(0) += 1;
                let v = Violation {
                    kind: "limit".into(),
                    id: 0,
                    input: ex.full_input(),
                };
                if s.starts_with("instruction limit") {
                    push_viol(agg, v, s, max_viol, sh);
                }
            }
        }
        for v in std::mem::take(&mut ex.violations) {
            push_viol(agg, v, String::new(), max_viol, sh);
        }
        if matches!(outcome, "done" | "assume" | "panic") {
            nseen += 1;
            let s = || (ex.full_input(), outcome.to_string(), ex.out.clone());
            let per = nsamples.div_ceil(8).max(1);
            if samples.len() < per {
                samples.push(s());
            } else {
                rng ^= rng << 13;
                rng ^= rng >> 7;
                rng ^= rng << 17;
                let k = (rng % nseen) as usize;
                if k < per {
                    samples[k] = s();
                }
            }
        }
        local.append(&mut ex.spawned);
        ex.maybe_gc();
        check += 1;
        // share / finish
        let need_lock = local.is_empty() || check % 8 == 0;
        if need_lock {
            let mut q = sh.q.lock().unwrap();
            if Instant::now() > deadline {
                q.stop = true;
            }
            if q.stop {
                q.stack.append(&mut local);
                sh.cv.notify_all();
                break;
            }
            if local.len() > 1 && q.stack.len() < 64 {
                let half = local.len() / 2;
                let rest = local.split_off(half);
                q.stack.append(&mut local);
                local = rest;
                sh.cv.notify_all();
            }
            if local.is_empty() {
                q.active -= 1;
                if q.active == 0 && q.stack.is_empty() {
                    q.stop = true;
                }
                sh.cv.notify_all();
            }
        }
    }
    let mut a = agg.lock().unwrap();
    let s = &ex.stats;
    let t = &mut a.stats;
    t.paths += s.paths;
    t.done += s.done;
    t.assumed += s.assumed;
    t.panics_ok += s.panics_ok;
    t.instrs += s.instrs;
    t.decisions += s.decisions;
    t.fast_unary += s.fast_unary;
    t.fast_range += s.fast_range;
    t.cache_hits += s.cache_hits;
    t.asserts_path += s.asserts_path;
    t.asserts_solver += s.asserts_solver;
    t.inconclusive += s.inconclusive;
    t.concretised += s.concretised;
    t.selfchecks += s.selfchecks;
    a.queries += ex.smt.queries;
    a.sat += ex.smt.sat;
    a.unsat += ex.smt.unsat;
    a.unknown += ex.smt.unknown;
    a.smt_us += ex.smt.time_us;
    a.max_us = a.max_us.max(ex.smt.max_us);
    a.seen += nseen;
    a.max_dec = a.max_dec.max(max_dec);
    for (k, n) in errors {
        *a.errors.entry(k).or_insert(0) += n;
    }
    for k in ex.incomplete.drain(..) {
        *a.errors.entry(format!("inconclusive: {}", k)).or_insert(0) += 1;
    }
    a.samples.extend(samples);
    a.covered.extend(ex.covered.iter());
    if a.cover.len() < ex.cover.len() {
        let n = ex.cover.len();
        a.cover.resize(n, 0);
    }
    for (i, x) in ex.cover.iter().enumerate() {
        a.cover[i] |= x;
    }
}

fn push_viol(agg: &Mutex<Agg>, v: Violation, why: String, max: usize, sh: &Shared) {
    let mut a = agg.lock().unwrap();
    let same = a.violations.iter().filter(|(x, w)| x.kind == v.kind && x.id == v.id && *w == why).count();
    if same >= 6 {
        // plenty of witnesses of this one; keep exploring for different ones
        if a.violations.len() >= max {
            drop(a);
            sh.q.lock().unwrap().stop = true;
        }
        return;
    }
    a.violations.push((v, why));
    if a.violations.len() >= max {
        drop(a);
        sh.q.lock().unwrap().stop = true;
        sh.cv.notify_all();
    }
}

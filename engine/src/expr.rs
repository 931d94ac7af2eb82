//! Hash-consed bit-vector expression DAG with local simplification.
use std::collections::HashMap;

pub type E = u32; // 0 = "no expression" (value is concrete)

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
    Table,
    // floating point over bit patterns
    FAdd,
    FSub,
    FMul,
    FDiv,
    FEq,
    FLt,
    FLe,
    FUno,
    FToUI,
    FToSI,
    UIToF,
    SIToF,
    FExt,
    FTrunc,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Clone, Copy)]
pub struct Meta {
    pub mask: u128, // support (variables; indices >=127 share bit 127)
    pub sh: u64,    // structural hash, independent of ids
    pub fp: bool,
    pub r: (u128, u128), // interval from the declared variable ranges
    pub ones: u128,      // bits that may be one
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tab {
    pub vals: Vec<u128>, // value for index i (index = idx expr value), beyond -> 0
    pub w: u16,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub meta: Vec<Meta>,
    map: HashMap<Node, E, BuildFx>,
    pub tabs: Vec<Tab>,
    tabmap: HashMap<Tab, u32>,
    /// per variable: width, lo, hi (base range)
    pub vars: Vec<VarInfo>,
    vkinds: Vec<(u128, u128)>,
    tabbed: HashMap<E, E, BuildFx>,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub w: u16,
    pub lo: u128,
    pub hi: u128,
}

#[derive(Default, Clone)]
pub struct FxH(u64);
pub type BuildFx = std::hash::BuildHasherDefault<FxH>;
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub fn eval_op(op: Op, w: u16, aw: u16, a: u128, b: u128, c: u128, k: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Const | Op::Var | Op::Table => unreachable!(),
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    u128::MAX
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sext(a, w);
            let s = if b >= w as u128 { w as u128 - 1 } else { b };
            (x >> s) as u128
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
        Op::Sle => (sext(a, aw) <= sext(b, aw)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::Concat => unreachable!(), // handled with width of b
        Op::Extract => a >> k,
        Op::ZExt => a,
        Op::SExt => sext(a, aw) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
            if w == 32 {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                canon32(match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    _ => x / y,
                }) as u128
            } else {
                let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                canon64(match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    _ => x / y,
                }) as u128
            }
        }
        Op::FEq | Op::FLt | Op::FLe | Op::FUno => {
            let (x, y) = if aw == 32 {
                (
                    f32::from_bits(a as u32) as f64,
                    f32::from_bits(b as u32) as f64,
                )
            } else {
                (f64::from_bits(a as u64), f64::from_bits(b as u64))
            };
            (match op {
                Op::FEq => x == y,
                Op::FLt => x < y,
                Op::FLe => x <= y,
                _ => x.is_nan() || y.is_nan(),
            }) as u128
        }
        Op::FToUI => {
            let x = if aw == 32 {
                f32::from_bits(a as u32) as f64
            } else {
                f64::from_bits(a as u64)
            };
            // saturating semantics are built by the caller; plain truncation here
            if w <= 64 {
                (x as u64) as u128
            } else {
                x as u128
            }
        }
        Op::FToSI => {
            let x = if aw == 32 {
                f32::from_bits(a as u32) as f64
            } else {
                f64::from_bits(a as u64)
            };
            if w <= 64 {
                (x as i64) as u128
            } else {
                (x as i128) as u128
            }
        }
        Op::UIToF => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        Op::SIToF => {
            let x = sext(a, aw);
            if w == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        Op::FExt => canon64(f32::from_bits(a as u32) as f64) as u128,
        Op::FTrunc => canon32(f64::from_bits(a as u64) as f32) as u128,
    };
    r & m
}
fn canon32(x: f32) -> u32 {
    if x.is_nan() {
        0x7fc00000
    } else {
        x.to_bits()
    }
}
fn canon64(x: f64) -> u64 {
    if x.is_nan() {
        0x7ff8000000000000
    } else {
        x.to_bits()
    }
}

fn commutative(op: Op) -> bool {
    matches!(
        op,
        Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::FAdd | Op::FMul | Op::FEq | Op::FUno
    )
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            meta: vec![],
            map: HashMap::default(),
            tabs: vec![],
            tabmap: HashMap::new(),
            vars: vec![],
            vkinds: vec![],
            tabbed: HashMap::default(),
        };
        // id 0 reserved
        a.nodes.push(Node {
            op: Op::Const,
            w: 0,
            a: 0,
            b: 0,
            c: 0,
            k: 0,
        });
        a.meta.push(Meta {
            mask: 0,
            sh: 0,
            fp: false,
            r: (0, 0),
            ones: 0,
        });
        a
    }
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    pub fn show(&self, e: E, d: usize) -> String {
        let n = self.n(e);
        if let Some(k) = self.is_const(e) {
            return format!("{:#x}", k);
        }
        if d == 0 {
            return "..".into();
        }
        let mut s = format!("({:?}.{}", n.op, n.w);
        if n.k != 0 || n.op == Op::Var {
            s += &format!("[{}]", n.k);
        }
        for x in [n.a, n.b, n.c] {
            if x != 0 {
                s += " ";
                s += &self.show(x, d - 1);
            }
        }
        s + ")"
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn mask(&self, e: E) -> u128 {
        self.meta[e as usize].mask
    }
    pub fn sh(&self, e: E) -> u64 {
        self.meta[e as usize].sh
    }

    fn intern(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let ma = &self.meta[n.a as usize];
        let mb = &self.meta[n.b as usize];
        let mc = &self.meta[n.c as usize];
        let mut m = ma.mask | mb.mask | mc.mask;
        if n.op == Op::Var {
            m |= 1u128 << ((n.k & 0xffff_ffff).min(127));
        }
        let mut fp = ma.fp || mb.fp || mc.fp;
        if n.op >= Op::FAdd {
            fp = true;
        }
        let mut h = FxH(0x1234);
        use std::hash::Hasher;
        h.write_u64(n.op as u64);
        h.write_u64(n.w as u64);
        h.write_u64(ma.sh);
        h.write_u64(mb.sh);
        h.write_u64(mc.sh);
        if n.op == Op::Table {
            let t = &self.tabs[n.k as usize];
            for v in &t.vals {
                h.write_u128(*v)
            }
        } else if n.op == Op::Var {
            let (lo, hi) = self.vkinds[(n.k >> 32) as usize];
            h.write_u128(n.k & 0xffff_ffff);
            h.write_u128(lo);
            h.write_u128(hi);
        } else {
            h.write_u128(n.k);
        }
        let sh = h.finish();
        let sh = sh ^ (sh >> 29);
        let r = match n.op {
            Op::Const => (n.k, n.k),
            Op::Var => self.vkinds[(n.k >> 32) as usize],
            _ => self.range_node(&n, &mut |x| self.meta[x as usize].r),
        };
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        let ones = self.ones_of(&n) & (if r.1 == 0 { 0 } else { u128::MAX >> r.1.leading_zeros() });
        self.meta.push(Meta { mask: m, sh, fp, r, ones });
        self.map.insert(n, id);
        id
    }
    fn ones_of(&self, n: &Node) -> u128 {
        let o = |e: E| self.meta[e as usize].ones;
        let m = mask(n.w);
        match n.op {
            Op::Const => n.k,
            Op::And => o(n.a) & o(n.b),
            Op::Or | Op::Xor => o(n.a) | o(n.b),
            Op::Ite => o(n.b) | o(n.c),
            Op::ZExt => o(n.a),
            Op::Concat => (o(n.a) << self.w(n.b)) | o(n.b),
            Op::Extract => (o(n.a) >> n.k) & m,
            Op::Add => {
                // low zeros survive
                let t = o(n.a) | o(n.b);
                if t == 0 {
                    0
                } else {
                    m & !((1u128 << t.trailing_zeros().min(127)) - 1)
                }
            }
            Op::Table => self.tabs[n.k as usize].vals.iter().fold(0, |s, v| s | v),
            _ => m,
        }
    }
    /// The variable node, if `a` depends on exactly one variable and that has at most 8 bits.
    fn small_var(&self, a: E) -> Option<E> {
        let m = self.mask(a);
        if m.count_ones() != 1 || m >> 127 != 0 || self.meta[a as usize].fp {
            return None;
        }
        let mut e = a;
        loop {
            let n = self.n(e);
            if n.op == Op::Var {
                return if n.w <= 8 && n.w > 1 { Some(e) } else { None };
            }
            e = if self.mask(n.a) != 0 {
                n.a
            } else if self.mask(n.b) != 0 {
                n.b
            } else {
                n.c
            };
        }
    }
    /// Tabulate an expression over its only variable.
    fn tabulate(&mut self, v: E, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            let e = *e;
            if let Some(t) = self.tabbed.get(&e) {
                return *t;
            }
        }
        let raw = self.intern(n);
        let hi = self.srange(v).1;
        let mut vals = vec![];
        for i in 0..=hi {
            let mut memo = HashMap::default();
            vals.push(self.eval(raw, &|_| i, &mut memo));
        }
        let lo = self.srange(v).0 as usize;
        for i in 0..lo {
            vals[i] = vals[lo];
        }
        let t = self.table(vals, n.w, v);
        self.tabbed.insert(raw, t);
        t
    }
    /// Entries of a table that is complete for its index.
    fn entries(&self, a: E) -> Option<(E, Vec<u128>)> {
        let n = self.n(a);
        if n.op != Op::Table {
            return None;
        }
        let t = &self.tabs[n.k as usize].vals;
        let r = self.srange(n.a).1;
        if r >= t.len() as u128 {
            return None;
        }
        Some((n.a, t[..=r as usize].to_vec()))
    }
    /// Entries over `idx`, also for constants and the index itself.
    fn entries_over(&self, idx: E, a: E) -> Option<Vec<u128>> {
        let hi = self.srange(idx).1 as usize;
        if let Some(k) = self.is_const(a) {
            return Some(vec![k; hi + 1]);
        }
        if a == idx {
            return Some((0..=hi as u128).collect());
        }
        let n = self.n(a);
        if n.op == Op::ZExt && n.a == idx {
            return Some((0..=hi as u128).collect());
        }
        match self.entries(a) {
            Some((i, v)) if i == idx => Some(v),
            _ => None,
        }
    }
    pub fn constant(&mut self, w: u16, k: u128) -> E {
        self.intern(Node {
            op: Op::Const,
            w,
            a: 0,
            b: 0,
            c: 0,
            k: k & mask(w),
        })
    }
    pub fn var(&mut self, idx: usize, w: u16, lo: u128, hi: u128) -> E {
        while self.vars.len() <= idx {
            self.vars.push(VarInfo {
                w: 8,
                lo: 0,
                hi: 255,
            });
        }
        self.vars[idx] = VarInfo { w, lo, hi };
        // the same input position may have different ranges on different paths: the range is part of the identity
        let kind = match self.vkinds.iter().position(|x| *x == (lo, hi)) {
            Some(i) => i,
            None => {
                self.vkinds.push((lo, hi));
                self.vkinds.len() - 1
            }
        };
        self.intern(Node {
            op: Op::Var,
            w,
            a: 0,
            b: 0,
            c: 0,
            k: idx as u128 | (kind as u128) << 32,
        })
    }
    /// The same variable with a narrower range (the declared one is left alone).
    fn narrowed_var(&mut self, n: Node, lo: u128, hi: u128) -> E {
        let kind = match self.vkinds.iter().position(|x| *x == (lo, hi)) {
            Some(i) => i,
            None => {
                self.vkinds.push((lo, hi));
                self.vkinds.len() - 1
            }
        };
        self.intern(Node { k: (n.k & 0xffff_ffff) | (kind as u128) << 32, ..n })
    }
    /// Rebuild `e` with the variables restricted to the given bounds.
    pub fn narrow(&mut self, e: E, b: &[(u128, u128)], memo: &mut HashMap<E, E, BuildFx>) -> E {
        let n = self.n(e);
        if n.op == Op::Const {
            return e;
        }
        if let Some(x) = memo.get(&e) {
            return *x;
        }
        let r = if n.op == Op::Var {
            let (lo, hi) = b[(n.k & 0xffff_ffff) as usize];
            if lo == hi {
                self.constant(n.w, lo)
            } else {
                self.narrowed_var(n, lo, hi)
            }
        } else if n.op >= Op::FAdd {
            e
        } else {
            let x = self.narrow(n.a, b, memo);
            match n.op {
                Op::Extract => self.extract(x, n.k as u16, n.w),
                Op::ZExt => self.zext(x, n.w),
                Op::SExt => self.sext(x, n.w),
                Op::Table => {
                    let (lo, hi) = self.srange(x);
                    let mut vals = self.tabs[n.k as usize].vals.clone();
                    if hi < vals.len() as u128 {
                        // entries outside the range do not matter
                        vals.truncate(hi as usize + 1);
                        for i in 0..lo as usize {
                            vals[i] = vals[lo as usize];
                        }
                    }
                    self.table(vals, n.w, x)
                }
                Op::Concat => {
                    let y = self.narrow(n.b, b, memo);
                    self.concat(x, y)
                }
                Op::Ite => {
                    if let Some(k) = self.is_const(x) {
                        let y = if k == 1 { n.b } else { n.c };
                        self.narrow(y, b, memo)
                    } else {
                        let y = self.narrow(n.b, b, memo);
                        let z = self.narrow(n.c, b, memo);
                        self.ite(x, y, z)
                    }
                }
                op => {
                    let y = self.narrow(n.b, b, memo);
                    self.bin(op, x, y)
                }
            }
        };
        memo.insert(e, r);
        r
    }
    pub fn bool_(&mut self, b: bool) -> E {
        self.constant(1, b as u128)
    }
    pub fn not(&mut self, e: E) -> E {
        let n = self.n(e);
        debug_assert!(n.w == 1);
        match n.op {
            Op::Const => self.constant(1, 1 - n.k),
            Op::Ult => self.bin(Op::Ule, n.b, n.a),
            Op::Ule => self.bin(Op::Ult, n.b, n.a),
            Op::Slt => self.bin(Op::Sle, n.b, n.a),
            Op::Sle => self.bin(Op::Slt, n.b, n.a),
            Op::Xor if self.is_const(n.b) == Some(1) => n.a,
            _ => {
                let one = self.constant(1, 1);
                self.raw(Op::Xor, 1, e, one, 0, 0)
            }
        }
    }
    fn raw(&mut self, op: Op, w: u16, a: E, b: E, c: E, k: u128) -> E {
        let e = self.intern(Node { op, w, a, b, c, k });
        let r = self.meta[e as usize].r;
        if r.0 == r.1 && op != Op::Const && op < Op::FAdd {
            return self.constant(w, r.0);
        }
        if self.meta[e as usize].ones == 0 && op != Op::Const && op < Op::FAdd {
            return self.constant(w, 0);
        }
        e
    }
    fn signed(&self, r: (u128, u128), w: u16) -> Option<(i128, i128)> {
        let half = 1u128 << (w - 1);
        if r.1 < half || r.0 >= half {
            Some((sext(r.0, w), sext(r.1, w)))
        } else {
            None
        }
    }
    /// `e` as an integer linear form over other nodes (no wrap-around anywhere): adds `k * e` to the form.
    fn linear(&self, e: E, k: i128, t: &mut Vec<(E, i128)>, c: &mut i128) -> bool {
        if t.len() > 16 {
            return false;
        }
        let n = self.n(e);
        let w = n.w;
        if w > 64 {
            return false;
        }
        match n.op {
            Op::Const => {
                *c += k * n.k as i128;
                return true;
            }
            Op::ZExt => return self.linear(n.a, k, t, c),
            Op::Add => {
                let (x, y) = (self.srange(n.a), self.srange(n.b));
                let m = mask(w);
                if x.1 + y.1 <= m {
                    return self.linear(n.a, k, t, c) && self.linear(n.b, k, t, c);
                }
                if x.0 + y.0 > m {
                    *c -= k * (m as i128 + 1);
                    return self.linear(n.a, k, t, c) && self.linear(n.b, k, t, c);
                }
            }
            Op::Mul => {
                if let Some(f) = self.is_const(n.b) {
                    if self.srange(n.a).1.checked_mul(f).map_or(false, |p| p <= mask(w)) && f < 1 << 40 && k.abs() < 1 << 20 {
                        return self.linear(n.a, k * f as i128, t, c);
                    }
                }
            }
            Op::Concat => {
                // shifted left
                if self.is_const(n.b) == Some(0) && self.w(n.b) < 40 && k.abs() < 1 << 20 {
                    return self.linear(n.a, k << self.w(n.b), t, c);
                }
            }
            _ => {}
        }
        match t.iter_mut().find(|x| x.0 == e) {
            Some(x) => x.1 += k,
            None => t.push((e, k)),
        }
        true
    }
    /// Cancel what both sides of a comparison have in common.
    fn cancel(&mut self, a: E, b: E) -> Option<(E, E)> {
        let lin = |n: Op| matches!(n, Op::Add | Op::Mul | Op::ZExt | Op::Concat);
        let (oa, ob) = (self.n(a).op, self.n(b).op);
        if !(lin(oa) && (lin(ob) || ob == Op::Var || ob == Op::Const) || lin(ob) && (oa == Op::Var || oa == Op::Const)) {
            return None;
        }
        if oa != Op::Add && ob != Op::Add && oa != Op::Mul && ob != Op::Mul {
            return None;
        }
        let w = self.w(a);
        let (mut t, mut c) = (vec![], 0);
        if !self.linear(a, 1, &mut t, &mut c) {
            return None;
        }
        let n1 = t.len();
        let mut u = vec![];
        if !self.linear(b, 1, &mut u, &mut 0) {
            return None;
        }
        let n2 = u.len();
        if !self.linear(b, -1, &mut t, &mut c) {
            return None;
        }
        t.retain(|x| x.1 != 0);
        if t.len() == n1 + n2 {
            return None;
        }
        let (mut l, mut r) = (0u128, 0u128);
        for (e, k) in &t {
            let p = self.srange(*e).1.checked_mul(k.unsigned_abs())?;
            if *k > 0 {
                l += p;
            } else {
                r += p;
            }
        }
        if c > 0 {
            l += c as u128;
        } else {
            r += c.unsigned_abs();
        }
        if l > mask(w) >> 1 || r > mask(w) >> 1 {
            return None;
        }
        let mut x = self.constant(w, if c > 0 { c as u128 } else { 0 });
        let mut y = self.constant(w, if c > 0 { 0 } else { c.unsigned_abs() });
        for (e, k) in t {
            if self.w(e) > w {
                return None;
            }
            let z = self.zext(e, w);
            let f = self.constant(w, k.unsigned_abs());
            let z = self.bin(Op::Mul, z, f);
            if k > 0 {
                x = self.bin(Op::Add, x, z);
            } else {
                y = self.bin(Op::Add, y, z);
            }
        }
        Some((x, y))
    }
    pub fn is_not(&self, e: E) -> Option<E> {
        let n = self.n(e);
        if n.w == 1 && n.op == Op::Xor && self.is_const(n.b) == Some(1) {
            Some(n.a)
        } else {
            None
        }
    }
    fn ite_consts(&self, e: E) -> Option<(E, u128, u128)> {
        let n = self.n(e);
        if n.op == Op::Ite {
            if let (Some(x), Some(y)) = (self.is_const(n.b), self.is_const(n.c)) {
                return Some((n.a, x, y));
            }
        }
        None
    }

    /// a == k * mul + rest without wrap-around, if some part of the sum `a` is a multiple of k.
    fn split_multiple(&mut self, a: E, k: u128) -> Option<(E, E)> {
        let w = self.w(a);
        let m = mask(w);
        let mut terms = vec![];
        let mut todo = vec![a];
        while let Some(e) = todo.pop() {
            let n = self.n(e);
            if n.op == Op::Add {
                todo.push(n.a);
                todo.push(n.b);
            } else {
                terms.push(e);
            }
        }
        let mut sum = 0u128;
        for t in &terms {
            sum = sum.checked_add(self.srange(*t).1)?;
        }
        if sum > m {
            return None;
        }
        let (mut mul, mut rest) = (vec![], vec![]);
        for t in terms {
            let n = self.n(t);
            if let Some(c) = self.is_const(t) {
                if c >= k {
                    let q = self.constant(w, c / k);
                    mul.push(q);
                    let r = self.constant(w, c % k);
                    rest.push(r);
                    continue;
                }
            } else if n.op == Op::Mul {
                if let Some(c) = self.is_const(n.b) {
                    let x = self.srange(n.a).1;
                    if c % k == 0 && x.checked_mul(c).map_or(false, |p| p <= m) {
                        let q = self.constant(w, c / k);
                        let e = self.bin(Op::Mul, n.a, q);
                        mul.push(e);
                        continue;
                    }
                }
            }
            rest.push(t);
        }
        if mul.is_empty() {
            return None;
        }
        let mut s = |v: Vec<E>, me: &mut Self| {
            let mut acc = me.constant(w, 0);
            for e in v {
                acc = me.bin(Op::Add, acc, e);
            }
            acc
        };
        let a = s(mul, self);
        let b = s(rest, self);
        Some((a, b))
    }
    /// The quotient by `k` if it is the same over the whole interval.
    fn same_quotient(&self, op: Op, r: (u128, u128), k: u128, w: u16) -> Option<u128> {
        if op == Op::SDiv || op == Op::SRem {
            let (l, h) = self.signed(r, w)?;
            let (a, b) = (l / k as i128, h / k as i128);
            (a == b).then(|| a as u128 & mask(w))
        } else {
            (r.0 / k == r.1 / k).then(|| r.0 / k)
        }
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FUno => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.constant(rw, eval_op(op, rw, w, x, y, 0, 0));
        }
        if commutative(op) {
            // constants to the right; otherwise order by structural hash
            let ca = self.is_const(a).is_some();
            let cb = self.is_const(b).is_some();
            if ca || (!cb && self.sh(a) > self.sh(b)) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        // ite-of-constants with constant
        if op < Op::FAdd {
            if let (Some((c, x, y)), Some(k)) = (self.ite_consts(a), self.is_const(b)) {
                let p = eval_op(op, rw, w, x, k, 0, 0);
                let q = eval_op(op, rw, w, y, k, 0, 0);
                let p = self.constant(rw, p);
                let q = self.constant(rw, q);
                return self.ite(c, p, q);
            }
            if let (Some(k), Some((c, x, y))) = (self.is_const(a), self.ite_consts(b)) {
                let p = eval_op(op, rw, w, k, x, 0, 0);
                let q = eval_op(op, rw, w, k, y, 0, 0);
                let p = self.constant(rw, p);
                let q = self.constant(rw, q);
                return self.ite(c, p, q);
            }
        }
        // tables over one small variable
        if op < Op::FAdd && (self.n(a).op == Op::Table || self.n(b).op == Op::Table) {
            let idx = if self.n(a).op == Op::Table { self.n(a).a } else { self.n(b).a };
            if self.srange(idx).1 < 256 {
                if let (Some(x), Some(y)) = (self.entries_over(idx, a), self.entries_over(idx, b)) {
                    let vals = x.iter().zip(&y).map(|(x, y)| eval_op(op, rw, w, *x, *y, 0, 0)).collect();
                    return self.table(vals, rw, idx);
                }
            }
        }
        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && self.mask(a) | self.mask(b) != 0 && (self.mask(a) | self.mask(b)).count_ones() == 1 {
            let v = if self.mask(a) != 0 { a } else { b };
            if let Some(v) = self.small_var(v) {
                return self.tabulate(v, Node { op, w: rw, a, b, c: 0, k: 0 });
            }
        }
        // static intervals
        if op < Op::FAdd && w > 1 {
            let (ra, rb) = (self.srange(a), self.srange(b));
            let half = 1u128 << (w - 1);
            let nonneg = ra.1 < half && rb.1 < half;
            match op {
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let t = Node { op, w: 1, a, b, c: 0, k: 0 };
                    let r = self.range_node(&t, &mut |x| self.meta[x as usize].r);
                    if r.0 == r.1 {
                        return self.constant(1, r.0);
                    }
                    if nonneg || op == Op::Eq || op == Op::Ult || op == Op::Ule {
                        if let Some((x, y)) = self.cancel(a, b) {
                            return self.bin(op, x, y);
                        }
                    }
                    if nonneg && op == Op::Slt {
                        return self.bin(Op::Ult, a, b);
                    }
                    if nonneg && op == Op::Sle {
                        return self.bin(Op::Ule, a, b);
                    }
                }
                Op::SDiv | Op::SRem | Op::UDiv | Op::URem if rb.0 == rb.1 && rb.0 > 1 && rb.0 < half && self.same_quotient(op, ra, rb.0, w).is_some() => {
                    let q = self.same_quotient(op, ra, rb.0, w).unwrap();
                    if op == Op::SDiv || op == Op::UDiv {
                        return self.constant(w, q);
                    }
                    let k = self.constant(w, q.wrapping_mul(rb.0));
                    return self.bin(Op::Sub, a, k);
                }
                Op::SDiv if nonneg => return self.bin(Op::UDiv, a, b),
                Op::SRem if nonneg => return self.bin(Op::URem, a, b),
                Op::AShr if ra.1 < half => return self.bin(Op::LShr, a, b),
                Op::UDiv | Op::URem => {
                    if let Some(k) = self.is_const(b).filter(|k| *k > 1) {
                        if ra.1 < k {
                            return if op == Op::UDiv { self.constant(w, 0) } else { a };
                        }
                        if let Some((mul, rest)) = self.split_multiple(a, k) {
                            if op == Op::URem {
                                return self.bin(Op::URem, rest, b);
                            }
                            let q = self.bin(Op::UDiv, rest, b);
                            return self.bin(Op::Add, mul, q);
                        }
                    }
                }
                _ => {}
            }
        }
        let na = self.n(a);
        let nb = self.n(b);
        let kb = self.is_const(b);
        let ka = self.is_const(a);
        let m = mask(w);
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.is_const(na.b) {
                            let c = self.constant(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, c);
                        }
                    }
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                // no common bits: no carries
                if self.meta[a as usize].ones & self.meta[b as usize].ones == 0 {
                    return self.bin(Op::Or, a, b);
                }
                if let Some(k) = kb {
                    if na.op == Op::Concat {
                        let lw = self.w(na.b);
                        if k & mask(lw) == 0 {
                            let c = self.constant(w - lw, k >> lw);
                            let h = self.bin(Op::Add, na.a, c);
                            return self.concat(h, na.b);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.constant(w, 0);
                }
                if let Some(k) = kb {
                    let c = self.constant(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, c);
                }
                // (x + k) - x
                if na.op == Op::Add && na.a == b {
                    return na.b;
                }
                if na.op == Op::Add && na.b == b {
                    return na.a;
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.constant(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
                if w == 1 {
                    return self.bin(Op::And, a, b);
                }
            }
            Op::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.constant(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k <= mask(iw) {
                            let kk = self.constant(iw, k);
                            let r = self.bin(Op::UDiv, na.a, kk);
                            return self.zext(r, w);
                        } else {
                            return self.constant(w, 0);
                        }
                    }
                }
            }
            Op::URem => {
                if kb == Some(1) {
                    return self.constant(w, 0);
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.constant(w, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k <= mask(iw) {
                            let kk = self.constant(iw, k);
                            let r = self.bin(Op::URem, na.a, kk);
                            return self.zext(r, w);
                        } else {
                            return a;
                        }
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(m) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::And {
                        if let Some(k2) = self.is_const(na.b) {
                            let c = self.constant(w, k & k2);
                            return self.bin(Op::And, na.a, c);
                        }
                    }
                    if (k + 1).is_power_of_two() {
                        let n = k.count_ones() as u16;
                        let x = self.extract(a, 0, n);
                        return self.zext(x, w);
                    }
                    // contiguous mask not at bit 0
                    let lo = k.trailing_zeros() as u16;
                    if ((k >> lo) + 1).is_power_of_two() {
                        let n = k.count_ones() as u16;
                        let x = self.extract(a, lo, n);
                        let z = self.constant(lo, 0);
                        let x = self.concat(x, z);
                        return self.zext(x, w);
                    }
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.constant(1, 0);
                    }
                    // absorption: a & (a & x)
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return a;
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    let x = self.bin(Op::And, na.a, nb.a);
                    return self.zext(x, w);
                }
            }
            Op::Or => {
                if a == b || kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.constant(1, 1);
                    }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return a;
                    }
                } else {
                    // disjoint halves: or(zext x, concat(y, 0))
                    if let Some(r) = self.or_disjoint(a, b) {
                        return r;
                    }
                    if let Some(r) = self.or_disjoint(b, a) {
                        return r;
                    }
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        let x = self.bin(Op::Or, na.a, nb.a);
                        return self.zext(x, w);
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.constant(w, 0);
                }
                if kb == Some(0) {
                    return a;
                }
                if w == 1 && kb == Some(1) {
                    return self.not(a);
                }
                if let Some(k) = kb {
                    if na.op == Op::Xor {
                        if let Some(k2) = self.is_const(na.b) {
                            let c = self.constant(w, k ^ k2);
                            return self.bin(Op::Xor, na.a, c);
                        }
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    let x = self.bin(Op::Xor, na.a, nb.a);
                    return self.zext(x, w);
                }
            }
            Op::Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.constant(w, 0);
                    }
                    let x = self.extract(a, 0, w - k as u16);
                    let z = self.constant(k as u16, 0);
                    return self.concat(x, z);
                }
                if ka == Some(0) {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.constant(w, 0);
                    }
                    let x = self.extract(a, k as u16, w - k as u16);
                    return self.zext(x, w);
                }
                if ka == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1) as u16;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.constant(1, 1);
                }
                if w == 1 {
                    if let Some(k) = kb {
                        return if k == 1 { a } else { self.not(a) };
                    }
                }
                if let Some(k) = kb {
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return self.constant(1, 0);
                            }
                            let c = self.constant(iw, k);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            if (sext(k & mask(iw), iw) as u128) & m != k {
                                return self.constant(1, 0);
                            }
                            let c = self.constant(iw, k);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hi = self.constant(w - lw, k >> lw);
                            let lo = self.constant(lw, k);
                            let x = self.bin(Op::Eq, na.a, hi);
                            let y = self.bin(Op::Eq, na.b, lo);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Add => {
                            if let Some(k2) = self.is_const(na.b) {
                                let c = self.constant(w, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, na.a, c);
                            }
                        }
                        Op::Sub => {
                            if k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.is_const(na.b) {
                                let c = self.constant(w, k ^ k2);
                                return self.bin(Op::Eq, na.a, c);
                            }
                            if k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Or if k == 0 => {
                            let z = self.constant(w, 0);
                            let x = self.bin(Op::Eq, na.a, z);
                            let y = self.bin(Op::Eq, na.b, z);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            // arms const-decidable
                            let x = self.is_const(na.b);
                            let y = self.is_const(na.c);
                            if x.is_some() || y.is_some() {
                                let p = self.bin(Op::Eq, na.b, b);
                                let q = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, p, q);
                            }
                        }
                        _ => {}
                    }
                } else {
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.bin(Op::Eq, na.a, nb.a);
                        let y = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, x, y);
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.constant(1, 0);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return self.constant(1, 0);
                    }
                    if k == 1 {
                        let z = self.constant(w, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k > mask(iw) {
                            return self.constant(1, 1);
                        }
                        let c = self.constant(iw, k);
                        return self.bin(Op::Ult, na.a, c);
                    }
                }
                if let Some(k) = ka {
                    if k == m {
                        return self.constant(1, 0);
                    }
                    if k == 0 {
                        let e = self.bin(Op::Eq, b, a);
                        return self.not(e);
                    }
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        if k >= mask(iw) {
                            return self.constant(1, 0);
                        }
                        let c = self.constant(iw, k);
                        return self.bin(Op::Ult, c, nb.a);
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ult, na.a, nb.a);
                }
            }
            Op::Ule => {
                if a == b {
                    return self.constant(1, 1);
                }
                if let Some(k) = kb {
                    if k == m {
                        return self.constant(1, 1);
                    }
                    let c = self.constant(w, k + 1);
                    return self.bin(Op::Ult, a, c);
                }
                if let Some(k) = ka {
                    if k == 0 {
                        return self.constant(1, 1);
                    }
                    let c = self.constant(w, k - 1);
                    return self.bin(Op::Ult, c, b);
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ule, na.a, nb.a);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.constant(1, (op == Op::Sle) as u128);
                }
                let top = |s: &Self, e: E| -> bool {
                    // known non-negative
                    let n = s.n(e);
                    match n.op {
                        Op::ZExt => true,
                        Op::Const => n.k >> (n.w - 1) == 0,
                        _ => false,
                    }
                };
                if top(self, a) && top(self, b) {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                // zext x < negative const etc.
                if let Some(k) = kb {
                    if na.op == Op::ZExt && sext(k, w) < 0 {
                        return self.constant(1, 0);
                    }
                    if op == Op::Slt && k == 0 {
                        return self.extract(a, w - 1, 1);
                    }
                    if op == Op::Sle && k == m {
                        return self.extract(a, w - 1, 1);
                    }
                    if na.op == Op::SExt {
                        let iw = self.w(na.a);
                        if (sext(k & mask(iw), iw) as u128) & m == k {
                            let c = self.constant(iw, k);
                            return self.bin(op, na.a, c);
                        }
                    }
                }
                if let Some(k) = ka {
                    if nb.op == Op::ZExt && sext(k, w) < 0 {
                        return self.constant(1, 1);
                    }
                    if (op == Op::Slt && k == m) || (op == Op::Sle && k == 0) {
                        let t = self.extract(b, w - 1, 1);
                        return self.not(t);
                    }
                }
            }
            _ => {}
        }
        self.raw(op, rw, a, b, 0, 0)
    }

    // or(zext x : w, concat(y, 0_k)) with w(x) <= k  => concat
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let na = self.n(a);
        let w = na.w;
        let (mut b2, mut bw) = (b, w);
        let nb0 = self.n(b);
        if nb0.op == Op::ZExt {
            b2 = nb0.a;
            bw = self.w(nb0.a);
        }
        let nb = self.n(b2);
        if nb.op == Op::Concat && self.is_const(nb.b) == Some(0) {
            let k = self.w(nb.b);
            if na.op == Op::ZExt && self.w(na.a) <= k {
                let lo = self.zext(na.a, k);
                let r = self.concat(nb.a, lo);
                let _ = bw;
                return Some(self.zext(r, w));
            }
        }
        None
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.is_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(nc) = self.is_not(c) {
            return self.ite(nc, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // merge equal arms: ite(c, x, ite(d, x, y)) => ite(c|d, x, y)
        if nb.op == Op::Ite && nb.b == a {
            let o = self.bin(Op::Or, c, nb.a);
            return self.ite(o, a, nb.c);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.ite(c, na.a, nb.a);
            return self.zext(x, w);
        }
        if na.op == Op::Table || nb.op == Op::Table {
            let idx = if na.op == Op::Table { na.a } else { nb.a };
            if self.srange(idx).1 < 256 {
                if let (Some(x), Some(y)) = (self.entries_over(idx, a), self.entries_over(idx, b)) {
                    let nc = self.n(c);
                    let z = if nc.op == Op::Table {
                        self.entries_over(idx, c)
                    } else if self.mask(c) == self.mask(idx) && self.n(idx).op == Op::Var && self.mask(c).count_ones() == 1 && self.mask(c) >> 127 == 0 {
                        let hi = self.srange(idx).1;
                        let mut v = vec![];
                        for i in 0..=hi {
                            let mut memo = HashMap::default();
                            v.push(self.eval(c, &|_| i, &mut memo));
                        }
                        Some(v)
                    } else {
                        None
                    };
                    if let Some(z) = z {
                        let vals = (0..z.len()).map(|i| if z[i] != 0 { x[i] } else { y[i] }).collect();
                        return self.table(vals, w, idx);
                    }
                }
            }
        }
        self.raw(Op::Ite, w, c, a, b, 0)
    }

    pub fn extract(&mut self, a: E, lo: u16, n: u16) -> E {
        let na = self.n(a);
        if lo == 0 && n == na.w {
            return a;
        }
        debug_assert!(lo + n <= na.w && n > 0);
        if (self.meta[a as usize].ones >> lo) & mask(n) == 0 {
            return self.constant(n, 0);
        }
        match na.op {
            Op::Const => return self.constant(n, na.k >> lo),
            Op::Extract => return self.extract(na.a, na.k as u16 + lo, n),
            Op::ZExt => {
                let iw = self.w(na.a);
                if lo >= iw {
                    return self.constant(n, 0);
                }
                if lo + n <= iw {
                    return self.extract(na.a, lo, n);
                }
                let x = self.extract(na.a, lo, iw - lo);
                return self.zext(x, n);
            }
            Op::SExt => {
                let iw = self.w(na.a);
                if lo + n <= iw {
                    return self.extract(na.a, lo, n);
                }
                if lo < iw {
                    let x = self.extract(na.a, lo, iw - lo);
                    return self.sext(x, n);
                }
                let x = self.extract(na.a, iw - 1, 1);
                return self.sext(x, n);
            }
            Op::Concat => {
                let lw = self.w(na.b);
                if lo + n <= lw {
                    return self.extract(na.b, lo, n);
                }
                if lo >= lw {
                    return self.extract(na.a, lo - lw, n);
                }
                let hi = self.extract(na.a, 0, lo + n - lw);
                let l = self.extract(na.b, lo, lw - lo);
                return self.concat(hi, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(na.a, lo, n);
                let y = self.extract(na.b, lo, n);
                return self.bin(na.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(na.a, lo, n);
                let y = self.extract(na.b, lo, n);
                return self.bin(na.op, x, y);
            }
            Op::Ite => {
                let simple = |s: &Self, e: E| matches!(s.n(e).op, Op::Const | Op::Concat | Op::ZExt | Op::Table);
                if self.is_const(na.b).is_some() || self.is_const(na.c).is_some() || (simple(self, na.b) && simple(self, na.c)) {
                    let x = self.extract(na.b, lo, n);
                    let y = self.extract(na.c, lo, n);
                    return self.ite(na.a, x, y);
                }
            }
            Op::Table => {
                let t = &self.tabs[na.k as usize];
                let vals: Vec<u128> = t.vals.iter().map(|v| (v >> lo) & mask(n)).collect();
                let idx = na.a;
                return self.table(vals, n, idx);
            }
            _ => {}
        }
        self.raw(Op::Extract, n, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let nh = self.n(hi);
        let nl = self.n(lo);
        let w = nh.w + nl.w;
        if w > 128 {
            panic!("concat too wide");
        }
        if let (Some(a), Some(b)) = (self.is_const(hi), self.is_const(lo)) {
            return self.constant(w, (a << nl.w) | b);
        }
        if self.is_const(hi) == Some(0) {
            return self.zext(lo, w);
        }
        if nh.op == Op::ZExt {
            let x = self.concat(nh.a, lo);
            return self.zext(x, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
            return self.extract(nh.a, nl.k as u16, w);
        }
        // extract(x,..) ++ x' where lo is whole-low part of concat: (concat (extract x hi) (concat (extract x mid) lo'))
        if nl.op == Op::Concat {
            let n2 = self.n(nl.a);
            if nh.op == Op::Extract && n2.op == Op::Extract && nh.a == n2.a && nh.k == n2.k + n2.w as u128 {
                let x = self.extract(nh.a, n2.k as u16, nh.w + n2.w);
                return self.concat(x, nl.b);
            }
            // reassociate to the right is canonical
        }
        if nh.op == Op::Concat {
            let l = self.concat(nh.b, lo);
            return self.concat(nh.a, l);
        }
        self.raw(Op::Concat, w, hi, lo, 0, 0)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let na = self.n(a);
        if na.w == w {
            return a;
        }
        match na.op {
            Op::Const => return self.constant(w, na.k),
            Op::ZExt => return self.zext(na.a, w),
            Op::Table => {
                let vals = self.tabs[na.k as usize].vals.clone();
                return self.table(vals, w, na.a);
            }
            Op::Ite => {
                if let Some((c, x, y)) = self.ite_consts(a) {
                    let x = self.constant(w, x);
                    let y = self.constant(w, y);
                    return self.ite(c, x, y);
                }
            }
            _ => {}
        }
        self.raw(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let na = self.n(a);
        if na.w == w {
            return a;
        }
        match na.op {
            Op::Const => return self.constant(w, sext(na.k, na.w) as u128),
            Op::SExt => return self.sext(na.a, w),
            Op::ZExt => return self.zext(na.a, w),
            Op::Table => {
                let vals = self.tabs[na.k as usize].vals.iter().map(|v| sext(*v, na.w) as u128 & mask(w)).collect();
                return self.table(vals, w, na.a);
            }
            Op::Ite => {
                if let Some((c, x, y)) = self.ite_consts(a) {
                    let x = self.constant(w, sext(x, na.w) as u128);
                    let y = self.constant(w, sext(y, na.w) as u128);
                    return self.ite(c, x, y);
                }
            }
            _ => {}
        }
        if na.w == 1 {
            let x = self.constant(w, mask(w));
            let y = self.constant(w, 0);
            return self.ite(a, x, y);
        }
        // never negative
        if self.srange(a).1 < 1u128 << (na.w - 1) {
            return self.zext(a, w);
        }
        if na.op == Op::Add {
            // no signed overflow: extend the summands
            if let (Some(x), Some(y)) = (self.signed(self.srange(na.a), na.w), self.signed(self.srange(na.b), na.w)) {
                let lim = 1i128 << (na.w - 1);
                if x.0 + y.0 >= -lim && x.1 + y.1 < lim {
                    let p = self.sext(na.a, w);
                    let q = self.sext(na.b, w);
                    return self.bin(Op::Add, p, q);
                }
            }
        }
        self.raw(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn table(&mut self, vals: Vec<u128>, w: u16, idx: E) -> E {
        if let Some(k) = self.is_const(idx) {
            let v = vals.get(k as usize).copied().unwrap_or(0);
            return self.constant(w, v);
        }
        if vals.iter().all(|v| *v == vals[0]) {
            return self.constant(w, vals[0]);
        }
        let (lo, hi) = self.srange(idx);
        if hi < vals.len() as u128 && (lo..=hi).all(|i| vals[i as usize] == i) {
            // the identity
            let iw = self.w(idx);
            return if iw == w {
                idx
            } else if iw < w {
                self.zext(idx, w)
            } else {
                self.extract(idx, 0, w)
            };
        }
        let t = Tab { vals, w };
        let id = match self.tabmap.get(&t) {
            Some(i) => *i,
            None => {
                let i = self.tabs.len() as u32;
                self.tabs.push(t.clone());
                self.tabmap.insert(t, i);
                i
            }
        };
        self.raw(Op::Table, w, idx, 0, 0, id as u128)
    }
    pub fn un(&mut self, op: Op, a: E, w: u16) -> E {
        let na = self.n(a);
        if na.op == Op::Const {
            return self.constant(w, eval_op(op, w, na.w, na.k, 0, 0, 0));
        }
        self.raw(op, w, a, 0, 0, 0)
    }

    /// Evaluate under an assignment, memoised in `memo`.
    pub fn eval(&self, e: E, asg: &dyn Fn(usize) -> u128, memo: &mut HashMap<E, u128, BuildFx>) -> u128 {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return asg((n.k & 0xffff_ffff) as usize) & mask(n.w),
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let r = match n.op {
            Op::Ite => {
                if self.eval(n.a, asg, memo) != 0 {
                    self.eval(n.b, asg, memo)
                } else {
                    self.eval(n.c, asg, memo)
                }
            }
            Op::Concat => {
                let a = self.eval(n.a, asg, memo);
                let b = self.eval(n.b, asg, memo);
                (a << self.w(n.b)) | b
            }
            Op::Table => {
                let a = self.eval(n.a, asg, memo);
                self.tabs[n.k as usize]
                    .vals
                    .get(a as usize)
                    .copied()
                    .unwrap_or(0)
            }
            _ => {
                let a = self.eval(n.a, asg, memo);
                let b = if n.b != 0 { self.eval(n.b, asg, memo) } else { 0 };
                eval_op(n.op, n.w, self.w(n.a), a, b, 0, n.k)
            }
        };
        memo.insert(e, r);
        r
    }

    /// Unsigned interval of e given per-variable bounds.
    pub fn range(
        &self,
        e: E,
        vb: &dyn Fn(usize) -> (u128, u128),
        memo: &mut HashMap<E, (u128, u128), BuildFx>,
    ) -> (u128, u128) {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => return (n.k, n.k),
            Op::Var => return vb((n.k & 0xffff_ffff) as usize),
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let s = self.meta[e as usize].r;
        let r = self.range_node(n, &mut |x| self.range(x, vb, memo));
        // never weaker than the static interval
        let r = (r.0.max(s.0), r.1.min(s.1));
        memo.insert(e, r);
        r
    }
    /// Interval from the declared ranges of the variables alone (path independent).
    pub fn srange(&self, e: E) -> (u128, u128) {
        self.meta[e as usize].r
    }
    fn range_node(&self, n: &Node, g: &mut dyn FnMut(E) -> (u128, u128)) -> (u128, u128) {
        let m = mask(n.w);
        let full = (0u128, m);
        match n.op {
            Op::Add => {
                let a = g(n.a);
                let b = g(n.b);
                match (a.0.checked_add(b.0), a.1.checked_add(b.1)) {
                    (Some(l), Some(h)) if h <= m => (l, h),
                    (Some(l), Some(h)) if l > m && h - l <= m && (l >> n.w.min(127)) == (h >> n.w.min(127)) && n.w < 128 => {
                        (l & m, h & m)
                    }
                    _ => full,
                }
            }
            Op::Sub => {
                let a = g(n.a);
                let b = g(n.b);
                if a.0 >= b.1 {
                    (a.0 - b.1, a.1 - b.0)
                } else {
                    full
                }
            }
            Op::Mul => {
                let a = g(n.a);
                let b = g(n.b);
                match a.1.checked_mul(b.1) {
                    Some(h) if h <= m => (a.0 * b.0, h),
                    _ => full,
                }
            }
            Op::UDiv => {
                let a = g(n.a);
                let b = g(n.b);
                if b.0 > 0 {
                    (a.0 / b.1, a.1 / b.0)
                } else {
                    full
                }
            }
            Op::URem => {
                let a = g(n.a);
                let b = g(n.b);
                if b.0 > 0 {
                    if a.1 < b.0 {
                        a
                    } else if b.0 == b.1 && a.0 / b.0 == a.1 / b.0 {
                        (a.0 % b.0, a.1 % b.0)
                    } else {
                        (0, (b.1 - 1).min(a.1))
                    }
                } else {
                    (0, a.1.max(m))
                }
            }
            Op::And => {
                let a = g(n.a);
                let b = g(n.b);
                (0, a.1.min(b.1))
            }
            Op::Or | Op::Xor => {
                let a = g(n.a);
                let b = g(n.b);
                let hb = 128 - (a.1 | b.1).leading_zeros();
                let h = if hb >= 128 { u128::MAX } else { (1u128 << hb) - 1 };
                let l = if n.op == Op::Or { a.0.max(b.0) } else { 0 };
                (l, h & m)
            }
            Op::Eq => {
                let a = g(n.a);
                let b = g(n.b);
                if a.1 < b.0 || b.1 < a.0 {
                    (0, 0)
                } else if a.0 == a.1 && b.0 == b.1 {
                    (1, 1)
                } else {
                    (0, 1)
                }
            }
            Op::Ult => {
                let a = g(n.a);
                let b = g(n.b);
                if a.1 < b.0 {
                    (1, 1)
                } else if a.0 >= b.1 {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::Ule => {
                let a = g(n.a);
                let b = g(n.b);
                if a.1 <= b.0 {
                    (1, 1)
                } else if a.0 > b.1 {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::Slt | Op::Sle => {
                let w = self.w(n.a);
                let a = g(n.a);
                let b = g(n.b);
                let half = 1u128 << (w - 1);
                let conv = |x: (u128, u128)| -> Option<(i128, i128)> {
                    if x.1 < half || x.0 >= half {
                        Some((sext(x.0, w), sext(x.1, w)))
                    } else {
                        None
                    }
                };
                match (conv(a), conv(b)) {
                    (Some(a), Some(b)) => {
                        let (t, f) = if n.op == Op::Slt {
                            (a.1 < b.0, a.0 >= b.1)
                        } else {
                            (a.1 <= b.0, a.0 > b.1)
                        };
                        if t {
                            (1, 1)
                        } else if f {
                            (0, 0)
                        } else {
                            (0, 1)
                        }
                    }
                    _ => (0, 1),
                }
            }
            Op::Ite => {
                let c = g(n.a);
                if c == (1, 1) {
                    g(n.b)
                } else if c == (0, 0) {
                    g(n.c)
                } else {
                    let a = g(n.b);
                    let b = g(n.c);
                    (a.0.min(b.0), a.1.max(b.1))
                }
            }
            Op::Concat => {
                let a = g(n.a);
                let b = g(n.b);
                let lw = self.w(n.b);
                ((a.0 << lw) | b.0, (a.1 << lw) | b.1)
            }
            Op::Extract => {
                let a = g(n.a);
                let lo = n.k as u32;
                let (l, h) = (a.0 >> lo, a.1 >> lo);
                if n.w >= 128 || (l >> n.w) == (h >> n.w) {
                    (l & m, h & m)
                } else {
                    full
                }
            }
            Op::ZExt => g(n.a),
            Op::SExt => {
                let iw = self.w(n.a);
                let a = g(n.a);
                match self.signed(a, iw) {
                    Some((l, h)) => (l as u128 & m, h as u128 & m),
                    None => full,
                }
            }
            Op::Table => {
                let a = g(n.a);
                let t = &self.tabs[n.k as usize].vals;
                let mut lo = u128::MAX;
                let mut hi = 0;
                let mut i = a.0;
                while i <= a.1 && (i as usize) < t.len() {
                    lo = lo.min(t[i as usize]);
                    hi = hi.max(t[i as usize]);
                    i += 1;
                }
                if a.1 as usize >= t.len() || lo == u128::MAX {
                    lo = 0;
                }
                (lo.min(hi), hi)
            }
            Op::LShr => {
                let a = g(n.a);
                let b = g(n.b);
                if b.1 < n.w as u128 {
                    (a.0 >> b.1, a.1 >> b.0)
                } else {
                    (0, a.1)
                }
            }
            Op::Shl => {
                let a = g(n.a);
                let b = g(n.b);
                if b.1 < n.w as u128 && a.1 <= (m >> b.1) {
                    (a.0 << b.0, a.1 << b.1)
                } else {
                    full
                }
            }
            Op::SDiv | Op::SRem => {
                let a = self.signed(g(n.a), n.w);
                let b = self.signed(g(n.b), n.w);
                match (a, b) {
                    (Some(a), Some(b)) if b.0 == b.1 && b.0 > 0 => {
                        let (l, h) = if n.op == Op::SDiv {
                            (a.0 / b.0, a.1 / b.0)
                        } else if a.0 / b.0 == a.1 / b.0 {
                            (a.0 % b.0, a.1 % b.0)
                        } else if a.0 >= 0 {
                            (0, b.0 - 1)
                        } else {
                            // negative to zero wraps the unsigned order
                            return full;
                        };
                        if l < 0 && h >= 0 {
                            full
                        } else {
                            (l as u128 & m, h as u128 & m)
                        }
                    }
                    _ => full,
                }
            }
            _ => full,
        }
    }
}

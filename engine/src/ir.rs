//! Textual LLVM IR front end. Function bodies are parsed lazily.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Struct(Arc<Vec<Ty>>, bool),
    Arr(u64, Arc<Ty>),
    Vec(u64, Arc<Ty>),
    Other(String),
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => match &**t {
                Ty::Int(w) if w % 8 != 0 => (n * *w as u64 + 7) / 8,
                t => n * t.store_size(),
            },
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(_) => {
                let s = self.store_size();
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(..) => self.store_size(),
            Ty::Other(_) => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elems(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
}

/// Constants
#[derive(Clone, Debug)]
pub enum C {
    Int(u128),
    Global(String),
    Zero,
    Agg(Vec<(Ty, C)>),
    Bytes(Vec<u8>),
    Gep(Ty, Box<C>, Vec<(Ty, C)>),
    Cast(String, Ty, Box<C>, Ty),
    Bin(String, Ty, Box<C>, Box<C>),
    Splat(Box<(Ty, C)>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    Const(u32), // index in function's const pool
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub to: u32,
    pub copies: Arc<Vec<(u32, Opd)>>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(Opd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, Ty, u32, Opd, Opd),
    FNeg(Ty, u32, Opd),
    ICmp(&'static str, Ty, u32, Opd, Opd),
    FCmp(String, Ty, u32, Opd, Opd),
    Cast(String, Ty, Ty, u32, Opd),
    Select(Ty, Ty, u32, Opd, Opd, Opd),
    Load(Ty, u32, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, u64, Vec<(Opd, u16, u64)>),
    Alloca(u32, u64),
    Call {
        dst: Option<u32>,
        ret: Ty,
        callee: Callee,
        cache: Arc<OnceLock<Target>>,
        args: Vec<(Ty, Opd)>,
        normal: Option<Edge>,
    },
    Br(Edge),
    CondBr(Opd, Edge, Edge),
    Switch(Opd, u16, Edge, Vec<(u128, Edge)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Extract(u32, Opd, Vec<u32>),
    Insert(u32, Ty, Opd, Opd, Vec<u32>),
    ExtractEl(u32, Opd, Opd),
    InsertEl(u32, Ty, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<Option<u32>>, usize),
    Rmw(String, u32, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Fence,
    Copy(u32, Opd),
    Dead(String),
}

#[derive(Clone, Debug)]
pub enum Target {
    Func(usize),
    Intr(String),
    Ext(String),
}

pub struct Block {
    pub instrs: Vec<I>,
    pub dbg: Vec<u32>,
    pub gid: usize, // global block id for coverage
}

pub struct Func {
    pub name: String,
    pub params: Vec<(Ty, u32)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub consts: Vec<(Ty, C)>,
    pub idx: usize,
}

pub struct FuncDecl {
    pub name: String,
    pub start: usize,
    pub end: usize,
    pub body: OnceLock<Result<Arc<Func>, String>>,
}

pub struct GlobalDecl {
    pub name: String,
    pub ty: Ty,
    pub init: Option<C>,
    pub konst: bool,
}

pub struct Module {
    pub text: Vec<u8>,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, usize>,
    pub globals: Vec<GlobalDecl>,
    pub gmap: HashMap<String, usize>,
    pub aliases: HashMap<String, C>,
    pub types: HashMap<String, Ty>,
    pub md_start: usize,
    pub next_block: std::sync::atomic::AtomicUsize,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Word(String),
    Local(String),
    Global(String),
    Meta(String),
    Attr,
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(u8),
    Label(String),
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    p: usize,
    end: usize,
    tok: T,
    bol: bool,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'$' || c == b'-'
}

type R<X> = Result<X, String>;

impl<'a> Lex<'a> {
    fn new(s: &'a [u8], p: usize, end: usize) -> Self {
        let mut l = Lex {
            s,
            p,
            end,
            tok: T::Eof,
            bol: true,
        };
        l.next();
        l
    }
    fn str_body(&mut self) -> Vec<u8> {
        // at char after opening quote
        let mut out = vec![];
        while self.p < self.end {
            let c = self.s[self.p];
            self.p += 1;
            if c == b'"' {
                break;
            }
            if c == b'\\' {
                if self.s[self.p] == b'\\' {
                    out.push(b'\\');
                    self.p += 1;
                } else {
                    let h = std::str::from_utf8(&self.s[self.p..self.p + 2]).unwrap();
                    out.push(u8::from_str_radix(h, 16).unwrap_or(b'?'));
                    self.p += 2;
                }
            } else {
                out.push(c);
            }
        }
        out
    }
    fn ident(&mut self) -> String {
        if self.p < self.end && self.s[self.p] == b'"' {
            self.p += 1;
            let b = self.str_body();
            return String::from_utf8_lossy(&b).into_owned();
        }
        let st = self.p;
        while self.p < self.end && is_id(self.s[self.p]) {
            self.p += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
    }
    fn next(&mut self) -> T {
        let t = self.lex();
        std::mem::replace(&mut self.tok, t)
    }
    fn lex(&mut self) -> T {
        let mut bol = self.bol;
        self.bol = false;
        loop {
            if self.p >= self.end {
                return T::Eof;
            }
            let c = self.s[self.p];
            if c == b'\n' {
                bol = true;
                self.p += 1;
            } else if c == b' ' || c == b'\t' || c == b'\r' {
                if c == b' ' {
                    bol = false;
                }
                self.p += 1;
            } else if c == b';' {
                while self.p < self.end && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
            } else {
                break;
            }
        }
        let c = self.s[self.p];
        match c {
            b'%' => {
                self.p += 1;
                T::Local(self.ident())
            }
            b'@' => {
                self.p += 1;
                T::Global(self.ident())
            }
            b'!' => {
                self.p += 1;
                if self.p < self.end && is_id(self.s[self.p]) {
                    T::Meta(self.ident())
                } else {
                    T::P(b'!')
                }
            }
            b'#' => {
                self.p += 1;
                while self.p < self.end && is_id(self.s[self.p]) {
                    self.p += 1;
                }
                T::Attr
            }
            b'"' => {
                self.p += 1;
                let b = self.str_body();
                if bol && self.p < self.end && self.s[self.p] == b':' {
                    self.p += 1;
                    return T::Label(String::from_utf8_lossy(&b).into_owned());
                }
                T::Str(b)
            }
            b'c' if self.p + 1 < self.end && self.s[self.p + 1] == b'"' => {
                self.p += 2;
                T::CStr(self.str_body())
            }
            _ if is_id(c) => {
                let id = self.ident();
                if bol && self.p < self.end && self.s[self.p] == b':' {
                    self.p += 1;
                    return T::Label(id);
                }
                if c.is_ascii_digit() || (c == b'-' && id.len() > 1) {
                    // floats such as 1.000000e+00 contain '+'
                    let mut id = id;
                    if self.p < self.end && self.s[self.p] == b'+' && id.ends_with('e') {
                        self.p += 1;
                        let r = self.ident();
                        id = format!("{}+{}", id, r);
                    }
                    T::Num(id)
                } else {
                    T::Word(id)
                }
            }
            _ => {
                self.p += 1;
                T::P(c)
            }
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.tok == T::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' got {:?} near {}", c as char, self.tok, self.ctx()))
        }
    }
    fn ctx(&self) -> String {
        let a = self.p.saturating_sub(160);
        String::from_utf8_lossy(&self.s[a..(self.p + 40).min(self.end)]).into_owned()
    }
    fn word(&mut self, w: &str) -> bool {
        if let T::Word(x) = &self.tok {
            if x == w {
                self.next();
                return true;
            }
        }
        false
    }
    fn peek_word(&self) -> &str {
        if let T::Word(x) = &self.tok {
            x
        } else {
            ""
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => return,
                _ => {}
            }
        }
    }
    fn num(&mut self) -> R<u64> {
        match self.next() {
            T::Num(n) => n.parse().map_err(|e| format!("num {} {}", n, e)),
            t => Err(format!("expected number got {:?} near {}", t, self.ctx())),
        }
    }
}

fn int_ty(w: &str) -> Option<u16> {
    let r = w.strip_prefix('i')?;
    if r.is_empty() || !r.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    r.parse().ok()
}

fn parse_float(n: &str, ty: &Ty) -> R<u128> {
    let v: f64 = if let Some(h) = n.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
    } else {
        n.parse().map_err(|_| format!("float {}", n))?
    };
    Ok(match ty {
        Ty::F32 => (v as f32).to_bits() as u128,
        _ => v.to_bits() as u128,
    })
}

fn special_float(w: &str, neg: bool, ty: &Ty) -> R<u128> {
    let v = match w {
        "inf" => f64::INFINITY,
        "qnan" => f64::NAN,
        _ => return Err(format!("float {}", w)),
    };
    let v = if neg { -v } else { v };
    Ok(match ty {
        Ty::F32 => (if v.is_nan() { f32::from_bits(0x7fc0_0000 | (neg as u32) << 31) } else { v as f32 }).to_bits() as u128,
        _ => (if v.is_nan() { f64::from_bits(0x7ff8_0000_0000_0000 | (neg as u64) << 63) } else { v }).to_bits() as u128,
    })
}

struct Parser<'a> {
    l: Lex<'a>,
    m: &'a HashMap<String, Ty>,
    // function state
    regs: HashMap<String, u32>,
    consts: Vec<(Ty, C)>,
    last_dbg: u32,
}

impl<'a> Parser<'a> {
    fn ty(&mut self) -> R<Ty> {
        let t = match self.l.next() {
            T::Word(w) => {
                if let Some(n) = int_ty(&w) {
                    Ty::Int(n)
                } else {
                    match w.as_str() {
                        "void" => Ty::Void,
                        "ptr" => {
                            if self.l.word("addrspace") {
                                self.l.skip_parens();
                            }
                            Ty::Ptr
                        }
                        "float" => Ty::F32,
                        "double" => Ty::F64,
                        "opaque" | "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80" => Ty::Other(w),
                        _ => return Err(format!("type {} near {}", w, self.l.ctx())),
                    }
                }
            }
            T::P(b'{') => {
                let mut f = vec![];
                if !self.l.eat(b'}') {
                    loop {
                        f.push(self.ty()?);
                        if self.l.eat(b'}') {
                            break;
                        }
                        self.l.expect(b',')?;
                    }
                }
                Ty::Struct(Arc::new(f), false)
            }
            T::P(b'[') => {
                let n = self.l.num()?;
                if !self.l.word("x") {
                    return Err("array x".into());
                }
                let t = self.ty()?;
                self.l.expect(b']')?;
                Ty::Arr(n, Arc::new(t))
            }
            T::P(b'<') => {
                if self.l.tok == T::P(b'{') {
                    self.l.next();
                    let mut f = vec![];
                    if !self.l.eat(b'}') {
                        loop {
                            f.push(self.ty()?);
                            if self.l.eat(b'}') {
                                break;
                            }
                            self.l.expect(b',')?;
                        }
                    }
                    self.l.expect(b'>')?;
                    Ty::Struct(Arc::new(f), true)
                } else {
                    let n = self.l.num()?;
                    if !self.l.word("x") {
                        return Err("vec x".into());
                    }
                    let t = self.ty()?;
                    self.l.expect(b'>')?;
                    Ty::Vec(n, Arc::new(t))
                }
            }
            T::Local(n) => self.m.get(&n).cloned().ok_or(format!("named type {}", n))?,
            t => return Err(format!("type tok {:?} near {}", t, self.l.ctx())),
        };
        // function type suffix: "ret (args)" only occurs in calls; handled there
        Ok(t)
    }
    fn skip_attrs(&mut self) {
        loop {
            match &self.l.tok {
                T::Word(w) => {
                    match w.as_str() {
                        "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr"
                        | "ptrtoint" | "trunc" | "sub" | "add" | "bitcast" | "splat" | "none" | "asm" | "zext" | "ptrtoaddr" | "xor" => return,
                        "align" => {
                            self.l.next();
                            if self.l.tok == T::P(b'(') {
                                self.l.skip_parens();
                            } else {
                                self.l.next();
                            }
                            continue;
                        }
                        _ => {}
                    }
                    if int_ty(w).is_some() || w == "ptr" || w == "void" || w == "float" || w == "double" || w.starts_with("f0x") {
                        return;
                    }
                    self.l.next();
                    if self.l.tok == T::P(b'(') {
                        self.l.skip_parens();
                    }
                }
                T::Attr => {
                    self.l.next();
                }
                T::Str(_) => {
                    self.l.next();
                    if self.l.eat(b'=') {
                        self.l.next();
                    }
                }
                _ => return,
            }
        }
    }
    fn konst(&mut self, ty: &Ty) -> R<C> {
        Ok(match self.l.next() {
            T::Num(n) => match ty {
                Ty::F32 | Ty::F64 if n.starts_with("-inf") || n.starts_with("-qnan") => C::Int(special_float(&n[1..], true, ty)?),
                Ty::F32 | Ty::F64 => C::Int(parse_float(&n, ty)?),
                _ => {
                    if let Some(x) = n.strip_prefix('-') {
                        let v: u128 = x.parse().map_err(|_| format!("int {}", n))?;
                        C::Int(v.wrapping_neg())
                    } else {
                        C::Int(n.parse().map_err(|_| format!("int {}", n))?)
                    }
                }
            },
            T::Word(w) => match w.as_str() {
                "true" => C::Int(1),
                "false" | "null" => C::Int(0),
                "undef" | "poison" | "zeroinitializer" | "none" => C::Zero,
                "getelementptr" => {
                    while matches!(self.l.tok, T::Word(_)) && !self.l.peek_word().is_empty() {
                        let w = self.l.peek_word().to_string();
                        if w == "inrange" {
                            self.l.next();
                            self.l.skip_parens();
                            continue;
                        }
                        self.l.next();
                    }
                    self.l.expect(b'(')?;
                    let t = self.ty()?;
                    self.l.expect(b',')?;
                    let bt = self.ty()?;
                    let b = self.konst(&bt)?;
                    let mut idx = vec![];
                    while self.l.eat(b',') {
                        let it = self.ty()?;
                        let v = self.konst(&it)?;
                        idx.push((it, v));
                    }
                    self.l.expect(b')')?;
                    C::Gep(t, Box::new(b), idx)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                    self.l.expect(b'(')?;
                    let t = self.ty()?;
                    let v = self.konst(&t)?;
                    if !self.l.word("to") {
                        return Err("cast to".into());
                    }
                    let d = self.ty()?;
                    self.l.expect(b')')?;
                    C::Cast(w, t, Box::new(v), d)
                }
                "sub" | "add" | "xor" => {
                    while self.l.word("nuw") || self.l.word("nsw") {}
                    self.l.expect(b'(')?;
                    let t = self.ty()?;
                    let a = self.konst(&t)?;
                    self.l.expect(b',')?;
                    let t2 = self.ty()?;
                    let b = self.konst(&t2)?;
                    self.l.expect(b')')?;
                    C::Bin(w, t, Box::new(a), Box::new(b))
                }
                "splat" => {
                    self.l.expect(b'(')?;
                    let t = self.ty()?;
                    let a = self.konst(&t)?;
                    self.l.expect(b')')?;
                    C::Splat(Box::new((t, a)))
                }
                _ if w.starts_with("f0x") => C::Int(u128::from_str_radix(&w[3..], 16).map_err(|e| e.to_string())?),
                _ => return Err(format!("const word {} near {}", w, self.l.ctx())),
            },
            T::P(b'+') => {
                let w = match self.l.next() {
                    T::Word(w) => w,
                    t => return Err(format!("const +{:?}", t)),
                };
                C::Int(special_float(&w, false, ty)?)
            }
            T::Global(g) => C::Global(g),
            T::CStr(b) => C::Bytes(b),
            T::P(o @ (b'{' | b'[' | b'<')) => {
                let mut packed = false;
                let close = match o {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => {
                        if self.l.eat(b'{') {
                            packed = true;
                            b'}'
                        } else {
                            b'>'
                        }
                    }
                };
                let mut v = vec![];
                if !self.l.eat(close) {
                    loop {
                        let t = self.ty()?;
                        let c = self.konst(&t)?;
                        v.push((t, c));
                        if self.l.eat(close) {
                            break;
                        }
                        self.l.expect(b',')?;
                    }
                }
                if packed {
                    self.l.expect(b'>')?;
                }
                C::Agg(v)
            }
            t => return Err(format!("const tok {:?} near {}", t, self.l.ctx())),
        })
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn val(&mut self, ty: &Ty) -> R<Opd> {
        if let T::Local(n) = &self.l.tok {
            let n = n.clone();
            self.l.next();
            return Ok(Opd::Reg(self.reg(&n)));
        }
        let c = self.konst(ty)?;
        self.consts.push((ty.clone(), c));
        Ok(Opd::Const(self.consts.len() as u32 - 1))
    }
    fn tyval(&mut self) -> R<(Ty, Opd)> {
        let t = self.ty()?;
        self.skip_attrs();
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn label(&mut self) -> R<String> {
        if !self.l.word("label") {
            return Err(format!("label near {}", self.l.ctx()));
        }
        match self.l.next() {
            T::Local(n) => Ok(n),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn meta_tail(&mut self) -> R<()> {
        // ", !dbg !12, !noalias !3" or ", align 8"
        self.last_dbg = 0;
        while self.l.tok == T::P(b',') {
            self.l.next();
            match self.l.next() {
                T::Meta(k) => {
                    if let T::Meta(v) = &self.l.tok {
                        if k == "dbg" {
                            self.last_dbg = v.parse().unwrap_or(0);
                        }
                        self.l.next();
                    } else if self.l.tok == T::P(b'!') {
                        // inline metadata !{...}
                        self.l.next();
                        if self.l.tok == T::P(b'{') {
                            let mut d = 0;
                            loop {
                                match self.l.next() {
                                    T::P(b'{') => d += 1,
                                    T::P(b'}') => {
                                        d -= 1;
                                        if d == 0 {
                                            break;
                                        }
                                    }
                                    T::Eof => break,
                                    _ => {}
                                }
                            }
                        }
                    }
                }
                T::Word(w) if w == "align" => {
                    self.l.next();
                }
                T::Word(w) if w == "addrspace" => {
                    self.l.skip_parens();
                }
                t => return Err(format!("tail {:?} near {}", t, self.l.ctx())),
            }
        }
        Ok(())
    }
}

enum Pre {
    I(I),
    Phi(u32, Vec<(String, Opd)>),
    Term(PTerm),
}
enum PTerm {
    Br(String),
    CondBr(Opd, String, String),
    Switch(Opd, u16, String, Vec<(u128, String)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Invoke(Option<u32>, Ty, Callee, Vec<(Ty, Opd)>, String),
    Dead(String),
}

fn icmp_name(w: &str) -> Option<&'static str> {
    Some(match w {
        "eq" => "eq",
        "ne" => "ne",
        "ult" => "ult",
        "ule" => "ule",
        "ugt" => "ugt",
        "uge" => "uge",
        "slt" => "slt",
        "sle" => "sle",
        "sgt" => "sgt",
        "sge" => "sge",
        _ => return None,
    })
}

impl<'a> Parser<'a> {
    fn call_rest(&mut self) -> R<(Ty, Callee, Vec<(Ty, Opd)>)> {
        // cc & ret attrs
        self.skip_call_prefix();
        let ret = self.ty()?;
        // varargs function type: ty (args...)
        if self.l.tok == T::P(b'(') {
            self.l.skip_parens();
        }
        let callee = match self.l.next() {
            T::Global(g) => Callee::Direct(g),
            T::Local(n) => Callee::Indirect(Opd::Reg(self.reg(&n))),
            T::Word(w) if w == "asm" => {
                while matches!(&self.l.tok, T::Word(_)) {
                    self.l.next();
                }
                let a = match self.l.next() {
                    T::Str(s) => String::from_utf8_lossy(&s).into_owned(),
                    t => return Err(format!("asm {:?}", t)),
                };
                self.l.expect(b',')?;
                let b = match self.l.next() {
                    T::Str(s) => String::from_utf8_lossy(&s).into_owned(),
                    t => return Err(format!("asm {:?}", t)),
                };
                Callee::Asm(format!("{}|{}", a, b))
            }
            T::Word(w) if w == "inttoptr" || w == "null" || w == "undef" || w == "poison" => {
                return Err(format!("callee const {}", w));
            }
            t => return Err(format!("callee {:?} near {}", t, self.l.ctx())),
        };
        self.l.expect(b'(')?;
        let mut args = vec![];
        if !self.l.eat(b')') {
            loop {
                let t = self.ty()?;
                if let Ty::Other(_) = t {
                    // metadata argument: skip
                    let mut d = 0;
                    loop {
                        match &self.l.tok {
                            T::P(b'(') | T::P(b'{') => d += 1,
                            T::P(b')') | T::P(b'}') if d > 0 => d -= 1,
                            T::P(b',') | T::P(b')') if d == 0 => break,
                            T::Eof => break,
                            _ => {}
                        }
                        self.l.next();
                    }
                } else {
                    self.skip_attrs();
                    let v = self.val(&t)?;
                    args.push((t, v));
                }
                if self.l.eat(b')') {
                    break;
                }
                self.l.expect(b',')?;
            }
        }
        // fn attrs
        loop {
            match &self.l.tok {
                T::Attr => {
                    self.l.next();
                }
                T::Word(w) if w == "to" || w == "unwind" => break,
                T::Word(w) if is_fn_attr(w) => {
                    self.l.next();
                    if self.l.tok == T::P(b'(') {
                        self.l.skip_parens();
                    }
                }
                T::P(b'[') => {
                    // operand bundle
                    while self.l.next() != T::P(b']') {}
                }
                _ => break,
            }
        }
        Ok((ret, callee, args))
    }
    fn skip_call_prefix(&mut self) {
        loop {
            let w = self.l.peek_word().to_string();
            if w.is_empty() {
                return;
            }
            if int_ty(&w).is_some() || matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "asm" | "half" | "x86_fp80" | "fp128") {
                return;
            }
            self.l.next();
            if w == "align" {
                self.l.next();
            }
            if self.l.tok == T::P(b'(') {
                self.l.skip_parens();
            }
        }
    }

    fn instr(&mut self) -> R<Pre> {
        let mut dst: Option<String> = None;
        if let T::Local(n) = &self.l.tok {
            dst = Some(n.clone());
            self.l.next();
            self.l.expect(b'=')?;
        }
        let op = match self.l.next() {
            T::Word(w) => w,
            t => return Err(format!("instr {:?} near {}", t, self.l.ctx())),
        };
        let d = dst.as_ref().map(|n| self.reg(n));
        let bin = match op.as_str() {
            "add" => Some(Bin::Add),
            "sub" => Some(Bin::Sub),
            "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::UDiv),
            "urem" => Some(Bin::URem),
            "sdiv" => Some(Bin::SDiv),
            "srem" => Some(Bin::SRem),
            "and" => Some(Bin::And),
            "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor),
            "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr),
            "ashr" => Some(Bin::AShr),
            "fadd" => Some(Bin::FAdd),
            "fsub" => Some(Bin::FSub),
            "fmul" => Some(Bin::FMul),
            "fdiv" => Some(Bin::FDiv),
            "frem" => Some(Bin::FRem),
            _ => None,
        };
        if let Some(b) = bin {
            self.skip_flags();
            let t = self.ty()?;
            let x = self.val(&t)?;
            self.l.expect(b',')?;
            let y = self.val(&t)?;
            self.meta_tail()?;
            return Ok(Pre::I(I::Bin(b, t, d.unwrap(), x, y)));
        }
        let r = match op.as_str() {
            "fneg" => {
                self.skip_flags();
                let (t, v) = self.tyval()?;
                self.meta_tail()?;
                Pre::I(I::FNeg(t, d.unwrap(), v))
            }
            "icmp" => {
                self.l.word("samesign");
                let p = icmp_name(&match self.l.next() {
                    T::Word(w) => w,
                    t => return Err(format!("icmp {:?}", t)),
                })
                .ok_or("icmp pred")?;
                let t = self.ty()?;
                let x = self.val(&t)?;
                self.l.expect(b',')?;
                let y = self.val(&t)?;
                self.meta_tail()?;
                Pre::I(I::ICmp(p, t, d.unwrap(), x, y))
            }
            "fcmp" => {
                let mut p = String::new();
                while let T::Word(w) = &self.l.tok {
                    if w == "float" || w == "double" {
                        break;
                    }
                    p = w.clone();
                    self.l.next();
                }
                let t = self.ty()?;
                let x = self.val(&t)?;
                self.l.expect(b',')?;
                let y = self.val(&t)?;
                self.meta_tail()?;
                Pre::I(I::FCmp(p, t, d.unwrap(), x, y))
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc"
            | "fpext" | "addrspacecast" | "ptrtoaddr" => {
                self.skip_flags();
                let (t, v) = self.tyval()?;
                if !self.l.word("to") {
                    return Err("cast to".into());
                }
                let t2 = self.ty()?;
                self.meta_tail()?;
                Pre::I(I::Cast(op, t, t2, d.unwrap(), v))
            }
            "select" => {
                self.skip_flags();
                let (ct, c) = self.tyval()?;
                self.l.expect(b',')?;
                let (t, a) = self.tyval()?;
                self.l.expect(b',')?;
                let (_, b) = self.tyval()?;
                self.meta_tail()?;
                Pre::I(I::Select(ct, t, d.unwrap(), c, a, b))
            }
            "load" => {
                let atomic = self.l.word("atomic");
                self.l.word("volatile");
                let t = self.ty()?;
                self.l.expect(b',')?;
                let (_, p) = self.tyval()?;
                if atomic {
                    self.skip_ordering();
                }
                self.meta_tail()?;
                Pre::I(I::Load(t, d.unwrap(), p))
            }
            "store" => {
                let atomic = self.l.word("atomic");
                self.l.word("volatile");
                let (t, v) = self.tyval()?;
                self.l.expect(b',')?;
                let (_, p) = self.tyval()?;
                if atomic {
                    self.skip_ordering();
                }
                self.meta_tail()?;
                Pre::I(I::Store(t, v, p))
            }
            "getelementptr" => {
                self.skip_flags();
                let t = self.ty()?;
                self.l.expect(b',')?;
                let (bt, b) = self.tyval()?;
                if bt.is_agg() {
                    return Err("vector gep".into());
                }
                let mut off = 0u64;
                let mut dynv = vec![];
                let mut cur = t;
                let mut first = true;
                while self.l.tok == T::P(b',') {
                    // peek whether metadata
                    let save = self.l.p;
                    let st = self.l.tok.clone();
                    self.l.next();
                    if let T::Meta(_) = self.l.tok {
                        self.l.p = save;
                        self.l.tok = st;
                        break;
                    }
                    let (it, iv) = self.tyval()?;
                    let scale;
                    let mut fieldoff = None;
                    if first {
                        scale = cur.size();
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let i = match &iv {
                                    Opd::Const(k) => match &self.consts[*k as usize].1 {
                                        C::Int(v) => *v as usize,
                                        C::Zero => 0,
                                        _ => return Err("gep idx".into()),
                                    },
                                    _ => return Err("gep struct idx".into()),
                                };
                                fieldoff = Some(cur.field_off(i));
                                let n = cur.elem(i);
                                cur = n;
                                scale = 0;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = e.size();
                                let n = (**e).clone();
                                cur = n;
                            }
                            _ => return Err("gep into scalar".into()),
                        }
                    }
                    if let Some(f) = fieldoff {
                        off = off.wrapping_add(f);
                    } else {
                        match &iv {
                            Opd::Const(k) if matches!(self.consts[*k as usize].1, C::Int(_) | C::Zero) => {
                                if let C::Int(v) = self.consts[*k as usize].1 {
                                    let iw = it.bits();
                                    let s = crate::expr::sext(v & crate::expr::mask(iw), iw) as i64 as u64;
                                    off = off.wrapping_add(s.wrapping_mul(scale));
                                }
                            }
                            _ => dynv.push((iv, it.bits(), scale)),
                        }
                    }
                }
                self.meta_tail()?;
                Pre::I(I::Gep(d.unwrap(), b, off, dynv))
            }
            "alloca" => {
                self.skip_flags_word("inalloca");
                let t = self.ty()?;
                let mut n = 1;
                if self.l.tok == T::P(b',') {
                    let save = self.l.p;
                    let st = self.l.tok.clone();
                    self.l.next();
                    if matches!(&self.l.tok, T::Word(w) if int_ty(w).is_some()) {
                        self.ty()?;
                        n = self.l.num()?;
                    } else {
                        self.l.p = save;
                        self.l.tok = st;
                    }
                }
                self.meta_tail()?;
                Pre::I(I::Alloca(d.unwrap(), t.size() * n))
            }
            "tail" | "musttail" | "notail" | "call" => {
                if op != "call" {
                    self.l.word("call");
                }
                let (ret, callee, args) = self.call_rest()?;
                self.meta_tail()?;
                Pre::I(I::Call {
                    dst: d,
                    ret,
                    callee,
                    cache: Arc::new(OnceLock::new()),
                    args,
                    normal: None,
                })
            }
            "invoke" => {
                let (ret, callee, args) = self.call_rest()?;
                if !self.l.word("to") {
                    return Err(format!("invoke to near {}", self.l.ctx()));
                }
                let n = self.label()?;
                self.l.word("unwind");
                self.label()?;
                self.meta_tail()?;
                Pre::Term(PTerm::Invoke(d, ret, callee, args, n))
            }
            "phi" => {
                self.skip_flags();
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.l.expect(b'[')?;
                    let x = self.val(&t)?;
                    self.l.expect(b',')?;
                    let b = match self.l.next() {
                        T::Local(n) => n,
                        t => return Err(format!("phi {:?}", t)),
                    };
                    self.l.expect(b']')?;
                    v.push((b, x));
                    // next pair or metadata
                    if self.l.tok == T::P(b',') {
                        let save = self.l.p;
                        let st = self.l.tok.clone();
                        self.l.next();
                        if self.l.tok == T::P(b'[') {
                            continue;
                        }
                        self.l.p = save;
                        self.l.tok = st;
                    }
                    break;
                }
                self.meta_tail()?;
                Pre::Phi(d.unwrap(), v)
            }
            "br" => {
                let r = if self.l.peek_word() == "label" {
                    PTerm::Br(self.label()?)
                } else {
                    let (_, c) = self.tyval()?;
                    self.l.expect(b',')?;
                    let a = self.label()?;
                    self.l.expect(b',')?;
                    let b = self.label()?;
                    PTerm::CondBr(c, a, b)
                };
                self.meta_tail()?;
                Pre::Term(r)
            }
            "switch" => {
                let (t, v) = self.tyval()?;
                self.l.expect(b',')?;
                let def = self.label()?;
                self.l.expect(b'[')?;
                let mut cs = vec![];
                while !self.l.eat(b']') {
                    let ct = self.ty()?;
                    let k = match self.konst(&ct)? {
                        C::Int(k) => k & crate::expr::mask(t.bits()),
                        C::Zero => 0,
                        _ => return Err("switch const".into()),
                    };
                    self.l.expect(b',')?;
                    let l = self.label()?;
                    cs.push((k, l));
                }
                self.meta_tail()?;
                Pre::Term(PTerm::Switch(v, t.bits(), def, cs))
            }
            "ret" => {
                let r = if self.l.word("void") {
                    PTerm::Ret(None)
                } else {
                    PTerm::Ret(Some(self.tyval()?))
                };
                self.meta_tail()?;
                Pre::Term(r)
            }
            "unreachable" => {
                self.meta_tail()?;
                Pre::Term(PTerm::Unreachable)
            }
            "resume" => {
                self.tyval()?;
                self.meta_tail()?;
                Pre::Term(PTerm::Dead("resume".into()))
            }
            "landingpad" => {
                let t = self.ty()?;
                loop {
                    if self.l.word("cleanup") {
                        continue;
                    }
                    if self.l.word("catch") || self.l.word("filter") {
                        self.tyval()?;
                        continue;
                    }
                    break;
                }
                self.meta_tail()?;
                let _ = t;
                Pre::I(I::Dead("landingpad".into()))
            }
            "extractvalue" => {
                let (_, v) = self.tyval()?;
                let mut idx = vec![];
                while self.l.tok == T::P(b',') {
                    let save = self.l.p;
                    let st = self.l.tok.clone();
                    self.l.next();
                    if let T::Num(_) = self.l.tok {
                        idx.push(self.l.num()? as u32);
                    } else {
                        self.l.p = save;
                        self.l.tok = st;
                        break;
                    }
                }
                self.meta_tail()?;
                Pre::I(I::Extract(d.unwrap(), v, idx))
            }
            "insertvalue" => {
                let (t, v) = self.tyval()?;
                self.l.expect(b',')?;
                let (_, x) = self.tyval()?;
                let mut idx = vec![];
                while self.l.tok == T::P(b',') {
                    let save = self.l.p;
                    let st = self.l.tok.clone();
                    self.l.next();
                    if let T::Num(_) = self.l.tok {
                        idx.push(self.l.num()? as u32);
                    } else {
                        self.l.p = save;
                        self.l.tok = st;
                        break;
                    }
                }
                self.meta_tail()?;
                Pre::I(I::Insert(d.unwrap(), t, v, x, idx))
            }
            "extractelement" => {
                let (_, v) = self.tyval()?;
                self.l.expect(b',')?;
                let (_, i) = self.tyval()?;
                self.meta_tail()?;
                Pre::I(I::ExtractEl(d.unwrap(), v, i))
            }
            "insertelement" => {
                let (t, v) = self.tyval()?;
                self.l.expect(b',')?;
                let (_, x) = self.tyval()?;
                self.l.expect(b',')?;
                let (_, i) = self.tyval()?;
                self.meta_tail()?;
                Pre::I(I::InsertEl(d.unwrap(), t, v, x, i))
            }
            "shufflevector" => {
                let (t, a) = self.tyval()?;
                self.l.expect(b',')?;
                let (_, b) = self.tyval()?;
                self.l.expect(b',')?;
                let mt = self.ty()?;
                let mc = self.konst(&mt)?;
                let n = mt.elems();
                let mask = match mc {
                    C::Zero => vec![Some(0); n],
                    C::Agg(v) => v
                        .into_iter()
                        .map(|(_, c)| match c {
                            C::Int(k) => Some(k as u32),
                            _ => None,
                        })
                        .collect(),
                    C::Splat(b) => match b.1 {
                        C::Int(k) => vec![Some(k as u32); n],
                        _ => vec![None; n],
                    },
                    _ => return Err("shuffle mask".into()),
                };
                self.meta_tail()?;
                Pre::I(I::Shuffle(d.unwrap(), a, b, mask, t.elems()))
            }
            "atomicrmw" => {
                self.l.word("volatile");
                let o = match self.l.next() {
                    T::Word(w) => w,
                    t => return Err(format!("rmw {:?}", t)),
                };
                let (_, p) = self.tyval()?;
                self.l.expect(b',')?;
                let (t, v) = self.tyval()?;
                self.skip_ordering();
                self.meta_tail()?;
                // dst may be unused
                let dd = match d {
                    Some(d) => d,
                    None => self.reg("__unused"),
                };
                Pre::I(I::Rmw(o, dd, t, p, v))
            }
            "cmpxchg" => {
                self.l.word("weak");
                self.l.word("volatile");
                let (_, p) = self.tyval()?;
                self.l.expect(b',')?;
                let (t, c) = self.tyval()?;
                self.l.expect(b',')?;
                let (_, n) = self.tyval()?;
                self.skip_ordering();
                self.meta_tail()?;
                Pre::I(I::CmpXchg(d.unwrap(), t, p, c, n))
            }
            "fence" => {
                self.skip_ordering();
                self.meta_tail()?;
                Pre::I(I::Fence)
            }
            "freeze" => {
                let (_, v) = self.tyval()?;
                self.meta_tail()?;
                Pre::I(I::Copy(d.unwrap(), v))
            }
            "va_arg" | "indirectbr" | "callbr" | "catchswitch" => return Err(format!("unsupported {}", op)),
            _ => return Err(format!("unknown instr {} near {}", op, self.l.ctx())),
        };
        Ok(r)
    }
    fn skip_flags_word(&mut self, w: &str) {
        self.l.word(w);
    }
    fn skip_flags(&mut self) {
        loop {
            match self.l.peek_word() {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract"
                | "afn" | "reassoc" => {
                    self.l.next();
                }
                "inrange" => {
                    self.l.next();
                    self.l.skip_parens();
                }
                _ => return,
            }
        }
    }
    fn skip_ordering(&mut self) {
        loop {
            match self.l.peek_word() {
                "syncscope" => {
                    self.l.next();
                    self.l.skip_parens();
                }
                "unordered" | "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" => {
                    self.l.next();
                }
                _ => return,
            }
        }
    }
}

fn is_fn_attr(w: &str) -> bool {
    matches!(
        w,
        "nounwind" | "noreturn" | "readnone" | "readonly" | "cold" | "memory" | "willreturn" | "nomerge" | "noinline" | "alwaysinline" | "nocallback"
            | "convergent" | "speculatable" | "nobuiltin" | "builtin" | "captures" | "returns_twice" | "mustprogress" | "nofree" | "nosync" | "minsize" | "optsize"
    )
}

impl Module {
    pub fn parse(text: Vec<u8>) -> R<Module> {
        let mut m = Module {
            text: vec![],
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
            md_start: 0,
            next_block: Default::default(),
        };
        // pass 1: line scan
        let mut glob_lines = vec![];
        let mut p = 0;
        let n = text.len();
        while p < n {
            let mut e = p;
            while e < n && text[e] != b'\n' {
                e += 1;
            }
            let line = &text[p..e];
            match line.first() {
                Some(b'%') => {
                    let types = HashMap::new();
                    let mut ps = Parser {
                        l: Lex::new(&text, p, e),
                        m: &types,
                        regs: HashMap::new(),
                        consts: vec![],
                        last_dbg: 0,
                    };
                    if let T::Local(name) = ps.l.next() {
                        ps.l.expect(b'=')?;
                        ps.l.word("type");
                        ps.m = &m.types;
                        let t = ps.ty();
                        if let Ok(t) = t {
                            m.types.insert(name, t);
                        }
                    }
                }
                Some(b'@') => glob_lines.push((p, e)),
                Some(b'd') if line.starts_with(b"define ") => {
                    // find end "\n}\n"
                    let mut q = e;
                    loop {
                        if text[q] == b'\n' && text[q + 1] == b'}' {
                            break;
                        }
                        q += 1;
                    }
                    // name
                    let mut k = p;
                    while text[k] != b'@' {
                        k += 1;
                    }
                    let mut l = Lex {
                        s: &text,
                        p: k + 1,
                        end: e,
                        tok: T::Eof,
                        bol: false,
                    };
                    let name = l.ident();
                    m.fmap.insert(name.clone(), m.funcs.len());
                    m.funcs.push(FuncDecl {
                        name,
                        start: p,
                        end: q + 1,
                        body: OnceLock::new(),
                    });
                    e = q + 2;
                }
                Some(b'!') => {
                    if m.md_start == 0 {
                        m.md_start = p;
                    }
                }
                _ => {}
            }
            p = e + 1;
        }
        for (a, b) in glob_lines {
            let types = std::mem::take(&mut m.types);
            let r = (|| -> R<()> {
                let mut ps = Parser {
                    l: Lex::new(&text, a, b),
                    m: &types,
                    regs: HashMap::new(),
                    consts: vec![],
                    last_dbg: 0,
                };
                let name = match ps.l.next() {
                    T::Global(n) => n,
                    t => return Err(format!("global {:?}", t)),
                };
                ps.l.expect(b'=')?;
                let mut konst = false;
                let mut ext = false;
                loop {
                    let w = ps.l.peek_word().to_string();
                    match w.as_str() {
                        "alias" => {
                            ps.l.next();
                            let _ = ps.ty()?;
                            if ps.l.tok == T::P(b'(') {
                                ps.l.skip_parens();
                            }
                            ps.l.expect(b',')?;
                            let t = ps.ty()?;
                            let c = ps.konst(&t)?;
                            m.aliases.insert(name, c);
                            return Ok(());
                        }
                        "ifunc" => return Ok(()),
                        "global" => {
                            ps.l.next();
                            break;
                        }
                        "constant" => {
                            konst = true;
                            ps.l.next();
                            break;
                        }
                        "external" | "extern_weak" => {
                            ext = true;
                            ps.l.next();
                        }
                        "thread_local" | "addrspace" => {
                            ps.l.next();
                            if ps.l.tok == T::P(b'(') {
                                ps.l.skip_parens();
                            }
                        }
                        "" => return Err(format!("global {} {:?}", name, ps.l.tok)),
                        _ => {
                            ps.l.next();
                        }
                    }
                }
                let ty = ps.ty()?;
                let init = if ext { None } else { Some(ps.konst(&ty).map_err(|e| format!("{}: {}", name, e))?) };
                m.gmap.insert(name.clone(), m.globals.len());
                m.globals.push(GlobalDecl { name, ty, init, konst });
                Ok(())
            })();
            m.types = types;
            r?;
        }
        m.text = text;
        Ok(m)
    }

    pub fn func(&self, i: usize) -> R<Arc<Func>> {
        self.funcs[i]
            .body
            .get_or_init(|| self.parse_func(i).map(Arc::new).map_err(|e| format!("{}: {}", self.funcs[i].name, e)))
            .clone()
    }

    fn parse_func(&self, i: usize) -> R<Func> {
        let fd = &self.funcs[i];
        let mut k = fd.start;
        while self.text[k] != b'@' {
            k += 1;
        }
        let mut ps = Parser {
            l: Lex::new(&self.text, k, fd.end),
            m: &self.types,
            regs: HashMap::new(),
            consts: vec![],
            last_dbg: 0,
        };
        ps.l.next(); // name
        ps.l.expect(b'(')?;
        let mut params = vec![];
        let mut nparam = 0;
        if !ps.l.eat(b')') {
            loop {
                if ps.l.eat(b'.') {
                    ps.l.next();
                    ps.l.next();
                }
                if let T::Word(w) = &ps.l.tok {
                    if w == "..." {
                        ps.l.next();
                        ps.l.expect(b')')?;
                        break;
                    }
                }
                let t = ps.ty()?;
                ps.skip_attrs();
                let name = match &ps.l.tok {
                    T::Local(n) => {
                        let n = n.clone();
                        ps.l.next();
                        n
                    }
                    _ => {
                        let n = nparam.to_string();
                        n
                    }
                };
                nparam += 1;
                let r = ps.reg(&name);
                params.push((t, r));
                if ps.l.eat(b')') {
                    break;
                }
                ps.l.expect(b',')?;
            }
        }
        // skip to '{'
        while ps.l.tok != T::P(b'{') {
            if ps.l.tok == T::Eof {
                return Err("no body".into());
            }
            ps.l.next();
        }
        ps.l.bol = true;
        ps.l.next();
        let mut names: Vec<String> = vec![];
        let mut pre: Vec<Vec<(Pre, u32)>> = vec![];
        // entry label
        if let T::Label(n) = &ps.l.tok {
            names.push(n.clone());
            ps.l.next();
        } else {
            names.push(nparam.to_string());
        }
        pre.push(vec![]);
        loop {
            match &ps.l.tok {
                T::Label(n) => {
                    names.push(n.clone());
                    pre.push(vec![]);
                    ps.l.next();
                }
                T::P(b'}') => break,
                T::Eof => break,
                T::P(b'#') => {
                    return Err("dbg record".into());
                }
                T::Attr => {
                    // debug record "#dbg_value(...)"
                    ps.l.next();
                    if ps.l.tok == T::P(b'(') {
                        ps.l.skip_parens();
                    }
                }
                _ => {
                    let x = ps.instr()?;
                    let d = ps.last_dbg;
                    pre.last_mut().unwrap().push((x, d));
                }
            }
        }
        let bmap: HashMap<String, u32> = names.iter().enumerate().map(|(i, n)| (n.clone(), i as u32)).collect();
        // phis
        let mut phis: Vec<Vec<(u32, Vec<(String, Opd)>)>> = vec![];
        for b in &pre {
            let mut v = vec![];
            for (p, _) in b {
                if let Pre::Phi(d, x) = p {
                    v.push((*d, x.clone()));
                }
            }
            phis.push(v);
        }
        let edge = |from: &str, to: &str| -> R<Edge> {
            let t = *bmap.get(to).ok_or(format!("label {}", to))?;
            let mut c = vec![];
            for (d, inc) in &phis[t as usize] {
                let x = inc.iter().find(|(b, _)| b == from).ok_or(format!("phi {} missing {}", to, from))?;
                c.push((*d, x.1.clone()));
            }
            Ok(Edge {
                to: t,
                copies: Arc::new(c),
            })
        };
        let mut blocks = vec![];
        for (bi, b) in pre.into_iter().enumerate() {
            let from = names[bi].clone();
            let mut ins = vec![];
            let mut dbg = vec![];
            for (p, d) in b {
                let x = match p {
                    Pre::I(i) => i,
                    Pre::Phi(..) => continue,
                    Pre::Term(t) => match t {
                        PTerm::Br(l) => I::Br(edge(&from, &l)?),
                        PTerm::CondBr(c, a, b) => I::CondBr(c, edge(&from, &a)?, edge(&from, &b)?),
                        PTerm::Switch(v, w, d, cs) => {
                            let mut o = vec![];
                            for (k, l) in cs {
                                o.push((k, edge(&from, &l)?));
                            }
                            I::Switch(v, w, edge(&from, &d)?, o)
                        }
                        PTerm::Ret(r) => I::Ret(r),
                        PTerm::Unreachable => I::Unreachable,
                        PTerm::Invoke(d, r, c, a, l) => I::Call {
                            dst: d,
                            ret: r,
                            callee: c,
                            cache: Arc::new(OnceLock::new()),
                            args: a,
                            normal: Some(edge(&from, &l)?),
                        },
                        PTerm::Dead(s) => I::Dead(s),
                    },
                };
                ins.push(x);
                dbg.push(d);
            }
            let gid = self.next_block.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            blocks.push(Block { instrs: ins, dbg, gid });
        }
        Ok(Func {
            name: fd.name.clone(),
            params,
            nregs: ps.regs.len() as u32 + 1,
            blocks,
            consts: ps.consts,
            idx: i,
        })
    }
}

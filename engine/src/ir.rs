//! Reader for textual LLVM IR: globals are laid out at load time, functions are decoded lazily.
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(bool, Vec<Ty>),
    Other,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => match (*w + 7) / 8 {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(true, _) => 1,
            Ty::Struct(false, v) => v.iter().map(|t| t.align()).max().unwrap_or(1),
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w + 7) / 8) as u64,
            Ty::Vec(n, t) => match &**t {
                Ty::Int(w) => (n * *w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(_) => align_up(self.store_size(), self.align()),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(..) => self.store_size(),
            Ty::Struct(packed, v) => {
                let mut o = 0;
                let mut ma = 1;
                for t in v {
                    let a = if *packed { 1 } else { t.align() };
                    ma = ma.max(a);
                    o = align_up(o, a) + t.size();
                }
                align_up(o, ma)
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(packed, v) => {
                let mut o = 0;
                for (k, t) in v.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    o = align_up(o, a);
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off on scalar"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(_, v) => &v[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem of scalar"),
        }
    }
    pub fn slots(&self) -> usize {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.slots(),
            Ty::Struct(_, v) => v.iter().map(|t| t.slots()).sum(),
            _ => 1,
        }
    }
    pub fn slot_off(&self, i: usize) -> usize {
        match self {
            Ty::Struct(_, v) => v[..i].iter().map(|t| t.slots()).sum(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.slots() * i,
            _ => panic!("slot_off"),
        }
    }
    /// (byte offset, bit width) of every scalar leaf
    pub fn leaves(&self, base: u64, out: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Void | Ty::Other => {}
            Ty::Int(w) => out.push((base, *w)),
            Ty::F32 => out.push((base, 32)),
            Ty::F64 | Ty::Ptr => out.push((base, 64)),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                for i in 0..*n {
                    t.leaves(base + i * t.size(), out)
                }
            }
            Ty::Struct(_, v) => {
                for i in 0..v.len() {
                    v[i].leaves(base + self.field_off(i), out)
                }
            }
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => panic!("width of {:?}", self),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opd {
    R(u32),
    C(u64),
    W(u128),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Zext, Sext, Trunc, Copy, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FOp { Add, Sub, Mul, Div, Rem }

#[derive(Debug)]
pub struct Edge {
    pub block: u32,
    pub pc: u32,
    pub copies: Vec<(u32, Opd)>,
}

#[derive(Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opd),
    Intrinsic(String, u32),
    Asm(String),
}

#[derive(Debug)]
pub enum Inst {
    Bin(BinOp, u32, u32, Opd, Opd),
    ICmp(Pred, u32, u32, Opd, Opd),
    Select(u32, Opd, Box<[Opd]>, Box<[Opd]>, Box<[u32]>),
    Cast(CastOp, u32, u32, u32, Opd),
    Gep(u32, Opd, i64, Box<[(Opd, u32, i64)]>),
    Load(u32, Opd, u32),
    LoadN(u32, Opd, Box<[(u64, u32)]>),
    Store(Opd, Opd, u32),
    StoreN(Box<[Opd]>, Opd, Box<[(u64, u32)]>),
    Alloca(u32, u64, u64, Opd),
    Copy(u32, Box<[Opd]>),
    PackBits(u32, Box<[Opd]>, u32),
    UnpackBits(u32, u32, Opd, u32),
    Call(u32, u32, Callee, Box<[Opd]>, u32),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, Box<[(u128, u32)]>, u32, OnceLock<HashMap<u64, u32>>),
    Ret(Box<[Opd]>),
    Unreachable,
    FBin(FOp, u32, u32, Opd, Opd),
    FNeg(u32, u32, Opd),
    FCmp(String, u32, u32, Opd, Opd),
    AtomicRmw(String, u32, u32, Opd, Opd),
    CmpXchg(u32, u32, Opd, Opd, Opd),
    Nop,
    Unsup(String),
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub nregs: u32,
    pub nparams: u32,
    pub code: Vec<Inst>,
    pub edges: Vec<Edge>,
    pub nblocks: u32,
}

pub struct FnInfo {
    pub name: String,
    pub line: Option<(usize, usize)>, // start,end line idx (define..})
    pub body: OnceLock<Func>,
    pub hook: crate::exec::Hook,
}

pub struct Module {
    pub text: String,
    pub lines: Vec<(u32, u32)>,
    pub fns: Vec<FnInfo>,
    pub fn_by_name: HashMap<String, u32>,
    pub gaddr: HashMap<String, u64>,
    pub gsize: HashMap<String, u64>,
    pub image: Vec<u8>,
    pub const_ranges: Vec<(u64, u64)>,
    pub types: HashMap<String, Ty>,
}

pub const GBASE: u64 = 0x10_0000;
pub const FBASE: u64 = 0x1000; // function i is at FBASE + 16*i (below GBASE)

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Word(&'a str),
    Loc(String),
    Glob(String),
    Str(&'a str),
    CStr(&'a str),
    P(char),
    Meta,
    Attr,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
    cur: Tok<'a>,
}

impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self {
        let mut l = Lex { s: s.as_bytes(), i: 0, cur: Tok::Eof };
        l.adv();
        l
    }
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            return String::from_utf8_lossy(&self.s[st..j]).into_owned();
        }
        let st = self.i;
        while self.i < self.s.len() && is_wc(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn adv(&mut self) -> Tok<'a> {
        let old = std::mem::replace(&mut self.cur, Tok::Eof);
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n') {
            self.i += 1;
        }
        if self.i >= self.s.len() {
            self.cur = Tok::Eof;
            return old;
        }
        let c = self.s[self.i];
        let sub = |a: usize, b: usize| unsafe { std::str::from_utf8_unchecked(&self.s[a..b]) };
        self.cur = match c {
            b'%' => {
                self.i += 1;
                Tok::Loc(self.name())
            }
            b'@' => {
                self.i += 1;
                Tok::Glob(self.name())
            }
            b'!' => {
                self.i += 1;
                while self.i < self.s.len() && (is_wc(self.s[self.i]) || self.s[self.i] == b'\\') {
                    self.i += 1;
                }
                Tok::Meta
            }
            b'#' => {
                self.i += 1;
                while self.i < self.s.len() && is_wc(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Attr
            }
            b';' => {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                return { self.adv(); old };
            }
            b'"' => {
                let st = self.i + 1;
                let mut j = st;
                while self.s[j] != b'"' {
                    j += 1;
                }
                self.i = j + 1;
                Tok::Str(sub(st, j))
            }
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                let st = self.i + 2;
                let mut j = st;
                while self.s[j] != b'"' {
                    j += 1;
                }
                self.i = j + 1;
                Tok::CStr(sub(st, j))
            }
            _ if is_wc(c) => {
                let st = self.i;
                while self.i < self.s.len() && is_wc(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Word(sub(st, self.i))
            }
            _ => {
                self.i += 1;
                Tok::P(c as char)
            }
        };
        old
    }
    fn is(&self, c: char) -> bool {
        self.cur == Tok::P(c)
    }
    fn isw(&self, w: &str) -> bool {
        matches!(&self.cur, Tok::Word(x) if *x == w)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("IR parse: expected {:?}, got {:?} in: {}", c, self.cur, String::from_utf8_lossy(&self.s[..self.s.len().min(400)]));
        }
    }
    fn skip_parens(&mut self) {
        self.expect('(');
        let mut d = 1;
        while d > 0 {
            match self.adv() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

fn is_wc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-' | b'+')
}

fn int_ty(w: &str) -> Option<u32> {
    if w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()) {
        w[1..].parse().ok()
    } else {
        None
    }
}

fn is_ty_start(t: &Tok) -> bool {
    match t {
        Tok::Word(w) => {
            int_ty(w).is_some()
                || matches!(*w, "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "metadata" | "label" | "token" | "opaque")
        }
        Tok::P('{') | Tok::P('[') | Tok::P('<') => true,
        Tok::Loc(_) => true,
        _ => false,
    }
}

/// skip parameter/return attributes and other words until a type starts
fn skip_to_ty(l: &mut Lex) {
    loop {
        if is_ty_start(&l.cur) {
            return;
        }
        match l.adv() {
            Tok::Word(w) => {
                if w == "align" && !l.is('(') {
                    l.adv();
                } else if l.is('(') {
                    l.skip_parens();
                }
            }
            Tok::Attr | Tok::Meta | Tok::Str(_) => {
                if l.is('=') {
                    l.adv();
                    l.adv();
                }
            }
            t => panic!("IR parse: skip_to_ty at {:?} in {}", t, String::from_utf8_lossy(&l.s[..l.s.len().min(300)])),
        }
    }
}

fn is_val_start(t: &Tok) -> bool {
    match t {
        Tok::Loc(_) | Tok::Glob(_) | Tok::CStr(_) => true,
        Tok::P('{') | Tok::P('[') | Tok::P('<') => true,
        Tok::Word(w) => {
            let b = w.as_bytes();
            b[0].is_ascii_digit()
                || (b[0] == b'-' && b.len() > 1)
                || matches!(
                    *w,
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "sub" | "add" | "xor" | "bitcast" | "trunc" | "splat" | "asm" | "no_cfi" | "dso_local_equivalent"
                )
        }
        _ => false,
    }
}

fn skip_to_val(l: &mut Lex) {
    loop {
        if is_val_start(&l.cur) {
            return;
        }
        match l.adv() {
            Tok::Word(w) => {
                if w == "align" && !l.is('(') {
                    l.adv();
                } else if l.is('(') {
                    l.skip_parens();
                }
            }
            Tok::Attr => {}
            Tok::Str(_) => {
                if l.is('=') {
                    l.adv();
                    l.adv();
                }
            }
            t => panic!("IR parse: skip_to_val at {:?} in {}", t, String::from_utf8_lossy(&l.s[..l.s.len().min(300)])),
        }
    }
}

fn parse_int(w: &str) -> Option<u128> {
    if let Some(r) = w.strip_prefix('-') {
        r.parse::<u128>().ok().map(|v| v.wrapping_neg())
    } else {
        w.parse::<u128>().ok()
    }
}

pub fn mask128(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

struct FnCtx {
    slots: HashMap<String, u32>,
    tys: HashMap<String, Ty>,
    nregs: u32,
    blocks: HashMap<String, u32>,
}

impl Module {
    pub fn load(text: String) -> Module {
        let mut lines = vec![];
        let b = text.as_bytes();
        let mut st = 0;
        for i in 0..b.len() {
            if b[i] == b'\n' {
                lines.push((st as u32, i as u32));
                st = i + 1;
            }
        }
        let mut m = Module {
            text,
            lines,
            fns: vec![],
            fn_by_name: HashMap::new(),
            gaddr: HashMap::new(),
            gsize: HashMap::new(),
            image: vec![],
            const_ranges: vec![],
            types: HashMap::new(),
        };
        let n = m.lines.len();
        let mut globals: Vec<usize> = vec![];
        let mut aliases: Vec<usize> = vec![];
        let mut i = 0;
        while i < n {
            let l = m.line(i);
            if l.starts_with("define ") {
                let name = fn_name(l);
                let s = i;
                while m.line(i) != "}" {
                    i += 1;
                }
                m.add_fn(name, Some((s, i)));
            } else if l.starts_with("declare ") {
                let name = fn_name(l);
                m.add_fn(name, None);
            } else if l.starts_with('@') {
                if l.contains(" alias ") {
                    aliases.push(i);
                } else {
                    globals.push(i);
                }
            } else if l.starts_with('%') && l.contains("= type") {
                let mut lx = Lex::new(l);
                if let Tok::Loc(nm) = lx.adv() {
                    lx.expect('=');
                    lx.adv();
                    let t = m.parse_ty(&mut lx);
                    m.types.insert(nm, t);
                }
            }
            i += 1;
        }
        // layout
        let mut addr = GBASE;
        let mut inits: Vec<(usize, u64, Ty, usize)> = vec![];
        for gi in globals {
            let l = m.line(gi).to_string();
            let mut lx = Lex::new(&l);
            let nm = match lx.adv() {
                Tok::Glob(x) => x,
                _ => unreachable!(),
            };
            lx.expect('=');
            let mut is_const = false;
            let mut ext = false;
            loop {
                match &lx.cur {
                    Tok::Word("constant") => {
                        is_const = true;
                        lx.adv();
                        break;
                    }
                    Tok::Word("global") => {
                        lx.adv();
                        break;
                    }
                    Tok::Word("external") | Tok::Word("extern_weak") => {
                        ext = true;
                        lx.adv();
                    }
                    Tok::Word(_) => {
                        lx.adv();
                        if lx.is('(') {
                            lx.skip_parens();
                        }
                    }
                    t => panic!("global: {:?} {}", t, l),
                }
            }
            let ty = m.parse_ty(&mut lx);
            // alignment from text
            let mut al = ty.align().max(8);
            if let Some(p) = l.rfind(", align ") {
                let t: String = l[p + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(v) = t.parse::<u64>() {
                    al = al.max(v);
                }
            }
            addr = align_up(addr, al.max(16));
            let sz = if ext { 64.max(ty.size()) } else { ty.size() };
            m.gaddr.insert(nm.clone(), addr);
            m.gsize.insert(nm.clone(), sz);
            if is_const && !ext {
                m.const_ranges.push((addr, addr + sz));
            }
            if !ext {
                inits.push((gi, addr, ty, 0));
            }
            addr += sz.max(1) + 16;
        }
        assert!(FBASE + 16 * (m.fns.len() as u64) < GBASE);
        for ai in aliases {
            let l = m.line(ai).to_string();
            let mut lx = Lex::new(&l);
            let nm = match lx.adv() {
                Tok::Glob(x) => x,
                _ => unreachable!(),
            };
            let mut last = None;
            while lx.cur != Tok::Eof {
                if let Tok::Glob(g) = lx.adv() {
                    last = Some(g);
                }
            }
            if let Some(t) = last {
                if let Some(&f) = m.fn_by_name.get(&t) {
                    m.fn_by_name.insert(nm, f);
                } else if let Some(&a) = m.gaddr.get(&t) {
                    m.gaddr.insert(nm, a);
                }
            }
        }
        m.image = vec![0u8; (align_up(addr, 4096) - GBASE) as usize];
        for (gi, a, _ty, _) in inits {
            let l = m.line(gi).to_string();
            let mut lx = Lex::new(&l);
            lx.adv();
            lx.expect('=');
            loop {
                let w = lx.adv();
                if lx.is('(') {
                    lx.skip_parens();
                }
                if w == Tok::Word("constant") || w == Tok::Word("global") {
                    break;
                }
            }
            let ty = m.parse_ty(&mut lx);
            let vals = m.const_val(&mut lx, &ty);
            let mut lv = vec![];
            ty.leaves(0, &mut lv);
            for (k, (off, w)) in lv.iter().enumerate() {
                let v: u128 = vals[k];
                let nb = (*w as usize + 7) / 8;
                let p = (a - GBASE + off) as usize;
                m.image[p..p + nb].copy_from_slice(&v.to_le_bytes()[..nb]);
            }
        }
        m
    }

    fn add_fn(&mut self, name: String, line: Option<(usize, usize)>) {
        let id = self.fns.len() as u32;
        let hook = crate::exec::hook_for(&name, line.is_some());
        self.fn_by_name.insert(name.clone(), id);
        self.fns.push(FnInfo { name, line, body: OnceLock::new(), hook });
    }

    pub fn line(&self, i: usize) -> &str {
        let (a, b) = self.lines[i];
        &self.text[a as usize..b as usize]
    }

    pub fn is_const_addr(&self, a: u64, n: u64) -> bool {
        match self.const_ranges.binary_search_by(|r| if r.1 <= a { std::cmp::Ordering::Less } else if r.0 > a { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal }) {
            Ok(i) => a + n <= self.const_ranges[i].1,
            Err(_) => false,
        }
    }

    fn parse_ty(&self, l: &mut Lex) -> Ty {
        let t = match l.adv() {
            Tok::Word(w) => {
                if let Some(n) = int_ty(w) {
                    Ty::Int(n)
                } else {
                    match w {
                        "ptr" => {
                            if l.isw("addrspace") {
                                l.adv();
                                l.skip_parens();
                            }
                            Ty::Ptr
                        }
                        "void" => Ty::Void,
                        "float" => Ty::F32,
                        "double" => Ty::F64,
                        "metadata" | "label" | "token" | "opaque" | "half" | "fp128" | "x86_fp80" => Ty::Other,
                        _ => panic!("IR parse: type word {}", w),
                    }
                }
            }
            Tok::Loc(n) => self.types.get(&n).cloned().unwrap_or(Ty::Other),
            Tok::P('{') => {
                let mut v = vec![];
                while !l.is('}') {
                    v.push(self.parse_ty(l));
                    l.eat(',');
                }
                l.expect('}');
                Ty::Struct(false, v)
            }
            Tok::P('[') => {
                let n = match l.adv() {
                    Tok::Word(w) => w.parse::<u64>().unwrap(),
                    t => panic!("array len {:?}", t),
                };
                assert!(l.eatw("x"));
                let t = self.parse_ty(l);
                l.expect(']');
                Ty::Arr(n, Box::new(t))
            }
            Tok::P('<') => {
                if l.is('{') {
                    l.adv();
                    let mut v = vec![];
                    while !l.is('}') {
                        v.push(self.parse_ty(l));
                        l.eat(',');
                    }
                    l.expect('}');
                    l.expect('>');
                    Ty::Struct(true, v)
                } else {
                    let n = match l.adv() {
                        Tok::Word(w) => w.parse::<u64>().unwrap(),
                        t => panic!("vec len {:?}", t),
                    };
                    assert!(l.eatw("x"));
                    let t = self.parse_ty(l);
                    l.expect('>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            t => panic!("IR parse: type {:?} in {}", t, String::from_utf8_lossy(&l.s[..l.s.len().min(300)])),
        };
        t
    }

    fn glob_addr(&self, g: &str) -> u64 {
        if let Some(&a) = self.gaddr.get(g) {
            a
        } else if let Some(&f) = self.fn_by_name.get(g) {
            FBASE + 16 * f as u64
        } else {
            panic!("unknown global @{}", g)
        }
    }

    /// constant value of the given type as flattened leaves
    fn const_val(&self, l: &mut Lex, ty: &Ty) -> Vec<u128> {
        let n = ty.slots();
        match l.cur.clone() {
            Tok::Word("zeroinitializer") | Tok::Word("undef") | Tok::Word("poison") | Tok::Word("null") | Tok::Word("none") => {
                l.adv();
                vec![0; n]
            }
            Tok::Word("true") => {
                l.adv();
                vec![1]
            }
            Tok::Word("false") => {
                l.adv();
                vec![0]
            }
            Tok::CStr(s) => {
                l.adv();
                let b = s.as_bytes();
                let mut out = vec![];
                let mut i = 0;
                while i < b.len() {
                    if b[i] == b'\\' {
                        if b[i + 1] == b'\\' {
                            out.push(b'\\' as u128);
                            i += 2;
                        } else {
                            let h = |c: u8| (c as char).to_digit(16).unwrap() as u128;
                            out.push(h(b[i + 1]) * 16 + h(b[i + 2]));
                            i += 3;
                        }
                    } else {
                        out.push(b[i] as u128);
                        i += 1;
                    }
                }
                out
            }
            Tok::Word("splat") => {
                l.adv();
                l.expect('(');
                let t = self.parse_ty(l);
                let v = self.const_val(l, &t);
                l.expect(')');
                let k = n / v.len();
                let mut out = vec![];
                for _ in 0..k {
                    out.extend_from_slice(&v);
                }
                out
            }
            Tok::P('{') | Tok::P('[') | Tok::P('<') => {
                let mut close = vec![];
                match l.adv() {
                    Tok::P('{') => close.push('}'),
                    Tok::P('[') => close.push(']'),
                    Tok::P('<') => {
                        if l.eat('{') {
                            close.push('}');
                            close.push('>');
                        } else {
                            close.push('>')
                        }
                    }
                    _ => unreachable!(),
                }
                let mut out = vec![];
                while !l.is(close[0]) {
                    let t = self.parse_ty(l);
                    out.extend(self.const_val(l, &t));
                    l.eat(',');
                }
                for c in close {
                    l.expect(c);
                }
                out
            }
            Tok::Glob(g) => {
                l.adv();
                vec![self.glob_addr(&g) as u128]
            }
            Tok::Word("no_cfi") | Tok::Word("dso_local_equivalent") => {
                l.adv();
                self.const_val(l, ty)
            }
            Tok::Word(w) => {
                l.adv();
                match w {
                    "getelementptr" => {
                        while !l.is('(') {
                            l.adv();
                            if l.is('(') && false {}
                            // inrange(...) style attributes
                        }
                        l.expect('(');
                        let sty = self.parse_ty(l);
                        l.expect(',');
                        let bt = self.parse_ty(l);
                        let base = self.const_val(l, &bt)[0] as u64;
                        let mut off = 0i64;
                        let mut cur: Option<Ty> = None;
                        while l.eat(',') {
                            let t = self.parse_ty(l);
                            let w = t.width();
                            let v = self.const_val(l, &t)[0];
                            let idx = sext(v, w);
                            match cur.take() {
                                None => {
                                    off += idx * sty.size() as i64;
                                    cur = Some(sty.clone());
                                }
                                Some(ct) => {
                                    match &ct {
                                        Ty::Struct(..) => off += ct.field_off(idx as usize) as i64,
                                        _ => off += idx * ct.elem(0).size() as i64,
                                    }
                                    cur = Some(match &ct {
                                        Ty::Struct(..) => ct.elem(idx as usize).clone(),
                                        _ => ct.elem(0).clone(),
                                    });
                                }
                            }
                        }
                        l.expect(')');
                        vec![(base.wrapping_add(off as u64)) as u128]
                    }
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" | "bitcast" | "trunc" => {
                        l.expect('(');
                        let t = self.parse_ty(l);
                        let v = self.const_val(l, &t);
                        assert!(l.eatw("to"));
                        let t2 = self.parse_ty(l);
                        l.expect(')');
                        if v.len() == 1 && t2.slots() == 1 {
                            vec![v[0] & mask128(t2.width())]
                        } else {
                            v
                        }
                    }
                    "sub" | "add" | "xor" => {
                        while !l.is('(') {
                            l.adv();
                        }
                        l.expect('(');
                        let t = self.parse_ty(l);
                        let a = self.const_val(l, &t)[0];
                        l.expect(',');
                        let t2 = self.parse_ty(l);
                        let b = self.const_val(l, &t2)[0];
                        l.expect(')');
                        let r = match w {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            _ => a ^ b,
                        };
                        vec![r & mask128(t.width())]
                    }
                    _ => {
                        if matches!(ty, Ty::F64 | Ty::F32) {
                            let bits = if let Some(h) = w.strip_prefix("0x").or_else(|| w.strip_prefix("f0x")) {
                                u64::from_str_radix(h, 16).unwrap()
                            } else {
                                match w.trim_start_matches("+") { "qnan" | "nan" => f64::NAN.to_bits(), "inf" => f64::INFINITY.to_bits(), "-inf" => f64::NEG_INFINITY.to_bits(), x => x.parse::<f64>().unwrap_or_else(|_| panic!("float const {:?}", x)).to_bits() }
                            };
                            if *ty == Ty::F32 {
                                return vec![(f64::from_bits(bits) as f32).to_bits() as u128];
                            }
                            return vec![bits as u128];
                        }
                        let v = parse_int(w).unwrap_or_else(|| panic!("const {:?} of {:?}", w, ty));
                        vec![v & mask128(ty.width())]
                    }
                }
            }
            t => panic!("IR parse: const {:?} in {}", t, String::from_utf8_lossy(&l.s[..l.s.len().min(300)])),
        }
    }

    fn val(&self, l: &mut Lex, ty: &Ty, c: &mut FnCtx) -> Vec<Opd> {
        if let Tok::Loc(n) = l.cur.clone() {
            l.adv();
            let base = *c.slots.get(&n).unwrap_or_else(|| panic!("undefined %{}", n));
            return (0..ty.slots() as u32).map(|i| Opd::R(base + i)).collect();
        }
        let mut ws = vec![];
        let mut lv = vec![];
        ty.leaves(0, &mut lv);
        for (_, w) in lv {
            ws.push(w);
        }
        let v = self.const_val(l, ty);
        v.into_iter().zip(ws).map(|(x, w)| if w > 64 { Opd::W(x) } else { Opd::C(x as u64) }).collect()
    }

    fn tval(&self, l: &mut Lex, c: &mut FnCtx) -> (Ty, Vec<Opd>) {
        let t = self.parse_ty(l);
        skip_to_val(l);
        let v = self.val(l, &t, c);
        (t, v)
    }

    pub fn func(&self, id: u32) -> Option<&Func> {
        let f = &self.fns[id as usize];
        let (s, e) = f.line?;
        Some(f.body.get_or_init(|| self.decode(id, s, e)))
    }

    fn decode(&self, id: u32, s: usize, e: usize) -> Func {
        let mut c = FnCtx { slots: HashMap::new(), tys: HashMap::new(), nregs: 0, blocks: HashMap::new() };
        // parameters
        let head = self.line(s);
        let mut l = Lex::new(head);
        l.adv();
        skip_head_to_name(&mut l);
        l.expect('(');
        let mut unnamed = 0;
        while !l.is(')') {
            if l.is('.') || l.isw("...") {
                l.adv();
                continue;
            }
            let t = self.parse_ty(&mut l);
            while !matches!(l.cur, Tok::Loc(_) | Tok::P(',') | Tok::P(')')) {
                let w = l.adv();
                if w == Tok::Word("align") && !l.is('(') {
                    l.adv();
                } else if l.is('(') {
                    l.skip_parens();
                }
            }
            let nm = if let Tok::Loc(n) = l.cur.clone() {
                l.adv();
                if n.parse::<u32>().is_ok() {
                    unnamed += 1;
                }
                n
            } else {
                unnamed += 1;
                format!("{}", unnamed - 1)
            };
            c.slots.insert(nm.clone(), c.nregs);
            c.nregs += t.slots() as u32;
            c.tys.insert(nm, t);
            l.eat(',');
        }
        let nparams = c.nregs;
        // logical lines
        let mut logical: Vec<(bool, String)> = vec![]; // (is_label, text)
        let mut i = s + 1;
        while i < e {
            let t = self.line(i);
            if t.is_empty() || t.starts_with(';') {
                i += 1;
                continue;
            }
            if !t.starts_with(' ') {
                // label
                let p = if t.starts_with('"') { t[1..].find('"').unwrap() + 2 } else { t.find(':').unwrap() };
                let nm = t[..p].trim_matches('"').to_string();
                logical.push((true, nm));
                i += 1;
                continue;
            }
            let mut txt = t.to_string();
            let mut j = i + 1;
            while j < e {
                let u = self.line(j);
                if u.starts_with("   ") || u.starts_with("  ]") {
                    txt.push(' ');
                    txt.push_str(u);
                    j += 1;
                } else {
                    break;
                }
            }
            logical.push((false, txt));
            i = j;
        }
        if !logical[0].0 {
            logical.insert(0, (true, format!("{}", unnamed)));
        }
        let mut nb = 0;
        for (il, t) in &logical {
            if *il {
                c.blocks.insert(t.clone(), nb);
                nb += 1;
            }
        }
        // pass 1: result types -> slots
        for (il, t) in &logical {
            if *il {
                continue;
            }
            let mut l = Lex::new(t);
            if let Tok::Loc(n) = l.cur.clone() {
                l.adv();
                l.expect('=');
                let ty = self.result_ty(&mut l, &c);
                c.slots.insert(n.clone(), c.nregs);
                c.nregs += ty.slots() as u32;
                c.tys.insert(n, ty);
            }
        }
        // pass 2
        let mut code: Vec<Inst> = vec![];
        let mut edges: Vec<Edge> = vec![];
        let mut bpc = vec![0u32; nb as usize];
        struct Phi {
            dst: u32,
            inc: HashMap<u32, Vec<Opd>>,
        }
        let mut phis: Vec<Vec<Phi>> = (0..nb).map(|_| vec![]).collect();
        let mut edge_src: Vec<u32> = vec![];
        let blocks = c.blocks.clone();
        let mut cur = 0u32;
        for (il, t) in &logical {
            if *il {
                cur = c.blocks[t];
                bpc[cur as usize] = code.len() as u32;
                continue;
            }
            let mut l = Lex::new(t);
            let mut dst = 0;
            let mut dty = Ty::Void;
            if let Tok::Loc(n) = l.cur.clone() {
                l.adv();
                l.expect('=');
                dst = c.slots[&n];
                dty = c.tys[&n].clone();
            }
            let op = loop {
                match l.adv() {
                    Tok::Word(w) if matches!(w, "tail" | "musttail" | "notail") => continue,
                    Tok::Word(w) => break w,
                    x => panic!("inst {:?} in {}", x, t),
                }
            };
            let mut new_edge = |name: &str, edges: &mut Vec<Edge>| -> u32 {
                let b = blocks[name];
                edges.push(Edge { block: b, pc: 0, copies: vec![] });
                edge_src.push(cur);
                (edges.len() - 1) as u32
            };
            match op {
                "phi" => {
                    while !is_ty_start(&l.cur) { l.adv(); }
                    let ty = self.parse_ty(&mut l);
                    let mut inc = HashMap::new();
                    loop {
                        l.expect('[');
                        let v = self.val(&mut l, &ty, &mut c);
                        l.expect(',');
                        let b = match l.adv() {
                            Tok::Loc(n) => c.blocks[&n],
                            x => panic!("phi {:?}", x),
                        };
                        l.expect(']');
                        inc.insert(b, v);
                        if !l.is(',') {
                            break;
                        }
                        l.adv();
                        if !l.is('[') {
                            break;
                        }
                    }
                    phis[cur as usize].push(Phi { dst, inc });
                }
                "br" => {
                    if l.isw("label") {
                        l.adv();
                        if let Tok::Loc(n) = l.adv() {
                            let e = new_edge(&n, &mut edges);
                            code.push(Inst::Br(e));
                        }
                    } else {
                        self.parse_ty(&mut l);
                        let v = self.val(&mut l, &Ty::Int(1), &mut c)[0];
                        l.expect(',');
                        l.adv();
                        let a = match l.adv() {
                            Tok::Loc(n) => new_edge(&n, &mut edges),
                            _ => panic!(),
                        };
                        l.expect(',');
                        l.adv();
                        let b = match l.adv() {
                            Tok::Loc(n) => new_edge(&n, &mut edges),
                            _ => panic!(),
                        };
                        code.push(Inst::CondBr(v, a, b));
                    }
                }
                "switch" => {
                    let ty = self.parse_ty(&mut l);
                    let v = self.val(&mut l, &ty, &mut c)[0];
                    l.expect(',');
                    l.adv();
                    let d = match l.adv() {
                        Tok::Loc(n) => new_edge(&n, &mut edges),
                        _ => panic!(),
                    };
                    l.expect('[');
                    let mut cs = vec![];
                    while !l.is(']') {
                        let t2 = self.parse_ty(&mut l);
                        let k = self.const_val(&mut l, &t2)[0];
                        l.expect(',');
                        l.adv();
                        let e = match l.adv() {
                            Tok::Loc(n) => new_edge(&n, &mut edges),
                            _ => panic!(),
                        };
                        cs.push((k, e));
                    }
                    code.push(Inst::Switch(v, ty.width(), cs.into_boxed_slice(), d, OnceLock::new()));
                }
                "ret" => {
                    let t2 = self.parse_ty(&mut l);
                    let v = if t2 == Ty::Void { vec![] } else { skip_to_val(&mut l); self.val(&mut l, &t2, &mut c) };
                    code.push(Inst::Ret(v.into_boxed_slice()));
                }
                "unreachable" => code.push(Inst::Unreachable),
                "resume" => code.push(Inst::Unsup("resume".into())),
                "landingpad" => code.push(Inst::Unsup("landingpad".into())),
                "fence" => code.push(Inst::Nop),
                "call" | "invoke" => {
                    let r = self.call(&mut l, &mut c, dst, &dty, op == "invoke");
                    code.push(r);
                    if op == "invoke" {
                        // to label %x unwind label %y
                        while !l.isw("to") {
                            l.adv();
                        }
                        l.adv();
                        l.adv();
                        if let Tok::Loc(n) = l.adv() {
                            let e = new_edge(&n, &mut edges);
                            code.push(Inst::Br(e));
                        }
                    }
                }
                _ => self.simple(op, &mut l, &mut c, dst, &dty, &mut code, t),
            }
        }
        for (k, ed) in edges.iter_mut().enumerate() {
            ed.pc = bpc[ed.block as usize];
            let src = edge_src[k];
            for p in &phis[ed.block as usize] {
                let v = p.inc.get(&src).unwrap_or_else(|| panic!("phi missing incoming in {}", self.fns[id as usize].name));
                for (i, o) in v.iter().enumerate() {
                    ed.copies.push((p.dst + i as u32, *o));
                }
            }
        }
        Func { id, nregs: c.nregs, nparams, code, edges, nblocks: nb }
    }

    fn result_ty(&self, l: &mut Lex, c: &FnCtx) -> Ty {
        let op = loop {
            match l.adv() {
                Tok::Word(w) if matches!(w, "tail" | "musttail" | "notail") => continue,
                Tok::Word(w) => break w,
                x => panic!("inst {:?}", x),
            }
        };
        match op {
            "icmp" | "fcmp" => {
                while !is_ty_start(&l.cur) {
                    l.adv();
                }
                match self.parse_ty(l) {
                    Ty::Vec(n, _) => Ty::Vec(n, Box::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                }
            }
            "alloca" | "getelementptr" => Ty::Ptr,
            "load" => {
                while !is_ty_start(&l.cur) {
                    l.adv();
                }
                self.parse_ty(l)
            }
            "cmpxchg" => {
                // cmpxchg [weak] ptr %p, T a, T b
                while !l.is(',') {
                    l.adv();
                }
                l.adv();
                let t = self.parse_ty(l);
                Ty::Struct(false, vec![t, Ty::Int(1)])
            }
            "atomicrmw" => {
                while !l.is(',') {
                    l.adv();
                }
                l.adv();
                self.parse_ty(l)
            }
            "call" | "invoke" => {
                skip_to_ty(l);
                self.parse_ty(l)
            }
            "select" => {
                while !is_ty_start(&l.cur) {
                    l.adv();
                }
                self.parse_ty(l);
                while !l.is(',') {
                    l.adv();
                }
                l.adv();
                self.parse_ty(l)
            }
            "extractvalue" => {
                let t = self.parse_ty(l);
                skip_operand(l, self);
                let mut t = t;
                while l.eat(',') {
                    if let Tok::Word(w) = l.cur {
                        if let Ok(i) = w.parse::<usize>() {
                            l.adv();
                            t = t.elem(i).clone();
                            continue;
                        }
                    }
                    break;
                }
                t
            }
            "landingpad" | "phi" | "insertvalue" | "insertelement" | "freeze" | "fneg" | "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while !is_ty_start(&l.cur) {
                    l.adv();
                }
                self.parse_ty(l)
            }
            "extractelement" => {
                let t = self.parse_ty(l);
                t.elem(0).clone()
            }
            "shufflevector" => {
                let t = self.parse_ty(l);
                skip_operand(l, self);
                l.expect(',');
                self.parse_ty(l);
                skip_operand(l, self);
                l.expect(',');
                match self.parse_ty(l) {
                    Ty::Vec(n, _) => Ty::Vec(n, Box::new(t.elem(0).clone())),
                    _ => panic!(),
                }
            }
            "trunc" | "zext" | "sext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" => {
                while !is_ty_start(&l.cur) {
                    l.adv();
                }
                self.parse_ty(l);
                skip_operand(l, self);
                assert!(l.eatw("to"));
                self.parse_ty(l)
            }
            _ => {
                let _ = c;
                panic!("result_ty: {}", op)
            }
        }
    }

    fn call(&self, l: &mut Lex, c: &mut FnCtx, dst: u32, dty: &Ty, _inv: bool) -> Inst {
        skip_to_ty(l);
        let rty = self.parse_ty(l);
        if l.is('(') {
            l.skip_parens(); // function type
        }
        let nret = dty.slots() as u32;
        let retw = match &rty { Ty::Int(w) => *w, Ty::F64 | Ty::Ptr => 64, Ty::F32 => 32, _ => 0 };
        let mut asm = None;
        let callee = match l.adv() {
            Tok::Glob(n) => {
                if n.starts_with("llvm.") {
                    let mut full = n.clone();
                    full = full["llvm.".len()..].to_string();
                    Callee::Intrinsic(full, retw)
                } else {
                    let f = *self.fn_by_name.get(&n).unwrap_or_else(|| panic!("call of unknown @{}", n));
                    Callee::Direct(f)
                }
            }
            Tok::Loc(n) => Callee::Indirect(Opd::R(c.slots[&n])),
            Tok::Word("asm") => {
                while !matches!(l.cur, Tok::Str(_)) {
                    l.adv();
                }
                let s = match l.adv() {
                    Tok::Str(s) => s.to_string(),
                    _ => unreachable!(),
                };
                l.expect(',');
                l.adv();
                asm = Some(s);
                Callee::Asm(String::new())
            }
            Tok::Word("inttoptr") => {
                l.skip_parens();
                Callee::Asm("inttoptr-callee".into())
            }
            t => panic!("callee {:?}", t),
        };
        let callee = match asm {
            Some(s) => Callee::Asm(s),
            None => callee,
        };
        l.expect('(');
        let mut args = vec![];
        let mut metaonly = false;
        while !l.is(')') {
            let t = self.parse_ty(l);
            if t == Ty::Other {
                metaonly = true;
                // metadata operand: skip until , or )
                let mut d = 0;
                loop {
                    match &l.cur {
                        Tok::P('(') => d += 1,
                        Tok::P(')') if d == 0 => break,
                        Tok::P(')') => d -= 1,
                        Tok::P(',') if d == 0 => break,
                        _ => {}
                    }
                    l.adv();
                }
                l.eat(',');
                continue;
            }
            skip_to_val(l);
            let v = self.val(l, &t, c);
            args.extend(v);
            l.eat(',');
        }
        l.expect(')');
        let _ = metaonly;
        if let Callee::Intrinsic(n, _) = &callee {
            if n.starts_with("lifetime.") || n.starts_with("experimental.noalias") || n.starts_with("assume") || n.starts_with("dbg.") || n.starts_with("x86.sse2.pause") || n.starts_with("prefetch") {
                return Inst::Nop;
            }
            if n.starts_with("threadlocal.address") {
                return Inst::Copy(dst, args.into_boxed_slice());
            }
            if n.starts_with("expect.") {
                return Inst::Copy(dst, vec![args[0]].into_boxed_slice());
            }
            if n.starts_with("is.constant") {
                return Inst::Copy(dst, vec![Opd::C(0)].into_boxed_slice());
            }
        }
        // ret width of vector intrinsics unsupported at exec
        Inst::Call(dst, nret, callee, args.into_boxed_slice(), retw)
    }

    fn simple(&self, op: &str, l: &mut Lex, c: &mut FnCtx, dst: u32, dty: &Ty, code: &mut Vec<Inst>, txt: &str) {
        let binop = |o: &str| {
            Some(match o {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                _ => return None,
            })
        };
        if let Some(b) = binop(op) {
            while !is_ty_start(&l.cur) {
                l.adv();
            }
            let t = self.parse_ty(l);
            let x = self.val(l, &t, c);
            l.expect(',');
            let y = self.val(l, &t, c);
            let w = match &t {
                Ty::Vec(_, e) => e.width(),
                _ => t.width(),
            };
            for i in 0..x.len() {
                code.push(Inst::Bin(b, w, dst + i as u32, x[i], y[i]));
            }
            return;
        }
        match op {
            "icmp" => {
                let mut p = None;
                while !is_ty_start(&l.cur) {
                    if let Tok::Word(w) = l.adv() {
                        p = Some(match w {
                            "eq" => Pred::Eq,
                            "ne" => Pred::Ne,
                            "ugt" => Pred::Ugt,
                            "uge" => Pred::Uge,
                            "ult" => Pred::Ult,
                            "ule" => Pred::Ule,
                            "sgt" => Pred::Sgt,
                            "sge" => Pred::Sge,
                            "slt" => Pred::Slt,
                            "sle" => Pred::Sle,
                            _ => continue,
                        })
                    }
                }
                let t = self.parse_ty(l);
                let x = self.val(l, &t, c);
                l.expect(',');
                let y = self.val(l, &t, c);
                let w = match &t {
                    Ty::Vec(_, e) => e.width(),
                    _ => t.width(),
                };
                for i in 0..x.len() {
                    code.push(Inst::ICmp(p.unwrap(), w, dst + i as u32, x[i], y[i]));
                }
            }
            "fcmp" => {
                let mut p = String::new();
                while !is_ty_start(&l.cur) {
                    if let Tok::Word(w) = l.adv() {
                        p = w.to_string();
                    }
                }
                let t = self.parse_ty(l);
                let x = self.val(l, &t, c);
                l.expect(',');
                let y = self.val(l, &t, c);
                code.push(Inst::FCmp(p, t.width(), dst, x[0], y[0]));
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while !is_ty_start(&l.cur) {
                    l.adv();
                }
                let t = self.parse_ty(l);
                let x = self.val(l, &t, c);
                l.expect(',');
                let y = self.val(l, &t, c);
                let f = match op {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                code.push(Inst::FBin(f, t.width(), dst, x[0], y[0]));
            }
            "fneg" => {
                while !is_ty_start(&l.cur) {
                    l.adv();
                }
                let t = self.parse_ty(l);
                let x = self.val(l, &t, c);
                code.push(Inst::FNeg(t.width(), dst, x[0]));
            }
            "freeze" => {
                let (_, v) = self.tval(l, c);
                code.push(Inst::Copy(dst, v.into_boxed_slice()));
            }
            "select" => {
                while !is_ty_start(&l.cur) {
                    l.adv();
                }
                let ct = self.parse_ty(l);
                let cv = self.val(l, &ct, c);
                l.expect(',');
                let (t, x) = self.tval(l, c);
                l.expect(',');
                let (_, y) = self.tval(l, c);
                if cv.len() == 1 {
                    let mut lv = vec![];
                    t.leaves(0, &mut lv);
                    code.push(Inst::Select(dst, cv[0], x.into_boxed_slice(), y.into_boxed_slice(), lv.iter().map(|z| z.1).collect()));
                } else {
                    let w = t.elem(0).width();
                    for i in 0..cv.len() {
                        code.push(Inst::Select(dst + i as u32, cv[i], vec![x[i]].into(), vec![y[i]].into(), vec![w].into()));
                    }
                }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => {
                while !is_ty_start(&l.cur) {
                    l.adv();
                }
                let (t, v) = self.tval(l, c);
                assert!(l.eatw("to"), "cast {}", txt);
                let t2 = dty.clone();
                if op == "bitcast" {
                    match (&t, &t2) {
                        (Ty::Vec(n, e), x) if x.slots() == 1 => {
                            let _ = n;
                            code.push(Inst::PackBits(dst, v.into_boxed_slice(), e.width()));
                        }
                        (x, Ty::Vec(n, e)) if x.slots() == 1 => code.push(Inst::UnpackBits(dst, *n as u32, v[0], e.width())),
                        (a, b) if a.slots() == b.slots() => code.push(Inst::Copy(dst, v.into_boxed_slice())),
                        _ => code.push(Inst::Unsup(txt.to_string())),
                    }
                    return;
                }
                let wof = |t: &Ty| match t {
                    Ty::Vec(_, e) => e.width(),
                    _ => t.width(),
                };
                let (w1, w2) = (wof(&t), wof(&t2));
                let k = match op {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::Zext,
                    "sext" => CastOp::Sext,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "fpext" => CastOp::FpExt,
                    "fptrunc" => CastOp::FpTrunc,
                    _ => {
                        if w1 == w2 {
                            CastOp::Copy
                        } else if w1 < w2 {
                            CastOp::Zext
                        } else {
                            CastOp::Trunc
                        }
                    }
                };
                for i in 0..v.len() {
                    if k == CastOp::Copy {
                        code.push(Inst::Copy(dst + i as u32, vec![v[i]].into()));
                    } else {
                        code.push(Inst::Cast(k, w1, w2, dst + i as u32, v[i]));
                    }
                }
            }
            "getelementptr" => {
                while !is_ty_start(&l.cur) {
                    let a = l.adv();
                    if let Tok::Word(_) = a {
                        if l.is('(') {
                            l.skip_parens();
                        }
                    }
                }
                let sty = self.parse_ty(l);
                l.expect(',');
                let (_, b) = self.tval(l, c);
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur: Option<Ty> = None;
                while l.eat(',') {
                    if !is_ty_start(&l.cur) {
                        break; // metadata
                    }
                    let t = self.parse_ty(l);
                    let w = t.width();
                    let v = self.val(l, &t, c)[0];
                    let scale;
                    let next;
                    match &cur {
                        None => {
                            scale = sty.size() as i64;
                            next = sty.clone();
                        }
                        Some(ct @ Ty::Struct(..)) => {
                            let i = match v {
                                Opd::C(i) => i as usize,
                                _ => panic!("gep struct"),
                            };
                            off += ct.field_off(i) as i64;
                            cur = Some(ct.elem(i).clone());
                            continue;
                        }
                        Some(ct) => {
                            scale = ct.elem(0).size() as i64;
                            next = ct.elem(0).clone();
                        }
                    }
                    cur = Some(next);
                    match v {
                        Opd::C(k) => off = off.wrapping_add(sext(k as u128, w).wrapping_mul(scale)),
                        v => terms.push((v, w, scale)),
                    }
                }
                code.push(Inst::Gep(dst, b[0], off, terms.into_boxed_slice()));
            }
            "load" => {
                while !is_ty_start(&l.cur) {
                    l.adv();
                }
                let t = self.parse_ty(l);
                l.expect(',');
                let (_, p) = self.tval(l, c);
                if let (Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64, 1) = (&t, t.slots()) {
                    code.push(Inst::Load(dst, p[0], t.width()));
                } else {
                    let mut lv = vec![];
                    t.leaves(0, &mut lv);
                    if let Ty::Vec(_, e) = &t {
                        if e.width() % 8 != 0 {
                            code.push(Inst::Unsup(txt.to_string()));
                            return;
                        }
                    }
                    code.push(Inst::LoadN(dst, p[0], lv.into_boxed_slice()));
                }
            }
            "store" => {
                while !is_ty_start(&l.cur) {
                    l.adv();
                }
                let (t, v) = self.tval(l, c);
                l.expect(',');
                let (_, p) = self.tval(l, c);
                if v.len() == 1 {
                    code.push(Inst::Store(v[0], p[0], t.width()));
                } else {
                    let mut lv = vec![];
                    t.leaves(0, &mut lv);
                    code.push(Inst::StoreN(v.into_boxed_slice(), p[0], lv.into_boxed_slice()));
                }
            }
            "alloca" => {
                while !is_ty_start(&l.cur) {
                    l.adv();
                }
                let t = self.parse_ty(l);
                let mut n = Opd::C(1);
                let mut al = t.align();
                while l.eat(',') {
                    if l.eatw("align") {
                        if let Tok::Word(w) = l.adv() {
                            al = al.max(w.parse().unwrap());
                        }
                    } else if is_ty_start(&l.cur) {
                        let (_, v) = self.tval(l, c);
                        n = v[0];
                    } else {
                        break;
                    }
                }
                code.push(Inst::Alloca(dst, t.size(), al, n));
            }
            "extractvalue" => {
                let (t, v) = self.tval(l, c);
                let mut o = 0;
                let mut t = t;
                while l.eat(',') {
                    match l.cur {
                        Tok::Word(w) if w.parse::<usize>().is_ok() => {
                            let i = w.parse::<usize>().unwrap();
                            l.adv();
                            o += t.slot_off(i);
                            t = t.elem(i).clone();
                        }
                        _ => break,
                    }
                }
                code.push(Inst::Copy(dst, v[o..o + t.slots()].into()));
            }
            "insertvalue" => {
                let (t, mut v) = self.tval(l, c);
                l.expect(',');
                let (_, x) = self.tval(l, c);
                let mut o = 0;
                let mut t = t;
                while l.eat(',') {
                    match l.cur {
                        Tok::Word(w) if w.parse::<usize>().is_ok() => {
                            let i = w.parse::<usize>().unwrap();
                            l.adv();
                            o += t.slot_off(i);
                            t = t.elem(i).clone();
                        }
                        _ => break,
                    }
                }
                for (i, y) in x.iter().enumerate() {
                    v[o + i] = *y;
                }
                code.push(Inst::Copy(dst, v.into_boxed_slice()));
            }
            "insertelement" => {
                let (_, mut v) = self.tval(l, c);
                l.expect(',');
                let (_, x) = self.tval(l, c);
                l.expect(',');
                let (_, i) = self.tval(l, c);
                match i[0] {
                    Opd::C(i) => v[i as usize] = x[0],
                    _ => {
                        code.push(Inst::Unsup(txt.to_string()));
                        return;
                    }
                }
                code.push(Inst::Copy(dst, v.into_boxed_slice()));
            }
            "extractelement" => {
                let (_, v) = self.tval(l, c);
                l.expect(',');
                let (_, i) = self.tval(l, c);
                match i[0] {
                    Opd::C(i) => code.push(Inst::Copy(dst, vec![v[i as usize]].into())),
                    _ => code.push(Inst::Unsup(txt.to_string())),
                }
            }
            "shufflevector" => {
                let (_, a) = self.tval(l, c);
                l.expect(',');
                let (_, b) = self.tval(l, c);
                l.expect(',');
                let t = self.parse_ty(l);
                let m = self.const_val(l, &t);
                let mut all = a;
                all.extend(b);
                code.push(Inst::Copy(dst, m.iter().map(|i| all[*i as usize]).collect()));
            }
            "atomicrmw" => {
                l.eatw("volatile");
                let k = match l.adv() {
                    Tok::Word(w) => w.to_string(),
                    _ => panic!(),
                };
                let (_, p) = self.tval(l, c);
                l.expect(',');
                let (t, v) = self.tval(l, c);
                code.push(Inst::AtomicRmw(k, t.width(), dst, p[0], v[0]));
            }
            "cmpxchg" => {
                while !is_ty_start(&l.cur) {
                    l.adv();
                }
                let (_, p) = self.tval(l, c);
                l.expect(',');
                let (t, a) = self.tval(l, c);
                l.expect(',');
                let (_, b) = self.tval(l, c);
                code.push(Inst::CmpXchg(t.width(), dst, p[0], a[0], b[0]));
            }
            _ => code.push(Inst::Unsup(txt.to_string())),
        }
    }
}

fn skip_operand(l: &mut Lex, m: &Module) {
    // one operand without its type
    skip_to_val(l);
    match l.cur.clone() {
        Tok::Loc(_) => {
            l.adv();
        }
        Tok::P('{') | Tok::P('[') | Tok::P('<') => {
            let mut d = 0;
            loop {
                match l.adv() {
                    Tok::P('{') | Tok::P('[') | Tok::P('<') => d += 1,
                    Tok::P('}') | Tok::P(']') | Tok::P('>') => {
                        d -= 1;
                        if d == 0 {
                            return;
                        }
                    }
                    _ => {}
                }
            }
        }
        Tok::Word(w) => {
            l.adv();
            let _ = (w, m);
            if l.is('(') {
                l.skip_parens();
            } else if matches!(w, "getelementptr") {
                while !l.is('(') {
                    l.adv();
                }
                l.skip_parens();
            } else if w == "sub" || w == "add" || w == "xor" || w == "trunc" {
                while !l.is('(') {
                    l.adv();
                }
                l.skip_parens();
            }
        }
        _ => {
            l.adv();
        }
    }
}

fn skip_head_to_name(l: &mut Lex) {
    // after 'define': skip to the @name token and past it
    loop {
        if let Tok::Glob(_) = l.adv() {
            return;
        }
    }
}

fn fn_name(l: &str) -> String {
    let p = l.find('@').unwrap();
    let r = &l[p + 1..];
    if r.starts_with('"') {
        let e = r[1..].find('"').unwrap();
        r[1..1 + e].to_string()
    } else {
        let e = r.find('(').unwrap();
        r[..e].to_string()
    }
}

pub fn sext(v: u128, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        let s = 64 - w;
        (((v as u64) << s) as i64) >> s
    }
}

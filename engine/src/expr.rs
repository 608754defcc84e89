//! Hash-consed bit-vector expressions with light simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, Eq, Ult, Ule, Slt, Sle, Ite, Zext, Sext, Extract, Concat, Tab,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub const NOVAR: u32 = 0;
pub const MULTI: u32 = u32::MAX;

pub struct Arena {
    pub n: Vec<Node>,
    pub sv: Vec<u32>,    // 0 none, (var<<1|is_byte)+1 single var, MULTI
    pub hash: Vec<u128>, // structural hash including variable ids
    pub shape: Vec<u128>, // structural hash with the single variable anonymised
    map: HashMap<Node, u32, Bh>,
    pub tables: Vec<Rc<[u64; 256]>>,
    tabmap: HashMap<Vec<u64>, u32>,
    tabhash: Vec<u128>,
    evmemo: Vec<(u32, u128)>,
    gen: u32,
    pub masks: HashMap<u128, [u64; 4]>,
    vs: HashMap<u32, Rc<Vec<u32>>>,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
}
pub type Bh = std::hash::BuildHasherDefault<Fx>;

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

fn mix(h: u128, x: u128) -> u128 {
    let m = 0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835u128;
    let y = (h ^ x).wrapping_mul(m);
    let y = y ^ (y >> 61);
    y.rotate_left(47).wrapping_mul(0xD6E8_FEB8_6659_FD93_A5A3_5640_8F2E_1B2Du128) ^ (y >> 70)
}

pub fn apply(op: Op, w: u8, aw: u8, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 & m }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 & m }
        }
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            (sx(a, w) >> s) as u128 & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
        Op::Sle => (sx(a, aw) <= sx(b, aw)) as u128,
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Self {
        Arena {
            n: vec![],
            sv: vec![],
            hash: vec![],
            shape: vec![],
            map: HashMap::default(),
            tables: vec![],
            tabmap: HashMap::new(),
            tabhash: vec![],
            evmemo: vec![],
            gen: 0,
            masks: HashMap::new(),
            vs: HashMap::new(),
        }
    }
    #[inline]
    pub fn w(&self, e: E) -> u8 {
        self.n[e as usize].w
    }
    pub fn kval(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn intern(&mut self, nd: Node) -> E {
        if let Some(&e) = self.map.get(&nd) {
            return e;
        }
        let id = self.n.len() as u32;
        let kids: &[u32] = match nd.op {
            Op::Const | Op::Var => &[],
            Op::Ite => &[nd.a, nd.b, nd.c],
            Op::Zext | Op::Sext | Op::Extract | Op::Tab => &[nd.a],
            _ => &[nd.a, nd.b],
        };
        let mut sv = NOVAR;
        let base = mix(mix(0x1234_5678_9abc, nd.op as u128), nd.w as u128);
        let (mut h, mut s);
        match nd.op {
            Op::Var => {
                sv = (nd.a << 1 | (nd.w == 8) as u32) + 1;
                h = mix(base, 1 + nd.a as u128);
                s = mix(base, 1);
            }
            Op::Const => {
                h = mix(base, nd.k);
                s = h;
            }
            _ => {
                h = mix(base, nd.k);
                if nd.op == Op::Tab {
                    h = mix(h, self.tabhash[nd.b as usize]);
                }
                s = h;
                for &x in kids {
                    let v = self.sv[x as usize];
                    if v != NOVAR {
                        if sv == NOVAR {
                            sv = v
                        } else if sv != v {
                            sv = MULTI
                        }
                    }
                    h = mix(h, self.hash[x as usize]);
                    s = mix(s, self.shape[x as usize]);
                }
                if sv == MULTI {
                    s = h;
                }
            }
        }
        self.n.push(nd);
        self.sv.push(sv);
        self.hash.push(h);
        self.shape.push(s);
        self.map.insert(nd, id);
        id
    }
    pub fn konst(&mut self, w: u8, k: u128) -> E {
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, idx: u32, w: u8) -> E {
        self.intern(Node { op: Op::Var, w, a: idx, b: 0, c: 0, k: 0 })
    }
    fn mk(&mut self, op: Op, w: u8, a: E, b: E) -> E {
        self.intern(Node { op, w, a, b, c: 0, k: 0 })
    }
    pub fn tab(&mut self, idx: E, w: u8, t: [u64; 256]) -> E {
        debug_assert!(self.w(idx) == 8);
        if let Some(k) = self.kval(idx) {
            return self.konst(w, t[k as usize] as u128);
        }
        if t.iter().all(|x| *x == t[0]) {
            return self.konst(w, t[0] as u128);
        }
        let key = t.to_vec();
        let id = match self.tabmap.get(&key) {
            Some(&i) => i,
            None => {
                let i = self.tables.len() as u32;
                let mut h = 77u128;
                for x in t.iter() {
                    h = mix(h, *x as u128);
                }
                self.tabhash.push(h);
                self.tables.push(Rc::new(t));
                self.tabmap.insert(key, i);
                i
            }
        };
        self.intern(Node { op: Op::Tab, w, a: idx, b: id, c: 0, k: 0 })
    }
    pub fn not1(&mut self, a: E) -> E {
        let o = self.konst(1, 1);
        self.bin(Op::Xor, a, o)
    }
    pub fn is_not1(&self, e: E) -> Option<E> {
        let n = &self.n[e as usize];
        if n.op == Op::Xor && n.w == 1 {
            if self.kval(n.b) == Some(1) {
                return Some(n.a);
            }
        }
        None
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let aw = self.w(a);
        debug_assert_eq!(aw, self.w(b));
        let w = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => aw,
        };
        let (ka, kb) = (self.kval(a), self.kval(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let r = apply(op, w, aw, x, y);
            return self.konst(w, r);
        }
        let m = mask(aw);
        // canonical order for commutative ops: constant second
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        let (a, b, ka, kb) = if comm && (ka.is_some() || (kb.is_none() && a > b)) { (b, a, kb, ka) } else { (a, b, ka, kb) };
        let na = self.n[a as usize];
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.kval(na.b) {
                            let kk = self.konst(aw, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                }
            }
            Op::Sub => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = kb {
                    let kk = self.konst(aw, k.wrapping_neg());
                    return self.bin(Op::Add, a, kk);
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(m) {
                    return a;
                }
                if let Some(k) = kb {
                    // and(zext(x), k) with k covering x
                    if na.op == Op::Zext {
                        let iw = self.w(na.a);
                        if k & mask(iw) == mask(iw) {
                            return a;
                        }
                        let kk = self.konst(iw, k);
                        let i = self.bin(Op::And, na.a, kk);
                        return self.zext(i, aw);
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.kval(na.b) {
                            let kk = self.konst(aw, k & k2);
                            return self.bin(Op::And, na.a, kk);
                        }
                    }
                }
                if aw == 1 && (self.is_not1(a) == Some(b) || self.is_not1(b) == Some(a)) {
                    return self.konst(1, 0);
                }
            }
            Op::Or => {
                if a == b || kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                if aw == 1 && (self.is_not1(a) == Some(b) || self.is_not1(b) == Some(a)) {
                    return self.konst(1, 1);
                }
                // or of disjoint concat pieces
                if let Some(r) = self.or_concat(a, b) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::Xor {
                        if let Some(k2) = self.kval(na.b) {
                            let kk = self.konst(aw, k ^ k2);
                            return self.bin(Op::Xor, na.a, kk);
                        }
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if k >= aw as u128 {
                        if op != Op::AShr {
                            return self.konst(aw, 0);
                        }
                    } else {
                        let k = k as u8;
                        if op == Op::LShr {
                            let x = self.extract(a, k, aw - k);
                            return self.zext(x, aw);
                        }
                        if op == Op::Shl {
                            let x = self.extract(a, 0, aw - k);
                            let z = self.konst(k, 0);
                            return self.concat(x, z);
                        }
                    }
                }
            }
            Op::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(aw, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(aw, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if let Some(k) = kb {
                    match na.op {
                        Op::Zext => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return self.konst(1, 0);
                            }
                            let kk = self.konst(iw, k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Sext => {
                            let iw = self.w(na.a);
                            let lo = k & mask(iw);
                            if (sx(lo, iw) as u128) & m != k {
                                return self.konst(1, 0);
                            }
                            let kk = self.konst(iw, lo);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hk = self.konst(aw - lw, k >> lw);
                            let lk = self.konst(lw, k);
                            let x = self.bin(Op::Eq, na.a, hk);
                            let y = self.bin(Op::Eq, na.b, lk);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Xor => {
                            if let Some(k2) = self.kval(na.b) {
                                let kk = self.konst(aw, k ^ k2);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                            if k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Add => {
                            if let Some(k2) = self.kval(na.b) {
                                let kk = self.konst(aw, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Sub => {
                            if k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Or if k == 0 && aw > 1 => {
                            let x = self.bin(Op::Eq, na.a, b);
                            let y = self.bin(Op::Eq, na.b, b);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            let (t, f) = (self.kval(na.b), self.kval(na.c));
                            if let (Some(t), Some(f)) = (t, f) {
                                return match (t == k, f == k) {
                                    (true, true) => self.konst(1, 1),
                                    (false, false) => self.konst(1, 0),
                                    (true, false) => na.a,
                                    (false, true) => self.not1(na.a),
                                };
                            }
                            if t.is_some() || f.is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                    if aw == 1 {
                        return if k == 1 { a } else { self.not1(a) };
                    }
                } else {
                    let nb = self.n[b as usize];
                    if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.bin(Op::Eq, na.a, nb.a);
                        let y = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, x, y);
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return self.konst(1, (op == Op::Ule) as u128);
                }
                if op == Op::Ult && kb == Some(0) {
                    return self.konst(1, 0);
                }
                if op == Op::Ult && kb == Some(1) {
                    let z = self.konst(aw, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if op == Op::Ule && ka == Some(0) {
                    return self.konst(1, 1);
                }
                let nb = self.n[b as usize];
                if na.op == Op::Zext {
                    if let Some(k) = kb {
                        let iw = self.w(na.a);
                        if k > mask(iw) {
                            return self.konst(1, 1);
                        }
                        let kk = self.konst(iw, k);
                        return self.bin(op, na.a, kk);
                    }
                    if nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) {
                        return self.bin(op, na.a, nb.a);
                    }
                }
                if nb.op == Op::Zext {
                    if let Some(k) = ka {
                        let iw = self.w(nb.a);
                        if k > mask(iw) {
                            return self.konst(1, 0);
                        }
                        let kk = self.konst(iw, k);
                        return self.bin(op, kk, nb.a);
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.konst(1, (op == Op::Sle) as u128);
                }
                let nb = self.n[b as usize];
                // zext'd operand against a non-negative constant
                let z = |n: &Node, s: &Self| n.op == Op::Zext && s.w(n.a) < aw;
                if z(&na, self) {
                    if let Some(k) = kb {
                        if k >> (aw - 1) & 1 == 1 {
                            return self.konst(1, 0);
                        }
                        let u = if op == Op::Slt { Op::Ult } else { Op::Ule };
                        return self.bin(u, a, b);
                    }
                }
                if z(&nb, self) {
                    if let Some(k) = ka {
                        if k >> (aw - 1) & 1 == 1 {
                            return self.konst(1, 1);
                        }
                        let u = if op == Op::Slt { Op::Ult } else { Op::Ule };
                        return self.bin(u, a, b);
                    }
                }
            }
            _ => {}
        }
        self.mk(op, w, a, b)
    }
    /// or of two expressions whose possibly-set bits do not overlap and that split at a byte position
    fn or_concat(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w <= 8 {
            return None;
        }
        // pattern: a = concat(hi, 0..0[k]) , b = zext(lo) with w(lo) <= k (or the reverse)
        for (x, y) in [(a, b), (b, a)] {
            let nx = self.n[x as usize];
            let ny = self.n[y as usize];
            if nx.op == Op::Concat && self.kval(nx.b) == Some(0) {
                let k = self.w(nx.b);
                if ny.op == Op::Zext && self.w(ny.a) <= k {
                    let lo = self.zext(ny.a, k);
                    return Some(self.concat(nx.a, lo));
                }
                if ny.op == Op::Concat {
                    let nh = self.n[ny.a as usize];
                    // y = concat(zext/0, stuff[k2])
                    if self.w(ny.b) == k && self.kval(ny.a) == Some(0) {
                        return Some(self.concat(nx.a, ny.b));
                    }
                    let _ = nh;
                }
            }
        }
        None
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.kval(a) {
            return self.konst(w, k);
        }
        let n = self.n[a as usize];
        if n.op == Op::Zext {
            return self.zext(n.a, w);
        }
        self.intern(Node { op: Op::Zext, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.kval(a) {
            return self.konst(w, sx(k, aw) as u128);
        }
        let n = self.n[a as usize];
        if n.op == Op::Zext {
            return self.zext(n.a, w);
        }
        self.intern(Node { op: Op::Sext, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(k) = self.kval(a) {
            return self.konst(w, k >> lo);
        }
        let n = self.n[a as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.k as u8, w),
            Op::Zext => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::Sext => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::Ite => {
                if self.kval(n.b).is_some() || self.kval(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Tab if lo == 0 => {
                let t = self.tables[n.b as usize].clone();
                let mut u = [0u64; 256];
                for i in 0..256 {
                    u[i] = t[i] & mask(w) as u64;
                }
                return self.tab(n.a, w, u);
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(a), Some(b)) = (self.kval(h), self.kval(l)) {
            return self.konst(w, (a << lw) | b);
        }
        if self.kval(h) == Some(0) {
            return self.zext(l, w);
        }
        let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + lw as u128 {
            return self.extract(nh.a, nl.k as u8, w);
        }
        // extract(x, lw..) : x[0..lw]
        if nh.op == Op::Extract && nh.a == l && nh.k == lw as u128 {
            return self.extract(l, 0, w);
        }
        if nl.op == Op::Concat {
            // keep right-nested low part merged when adjacent: concat(h, concat(m, l)) -> concat(concat(h,m), l) if h,m merge
            let m = nl.a;
            let nm = self.n[m as usize];
            if nh.op == Op::Extract && nm.op == Op::Extract && nh.a == nm.a && nh.k == nm.k + nm.w as u128 {
                let hm = self.concat(h, m);
                return self.concat(hm, nl.b);
            }
        }
        if nh.op == Op::Concat {
            // normalise to right-nested
            let x = self.concat(nh.b, l);
            return self.concat(nh.a, x);
        }
        self.intern(Node { op: Op::Concat, w, a: h, b: l, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.kval(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.kval(a), self.kval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        if let Some(nc) = self.is_not1(c) {
            return self.ite(nc, b, a);
        }
        self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn eval(&mut self, e: E, env: &[u64]) -> u128 {
        if let Some(k) = self.kval(e) {
            return k;
        }
        self.gen += 1;
        if self.evmemo.len() < self.n.len() {
            self.evmemo.resize(self.n.len(), (0, 0));
        }
        self.ev(e, env)
    }
    fn ev(&mut self, e: E, env: &[u64]) -> u128 {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return env[n.a as usize] as u128 & mask(n.w),
            _ => {}
        }
        let (g, v) = self.evmemo[e as usize];
        if g == self.gen {
            return v;
        }
        let r = match n.op {
            Op::Ite => {
                if self.ev(n.a, env) == 1 {
                    self.ev(n.b, env)
                } else {
                    self.ev(n.c, env)
                }
            }
            Op::Zext => self.ev(n.a, env),
            Op::Sext => {
                let aw = self.w(n.a);
                sx(self.ev(n.a, env), aw) as u128 & mask(n.w)
            }
            Op::Extract => (self.ev(n.a, env) >> n.k as u32) & mask(n.w),
            Op::Concat => {
                let lw = self.w(n.b);
                (self.ev(n.a, env) << lw) | self.ev(n.b, env)
            }
            Op::Tab => {
                let i = self.ev(n.a, env) as usize;
                self.tables[n.b as usize][i] as u128 & mask(n.w)
            }
            op => {
                let aw = self.w(n.a);
                let a = self.ev(n.a, env);
                let b = self.ev(n.b, env);
                apply(op, n.w, aw, a, b)
            }
        };
        self.evmemo[e as usize] = (self.gen, r);
        r
    }
    /// values of a single-8-bit-variable expression for all 256 values of its variable
    pub fn table256(&mut self, e: E) -> Vec<u128> {
        let v = self.sv[e as usize];
        debug_assert!(v != MULTI && v != NOVAR);
        let v = ((v - 1) >> 1) as usize;
        let mut env = vec![0u64; v + 1];
        let mut out = Vec::with_capacity(256);
        for x in 0..256u64 {
            env[v] = x;
            out.push(self.eval(e, &env));
        }
        out
    }
    pub fn is_byte_single(&self, e: E) -> Option<u32> {
        let v = self.sv[e as usize];
        if v == NOVAR || v == MULTI {
            return None;
        }
        if (v - 1) & 1 == 1 {
            Some((v - 1) >> 1)
        } else {
            None
        }
    }
    pub fn mask256(&mut self, e: E) -> ([u64; 4], bool) {
        let s = self.shape[e as usize];
        if let Some(m) = self.masks.get(&s) {
            return (*m, false);
        }
        let t = self.table256(e);
        let mut m = [0u64; 4];
        for i in 0..256 {
            if t[i] == 1 {
                m[i / 64] |= 1 << (i % 64);
            }
        }
        self.masks.insert(s, m);
        (m, true)
    }
    pub fn varset(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = self.vs.get(&e) {
            return v.clone();
        }
        let sv = self.sv[e as usize];
        let r = if sv == NOVAR {
            Rc::new(vec![])
        } else if sv != MULTI {
            Rc::new(vec![(sv - 1) >> 1])
        } else {
            let n = self.n[e as usize];
            let mut out: Vec<u32> = vec![];
            let kids: Vec<u32> = match n.op {
                Op::Ite => vec![n.a, n.b, n.c],
                Op::Zext | Op::Sext | Op::Extract | Op::Tab => vec![n.a],
                _ => vec![n.a, n.b],
            };
            for k in kids {
                let s = self.varset(k);
                out.extend(s.iter());
            }
            out.sort_unstable();
            out.dedup();
            Rc::new(out)
        };
        self.vs.insert(e, r.clone());
        r
    }
}

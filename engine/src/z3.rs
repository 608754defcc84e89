//! Minimal FFI to libz3 and translation of arena expressions.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("rsx: z3 error code {} {}", e, unsafe { CStr::from_ptr(Z3_get_error_msg(_c, e)).to_string_lossy().into_owned() });
    eprintln!("{}", std::backtrace::Backtrace::force_capture());
    std::process::exit(2);
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub struct Z3 {
    c: P,
    sorts: HashMap<u8, P>,
    memo: HashMap<E, P, Bh>, // bit-vector form
    bmemo: HashMap<E, P, Bh>,
    vars: HashMap<u32, P>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new(timeout_ms.to_string()).unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            let _ = Z3_mk_context as usize;
            Z3_set_error_handler(c, Some(on_err));
            Z3 { c, sorts: HashMap::new(), memo: HashMap::default(), bmemo: HashMap::default(), vars: HashMap::new() }
        }
    }
    /// drop memoised translations (bounded memory on long runs)
    pub fn trim(&mut self) {
        if self.memo.len() + self.bmemo.len() > 400_000 {
            unsafe {
                for (_, p) in self.memo.drain() {
                    Z3_dec_ref(self.c, p);
                }
                for (_, p) in self.bmemo.drain() {
                    Z3_dec_ref(self.c, p);
                }
            }
        }
    }
    fn sort(&mut self, w: u8) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(c, w as u32);
            Z3_inc_ref(c, s);
            s
        })
    }
    fn num(&mut self, w: u8, k: u128) -> P {
        let s = CString::new(k.to_string()).unwrap();
        let t = self.sort(w);
        unsafe { Z3_mk_numeral(self.c, s.as_ptr(), t) }
    }
    pub fn var(&mut self, i: u32, w: u8) -> P {
        if let Some(&p) = self.vars.get(&(i << 8 | w as u32)) {
            return p;
        }
        let nm = CString::new(format!("v{}_{}", i, w)).unwrap();
        let t = self.sort(w);
        unsafe {
            let s = Z3_mk_string_symbol(self.c, nm.as_ptr());
            let p = Z3_mk_const(self.c, s, t);
            Z3_inc_ref(self.c, p);
            self.vars.insert(i << 8 | w as u32, p);
            p
        }
    }
    fn keep(&mut self, e: E, p: P) -> P {
        unsafe { Z3_inc_ref(self.c, p) };
        self.memo.insert(e, p);
        p
    }
    pub fn bv(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.memo.get(&e) {
            return p;
        }
        let n = ar.n[e as usize];
        let c = self.c;
        unsafe {
            let p = match n.op {
                Op::Const => self.num(n.w, n.k),
                Op::Var => self.var(n.a, n.w),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.boolean(ar, e);
                    let one = self.num(1, 1);
                    Z3_inc_ref(c, one);
                    let zero = self.num(1, 0);
                    let r = Z3_mk_ite(c, b, one, zero);
                    r
                }
                Op::Ite => {
                    let b = self.boolean(ar, n.a);
                    let x = self.bv(ar, n.b);
                    let y = self.bv(ar, n.c);
                    Z3_mk_ite(c, b, x, y)
                }
                Op::Zext => {
                    let x = self.bv(ar, n.a);
                    Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as u32, x)
                }
                Op::Sext => {
                    let x = self.bv(ar, n.a);
                    Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as u32, x)
                }
                Op::Extract => {
                    let x = self.bv(ar, n.a);
                    let lo = n.k as u32;
                    Z3_mk_extract(c, lo + n.w as u32 - 1, lo, x)
                }
                Op::Tab => {
                    let x = self.bv(ar, n.a);
                    let t = ar.tables[n.b as usize].clone();
                    // group equal values into ranges
                    let mut cur = self.num(n.w, t[255] as u128);
                    Z3_inc_ref(c, cur);
                    let mut i = 254i32;
                    while i >= 0 {
                        let mut j = i;
                        while j > 0 && t[j as usize - 1] == t[i as usize] {
                            j -= 1;
                        }
                        // values j..=i
                        if t[i as usize] != t[i as usize + 1] || true {
                            let hi = self.num(8, i as u128);
                            Z3_inc_ref(c, hi);
                            let le = Z3_mk_bvule(c, x, hi);
                            Z3_inc_ref(c, le);
                            let v = self.num(n.w, t[i as usize] as u128);
                            Z3_inc_ref(c, v);
                            let r = Z3_mk_ite(c, le, v, cur);
                            Z3_inc_ref(c, r);
                            cur = r;
                        }
                        i = j - 1;
                    }
                    cur
                }
                op => {
                    let a = self.bv(ar, n.a);
                    let b = self.bv(ar, n.b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            };
            self.keep(e, p)
        }
    }
    pub fn boolean(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bmemo.get(&e) {
            return p;
        }
        let n = ar.n[e as usize];
        let c = self.c;
        unsafe {
            let p = match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq if ar.w(n.a) > 1 => {
                    let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult => {
                    let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    Z3_mk_bvult(c, a, b)
                }
                Op::Ule => {
                    let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    Z3_mk_bvule(c, a, b)
                }
                Op::Slt => {
                    let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    Z3_mk_bvslt(c, a, b)
                }
                Op::Sle => {
                    let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    Z3_mk_bvsle(c, a, b)
                }
                Op::And | Op::Or | Op::Xor | Op::Eq if ar.w(n.a) == 1 => {
                    let (a, b) = (self.boolean(ar, n.a), self.boolean(ar, n.b));
                    let v = [a, b];
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, v.as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, v.as_ptr()),
                        Op::Eq => Z3_mk_eq(c, a, b),
                        _ => {
                            if ar.kval(n.b) == Some(1) {
                                Z3_mk_not(c, a)
                            } else {
                                Z3_mk_xor(c, a, b)
                            }
                        }
                    }
                }
                Op::Ite => {
                    let (a, b, d) = (self.boolean(ar, n.a), self.boolean(ar, n.b), self.boolean(ar, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                _ => {
                    let x = self.bv(ar, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            };
            Z3_inc_ref(c, p);
            self.bmemo.insert(e, p);
            p
        }
    }
    /// membership of an 8-bit variable in a 256-bit set
    pub fn in_set(&mut self, v: P, m: &[u64; 4]) -> P {
        let c = self.c;
        let mut ors = vec![];
        let has = |i: usize| m[i / 64] >> (i % 64) & 1 == 1;
        let mut i = 0;
        unsafe {
            while i < 256 {
                if has(i) {
                    let mut j = i;
                    while j < 255 && has(j + 1) {
                        j += 1;
                    }
                    let lo = self.num(8, i as u128);
                    Z3_inc_ref(c, lo);
                    let hi = self.num(8, j as u128);
                    Z3_inc_ref(c, hi);
                    let r = if i == j {
                        Z3_mk_eq(c, v, lo)
                    } else {
                        let a = Z3_mk_bvule(c, lo, v);
                        Z3_inc_ref(c, a);
                        let b = Z3_mk_bvule(c, v, hi);
                        Z3_inc_ref(c, b);
                        Z3_mk_and(c, 2, [a, b].as_ptr())
                    };
                    Z3_inc_ref(c, r);
                    ors.push(r);
                    i = j + 1;
                } else {
                    i += 1;
                }
            }
            let r = Z3_mk_or(c, ors.len() as u32, ors.as_ptr());
            Z3_inc_ref(c, r);
            r
        }
    }
    /// check conjunction; on sat returns values of vars
    pub fn check(&mut self, asserts: &[P], vars: &[(u32, u8)], dump: Option<&mut String>) -> (Res, Vec<u64>) {
        let c = self.c;
        unsafe {
            let s = Z3_mk_simple_solver(c);
            let _ = Z3_mk_solver_for_logic as usize;
            Z3_solver_inc_ref(c, s);
            for a in asserts {
                Z3_solver_assert(c, s, *a);
            }
            if let Some(d) = dump {
                *d = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
            }
            let r = Z3_solver_check(c, s);
            let mut out = vec![];
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    for (v, w) in vars {
                        let p = self.var(*v, *w);
                        let mut o: P = std::ptr::null_mut();
                        let mut x = 0u64;
                        if Z3_model_eval(c, m, p, true, &mut o) {
                            Z3_inc_ref(c, o);
                            Z3_get_numeral_uint64(c, o, &mut x);
                            Z3_dec_ref(c, o);
                        }
                        out.push(x);
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(c, s);
            (res, out)
        }
    }
    /// is the boolean expression e (over one 8-bit variable) equivalent to membership in m ?
    pub fn certify(&mut self, ar: &Arena, e: E, v: u32, m: &[u64; 4], dump: Option<&mut String>) -> Res {
        let b = self.boolean(ar, e);
        let pv = self.var(v, 8);
        unsafe {
            let s = self.in_set(pv, m);
            let x = Z3_mk_xor(self.c, b, s);
            Z3_inc_ref(self.c, x);
            let r = self.check(&[x], &[], dump).0;
            Z3_dec_ref(self.c, x);
            Z3_dec_ref(self.c, s);
            r
        }
    }
    /// certify a value table of a single-variable expression
    pub fn certify_vals(&mut self, ar: &Arena, e: E, v: u32, t: &[u128]) -> Res {
        let w = ar.w(e);
        let b = self.bv(ar, e);
        let pv = self.var(v, 8);
        // one solver, 256 scoped checks  v == x  =>  e == t[x]
        unsafe {
            let c = self.c;
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let mut res = Res::Unsat;
            for x in 0..256u32 {
                Z3_solver_push(c, s);
                let k = self.num(8, x as u128);
                Z3_inc_ref(c, k);
                let eq = Z3_mk_eq(c, pv, k);
                Z3_inc_ref(c, eq);
                let val = self.num(w, t[x as usize]);
                Z3_inc_ref(c, val);
                let ev = Z3_mk_eq(c, b, val);
                Z3_inc_ref(c, ev);
                let ne = Z3_mk_not(c, ev);
                Z3_inc_ref(c, ne);
                Z3_solver_assert(c, s, eq);
                Z3_solver_assert(c, s, ne);
                let r = Z3_solver_check(c, s);
                for p in [k, eq, val, ev, ne] {
                    Z3_dec_ref(c, p);
                }
                Z3_solver_pop(c, s, 1);
                if r != -1 {
                    res = if r == 1 { Res::Sat } else { Res::Unknown };
                    break;
                }
            }
            Z3_solver_dec_ref(c, s);
            res
        }
    }
}

//! Interface between a harness and the symbolic executor (or, natively, a replayed input list).
#[cfg(not(feature = "native"))]
mod ext {
    extern "C-unwind" {
        pub fn rsx_u8(set: *const u64) -> u8;
        pub fn rsx_u64() -> u64;
        pub fn rsx_pin(v: u64) -> u64;
        pub fn rsx_assume(c: u32);
        pub fn rsx_fail(p: *const u8, n: usize) -> !;
        pub fn rsx_out(v: u64);
        pub fn rsx_cover(v: u32);
    }
}
#[cfg(feature = "native")]
pub mod ext {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct St {
        pub ins: Vec<u64>,
        pub pos: usize,
        pub outs: Vec<u64>,
        pub text: Option<String>,
    }
    thread_local!(pub static ST: RefCell<St> = RefCell::new(St::default()));
    pub struct Failed(pub String);
    pub struct Assume;
    fn next() -> u64 {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            let v = s.ins.get(s.pos).copied().unwrap_or(0);
            s.pos += 1;
            v
        })
    }
    pub unsafe fn rsx_u8(set: *const u64) -> u8 {
        let v = next() as u8;
        if *set.add((v / 64) as usize) >> (v % 64) & 1 == 0 {
            std::panic::panic_any(Assume)
        }
        v
    }
    pub unsafe fn rsx_u64() -> u64 {
        next()
    }
    pub unsafe fn rsx_pin(v: u64) -> u64 {
        v
    }
    pub unsafe fn rsx_assume(c: u32) {
        if c == 0 {
            std::panic::panic_any(Assume)
        }
    }
    pub unsafe fn rsx_fail(p: *const u8, n: usize) -> ! {
        let s = std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)).to_string();
        std::panic::panic_any(Failed(s))
    }
    pub unsafe fn rsx_out(v: u64) {
        ST.with(|s| s.borrow_mut().outs.push(v))
    }
    pub unsafe fn rsx_cover(_v: u32) {}
}

/// A set of byte values.
#[derive(Clone, Copy)]
pub struct Set(pub [u64; 4]);
impl Set {
    pub const fn none() -> Set {
        Set([0; 4])
    }
    pub const fn of(s: &[u8]) -> Set {
        let mut r = [0u64; 4];
        let mut i = 0;
        while i < s.len() {
            r[(s[i] / 64) as usize] |= 1 << (s[i] % 64);
            i += 1;
        }
        Set(r)
    }
    pub const fn range(a: u8, b: u8) -> Set {
        let mut r = [0u64; 4];
        let mut i = a as usize;
        while i <= b as usize {
            r[i / 64] |= 1 << (i % 64);
            i += 1;
        }
        Set(r)
    }
    pub const fn or(self, o: Set) -> Set {
        Set([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]])
    }
    pub fn has(&self, b: u8) -> bool {
        self.0[(b / 64) as usize] >> (b % 64) & 1 == 1
    }
    pub const fn minus(self, o: Set) -> Set {
        Set([self.0[0] & !o.0[0], self.0[1] & !o.0[1], self.0[2] & !o.0[2], self.0[3] & !o.0[3]])
    }
}
pub const ASCII: Set = Set::range(0, 127);
pub const DIGIT: Set = Set::range(b'0', b'9');
pub const LOWER: Set = Set::range(b'a', b'z');
pub const UPPER: Set = Set::range(b'A', b'Z');
pub const ALPHA: Set = LOWER.or(UPPER);
pub const ALNUM: Set = ALPHA.or(DIGIT);
pub const WORD: Set = ALNUM.or(Set::of(b"_"));
pub const PRINT: Set = Set::range(32, 126);
pub const HEX: Set = DIGIT.or(Set::of(b"abcdefABCDEF"));

#[inline(never)]
pub fn sym(s: Set) -> u8 {
    unsafe { ext::rsx_u8(s.0.as_ptr()) }
}
pub fn sym64() -> u64 {
    unsafe { ext::rsx_u64() }
}
pub fn pin(v: u64) -> u64 {
    unsafe { ext::rsx_pin(v) }
}
/// A concrete choice among 0..n (the executor explores every one of them).
#[inline(never)]
pub fn choose(n: usize) -> usize {
    let v = sym(Set::range(0, (n - 1) as u8));
    pin(v as u64) as usize
}
static mut BUDGET: usize = 0;
/// Limits how many of the following `alt` choices may differ from the first alternative.
pub fn budget(n: usize) {
    unsafe { BUDGET = n }
}
/// As `choose`, but at most `budget` of these choices differ from 0 on one path.
#[inline(never)]
pub fn alt(n: usize) -> usize {
    if unsafe { BUDGET } == 0 {
        return 0;
    }
    let v = choose(n);
    if v > 0 {
        unsafe { BUDGET -= 1 }
    }
    v
}
pub fn pick<T: Copy>(a: &[T]) -> T {
    a[choose(a.len())]
}
pub fn assume(c: bool) {
    unsafe { ext::rsx_assume(c as u32) }
}
#[inline(never)]
pub fn fail(m: &str) -> ! {
    unsafe { ext::rsx_fail(m.as_ptr(), m.len()) }
}
pub fn out(v: u64) {
    unsafe { ext::rsx_out(v) }
}
pub fn out_bytes(b: &[u8]) {
    out(b.len() as u64);
    for x in b {
        out(*x as u64)
    }
}
pub fn cover(v: u32) {
    unsafe { ext::rsx_cover(v) }
}
pub fn ck(c: bool, m: &str) {
    if !c {
        fail(m)
    }
}
/// Records the program text of the case (native replay only).
#[cfg(feature = "native")]
pub fn note(s: &str) {
    ext::ST.with(|x| {
        let mut x = x.borrow_mut();
        match &mut x.text {
            Some(t) => {
                t.push_str(" | ");
                t.push_str(&format!("{:?}", s))
            }
            None => x.text = Some(format!("{:?}", s)),
        }
    })
}
#[cfg(not(feature = "native"))]
pub fn note(_s: &str) {}

/// Program text under construction: literal pieces and symbolic bytes.
#[derive(Clone)]
pub struct Src(pub Vec<u8>);
impl Src {
    pub fn new() -> Src {
        Src(Vec::with_capacity(64))
    }
    pub fn lit(&mut self, s: &str) -> &mut Src {
        self.0.extend_from_slice(s.as_bytes());
        self
    }
    pub fn byte(&mut self, b: u8) -> &mut Src {
        self.0.push(b);
        self
    }
    pub fn bytes(&mut self, b: &[u8]) -> &mut Src {
        self.0.extend_from_slice(b);
        self
    }
    pub fn sym(&mut self, s: Set) -> u8 {
        let b = sym(s);
        self.0.push(b);
        b
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    /// The text as a String (bytes are ASCII or complete multibyte literals).
    pub fn text(&self) -> String {
        let s = unsafe { String::from_utf8_unchecked(self.0.clone()) };
        note(&s);
        s
    }
}

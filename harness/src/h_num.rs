//! P04 integer literals, P05 floating point and imaginary literals.
use crate::ast::*;
use crate::rt::*;

/// An unsigned number of 128 bits, in 32 bit words (least significant first).
#[derive(Clone, Copy)]
pub struct Big([u32; 4]);
impl Big {
    pub const fn new(v: u128) -> Big {
        Big([v as u32, (v >> 32) as u32, (v >> 64) as u32, (v >> 96) as u32])
    }
    /// self * m + a
    fn mul_add(&mut self, m: u32, a: u32) {
        let mut c = a as u64;
        for w in self.0.iter_mut() {
            c = (*w as u64).wrapping_mul(m as u64).wrapping_add(c);
            *w = c as u32;
            c >>= 32;
        }
    }
    fn low(&self) -> u64 {
        self.0[0] as u64 | (self.0[1] as u64) << 32
    }
}
/// Form of the value `neg ? -v : v`.
fn value(v: Big, neg: bool) -> X {
    let high = v.0[2] | v.0[3];
    if high == 0 && v.low() <= i64::MAX as u64 {
        let i = v.low() as i64;
        int(if neg { i.wrapping_neg() } else { i })
    } else if neg && high == 0 && v.low() == 1 << 63 {
        int(i64::MIN)
    } else {
        let mut n = 4;
        while v.0[n - 1] == 0 {
            n -= 1;
        }
        let mut o = vec![b'B', if neg { b'-' } else { b'+' }, n as u8];
        for x in &v.0[..n] {
            o.extend_from_slice(&x.to_le_bytes());
        }
        o
    }
}

fn hexval(c: u8) -> u32 {
    (if c <= b'9' {
        c - b'0'
    } else if c <= b'F' {
        c - b'A' + 10
    } else {
        c - b'a' + 10
    }) as u32
}

/// Surroundings in which a literal can stand: (before, after, wrap)
fn place(s: &mut Src) -> usize {
    let k = choose(4);
    match k {
        0 => {}
        1 => {
            s.lit("x=");
        }
        2 => {
            s.lit("[");
        }
        _ => {
            s.lit("f(");
        }
    }
    k
}
fn finish(s: &mut Src, k: usize, v: X, is_const: bool) -> X {
    match k {
        0 => v,
        1 => asg(&[lvar(0, b"x")], &[v]),
        2 => {
            s.lit("]");
            ary(&[v], is_const)
        }
        _ => {
            s.lit(")");
            call(b"f", &Args::of(&[v]))
        }
    }
}

/// `n` symbolic digits of the radix chosen, each but the first possibly after an underscore.
fn digits(s: &mut Src, n: usize, radix: u32, set: Set, unders: usize) -> Big {
    let mut v = Big::new(0);
    for i in 0..n {
        if i > 0 && unders >> i & 1 == 1 {
            s.byte(b'_');
        }
        let c = s.sym(set);
        v.mul_add(radix, if radix == 16 { hexval(c) } else { (c - b'0') as u32 });
    }
    v
}

/// Decimal literals with `n` digits.
#[no_mangle]
pub extern "C-unwind" fn h_dec(n: u64) {
    let n = n as usize;
    let mut s = Src::new();
    let k = place(&mut s);
    let neg = choose(2) == 1;
    if neg {
        s.lit("-");
    }
    let unders = pick(&[0usize, 0b10, 0x2aaaaaaa, 0b100100100100100100]);
    let v = digits(&mut s, n, 10, DIGIT, unders);
    let x = value(v, neg);
    let want = finish(&mut s, k, x, true);
    expect(&s, &want);
    cover(1);
}

/// Decimal literals around 2**63, 2**64 and longer ones: a fixed beginning and two symbolic digits.
#[no_mangle]
pub extern "C-unwind" fn h_dec_edge(n: u64) {
    let heads: [(&str, u128); 6] = [
        ("92233720368547758", 92233720368547758),
        ("922337203685477580", 922337203685477580),
        ("18446744073709551", 18446744073709551),
        ("184467440737095516", 184467440737095516),
        ("79228162514264337593543950", 79228162514264337593543950),
        ("0000000000000000000", 0),
    ];
    let (h, v0) = heads[choose(6)];
    let mut v = Big::new(v0);
    let mut s = Src::new();
    let neg = choose(2) == 1;
    if neg {
        s.lit("-");
    }
    s.lit(h);
    for i in 0..n {
        if i == 1 && choose(2) == 1 {
            s.byte(b'_');
        }
        let c = s.sym(DIGIT);
        v.mul_add(10, (c - b'0') as u32);
    }
    let want = value(v, neg);
    expect(&s, &want);
    if want[0] == b'B' {
        cover(1)
    } else {
        cover(2)
    }
}

/// 0x / 0o / 0b literals with `n` symbolic digits.
#[no_mangle]
pub extern "C-unwind" fn h_radix(n: u64) {
    let n = n as usize;
    let mut s = Src::new();
    let k = place(&mut s);
    let neg = choose(2) == 1;
    if neg {
        s.lit("-");
    }
    let unders = pick(&[0usize, 0b10, 0x2aaaaaaa]);
    let v = match choose(3) {
        0 => {
            s.lit("0x");
            digits(&mut s, n, 16, HEX, unders)
        }
        1 => {
            s.lit("0o");
            digits(&mut s, n, 8, Set::range(b'0', b'7'), unders)
        }
        _ => {
            s.lit("0b");
            digits(&mut s, n, 2, Set::range(b'0', b'1'), unders)
        }
    };
    let x = value(v, neg);
    let want = finish(&mut s, k, x, true);
    expect(&s, &want);
    cover(1);
}

/// Literals of each radix around 2**63 and 2**64: a fixed beginning, then symbolic digits.
#[no_mangle]
pub extern "C-unwind" fn h_radix_edge(n: u64) {
    let n = n as usize;
    let heads: [(&str, u128, u32, Set); 8] = [
        ("0x7fffffffffffff", 0x7fffffffffffff, 16, HEX),
        ("0x80000000000000", 0x80000000000000, 16, HEX),
        ("0xFFFFFFFFFFFFFF", 0xffffffffffffff, 16, HEX),
        ("0x1234_5678_9abc_def0_123", 0x123456789abcdef0123, 16, HEX),
        ("0o7777777777777777777", 0o7777777777777777777, 8, Set::range(b'0', b'7')),
        ("0o17777777777777777777", 0o17777777777777777777, 8, Set::range(b'0', b'7')),
        (
            "0b11111111111111111111111111111111111111111111111111111111111111",
            0x3fffffffffffffff,
            2,
            Set::range(b'0', b'1'),
        ),
        (
            "0b100000000000000000000000000000000000000000000000000000000000000",
            1 << 62,
            2,
            Set::range(b'0', b'1'),
        ),
    ];
    let (h, v0, radix, set) = heads[choose(8)];
    let mut s = Src::new();
    let neg = choose(2) == 1;
    if neg {
        s.lit("-");
    }
    s.lit(h);
    let mut v = Big::new(v0);
    for _ in 0..n {
        let c = s.sym(set);
        v.mul_add(radix, if radix == 16 { hexval(c) } else { (c - b'0') as u32 });
    }
    let want = value(v, neg);
    expect(&s, &want);
    if want[0] == b'B' {
        cover(1)
    } else {
        cover(2)
    }
}

/// What follows a number: which texts are not numbers (n symbolic bytes after a prefix).
#[no_mangle]
pub extern "C-unwind" fn h_num_bad(_n: u64) {
    let mut s = Src::new();
    match choose(5) {
        0 => {
            s.lit("0x");
            s.sym(PRINT.minus(HEX));
        }
        1 => {
            s.lit("0o");
            s.sym(PRINT.minus(Set::range(b'0', b'7')));
        }
        2 => {
            s.lit("0b");
            s.sym(PRINT.minus(Set::range(b'0', b'1')));
        }
        3 => {
            s.lit("1e");
            s.sym(PRINT.minus(DIGIT).minus(Set::of(b"+-")));
        }
        _ => {
            s.lit("1e");
            s.sym(Set::of(b"+-"));
            s.sym(PRINT.minus(DIGIT));
        }
    }
    reject(&s);
    cover(1);
}

/// Floating point literals: `a` integer digits, `b` fraction digits, `c` exponent digits (n = abc).
#[no_mangle]
pub extern "C-unwind" fn h_float(n: u64) {
    let (a, b, c) = ((n / 100) as usize, (n / 10 % 10) as usize, (n % 10) as usize);
    let mut s = Src::new();
    let k = place(&mut s);
    let neg = choose(2) == 1;
    if neg {
        s.lit("-");
    }
    let under = choose(2) == 1;
    let mut txt: Vec<u8> = vec![];
    let run = |s: &mut Src, txt: &mut Vec<u8>, n: usize| {
        for i in 0..n {
            if under && i > 0 {
                s.byte(b'_');
            }
            let d = s.sym(DIGIT);
            txt.push(d);
        }
    };
    run(&mut s, &mut txt, a);
    if b > 0 {
        s.byte(b'.');
        txt.push(b'.');
        run(&mut s, &mut txt, b);
    }
    if c > 0 {
        s.byte(pick(b"eE"));
        txt.push(b'e');
        match choose(3) {
            0 => {}
            1 => {
                s.byte(b'+');
            }
            _ => {
                s.byte(b'-');
                txt.push(b'-');
            }
        }
        run(&mut s, &mut txt, c);
    }
    let v: f64 = unsafe { std::str::from_utf8_unchecked(&txt) }.parse().unwrap();
    let imag = !neg && choose(2) == 1;
    let x = if imag {
        s.byte(b'i');
        t("im", &[&float(v)])
    } else {
        float(if neg { -v } else { v })
    };
    let want = finish(&mut s, k, x, !imag);
    expect(&s, &want);
    cover(if imag { 1 } else { 2 });
}

/// Imaginary integer literals with `n` digits.
#[no_mangle]
pub extern "C-unwind" fn h_imag(n: u64) {
    let mut s = Src::new();
    let k = place(&mut s);
    let unders = pick(&[0usize, 0b10]);
    let v = digits(&mut s, n as usize, 10, DIGIT, unders);
    s.byte(b'i');
    let x = t("im", &[&value(v, false)]);
    let want = finish(&mut s, k, x, false);
    expect(&s, &want);
    cover(1);
}

/// A dot, an `e` or an `i` after a number which does not continue it.
#[no_mangle]
pub extern "C-unwind" fn h_num_dot(_n: u64) {
    let mut s = Src::new();
    let a = s.sym(DIGIT);
    let x = int((a - b'0') as i64);
    let want = match choose(3) {
        0 => {
            // a method of the number
            s.byte(b'.');
            let m = s.sym(LOWER);
            mcall(&x, &[m], &Args::default())
        }
        1 => {
            s.lit("..");
            let b = s.sym(DIGIT);
            t("range", &[&x, &int((b - b'0') as i64), b"FT"])
        }
        _ => {
            s.lit("...");
            let b = s.sym(DIGIT);
            s.byte(b'.');
            let c = s.sym(DIGIT);
            let f: f64 = unsafe { std::str::from_utf8_unchecked(&[b, b'.', c]) }.parse().unwrap();
            t("range", &[&x, &float(f), b"TF"])
        }
    };
    expect(&s, &want);
    cover(1);
}

/// Long literals: `n` fixed digits, then two symbolic ones and one more fixed digit.
#[no_mangle]
pub extern "C-unwind" fn h_num_long(n: u64) {
    let mut s = Src::new();
    let neg = choose(2) == 1;
    if neg {
        s.lit("-");
    }
    let (pre, radix, set) = [
        ("", 10, DIGIT),
        ("0x", 16, Set::range(b'A', b'F')),
        ("0x", 16, DIGIT.or(Set::range(b'a', b'f'))),
        ("0o", 8, Set::range(b'0', b'7')),
        ("0b", 2, Set::range(b'0', b'1')),
    ][choose(5)];
    s.lit(pre);
    let under = choose(3);
    let pat: &[u8] = [&b"1234567890"[..], b"9", b"10", b"0"][choose(4)];
    let mut v = Big::new(0);
    // at most 128 bits
    let bits = match radix {
        10 | 16 => 4,
        8 => 3,
        _ => 1,
    };
    let len = std::cmp::min(n as usize, 128 / bits - 3);
    for i in 0..len + 3 {
        if i > 0 && (under == 1 && i % 3 == 0 || under == 2 && i == len) {
            s.byte(b'_');
        }
        let c = if i == len || i == len + 1 {
            s.sym(set)
        } else {
            let d = pat[i % pat.len()];
            let d = b'0' + (d - b'0') % std::cmp::min(radix, 10) as u8;
            s.byte(d);
            d
        };
        v.mul_add(radix, if radix == 16 { hexval(c) } else { (c - b'0') as u32 });
    }
    let want = value(v, neg);
    expect(&s, &want);
    cover(if want[0] == b'B' { 1 } else { 2 });
}

//! P06 double quoted content, P07 single quoted content, P08 % literals, P09 interpolation.
use crate::ast::*;
use crate::rt::*;

/// Multibyte characters of 2, 3 and 4 bytes.
pub const MB: &[&str] = &["é", "あ", "\u{1F600}", "\u{3000}"];

/// Quoting forms with escapes and interpolation.
#[derive(Clone, Copy, PartialEq)]
pub enum Q {
    Dbl,
    BigQ,
    Brace,
    Angle,
    Cmd,
    Sym,
    Here,
    HereDash,
}
pub const QS: &[Q] = &[Q::Dbl, Q::BigQ, Q::Brace, Q::Angle, Q::Cmd, Q::Sym, Q::Here, Q::HereDash];
impl Q {
    pub fn open(self, s: &mut Src) {
        s.lit(match self {
            Q::Dbl => "\"",
            Q::BigQ => "%Q(",
            Q::Brace => "%{",
            Q::Angle => "%<",
            Q::Cmd => "`",
            Q::Sym => ":\"",
            Q::Here => "<<EOS\n",
            Q::HereDash => "<<-\"EOS\"\n",
        });
    }
    pub fn close(self, s: &mut Src) {
        s.lit(match self {
            Q::Dbl | Q::Sym => "\"",
            Q::BigQ => ")",
            Q::Brace => "}",
            Q::Angle => ">",
            Q::Cmd => "`",
            Q::Here => "\nEOS\n",
            Q::HereDash => "\n  EOS\n",
        });
    }
    /// Characters with a meaning of their own.
    pub fn special(self) -> Set {
        Set::of(match self {
            Q::Dbl | Q::Sym => b"\"\\#",
            Q::BigQ => b"()\\#",
            Q::Brace => b"{}\\#",
            Q::Angle => b"<>\\#",
            Q::Cmd => b"`\\#",
            Q::Here | Q::HereDash => b"\\#",
        })
    }
    pub fn heredoc(self) -> bool {
        matches!(self, Q::Here | Q::HereDash)
    }
    /// The tree of the literal: `parts` alternates text and interpolated nodes.
    pub fn tree(self, texts: &[X], nodes: &[X]) -> X {
        let n = texts.len();
        let mut v = vec![];
        for i in 0..n {
            let mut t = texts[i].clone();
            if i == n - 1 && self.heredoc() {
                t.push(b'\n');
            }
            if n == 1 && self == Q::Sym {
                return sym_(&t);
            }
            if n == 1 || !t.is_empty() {
                v.push(str_(&t));
            }
            if i < nodes.len() {
                v.push(nodes[i].clone());
            }
        }
        let x = if n == 1 { v[0].clone() } else { t("istr", &[&l(&v)]) };
        match self {
            Q::Cmd => t("cmd", &[&x]),
            Q::Sym => mcall(&x, b"to_sym", &Args::default()),
            _ => x,
        }
    }
}

fn hexval(c: u8) -> u32 {
    match c {
        b'0'..=b'9' => (c - b'0') as u32,
        b'a'..=b'f' => (c - b'a') as u32 + 10,
        _ => (c - b'A') as u32 + 10,
    }
}
fn push_utf8(o: &mut X, u: u32) {
    if u < 0x80 {
        o.push(u as u8);
    } else if u < 0x800 {
        o.push(0xc0 | (u >> 6) as u8);
        o.push(0x80 | (u & 63) as u8);
    } else if u < 0x10000 {
        o.push(0xe0 | (u >> 12) as u8);
        o.push(0x80 | (u >> 6 & 63) as u8);
        o.push(0x80 | (u & 63) as u8);
    } else {
        o.push(0xf0 | (u >> 18) as u8);
        o.push(0x80 | (u >> 12 & 63) as u8);
        o.push(0x80 | (u >> 6 & 63) as u8);
        o.push(0x80 | (u & 63) as u8);
    }
}
const NOTHEX: Set = Set::of(b"g \tzGZ-_.");

/// What an item of a quoted text denotes.
pub struct Out {
    pub v: X,
    /// a byte above 0x7f was written by number
    pub bytes: bool,
    /// not a text at all
    pub bad: bool,
}
/// The byte a single character escape stands for.
pub fn simple_escape(c: u8) -> u8 {
    match c {
        b'a' => 7,
        b'b' => 8,
        b't' => 9,
        b'n' => 10,
        b'v' => 11,
        b'f' => 12,
        b'r' => 13,
        b'e' => 27,
        b's' => 32,
        c => c,
    }
}
/// `\x`, octal and `\u` escapes.
fn numeric(s: &mut Src, o: &mut Out) {
    match choose(9) {
        0 => {
            // \xH, then something that is no hexadecimal digit
            s.lit("\\x");
            let a = s.sym(HEX);
            let z = s.sym(NOTHEX);
            o.v.push(hexval(a) as u8);
            o.v.push(z);
        }
        1 => {
            s.lit("\\x");
            let a = s.sym(HEX);
            let b = s.sym(HEX);
            let n = hexval(a) * 16 + hexval(b);
            o.v.push(n as u8);
            if n > 0x7f {
                o.bytes = true;
            }
        }
        2 => {
            s.lit("\\");
            let a = s.sym(Set::range(b'0', b'7'));
            let z = s.sym(Set::of(b"89a -_"));
            o.v.push(a - b'0');
            o.v.push(z);
        }
        3 => {
            s.lit("\\");
            let a = s.sym(Set::range(b'0', b'7'));
            let b = s.sym(Set::range(b'0', b'7'));
            let z = s.sym(Set::of(b"89a -_"));
            o.v.push((a - b'0') * 8 + (b - b'0'));
            o.v.push(z);
        }
        4 => {
            s.lit("\\");
            let a = s.sym(Set::range(b'0', b'3'));
            let b = s.sym(Set::range(b'0', b'7'));
            let c = s.sym(Set::range(b'0', b'7'));
            let n = (a - b'0') * 64 + (b - b'0') * 8 + (c - b'0');
            o.v.push(n);
            if n > 0x7f {
                o.bytes = true;
            }
            // a fourth digit is text
            s.lit("7");
            o.v.push(b'7');
        }
        5 => {
            s.lit("\\u");
            let mut u = 0;
            for i in 0..4 {
                // two of the four digits are free
                let d = if (i == 0 || i == 3) == (choose(2) == 0) {
                    s.sym(HEX)
                } else {
                    let d = [b'0', b'4', b'C', b'0'][i];
                    s.byte(d);
                    d
                };
                u = u * 16 + hexval(d);
            }
            if (0xd800..0xe000).contains(&u) {
                o.bad = true;
            } else {
                push_utf8(&mut o.v, u);
            }
        }
        6 => {
            // \u{H HH}
            s.lit("\\u{").lit(["", " "][choose(2)]);
            let a = s.sym(HEX);
            push_utf8(&mut o.v, hexval(a));
            s.lit([" ", "  "][choose(2)]);
            let b = s.sym(HEX);
            let c = s.sym(HEX);
            push_utf8(&mut o.v, hexval(b) * 16 + hexval(c));
            s.lit(["", " "][choose(2)]).lit("}");
        }
        7 => {
            // \u{1Hxxxx} up to the last code point
            s.lit("\\u{10");
            let a = s.sym(HEX);
            let b = s.sym(HEX);
            s.lit("4f}");
            push_utf8(&mut o.v, 0x100000 + hexval(a) * 0x1000 + hexval(b) * 0x100 + 0x4f);
        }
        _ => {
            s.lit("\\u{");
            let b = s.sym(HEX);
            let c = s.sym(HEX);
            s.lit("00}");
            let u = hexval(b) * 0x1000 + hexval(c) * 0x100;
            if (0xd800..0xe000).contains(&u) {
                o.bad = true;
            } else {
                push_utf8(&mut o.v, u);
            }
        }
    }
}
/// One item of a quoted text.
fn item(s: &mut Src, q: Q, k: usize, o: &mut Out) {
    match k {
        0 => {
            let c = s.sym(PRINT.or(Set::of(b"\t\n")).minus(q.special()));
            o.v.push(c);
        }
        1 => {
            // a hash sign, with a sigil or not, that no variable follows
            let a = ["#", "#@", "#@@", "#$"][choose(4)];
            s.lit(a);
            let no = match a.len() {
                1 => Set::of(b"{$@"),
                2 if a == "#@" => ALPHA.or(Set::of(b"_@")),
                3 => ALPHA.or(Set::of(b"_")),
                _ => WORD.or(Set::of(b"~*$?!@/\\;,.=:<>\"&`'+-")),
            };
            let c = s.sym(PRINT.minus(q.special()).minus(no).minus(Set::of(b"#")));
            o.v.extend_from_slice(a.as_bytes());
            o.v.push(c);
        }
        2 => {
            s.lit("\\");
            let c = s.sym(PRINT.minus(Set::of(b"xucCM01234567")));
            o.v.push(simple_escape(c));
        }
        3 => {
            // a hash sign at the end of a piece or an escaped one never interpolates
            s.lit("\\#").lit(["{", "$", "@"][choose(3)]);
            let n = s.len();
            let c = s.0[n - 1];
            o.v.extend_from_slice(&[b'#', c]);
            if c == b'{' {
                s.lit("}");
                o.v.push(b'}');
            }
        }
        4 => {
            s.lit("\\\n");
        }
        5 => {
            let m = pick(MB);
            s.lit(m);
            o.v.extend_from_slice(m.as_bytes());
        }
        6 => {
            let m = pick(MB);
            s.lit("\\").lit(m);
            o.v.extend_from_slice(m.as_bytes());
        }
        _ => numeric(s, o),
    }
}
/// Items for `{}` delimiters keep the braces balanced.
fn fits(q: Q, k: usize) -> bool {
    !(q == Q::Brace && k == 3)
}
fn check(s: &Src, q: Q, o: Out, rest: &str) {
    if o.bad || o.bytes && matches!(q, Q::Sym | Q::Cmd) {
        if o.bad {
            reject(s);
            cover(3);
        }
        return;
    }
    let x = if o.bytes {
        let mut v = o.v;
        if q.heredoc() {
            v.push(b'\n')
        }
        cover(2);
        bytes_(&v)
    } else {
        cover(1);
        q.tree(&[o.v], &[])
    };
    let x = if rest == "" { x } else { seq(&[x, int(1)]) };
    expect(s, &x);
}

/// One item in every quoting form.
#[no_mangle]
pub extern "C-unwind" fn h_dq(_n: u64) {
    let mut s = Src::new();
    let k = choose(8);
    // escapes by number read the same in every form: all of them in the first, some in the others
    let q = if k == 7 { Q::Dbl } else { pick(QS) };
    if !fits(q, k) {
        return;
    }
    let mut o = Out { v: vec![], bytes: false, bad: false };
    q.open(&mut s);
    s.lit("p");
    o.v.push(b'p');
    item(&mut s, q, k, &mut o);
    s.lit("r");
    o.v.push(b'r');
    q.close(&mut s);
    let rest = if choose(2) == 1 { "\n1" } else { "" };
    s.lit(rest);
    check(&s, q, o, rest)
}
/// Escapes by number in the other quoting forms.
#[no_mangle]
pub extern "C-unwind" fn h_dq_num(_n: u64) {
    let mut s = Src::new();
    let q = QS[1 + choose(QS.len() - 1)];
    q.open(&mut s);
    s.lit("p");
    let mut v = vec![b'p'];
    match choose(4) {
        0 => {
            s.lit("\\x4");
            let c = s.sym(HEX);
            v.push(64 + hexval(c) as u8);
        }
        1 => {
            s.lit("\\1");
            let c = s.sym(Set::range(b'0', b'7'));
            s.lit("2");
            v.push(66 + (c - b'0') * 8);
        }
        2 => {
            s.lit("\\u30");
            let c = s.sym(HEX);
            s.lit("2");
            push_utf8(&mut v, 0x3002 + hexval(c) * 16);
        }
        _ => {
            s.lit("\\u{1f60");
            let c = s.sym(HEX);
            s.lit(" 41}");
            push_utf8(&mut v, 0x1f600 + hexval(c));
            v.push(65);
        }
    }
    q.close(&mut s);
    expect(&s, &q.tree(&[v], &[]));
    cover(1);
}
/// Two and three items in a row between double quotes.
#[no_mangle]
pub extern "C-unwind" fn h_dq_seq(n: u64) {
    let mut s = Src::new();
    let q = Q::Dbl;
    let mut o = Out { v: vec![], bytes: false, bad: false };
    q.open(&mut s);
    for _ in 0..n {
        let k = choose(7);
        item(&mut s, q, k, &mut o);
    }
    q.close(&mut s);
    check(&s, q, o, "")
}
/// Malformed escapes are rejected.
#[no_mangle]
pub extern "C-unwind" fn h_dq_bad(_n: u64) {
    let mut s = Src::new();
    s.lit("\"");
    let g = Set::of(b"gGz -_.");
    match choose(7) {
        0 => {
            s.lit("\\x");
            s.sym(g);
        }
        1 => {
            s.lit("\\u");
            s.sym(g);
        }
        2 => {
            s.lit("\\u4");
            s.sym(g);
            s.lit("00");
        }
        3 => {
            s.lit("\\u40a");
            s.sym(g);
        }
        4 => {
            s.lit("\\u{");
            s.sym(Set::of(b"gGz-_."));
            s.lit("}");
        }
        5 => {
            // more than six digits
            s.lit("\\u{0");
            s.sym(HEX);
            s.lit("12345}");
        }
        _ => {
            // beyond the last code point
            s.lit("\\u{11");
            s.sym(HEX);
            s.lit("000}");
        }
    }
    s.lit("\"");
    reject_syntax(&s);
    cover(1);
}
/// `?c` character literals.
#[no_mangle]
pub extern "C-unwind" fn h_char(_n: u64) {
    let mut s = Src::new();
    let c = choose(5);
    s.lit(["", "f(", "[1,", "x=", "f "][c]).lit("?");
    let mut o = Out { v: vec![], bytes: false, bad: false };
    match choose(4) {
        0 => {
            let c = s.sym(Set::range(33, 126).minus(Set::of(b"\\")));
            o.v.push(c);
        }
        1 => {
            s.lit("\\");
            let c = s.sym(PRINT.minus(Set::of(b"xucCM01234567")));
            o.v.push(simple_escape(c));
        }
        2 => {
            let m = pick(MB);
            s.lit(m);
            o.v.extend_from_slice(m.as_bytes());
        }
        _ => match choose(3) {
            0 => {
                s.lit("\\x");
                let a = s.sym(HEX);
                let b = s.sym(HEX);
                o.v.push((hexval(a) * 16 + hexval(b)) as u8);
                o.bytes = hexval(a) > 7;
            }
            1 => {
                s.lit("\\");
                let a = s.sym(Set::range(b'0', b'3'));
                let b = s.sym(Set::range(b'0', b'7'));
                s.lit("5");
                let n = (a - b'0') * 64 + (b - b'0') * 8 + 5;
                o.v.push(n);
                o.bytes = n > 127;
            }
            _ => {
                s.lit("\\u0");
                let a = s.sym(HEX);
                let b = s.sym(HEX);
                s.lit("6");
                push_utf8(&mut o.v, hexval(a) * 256 + hexval(b) * 16 + 6);
            }
        },
    }
    s.lit(["", ")", "]", "", ""][c]);
    let e = if o.bytes { bytes_(&o.v) } else { str_(&o.v) };
    let x = match c {
        0 => e,
        1 => call(b"f", &Args::of(&[e])),
        2 => ary(&[int(1), e], true),
        3 => asg(&[lvar(0, b"x")], &[e]),
        _ => {
            // `f ?a`: a ternary to this parser
            return;
        }
    };
    expect(&s, &x);
    cover(c as u32);
}
/// Adjacent string literals are one string.
#[no_mangle]
pub extern "C-unwind" fn h_adjacent(_n: u64) {
    let mut s = Src::new();
    let mut v = vec![];
    let mut bytes = false;
    let n = 2 + choose(2);
    for i in 0..n {
        if i > 0 {
            s.lit(["", " ", "\t "][choose(3)]);
        }
        match choose(3) {
            0 => {
                s.lit("\"");
                let c = s.sym(ALNUM);
                v.push(c);
                s.lit("\"");
            }
            1 => {
                s.lit("'");
                let c = s.sym(ALNUM);
                v.push(c);
                s.lit("\\n'");
                v.extend_from_slice(b"\\n");
            }
            _ => {
                s.lit("\"\\xe");
                let c = s.sym(HEX);
                v.push(0xe0 + hexval(c) as u8);
                s.lit("\"");
                bytes = true;
            }
        }
    }
    let x = if bytes { bytes_(&v) } else { str_(&v) };
    let x = if choose(2) == 1 {
        // the next line is a statement of its own
        s.lit("\n'z'");
        seq(&[x, str_(b"z")])
    } else {
        x
    };
    expect(&s, &x);
    cover(bytes as u32);
}

// ---- P07 ----

const PAIRS: &[(&str, u8, u8)] = &[
    ("'", b'\'', b'\''),
    ("%q(", b'(', b')'),
    ("%q{", b'{', b'}'),
    ("%q[", b'[', b']'),
    ("%q<", b'<', b'>'),
    ("%q!", b'!', b'!'),
    ("%q|", b'|', b'|'),
    ("%q\"", b'"', b'"'),
];
/// `n` items of single quoted text in every delimiter.
#[no_mangle]
pub extern "C-unwind" fn h_sq(n: u64) {
    let mut s = Src::new();
    let (open, a, b) = if n < 3 { pick(PAIRS) } else { PAIRS[choose(2)] };
    let mut v = vec![];
    s.lit(open);
    for _ in 0..n {
        match choose(6) {
            0 => {
                let c = s.sym(PRINT.or(Set::of(b"\n\t")).minus(Set::of(&[a, b, b'\\'])));
                v.push(c);
            }
            1 => {
                s.lit("\\");
                let c = s.sym(PRINT);
                if c != a && c != b && c != b'\\' {
                    v.push(b'\\');
                }
                v.push(c);
            }
            2 => {
                let m = pick(&MB[..2]);
                s.lit(m);
                v.extend_from_slice(m.as_bytes());
            }
            3 => {
                s.lit("#{@a}#@b");
                if a == b'{' {
                    // balanced
                }
                v.extend_from_slice(b"#{@a}#@b");
            }
            4 => {
                // nested delimiters
                if a != b {
                    s.byte(a);
                    let c = s.sym(ALNUM);
                    s.byte(b);
                    v.extend_from_slice(&[a, c, b]);
                }
            }
            _ => {
                // an escaped delimiter does not count
                s.byte(b'\\').byte(b);
                v.push(b);
            }
        }
    }
    s.byte(b);
    let tail = choose(3);
    s.lit(["", ".a", "\n1"][tail]);
    let x = match tail {
        0 => str_(&v),
        1 => mcall(&str_(&v), b"a", &Args::default()),
        _ => seq(&[str_(&v), int(1)]),
    };
    expect(&s, &x);
    cover(1);
}
/// `:'..'` symbols.
#[no_mangle]
pub extern "C-unwind" fn h_sq_sym(_n: u64) {
    let mut s = Src::new();
    s.lit(":'");
    let mut v = vec![];
    for _ in 0..2 {
        if choose(2) == 0 {
            v.push(s.sym(PRINT.minus(Set::of(b"'\\"))));
        } else {
            s.lit("\\");
            let c = s.sym(PRINT);
            if c != b'\'' && c != b'\\' {
                v.push(b'\\');
            }
            v.push(c);
        }
    }
    s.lit("'");
    expect(&s, &sym_(&v));
    cover(1);
}

// ---- P08 ----

/// `%`, `%Q` and `%q` with every delimiter character.
#[no_mangle]
pub extern "C-unwind" fn h_pct_delim(_n: u64) {
    let mut s = Src::new();
    let k = choose(3);
    s.lit(["%", "%Q", "%q"][k]);
    let punct = Set::range(33, 126).minus(ALNUM).minus(Set::of(b"\\#"));
    let d = s.sym(if k == 0 { punct.minus(Set::of(b"=")) } else { punct });
    let c = s.sym(ALNUM.or(Set::of(b" ")));
    let e = match d {
        b'(' => b')',
        b'[' => b']',
        b'{' => b'}',
        b'<' => b'>',
        d => d,
    };
    s.byte(e);
    expect(&s, &str_(&[c]));
    cover(k as u32);
}
/// A letter or digit is no delimiter, unknown kinds are rejected.
#[no_mangle]
pub extern "C-unwind" fn h_pct_bad(_n: u64) {
    let mut s = Src::new();
    match choose(3) {
        0 => {
            s.lit("%");
            s.sym(ALNUM.minus(Set::of(b"qQxrwWsiI")));
            s.lit("(a)");
        }
        1 => {
            s.lit("%");
            s.sym(Set::of(b"qQxrwWsiI"));
            s.sym(ALNUM);
            s.lit("a");
            s.sym(ALNUM);
        }
        _ => {
            s.lit("%");
            s.sym(Set::of(b"wi"));
            s.sym(Set::of(b" \n"));
            s.lit("a ");
        }
    }
    reject(&s);
    cover(1);
}
/// Nested delimiters are text while they balance; escaped ones do not count.
#[no_mangle]
pub extern "C-unwind" fn h_pct_nest(n: u64) {
    let mut s = Src::new();
    let kind = choose(3);
    let (a, b) = pick(&[(b'(', b')'), (b'[', b']'), (b'{', b'}'), (b'<', b'>')]);
    s.lit(["%", "%Q", "%q"][kind]).byte(a);
    let mut v = vec![];
    let mut level = 0;
    for _ in 0..n {
        match choose(4) {
            0 => {
                s.byte(a);
                v.push(a);
                level += 1;
            }
            1 => {
                if level == 0 {
                    return;
                }
                s.byte(b);
                v.push(b);
                level -= 1;
            }
            2 => {
                s.byte(b'\\');
                let c = [a, b][choose(2)];
                s.byte(c);
                v.push(c);
            }
            _ => {
                let c = s.sym(ALNUM.or(Set::of(b"'\"|!")));
                v.push(c);
            }
        }
    }
    for _ in 0..level {
        s.byte(b);
        v.push(b);
    }
    s.byte(b);
    // the text ends here
    s.lit("\n1");
    expect(&s, &seq(&[str_(&v), int(1)]));
    cover(kind as u32);
}
/// Nested delimiters and interpolation in one literal: the nesting is counted across the interpolated parts, and delimiters inside them do not count.
#[no_mangle]
pub extern "C-unwind" fn h_interp_nest(n: u64) {
    let mut s = Src::new();
    let (a, b) = pick(&[(b'(', b')'), (b'[', b']'), (b'{', b'}'), (b'<', b'>')]);
    let re = choose(3);
    s.lit(["%", "%Q", "x = %"][re]).byte(a);
    let mut texts: Vec<X> = vec![vec![]];
    let mut nodes = vec![];
    let mut level = 0;
    for _ in 0..n {
        match choose(7) {
            0 => {
                s.byte(a);
                texts.last_mut().unwrap().push(a);
                level += 1;
            }
            1 => {
                if level == 0 {
                    return;
                }
                s.byte(b);
                texts.last_mut().unwrap().push(b);
                level -= 1;
            }
            2 => {
                let c = s.sym(ALNUM.or(Set::of(b"'\"|!")));
                texts.last_mut().unwrap().push(c);
            }
            3 => {
                s.lit("#{1}");
                nodes.push(int(1));
                texts.push(vec![]);
            }
            4 => {
                // a literal that holds the closing delimiter
                s.lit("#{\"").byte(b).lit("\"}");
                nodes.push(str_(&[b]));
                texts.push(vec![]);
            }
            5 => {
                // the same delimiters inside
                s.lit("#{%").byte(a).lit("1").byte(b).lit("}");
                nodes.push(str_(b"1"));
                texts.push(vec![]);
            }
            _ => {
                s.byte(b'\\').byte(b);
                texts.last_mut().unwrap().push(b);
            }
        }
    }
    for _ in 0..level {
        s.byte(b);
        texts.last_mut().unwrap().push(b);
    }
    s.byte(b);
    s.lit("\n1");
    let x = Q::BigQ.tree(&texts, &nodes);
    if re == 2 {
        expect_lv(&s, &seq(&[asg(&[lvar(0, b"x")], &[x]), int(1)]), &Lv::of(&[b"x"]));
    } else {
        expect(&s, &seq(&[x, int(1)]));
    }
    cover(nodes.len() as u32);
}
/// `%w` and `%i` word lists.
#[no_mangle]
pub extern "C-unwind" fn h_words(n: u64) {
    let mut s = Src::new();
    let k = choose(2);
    let (a, b) = pick(&[(b'[', b']'), (b'(', b')'), (b'!', b'!'), (b'<', b'>')]);
    s.lit(["%w", "%i"][k]).byte(a);
    let mut v = vec![];
    for i in 0..n {
        if i > 0 || choose(2) == 1 {
            s.lit([" ", "\n", "  ", " \n "][choose(4)]);
        }
        let mut word = vec![];
        match choose(5) {
            0 => {
                word.push(s.sym(PRINT.minus(Set::of(&[a, b, b'\\', b' ']))));
            }
            1 => {
                word.push(s.sym(ALNUM));
                word.push(s.sym(WORD));
            }
            2 => {
                let m = pick(&MB[..2]);
                s.lit(m);
                word.extend_from_slice(m.as_bytes());
            }
            3 => {
                // nested delimiters
                if a == b {
                    return;
                }
                s.byte(a);
                let c = s.sym(ALNUM);
                s.byte(b);
                word.extend_from_slice(&[a, c, b]);
            }
            _ => {
                s.lit("#{@a}\\").byte(b);
                word.extend_from_slice(b"#{@a}");
                word.push(b);
            }
        }
        v.push(if k == 0 { str_(&word) } else { sym_(&word) });
    }
    s.lit(["", " ", "\n"][choose(3)]);
    s.byte(b);
    expect(&s, &ary(&v, true));
    cover(k as u32);
}

// ---- P09 ----

/// An interpolated part and its tree. `new` collects local variables it assigns.
fn part(s: &mut Src, k: usize, new: &mut Vec<X>) -> X {
    match k {
        0 => {
            s.lit("#{@");
            let c = s.sym(ALPHA);
            s.lit("}");
            ivar(&[b'@', c])
        }
        1 => {
            s.lit("#@");
            let c = s.sym(ALPHA);
            ivar(&[b'@', c])
        }
        2 => {
            s.lit("#@@");
            let c = s.sym(ALPHA);
            cvar(&[b'@', b'@', c])
        }
        3 => {
            s.lit("#$");
            let c = s.sym(ALPHA);
            gvar(&[b'$', c])
        }
        4 => {
            s.lit("#$");
            let c = s.sym(Set::range(b'1', b'9'));
            svar(100 + (c - b'0') as u32)
        }
        5 => {
            s.lit("#{}");
            empty()
        }
        6 => {
            s.lit("#{ @a; @b\n}");
            seq(&[ivar(b"@a"), ivar(b"@b")])
        }
        7 => {
            s.lit("#{\"");
            let c = s.sym(ALNUM);
            s.lit("\"}");
            str_(&[c])
        }
        8 => {
            s.lit("#{\"a#{");
            let c = s.sym(DIGIT);
            s.lit("}b\"}");
            t("istr", &[&l(&[str_(b"a"), int((c - b'0') as i64), str_(b"b")])])
        }
        9 => {
            s.lit("#{ {a: 1} }");
            hash(&[(sym_(b"a"), int(1))], true)
        }
        10 => {
            s.lit("#{f{@a}}");
            call(b"f", &Args { block: Some(lambda(&[], &ivar(b"@a"), &Lv::default())), ..Default::default() })
        }
        11 => {
            s.lit("#{v = 1}");
            if !new.contains(&b"v".to_vec()) {
                new.push(b"v".to_vec());
            }
            asg(&[lvar(0, b"v")], &[int(1)])
        }
        12 => {
            s.lit("#{1 if @a}");
            if_(&ivar(b"@a"), &int(1), &empty())
        }
        13 => {
            s.lit("#{'}'}");
            str_(b"}")
        }
        14 => {
            s.lit("#{%w(a b)}");
            ary(&[str_(b"a"), str_(b"b")], true)
        }
        _ => {
            s.lit("#{/}\\//}");
            t("re", &[&l(&[str_(b"}\\/")]), &name(b"m"), b"T"])
        }
    }
}
const PARTS: usize = 16;
const TEXT: Set = Set::of(b"qQ zZ.,:;!?+=~'");
fn text(s: &mut Src, k: usize) -> X {
    match k {
        0 => vec![],
        1 => vec![s.sym(TEXT)],
        2 => {
            s.lit("#");
            let c = s.sym(TEXT);
            vec![b'#', c]
        }
        3 => {
            s.lit("\\n");
            let c = s.sym(TEXT);
            vec![b'\n', c]
        }
        _ => {
            s.lit("あ}");
            "あ}".as_bytes().to_vec()
        }
    }
}
/// `n` interpolated parts between pieces of text in every quoting form.
#[no_mangle]
pub extern "C-unwind" fn h_interp(n: u64) {
    let mut s = Src::new();
    let q = pick(if n == 1 { QS } else { &[Q::Dbl, Q::BigQ, Q::Cmd, Q::Here] });
    let kinds = if q == Q::Brace { 4 } else { 5 };
    q.open(&mut s);
    let mut texts = vec![];
    let mut nodes = vec![];
    let mut new = vec![];
    for i in 0..n {
        let k = if n == 1 || i == 0 { choose(kinds) } else { choose(2) };
        texts.push(text(&mut s, k));
        let k = if n == 1 || i == 0 { choose(PARTS) } else { choose(5) };
        nodes.push(part(&mut s, k, &mut new));
        if (1..=4).contains(&k) {
            // the name ends before the text
            let k = choose(2);
            s.lit([" ", "-"][k]);
            texts.push(vec![[b' ', b'-'][k]]);
        } else {
            texts.push(vec![]);
        }
        // the text after this part goes on in the next round
        let last = texts.pop().unwrap();
        if i + 1 < n {
            let k = choose(2);
            let mut t = last;
            t.extend_from_slice(&text(&mut s, k));
            texts.push(t);
            let k = choose(PARTS);
            if (1..=4).contains(&k) {
                return;
            }
            nodes.push(part(&mut s, k, &mut new));
            texts.push(vec![]);
            break;
        }
        texts.push(last);
    }
    let k = choose(if n == 1 { kinds } else { 2 });
    let t = text(&mut s, k);
    texts.last_mut().unwrap().extend_from_slice(&t);
    q.close(&mut s);
    let x = q.tree(&texts, &nodes);
    let tail = choose(if n == 1 { 2 } else { 1 });
    let x = if tail == 1 {
        s.lit("\n1");
        seq(&[x, int(1)])
    } else {
        x
    };
    expect_lv(&s, &x, &Lv { names: new, ..Default::default() });
    cover(1);
}
/// Interpolated and plain literals side by side are one string.
#[no_mangle]
pub extern "C-unwind" fn h_interp_adjacent(_n: u64) {
    let mut s = Src::new();
    let mut texts: Vec<X> = vec![vec![]];
    let mut nodes = vec![];
    for i in 0..3 {
        if i > 0 {
            s.lit(" ");
        }
        match choose(3) {
            0 => {
                s.lit("\"");
                let c = s.sym(ALNUM);
                s.lit("\"");
                texts.last_mut().unwrap().push(c);
            }
            1 => {
                s.lit("'");
                let c = s.sym(ALNUM);
                s.lit("'");
                texts.last_mut().unwrap().push(c);
            }
            _ => {
                s.lit("\"");
                let a = s.sym(ALNUM);
                texts.last_mut().unwrap().push(a);
                s.lit("#{");
                let c = s.sym(DIGIT);
                nodes.push(int((c - b'0') as i64));
                s.lit("}");
                let b = s.sym(ALNUM);
                texts.push(vec![b]);
                s.lit("\"");
            }
        }
    }
    expect(&s, &Q::Dbl.tree(&texts, &nodes));
    cover(nodes.len() as u32);
}
/// Places an interpolated string can stand in, and what can follow it.
#[no_mangle]
pub extern "C-unwind" fn h_interp_ctx(_n: u64) {
    let mut s = Src::new();
    let k = choose(8);
    s.lit(["f(", "[", "x = ", "", "f ", "@a + ", "{a: ", "%w(a) + "][k]);
    s.lit("\"b#{");
    let c = s.sym(DIGIT);
    s.lit("}\"");
    s.lit([")", "]", "", ".m(1)", ", 2", " * 2", "}", ""][k]);
    let x = t("istr", &[&l(&[str_(b"b"), int((c - b'0') as i64)])]);
    let want = match k {
        0 => call(b"f", &Args::of(&[x])),
        1 => ary(&[x], false),
        2 => asg(&[lvar(0, b"x")], &[x]),
        3 => mcall(&x, b"m", &Args::of(&[int(1)])),
        4 => call(b"f", &Args::of(&[x, int(2)])),
        5 => bin("+", &ivar(b"@a"), &bin("*", &x, &int(2))),
        6 => hash(&[(sym_(b"a"), x)], false),
        _ => bin("+", &ary(&[str_(b"a")], true), &x),
    };
    expect(&s, &want);
    cover(k as u32);
}

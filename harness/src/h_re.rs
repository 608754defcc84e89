//! P21 regular expressions.
use crate::ast::*;
use crate::h_str::MB;
use crate::rt::*;

fn hex2(o: &mut X, v: u8) {
    o.extend_from_slice(b"\\x");
    for d in [v >> 4, v & 15] {
        o.push(if d < 10 { b'0' + d } else { b'a' + d - 10 });
    }
}
fn hexval(c: u8) -> u8 {
    if c <= b'9' {
        c - b'0'
    } else if c >= b'a' {
        c - b'a' + 10
    } else {
        c - b'A' + 10
    }
}
const OCT: Set = Set::range(b'0', b'7');
const NOTHEX: Set = Set::of(b"g-_.(z");
/// One item of a regular expression and what it adds to the pattern.
fn item(s: &mut Src, k: usize, few: bool, o: &mut X) {
    match k {
        6 if few => {
            s.lit("\\x1F");
            o.extend_from_slice(b"\\x1f");
        }
        7 if few => {
            s.lit("\\107");
            o.extend_from_slice(b"\\x47");
        }
        5 if few => {
            s.lit(MB[0]);
            o.extend_from_slice(MB[0].as_bytes());
        }
        0 => o.push(s.sym(PRINT.or(Set::of(b"\n\t")).minus(Set::of(b"/\\#[]")))),
        1 => {
            let (a, b) = pick(&[
                ("a", "\\a"),
                ("b", "\\b"),
                ("e", "\\x1b"),
                ("f", "\\f"),
                ("n", "\\n"),
                ("r", "\\r"),
                ("s", "[[:space:]]"),
                ("t", "\\t"),
                ("v", "\\v"),
            ]);
            s.lit("\\").lit(a);
            o.extend_from_slice(b.as_bytes());
        }
        2 => {
            // any other escape stays
            s.lit("\\");
            let c = s.sym(PRINT.minus(Set::of(b"abefnrstvx")).minus(DIGIT));
            o.extend_from_slice(&[b'\\', c]);
        }
        3 => {
            let c = pick(&[("[a\\b]", "[a\\x08]"), ("[[:alpha:]\\b]\\b", "[[:alpha:]\\x08]\\b"), ("[\\]\\b]\\b", "[\\]\\x08]\\b"), ("[^/\\b]", ""), ("\\[\\b\\]", "\\[\\b\\]")]);
            if c.1 == "" {
                return;
            }
            s.lit(c.0);
            o.extend_from_slice(c.1.as_bytes());
        }
        4 => {
            // a hash sign, with a sigil or not, that no variable follows
            let a = ["#", "#@", "#$"][choose(3)];
            s.lit(a);
            let no = match a {
                "#" => Set::of(b"{$@"),
                "#@" => ALPHA.or(Set::of(b"_@")),
                _ => WORD.or(Set::of(b"~*$?!@;,.=:<>\"&`'+-")),
            };
            let c = s.sym(PRINT.minus(Set::of(b"/\\#[]")).minus(no));
            o.extend_from_slice(a.as_bytes());
            o.push(c);
        }
        5 => {
            let m = pick(MB);
            if choose(2) == 1 {
                s.lit("\\");
                o.push(b'\\');
            }
            s.lit(m);
            o.extend_from_slice(m.as_bytes());
        }
        6 => {
            // \xH and \xHH
            s.lit("\\x");
            let a = s.sym(HEX);
            if choose(2) == 0 {
                let z = s.sym(NOTHEX);
                hex2(o, hexval(a));
                o.push(z);
            } else {
                let b = s.sym(HEX);
                hex2(o, hexval(a) * 16 + hexval(b));
            }
        }
        7 => {
            // octal: \0.., and more than one digit
            s.lit("\\");
            match choose(3) {
                0 => {
                    s.lit("0");
                    let z = s.sym(Set::of(b"89ax-("));
                    hex2(o, 0);
                    o.push(z);
                }
                1 => {
                    let a = s.sym(OCT);
                    let b = s.sym(OCT);
                    let z = s.sym(Set::of(b"89ax-("));
                    hex2(o, (a - b'0') * 8 + (b - b'0'));
                    o.push(z);
                }
                _ => {
                    let a = s.sym(Set::range(b'0', b'3'));
                    let b = s.sym(OCT);
                    let c = s.sym(OCT);
                    hex2(o, (a - b'0') * 64 + (b - b'0') * 8 + (c - b'0'));
                    s.lit("1");
                    o.push(b'1');
                }
            }
        }
        _ => {
            // back reference
            s.lit("\\");
            let a = s.sym(Set::range(b'1', b'9'));
            let z = s.sym(Set::of(b"ax-( "));
            o.extend_from_slice(&[b'\\', a, z]);
        }
    }
}
const ITEMS: usize = 9;
/// Option letters and the flags they stand for.
fn options(s: &mut Src, n: usize) -> (X, bool) {
    let mut o = b"m".to_vec();
    let mut free = false;
    for _ in 0..n {
        match s.sym(Set::of(b"imxoun")) {
            b'i' => o.push(b'i'),
            b'm' => o.push(b's'),
            b'x' => free = true,
            _ => {}
        }
    }
    (o, free)
}
fn re(parts: &[X], opt: &[u8], konst: bool) -> X {
    t("re", &[&l(parts), &name(opt), &flag(konst)])
}
/// A sequence of `n` items.
#[no_mangle]
pub extern "C-unwind" fn h_re(n: u64) {
    let mut s = Src::new();
    let mut o = vec![];
    s.lit("/");
    for _ in 0..n {
        let k = choose(ITEMS);
        item(&mut s, k, n > 1, &mut o);
    }
    // a space begins no regular expression after an identifier only: here it does
    s.lit("/");
    let r = if n == 1 { choose(3) } else { 0 };
    s.lit(["", ";1", " =~ @a"][r]);
    let x = re(&[str_(&o)], b"m", true);
    let x = match r {
        0 => x,
        1 => seq(&[x, int(1)]),
        _ => bin("=~", &x, &ivar(b"@a")),
    };
    expect(&s, &x);
    cover(1);
}
/// Option letters.
#[no_mangle]
pub extern "C-unwind" fn h_re_opt(n: u64) {
    let mut s = Src::new();
    let pct = choose(2);
    s.lit(["/", "%r{"][pct]);
    s.lit("a b");
    s.lit(["/", "}"][pct]);
    let (o, free) = options(&mut s, n as usize);
    expect(&s, &re(&[str_(if free { b"ab" } else { b"a b" })], &o, true));
    // a letter that is no option
    let c = s.sym(LOWER.minus(Set::of(b"imxoun")));
    let _ = c;
    reject(&s);
    cover(1);
}
/// Free format: white space and comments are dropped outside of classes and escapes.
#[no_mangle]
pub extern "C-unwind" fn h_re_free(n: u64) {
    let mut s = Src::new();
    let mut o = vec![];
    s.lit("/");
    for _ in 0..n {
        match choose(9) {
            0 => {
                s.sym(Set::of(b" \t\n"));
            }
            1 => o.push(s.sym(PRINT.minus(Set::of(b"/\\#[] ")))),
            2 => {
                s.lit("# ");
                s.sym(PRINT.minus(Set::of(b"/\\#[]")));
                s.lit(" # x\n");
            }
            3 => {
                s.lit("\\");
                let c = s.sym(Set::of(b" #d\n/["));
                o.extend_from_slice(&[b'\\', c]);
            }
            4 => {
                s.lit("[");
                let c = s.sym(Set::of(b" #\n\t-("));
                s.lit(" ]");
                o.extend_from_slice(&[b'[', c, b' ', b']']);
            }
            5 => {
                s.lit("[ [:alpha:] ] ");
                o.extend_from_slice(b"[ [:alpha:] ]");
            }
            6 => {
                s.lit("[ \\] ] ");
                o.extend_from_slice(b"[ \\] ]");
            }
            7 => {
                s.lit(" あ\n");
                o.extend_from_slice("あ".as_bytes());
            }
            _ => {
                s.lit("\\s \\x1 ");
                o.extend_from_slice(b"[[:space:]]\\x01");
            }
        }
    }
    s.lit("/");
    s.lit(["x", "xm", "ix"][choose(3)]);
    let e = s.0[s.len() - 2];
    let z = s.0[s.len() - 1];
    let f: &[u8] = if z == b'm' {
        b"ms"
    } else if e == b'i' {
        b"mi"
    } else {
        b"m"
    };
    expect(&s, &re(&[str_(&o)], f, true));
    cover(1);
}
/// Interpolation inside a regular expression.
#[no_mangle]
pub extern "C-unwind" fn h_re_interp(n: u64) {
    let mut s = Src::new();
    let mut v = vec![];
    let mut new: Vec<&[u8]> = vec![];
    let mut konst = true;
    budget(1);
    s.lit("/");
    for i in 0..n + 1 {
        let mut o = vec![];
        match if n > 1 && i > 0 { alt(4) } else { choose(if i == 0 { 5 } else { 4 }) } {
            0 => {}
            1 => o.push(s.sym(Set::of(b" -+*?()|."))),
            2 => {
                s.lit("-\\s\\b");
                o.extend_from_slice(b"-[[:space:]]\\b");
            }
            3 => {
                s.lit("-#");
                let c = s.sym(Set::of(b"a (-"));
                o.extend_from_slice(&[b'-', b'#', c]);
            }
            _ => {
                // a class that goes on behind the interpolation
                s.lit("[\\b#{@z}\\b]\\b");
                v.push(str_(b"[\\x08"));
                v.push(ivar(b"@z"));
                o.extend_from_slice(b"\\x08]\\b");
                konst = false;
            }
        }
        v.push(str_(&o));
        if i == n {
            break;
        }
        let x = match choose(8) {
            0 => {
                s.lit("#{@");
                let c = s.sym(ALPHA);
                s.lit("}");
                konst = false;
                ivar(&[b'@', c])
            }
            1 => {
                s.lit("#{");
                let c = s.sym(DIGIT);
                s.lit("}");
                int((c - b'0') as i64)
            }
            2 => {
                s.lit("#{v = /}/}");
                new = vec![b"v"];
                konst = false;
                asg(&[lvar(0, b"v")], &[re(&[str_(b"}")], b"m", true)])
            }
            3 => {
                s.lit("#{\"/\"}");
                str_(b"/")
            }
            4 => {
                s.lit("#{{a: 1}}");
                konst = false;
                hash(&[(sym_(b"a"), int(1))], true)
            }
            5 => {
                s.lit("#{}");
                konst = false;
                empty()
            }
            6 => {
                s.lit("#{f / 2}");
                konst = false;
                bin("/", &ident(b"f"), &int(2))
            }
            _ => {
                s.lit("#@a");
                // the name ends here
                s.lit(".#$b");
                konst = false;
                v.push(ivar(b"@a"));
                v.push(str_(b"."));
                s.lit("|#@@c");
                v.push(gvar(b"$b"));
                v.push(str_(b"|"));
                s.lit("|#$1");
                v.push(cvar(b"@@c"));
                v.push(str_(b"|"));
                s.lit("|#{1}");
                v.push(svar(101));
                v.push(str_(b"|"));
                int(1)
            }
        };
        v.push(x);
    }
    s.lit("/");
    let (f, free) = options(&mut s, if n > 1 { 0 } else { choose(2) });
    if free {
        return;
    }
    s.lit("\n2");
    expect_lv(&s, &seq(&[re(&v, &f, konst), int(2)]), &Lv::of(&new));
    cover(1);
}
/// Free format over interpolated pieces: a comment may span them.
#[no_mangle]
pub extern "C-unwind" fn h_re_free_interp(_n: u64) {
    let mut s = Src::new();
    let (a, b, p, q) = pick(&[
        ("a b", " c d", "ab", "cd"),
        ("a # b", " c\n d", "a", "d"),
        ("[ #", " ] d", "[ #", " ]d"),
        ("a \\ ", "\\# #", "a\\ ", "\\#"),
        ("# ", "", "", ""),
    ]);
    let comment = a.ends_with("b") && p == "a" || p == "";
    s.lit("/").lit(a);
    let k = choose(3);
    s.lit(["#{@a}", "#{1}", "#@a."][k]);
    s.lit(b).lit("/x");
    let x = [ivar(b"@a"), int(1), ivar(b"@a")][k].clone();
    let x = if comment { str_(b"") } else { x };
    let mut y = vec![];
    if k == 2 && !comment {
        y.push(b'.');
    }
    y.extend_from_slice(q.as_bytes());
    expect(&s, &re(&[str_(p.as_bytes()), x, str_(&y)], b"m", comment || k == 1));
    cover(k as u32);
}
/// Where `/` begins a regular expression and where it divides.
#[no_mangle]
pub extern "C-unwind" fn h_re_ctx(_n: u64) {
    let mut s = Src::new();
    let c0 = Set::of(b"b1(=@");
    let k = choose(26);
    let r = |c: u8, tail: &[u8]| {
        let mut v = vec![c];
        v.extend_from_slice(tail);
        if c == b'(' {
            v.push(b')')
        }
        re(&[str_(&v)], b"m", true)
    };
    let pre = [
        "", "f(", "f(1, ", "x = ", "[", "f k: ", "@a =~ ", "1 if ", "!", "return ", "f ", "F ", "{1 => ", "@a && ", "while ", "f { ", "f do |y| ", "@a ? ", "case @a\nwhen ",
        "a.b ", "begin ", "@a ||= ", "puts 1, ", "x = 1\nf ", "[1, ", "(",
    ][k];
    s.lit(pre).lit("/");
    let c = s.sym(c0);
    if matches!(k, 10 | 11 | 19 | 23) {
        // `a /=` assigns
        assume(c != b'=');
    }
    s.lit("c");
    if c == b'(' {
        s.lit(")");
    }
    s.lit("/");
    s.lit(["", ")", ")", "", "]", "", "", "", "", "", "", "", "}", "", "\n2\nend", "}", " end", " : 1", "\n2\nend", "", " end", "", "", "", "]", ")"][k]);
    let x = r(c, b"c");
    let a = |v: X| Args::of(&[v]);
    let w = match k {
        0 => x,
        1 | 10 => call(b"f", &a(x)),
        2 => call(b"f", &Args::of(&[int(1), x])),
        3 => asg(&[lvar(0, b"x")], &[x]),
        4 => ary(&[x], false),
        5 => call(b"f", &Args { kw: vec![(b"k".to_vec(), x)], ..Default::default() }),
        6 => bin("=~", &ivar(b"@a"), &x),
        7 => if_(&x, &int(1), &empty()),
        8 => un("!", &x),
        9 => t("return", &[&x]),
        11 => call(b"F", &a(x)),
        12 => hash(&[(int(1), x)], false),
        13 => bin("&&", &ivar(b"@a"), &x),
        14 => t("while", &[&x, &int(2), b"T", b"F"]),
        15 => call(b"f", &Args { block: Some(lambda(&[], &x, &Lv::default())), ..Default::default() }),
        16 => {
            let b = lambda(&[t("req", &[&name(b"y")])], &body(&x), &Lv::of(&[b"y"]));
            call(b"f", &Args { block: Some(b), ..Default::default() })
        }
        17 => if_(&ivar(b"@a"), &x, &int(1)),
        18 => t("case", &[&ivar(b"@a"), b"w", &l(&[x]), &int(2), b"e", &empty()]),
        19 => mcall(&ident(b"a"), b"b", &a(x)),
        20 => body(&x),
        21 => bin("||", &ivar(b"@a"), &asg(&[ivar(b"@a")], &[x])),
        22 => call(b"puts", &Args::of(&[int(1), x])),
        23 => seq(&[asg(&[lvar(0, b"x")], &[int(1)]), call(b"f", &a(x))]),
        24 => ary(&[int(1), x], false),
        _ => x,
    };
    expect(&s, &w);
    cover(k as u32);
}
/// `/` after an operand divides.
#[no_mangle]
pub extern "C-unwind" fn h_re_div(_n: u64) {
    let mut s = Src::new();
    let k = choose(13);
    let sp = choose(4);
    let pre = ["1", "@a", "$a", "@@a", "(1)", "[1]", "x = 1\nx", "a()", "a.b", "a", "\"z\"", "nil", "a[0]"][k];
    s.lit(pre);
    s.lit(["", " ", " ", ""][sp]).lit("/").lit(["", " ", "", " "][sp]);
    if sp == 2 && (k == 8 || k == 9) {
        // a space before and none after: a command argument
        return;
    }
    let c = s.sym(DIGIT);
    s.lit(["", " "][choose(2)]).lit("/ ");
    let d = s.sym(DIGIT);
    let a = match k {
        0 | 4 => int(1),
        1 => ivar(b"@a"),
        2 => gvar(b"$a"),
        3 => cvar(b"@@a"),
        5 => ary(&[int(1)], true),
        6 => lvar(0, b"x"),
        7 => call(b"a", &Args::default()),
        8 => mcall(&call(b"a", &Args::default()), b"b", &Args::default()),
        9 => ident(b"a"),
        10 => str_(b"z"),
        11 => nil(),
        _ => t("idx", &[&ident(b"a"), &l(&[int(0)])]),
    };
    let x = bin("/", &bin("/", &a, &int((c - b'0') as i64)), &int((d - b'0') as i64));
    let x = if k == 6 { seq(&[asg(&[lvar(0, b"x")], &[int(1)]), x]) } else { x };
    expect(&s, &x);
    cover(k as u32);
}
/// Without a closing slash it is an incomplete program.
#[no_mangle]
pub extern "C-unwind" fn h_re_open(_n: u64) {
    let mut s = Src::new();
    s.lit(["/", "@a = /", "f(/", "%r("][choose(4)]);
    s.sym(PRINT.minus(Set::of(b"/\\#[]()")));
    s.lit(["", "\\/", "[", "\\", "\n1\n"][choose(5)]);
    reject_eof(&s);
    cover(1);
}

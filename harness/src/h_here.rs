//! P20 here documents.
use crate::ast::*;
use crate::rt::*;

/// Kind of here document: indented terminator, quoting.
#[derive(Clone, Copy, PartialEq)]
struct K {
    dash: bool,
    quote: u8, // 0: bare
}
const KS: &[K] = &[
    K { dash: false, quote: 0 },
    K { dash: true, quote: 0 },
    K { dash: false, quote: b'"' },
    K { dash: true, quote: b'"' },
    K { dash: true, quote: b'\'' },
    K { dash: false, quote: b'\'' },
    K { dash: true, quote: b'`' },
    K { dash: false, quote: b'`' },
];
fn head(s: &mut Src, k: K, tag: &[u8]) {
    s.lit("<<");
    if k.dash {
        s.lit("-");
    }
    if k.quote != 0 {
        s.byte(k.quote);
    }
    s.bytes(tag);
    if k.quote != 0 {
        s.byte(k.quote);
    }
}
fn value(k: K, text: &[u8]) -> X {
    let x = str_(text);
    if k.quote == b'`' {
        t("cmd", &[&x])
    } else {
        x
    }
}
const PLAIN: Set = PRINT.minus(Set::of(b"\\#"));
/// One line of text; what it adds to the value.
fn line(s: &mut Src, k: K, tag: &[u8], kind: usize, v: &mut X) {
    match kind {
        0 => {}
        1 => {
            let a = s.sym(PLAIN);
            let b = s.sym(PLAIN);
            assume(!(tag.len() == 2 && a == tag[0] && b == tag[1]));
            if k.dash && tag.len() == 1 {
                assume(!(a == b' ' && b == tag[0]));
            }
            v.extend_from_slice(&[a, b]);
        }
        2 => {
            // the tag and something after it
            s.bytes(tag);
            let c = s.sym(PLAIN);
            v.extend_from_slice(tag);
            v.push(c);
        }
        3 => {
            // something before the tag
            let c = s.sym(if k.dash { PLAIN.minus(Set::of(b" ")) } else { PLAIN });
            s.bytes(tag);
            v.push(c);
            v.extend_from_slice(tag);
        }
        4 => {
            // an incomplete tag
            s.bytes(&tag[..tag.len() - 1]);
            v.extend_from_slice(&tag[..tag.len() - 1]);
        }
        5 => {
            s.lit("\\t");
            v.extend_from_slice(if k.quote == b'\'' { b"\\t" } else { b"\t" });
        }
        6 => {
            s.lit("あ'\"`");
            v.extend_from_slice("あ'\"`".as_bytes());
        }
        7 => {
            s.lit("#").bytes(tag);
            v.push(b'#');
            v.extend_from_slice(tag);
        }
        8 => {
            s.lit("=begin");
            v.extend_from_slice(b"=begin");
        }
        _ => {
            s.lit("__END__");
            v.extend_from_slice(b"__END__");
        }
    }
    s.lit("\n");
    v.push(b'\n');
}
const LINES: usize = 10;
fn term(s: &mut Src, k: K, tag: &[u8]) {
    if k.dash {
        s.lit(["", " ", "\t  "][alt(3)]);
    }
    s.bytes(tag);
}
fn tag(s: usize) -> X {
    let mut v = vec![sym(UPPER)];
    if s > 1 {
        v.push(sym(WORD));
    }
    v
}
/// A here document of `n` lines.
#[no_mangle]
pub extern "C-unwind" fn h_here(n: u64) {
    let mut s = Src::new();
    budget(1);
    let k = pick(KS);
    let g = tag(2 - alt(2));
    head(&mut s, k, &g);
    s.lit(["\n", " \n", "# c\n"][alt(3)]);
    let mut v = vec![];
    for i in 0..n {
        let kind = if i < 2 { choose(LINES) } else { 1 + alt(LINES - 1) };
        line(&mut s, k, &g, kind, &mut v);
    }
    term(&mut s, k, &g);
    let x = value(k, &v);
    match choose(3) {
        0 => {
            expect(&s, &x);
        }
        1 => {
            s.lit("\n");
            expect(&s, &x);
        }
        _ => {
            s.lit("\n1");
            expect(&s, &seq(&[x, int(1)]));
        }
    }
    cover(k.quote as u32);
}
/// The rest of the line after the tag goes on as if the text were not there.
#[no_mangle]
pub extern "C-unwind" fn h_here_ctx(_n: u64) {
    let mut s = Src::new();
    let k = pick(KS);
    let g = tag(1);
    let c = choose(16);
    // what comes before and after on the line, and after the text
    let (a, b, z) = [
        ("", "", ""),
        ("a(", ", 2)", ""),
        ("x = ", "", ""),
        ("[", ", 2]", ""),
        ("", ".b(2)", ""),
        ("a ", "", ""),
        ("a(k: ", ")", ""),
        ("", " + @b", ""),
        ("a do\n", "", "end\n"),
        ("a {", "}", ""),
        ("if ", "", "2\nend\n"),
        ("", " if @b", ""),
        ("@a = ", "; 2", ""),
        ("def m\n", "", "end\n"),
        ("a(", "", ", 2)\n"),
        ("{1 => ", ",", "2 => 3}\n"),
    ][c];
    s.lit(a);
    head(&mut s, k, &g);
    s.lit(b).lit("\n");
    let d = s.sym(ALNUM.minus(UPPER));
    s.lit("\n").bytes(&g).lit("\n");
    s.lit(z);
    let end = choose(2);
    if end == 1 {
        s.lit("3");
    }
    let v = value(k, &[d, b'\n']);
    let q = k.quote != b'`';
    let mut lv = Lv::default();
    let w = match c {
        0 => v,
        1 | 14 => call(b"a", &Args::of(&[v, int(2)])),
        2 => {
            lv = Lv::of(&[b"x"]);
            asg(&[lvar(0, b"x")], &[v])
        }
        3 => ary(&[v, int(2)], q),
        4 => mcall(&v, b"b", &Args::of(&[int(2)])),
        5 => call(b"a", &Args::of(&[v])),
        6 => call(b"a", &Args { kw: vec![(b"k".to_vec(), v)], ..Default::default() }),
        7 => bin("+", &v, &ivar(b"@b")),
        8 => call(b"a", &Args { block: Some(lambda(&[], &body(&v), &Lv::default())), ..Default::default() }),
        9 => call(b"a", &Args { block: Some(lambda(&[], &v, &Lv::default())), ..Default::default() }),
        10 => if_(&v, &int(2), &empty()),
        11 => if_(&ivar(b"@b"), &v, &empty()),
        12 => seq(&[asg(&[ivar(b"@a")], &[v]), int(2)]),
        13 => def(b"m", &[], &v, &Lv::default()),
        _ => hash(&[(int(1), v), (int(2), int(3))], q),
    };
    let w = if end == 1 {
        if c == 12 {
            seq(&[asg(&[ivar(b"@a")], &[value(k, &[d, b'\n'])]), int(2), int(3)])
        } else {
            seq(&[w, int(3)])
        }
    } else {
        w
    };
    expect_lv(&s, &w, &lv);
    cover(c as u32);
}
/// Several here documents on one line take their texts in order.
#[no_mangle]
pub extern "C-unwind" fn h_here_two(n: u64) {
    let mut s = Src::new();
    budget(1);
    let mut ks = vec![];
    let mut gs: Vec<X> = vec![];
    let form = choose(4);
    s.lit(["a(", "[", "", "x = [1, "][form]);
    for i in 0..n {
        if i > 0 {
            s.lit(if form == 2 { " + " } else { ", " });
        }
        let k = if n == 2 || i == 0 { pick(KS) } else { KS[alt(KS.len())] };
        let g = tag(1);
        head(&mut s, k, &g);
        ks.push(k);
        gs.push(g);
    }
    s.lit([")", "]", "", "]"][form]).lit("\n");
    let mut v = vec![];
    for i in 0..n as usize {
        let mut x = vec![];
        match choose(3) {
            0 => {}
            1 => line(&mut s, ks[i], &gs[i], 1, &mut x),
            _ => {
                // the other terminator is text here, unless it is the same
                let o = gs[(i + 1) % n as usize].clone();
                assume(o != gs[i]);
                s.bytes(&o).lit("\n");
                x.extend_from_slice(&o);
                x.push(b'\n');
            }
        }
        term(&mut s, ks[i], &gs[i]);
        s.lit("\n");
        v.push(value(ks[i], &x));
    }
    s.lit("9");
    let q = ks.iter().all(|k| k.quote != b'`');
    let x = match form {
        0 => call(b"a", &Args::of(&v)),
        1 => ary(&v, q),
        2 => {
            let mut x = v[0].clone();
            for y in &v[1..] {
                x = bin("+", &x, y);
            }
            x
        }
        _ => {
            v.insert(0, int(1));
            asg(&[lvar(0, b"x")], &[ary(&v, q)])
        }
    };
    expect(&s, &seq(&[x, int(9)]));
    cover(form as u32);
}
/// Here documents one after the other, and interpolation that sees and makes local variables.
#[no_mangle]
pub extern "C-unwind" fn h_here_seq(_n: u64) {
    let mut s = Src::new();
    let g = tag(1);
    match choose(5) {
        0 => {
            // on successive lines
            s.lit("<<").bytes(&g).lit("\n1\n").bytes(&g).lit("\n<<").bytes(&g).lit("\n2\n").bytes(&g).lit("\n3");
            expect(&s, &seq(&[str_(b"1\n"), str_(b"2\n"), int(3)]));
        }
        1 => {
            // assignment inside, use after
            s.lit("a = 1\n<<").bytes(&g).lit("\n#{b = a}\n").bytes(&g).lit("\nb");
            let x = t("istr", &[&l(&[asg(&[lvar(0, b"b")], &[lvar(0, b"a")]), str_(b"\n")])]);
            expect_lv(&s, &seq(&[asg(&[lvar(0, b"a")], &[int(1)]), x, lvar(0, b"b")]), &Lv::of(&[b"a", b"b"]));
        }
        2 => {
            // inside a block: the variable of the outer scope
            s.lit("a = 1\nf do |c|\n<<").bytes(&g).lit("\n#{a}#{c}\n").bytes(&g).lit("\nend");
            let x = t("istr", &[&l(&[lvar(1, b"a"), lvar(0, b"c"), str_(b"\n")])]);
            let bl = t("lambda", &[&blk(&[t("req", &[&name(b"c")])], &body(&x), &Lv::of(&[b"c"]))]);
            let f = call(b"f", &Args { block: Some(bl), ..Default::default() });
            expect(&s, &seq(&[asg(&[lvar(0, b"a")], &[int(1)]), f]));
        }
        3 => {
            // interpolated call with a string that holds the tag
            s.lit("<<").bytes(&g).lit("\n#{f(\"").bytes(&g).lit("\")}").bytes(&g).lit("\n").bytes(&g).lit("\n3");
            let mut e = g.clone();
            e.push(b'\n');
            let x = t("istr", &[&l(&[call(b"f", &Args::of(&[str_(&g)])), str_(&e)])]);
            expect(&s, &seq(&[x, int(3)]));
        }
        _ => {
            // raw text does not interpolate
            s.lit("<<'").bytes(&g).lit("'\n#{a}#@b\\\n").bytes(&g).lit("\n3");
            expect(&s, &seq(&[str_(b"#{a}#@b\\\n"), int(3)]));
        }
    }
    cover(1);
}
/// `<<` directly after an operand or before a space is the shift operator, a missing terminator is an error.
#[no_mangle]
pub extern "C-unwind" fn h_here_not(_n: u64) {
    let mut s = Src::new();
    let k = choose(9);
    let c = sym(UPPER);
    let g: &[u8] = &[c];
    match k {
        0 => {
            s.lit("@a<<").bytes(g);
            expect(&s, &bin("<<", &ivar(b"@a"), &cnst(g)));
        }
        1 => {
            s.lit("@a << ").bytes(g);
            expect(&s, &bin("<<", &ivar(b"@a"), &cnst(g)));
        }
        2 => {
            s.lit("a = 1\na <<").bytes(g).lit("\n").bytes(g);
            let x = bin("<<", &lvar(0, b"a"), &cnst(g));
            expect(&s, &seq(&[asg(&[lvar(0, b"a")], &[int(1)]), x, cnst(g)]));
        }
        3 => {
            s.lit("a << ").bytes(g);
            expect(&s, &bin("<<", &ident(b"a"), &cnst(g)));
        }
        4 => {
            s.lit("<<").bytes(g).lit("\nx\n");
            let d = s.sym(WORD);
            assume(d != c);
            reject(&s);
        }
        5 => {
            // an indented terminator only ends `<<-`
            s.lit("<<").bytes(g).lit("\nx\n ").bytes(g).lit("\n");
            reject(&s);
        }
        6 => {
            s.lit("<< ").bytes(g).lit("\nx\n").bytes(g).lit("\n");
            reject(&s);
        }
        7 => {
            s.lit("<<'").bytes(g).lit("\nx\n").bytes(g).lit("\n");
            reject(&s);
        }
        _ => {
            s.lit("a <<").bytes(g).lit(", 1\nx\n").bytes(g).lit("\n");
            expect(&s, &call(b"a", &Args::of(&[str_(b"x\n"), int(1)])));
        }
    }
    cover(k as u32);
}

/// A program that ends before the terminator of a here document is incomplete, wherever it is cut off (P03).
#[no_mangle]
pub extern "C-unwind" fn h_here_cut(n: u64) {
    let mut s = Src::new();
    let k = pick(KS);
    let g = tag(1 + choose(2));
    s.lit(["", "a(", "x = ", "[1, ", "a do\n", "if @b then ", "\"#{", "def m\n"][choose(8)]);
    let two = choose(2) == 1;
    head(&mut s, k, &g);
    if two {
        // the first one is complete, the second one is not
        s.lit(" + ");
        head(&mut s, k, b"ZZZ");
    }
    s.lit([" ", "; 2 ", ""][choose(3)]);
    if choose(2) == 1 {
        s.lit("\n");
        let mut v = vec![];
        if two {
            s.bytes(&g).lit("\n");
        }
        let g = if two { b"ZZZ".to_vec() } else { g };
        for i in 0..n {
            let kind = if i == 0 { choose(LINES) } else { choose(5) };
            line(&mut s, k, &g, kind, &mut v);
        }
        match choose(5) {
            0 => {}
            1 => {
                s.bytes(&g[..g.len() - 1]);
            }
            2 => {
                s.lit("#{");
            }
            3 => {
                s.bytes(&g).lit("x");
            }
            _ => {
                if !k.dash {
                    s.lit(" ").bytes(&g);
                } else {
                    s.lit("x").bytes(&g);
                }
            }
        }
    }
    reject_eof(&s);
    cover(1);
}

//! P27 arrays, hashes, ranges and indexing; P28 variables.
use crate::ast::*;
use crate::rt::*;

const ELEMS: usize = 24;
/// An element: its tree and whether it counts as a constant.
fn elem(s: &mut Src, k: usize) -> (X, bool) {
    let i = |c: u8| int((c - b'0') as i64);
    match k {
        0 => (i(s.sym(DIGIT)), true),
        1 => {
            s.lit("\"");
            let c = s.sym(ALNUM.or(Set::of(b" ,]}>'")));
            s.lit("\"");
            (str_(&[c]), true)
        }
        2 => {
            s.lit(":");
            (sym_(&[s.sym(ALPHA)]), true)
        }
        3 => {
            let k = choose(3);
            s.lit(["nil", "true", "false"][k]);
            ([nil(), w("true"), w("false")][k].clone(), true)
        }
        4 => {
            s.lit("@");
            (ivar(&[b'@', s.sym(ALPHA)]), false)
        }
        5 => {
            s.lit("1.5");
            (float(1.5), true)
        }
        6 => {
            s.lit("f(");
            let c = s.sym(DIGIT);
            s.lit(", 2)");
            (call(b"f", &Args::of(&[i(c), int(2)])), false)
        }
        7 => {
            s.lit("[");
            let c = s.sym(DIGIT);
            s.lit(",3]");
            (ary(&[i(c), int(3)], true), false)
        }
        8 => {
            s.lit("{k: ");
            let c = s.sym(DIGIT);
            s.lit("}");
            (hash(&[(sym_(b"k"), i(c))], true), false)
        }
        9 => {
            s.lit("-");
            let c = s.sym(DIGIT);
            (int(-((c - b'0') as i64)), true)
        }
        10 => {
            s.lit("?");
            (str_(&[s.sym(ALPHA)]), true)
        }
        11 => {
            let a = s.sym(DIGIT);
            s.lit(" + ");
            let b = s.sym(DIGIT);
            (bin("+", &i(a), &i(b)), false)
        }
        12 => {
            s.lit("self");
            (w("self"), false)
        }
        13 => {
            let a = s.sym(DIGIT);
            s.lit("..2");
            (t("range", &[&i(a), &int(2), b"F", b"T"]), false)
        }
        14 => {
            s.lit("18446744073709551616");
            (w("B+\x03\0\0\0\0\0\0\0\0\x01\0\0\0"), true)
        }
        15 => {
            s.lit("A");
            (cnst(b"A"), false)
        }
        16 => {
            s.lit("2i");
            (t("im", &[&int(2)]), false)
        }
        17 => {
            s.lit("/,]/");
            (t("re", &[&l(&[str_(b",]")]), &name(b"m"), b"T"]), false)
        }
        18 => {
            s.lit("@a ? 1 : 2");
            (if_(&ivar(b"@a"), &int(1), &int(2)), false)
        }
        19 => {
            s.lit("->{1}");
            (lambda(&[], &int(1), &Lv::default()), false)
        }
        20 => {
            s.lit("(");
            let c = s.sym(DIGIT);
            s.lit(")");
            (i(c), true)
        }
        21 => {
            s.lit("\"#{1}\"");
            (t("istr", &[&l(&[int(1)])]), false)
        }
        22 => {
            s.lit("a");
            (ident(b"a"), false)
        }
        _ => {
            s.lit("\"\\xff\"");
            (bytes_(b"\xff"), true)
        }
    }
}
/// What stands around a literal.
fn around(s: &mut Src, k: usize, f: impl FnOnce(&mut Src) -> X) -> (X, Lv) {
    s.lit(["", "v = ", "g(", "@a + ", "", "[", "return ", "1 if "][k]);
    let x = f(s);
    s.lit(["", "", ")", "", ".z", "]", "", ""][k]);
    let mut lv = Lv::default();
    let y = match k {
        0 => x,
        1 => {
            lv = Lv::of(&[b"v"]);
            asg(&[lvar(0, b"v")], &[x])
        }
        2 => call(b"g", &Args::of(&[x])),
        3 => bin("+", &ivar(b"@a"), &x),
        4 => mcall(&x, b"z", &Args::default()),
        5 => ary(&[x], false),
        6 => t("return", &[&x]),
        _ => if_(&x, &int(1), &empty()),
    };
    (y, lv)
}
/// Array of `n` elements.
#[no_mangle]
pub extern "C-unwind" fn h_array(n: u64) {
    let mut s = Src::new();
    budget(1 + n as usize / 10);
    let n = n % 10;
    let c = alt(8);
    let (x, lv) = around(&mut s, c, |s| {
        s.lit("[").lit(["", " ", "\n"][alt(3)]);
        let mut v = vec![];
        let mut konst = true;
        for i in 0..n {
            if i > 0 {
                s.lit([", ", ",", ",\n", "\n,", " , "][alt(5)]);
            }
            if alt(2) == 1 {
                s.lit("*");
                let (x, _) = match alt(3) {
                    0 => elem(s, 4),
                    1 => elem(s, 7),
                    _ => elem(s, 13),
                };
                v.push(t("splat", &[&x]));
                konst = false;
            } else {
                let k = if i == 0 || n == 2 { choose(ELEMS) } else { alt(ELEMS) };
                let (x, c) = elem(s, k);
                v.push(x);
                konst &= c;
            }
        }
        if n > 0 {
            s.lit(["", ",", " ", ",\n", "\n"][alt(5)]);
        }
        s.lit("]");
        ary(&v, konst)
    });
    expect_lv(&s, &x, &lv);
    cover(c as u32);
}
/// Hash of `n` pairs.
#[no_mangle]
pub extern "C-unwind" fn h_hash(n: u64) {
    let mut s = Src::new();
    budget(1 + n as usize / 10);
    let n = n % 10;
    let c = alt(8);
    let (x, lv) = around(&mut s, c, |s| {
        s.lit("{").lit(["", " ", "\n"][alt(3)]);
        let mut v = vec![];
        let mut konst = true;
        for i in 0..n {
            if i > 0 {
                s.lit([", ", ",", ",\n", "\n,", " , "][alt(5)]);
            }
            let kind = if i == 0 { choose(11) } else { alt(11) };
            let key = match kind {
                0 => {
                    let c = s.sym(LOWER);
                    s.lit(":");
                    sym_(&[c])
                }
                1 => {
                    s.lit("\"");
                    let c = s.sym(ALNUM.or(Set::of(b" :,}")));
                    s.lit("\":");
                    sym_(&[c])
                }
                2 => {
                    let c = s.sym(UPPER);
                    s.lit("?:");
                    sym_(&[c, b'?'])
                }
                3 => {
                    let w = pick(&["if", "end", "nil", "self", "def", "in"]);
                    s.lit(w).lit(":");
                    sym_(w.as_bytes())
                }
                _ => {
                    let k = if kind < 9 { [0, 1, 2, 4, 6][kind - 4] } else { choose(if n == 1 { ELEMS } else { 1 }) };
                    if kind == 9 && n > 1 {
                        assume(false);
                    }
                    let (x, c) = elem(s, k);
                    konst &= c;
                    s.lit([" => ", "=>", " =>\n"][alt(3)]);
                    x
                }
            };
            if kind < 4 {
                s.lit(" ");
            }
            let k = if i == 0 || n == 1 { [0, 1, 4, 7][choose(if n == 1 { 4 } else { 2 })] } else { alt(ELEMS) };
            let (x, c) = elem(s, k);
            konst &= c;
            v.push((key, x));
        }
        if n > 0 {
            s.lit(["", ",", " ", ",\n", "\n"][alt(5)]);
        }
        s.lit("}");
        hash(&v, konst)
    });
    expect_lv(&s, &x, &lv);
    cover(c as u32);
}
/// Ranges: both ends, both operators, the constant flag.
#[no_mangle]
pub extern "C-unwind" fn h_range(_n: u64) {
    let mut s = Src::new();
    let p = choose(2);
    s.lit(["", "("][p]);
    let ends = [0, 1, 4, 5, 6, 9, 11, 14, 15, 22];
    let a = pick(&ends);
    let (x, _) = elem(&mut s, a);
    let o = choose(2);
    let sp = choose(3);
    s.lit(["", " ", " "][sp]).lit(["..", "..."][o]).lit(["", " ", ""][sp]);
    let b = pick(&ends);
    let (y, _) = elem(&mut s, b);
    s.lit(["", ")"][p]);
    let konst = |k| matches!(k, 0 | 9 | 14);
    expect(&s, &t("range", &[&x, &y, &flag(o == 1), &flag(konst(a) && konst(b))]));
    cover(1);
}
/// Index expressions.
#[no_mangle]
pub extern "C-unwind" fn h_index(_n: u64) {
    let mut s = Src::new();
    budget(1);
    let b = choose(7);
    s.lit(["@a", "a", "v = 1\nv", "f(1)", "\"s\"", "A", "@a.b"][b]);
    let base = [
        ivar(b"@a"),
        ident(b"a"),
        lvar(0, b"v"),
        call(b"f", &Args::of(&[int(1)])),
        str_(b"s"),
        cnst(b"A"),
        mcall(&ivar(b"@a"), b"b", &Args::default()),
    ][b]
        .clone();
    if matches!(b, 0 | 2 | 3 | 4) {
        s.lit(["", " "][alt(2)]);
    }
    s.lit("[").lit(["", " ", "\n"][alt(3)]);
    let n = choose(3);
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            s.lit([", ", ",", ",\n"][alt(3)]);
        }
        if alt(2) == 1 {
            s.lit("*@s");
            v.push(t("splat", &[&ivar(b"@s")]));
        } else {
            let k = if n == 1 && b < 2 { choose(ELEMS) } else { alt(ELEMS) };
            v.push(elem(&mut s, k).0);
        }
    }
    if n > 0 {
        s.lit(["", ",", " ", "\n"][alt(4)]);
    }
    s.lit("]");
    let x = t("idx", &[&base, &l(&v)]);
    let e = choose(7);
    s.lit(["", "[3]", ".z", " = 3", " += 3", " + 3", " ||= 3"][e]);
    let y = match e {
        0 => x,
        1 => t("idx", &[&x, &l(&[int(3)])]),
        2 => mcall(&x, b"z", &Args::default()),
        3 => asg(&[x], &[int(3)]),
        4 => t("op=", &[b"+ ", &x, &int(3)]),
        5 => bin("+", &x, &int(3)),
        _ => bin("||", &x, &asg(&[x.clone()], &[int(3)])),
    };
    let y = if b == 2 { seq(&[asg(&[lvar(0, b"v")], &[int(1)]), y]) } else { y };
    expect(&s, &y);
    cover(b as u32);
}
/// Malformed collections are rejected.
#[no_mangle]
pub extern "C-unwind" fn h_coll_bad(_n: u64) {
    let mut s = Src::new();
    let k = choose(14);
    let d = sym(DIGIT);
    let (a, b) = [
        ("[", " 2]"),
        ("[,", "]"),
        ("[", ",,2]"),
        ("[", "}"),
        ("[", ")"),
        ("@h = {", "}"),
        ("@h = {a ", "}"),
        ("@h = {a: 1 b: ", "}"),
        ("@h = {1 => ", ",,}"),
        ("@h = {1 => ", "]"),
        ("@h = {,", "}"),
        ("@a[", " 2]"),
        ("@a[", ")"),
        ("@h = {1 = ", "}"),
    ][k];
    s.lit(a).byte(d).lit(b);
    reject_syntax(&s);
    cover(k as u32);
}

// ---- P28 ----

fn var(s: &mut Src, k: usize) -> X {
    let at = s.len();
    match k {
        0 | 1 | 2 => {
            s.lit(["@", "@@", "$"][k]);
            s.sym(ALPHA.or(Set::of(b"_")));
            match choose(4) {
                0 => {}
                1 => {
                    s.sym(WORD);
                }
                2 => {
                    s.lit("A9_");
                }
                _ => {
                    s.lit("あ");
                }
            }
            let m = s.0[at..].to_vec();
            match k {
                0 => ivar(&m),
                1 => cvar(&m),
                _ => gvar(&m),
            }
        }
        3 => {
            s.lit("$");
            let a = s.sym(Set::range(b'1', b'9'));
            let mut n = (a - b'0') as u32;
            if choose(2) == 1 {
                n = n * 10 + (s.sym(DIGIT) - b'0') as u32;
            }
            svar(100 + n)
        }
        4 => {
            let (a, b) = pick(&[("$&", 0), ("$'", 1), ("$:", 10), ("$LOAD_PATH", 10), ("$\"", 11), ("$LOADED_FEATURES", 11)]);
            s.lit(a);
            svar(b)
        }
        5 => {
            s.lit("$");
            let c = s.sym(Set::of(b"!@~=/\\,;.<>*$?`+"));
            gvar(&[b'$', c])
        }
        6 => {
            let m = pick(&["$0", "$stdout", "$LOAD_PATHS", "$LOADED", "$load_path", "$_", "$_9", "$LOADED_FEATURE", "$LOADED_FEATURES2"]);
            s.lit(m);
            gvar(m.as_bytes())
        }
        7 => {
            s.sym(UPPER);
            s.sym(WORD);
            cnst(&s.0[at..].to_vec())
        }
        _ => {
            s.sym(LOWER);
            s.lit("1");
            ident(&s.0[at..].to_vec())
        }
    }
}
/// Variables of every kind in every surrounding keep kind and name.
#[no_mangle]
pub extern "C-unwind" fn h_var(_n: u64) {
    let mut s = Src::new();
    let c = choose(9);
    s.lit(["", "f(", "[", "1 + ", "!", "\"a#{", "@z = ", "g ", "@q.r "][c]);
    let k = choose(if c == 8 { 7 } else { 9 });
    let x = var(&mut s, k);
    s.lit(["", ", 1)", "]", " ** 2", "", "}\"", "", ", 1", ""][c]);
    let y = match c {
        0 => x,
        1 => call(b"f", &Args::of(&[x, int(1)])),
        2 => ary(&[x], false),
        3 => bin("+", &int(1), &bin("**", &x, &int(2))),
        4 => un("!", &x),
        5 => t("istr", &[&l(&[str_(b"a"), x])]),
        6 => asg(&[ivar(b"@z")], &[x]),
        7 => call(b"g", &Args::of(&[x, int(1)])),
        _ => mcall(&ivar(b"@q"), b"r", &Args::of(&[x])),
    };
    expect_lv(&s, &y, &Lv::default());
    cover(k as u32);
}
/// Reading and writing the same variable mean the same variable.
#[no_mangle]
pub extern "C-unwind" fn h_var_rw(_n: u64) {
    let mut s = Src::new();
    let k = choose(9);
    if matches!(k, 3 | 4) {
        return;
    }
    let x = var(&mut s, k);
    let m = s.0.clone();
    let o = choose(3);
    s.lit([" = 1\n", " += 1\n", " ||= 1\n"][o]).bytes(&m).lit(".z");
    let (x, lv) = if k == 8 { (lvar(0, &m), Lv::of(&[&m])) } else { (x, Lv::default()) };
    let a = asg(&[x.clone()], &[int(1)]);
    let a = [a.clone(), t("op=", &[b"+ ", &x, &int(1)]), bin("||", &x, &a)][o].clone();
    expect_lv(&s, &seq(&[a, mcall(&x, b"z", &Args::default())]), &lv);
    cover(k as u32);
}
/// A sigil needs a name.
#[no_mangle]
pub extern "C-unwind" fn h_var_bad(_n: u64) {
    let mut s = Src::new();
    s.lit(["@", "@@", "@@@", "f(@", "$ "][choose(5)]);
    let digit = choose(2) == 1;
    if digit {
        // (`$1` is a variable)
        assume(s.0.ends_with(b"@"));
    }
    s.sym(if digit { DIGIT } else { Set::of(b" \n()[]{},.;+-*/=<>!?&'`\"%^~|:\\#") });
    s.lit(["", "a", "1"][choose(3)]);
    reject(&s);
    cover(1);
}

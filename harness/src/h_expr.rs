//! P10 binary operators, P11 unary operators, P12 assignments.
use crate::ast::*;
use crate::rt::*;

/// A small operand that reads the same next to any operator: a digit, an instance variable, or one
/// of the local variables `x`, `y`.
pub fn operand(s: &mut Src, kind: usize) -> X {
    match kind {
        0 => {
            let c = s.sym(DIGIT);
            int((c - b'0') as i64)
        }
        1 => {
            s.byte(b'@');
            let c = s.sym(ALPHA);
            ivar(&[b'@', c])
        }
        _ => {
            let c = s.sym(Set::of(b"xy"));
            lvar(0, &[c])
        }
    }
}

/// (text, level, name in the tree)
pub const OPS: &[(&str, u8, &str)] = &[
    ("..", 1, "range"),
    ("...", 1, "range"),
    ("||", 2, "||"),
    ("&&", 3, "&&"),
    ("==", 4, "=="),
    ("!=", 4, "!="),
    ("===", 4, "==="),
    ("=~", 4, "=~"),
    ("!~", 4, "!~"),
    (">=", 5, ">="),
    (">", 5, ">"),
    ("<=", 5, "<="),
    ("<", 5, "<"),
    ("<=>", 4, "<=>"),
    ("|", 6, "|"),
    ("^", 6, "^"),
    ("&", 7, "&"),
    ("<<", 8, "<<"),
    (">>", 8, ">>"),
    ("+", 9, "+"),
    ("-", 9, "-"),
    ("*", 10, "*"),
    ("/", 10, "/"),
    ("%", 10, "%"),
    ("**", 12, "**"),
    ("and", 0, "&&"),
    ("or", 0, "||"),
];

fn is_int(x: &X) -> bool {
    x[0] == b'#'
}
pub fn join(op: usize, a: X, b: X) -> X {
    let (txt, level, n) = OPS[op];
    if level == 1 {
        let c = is_int(&a) && is_int(&b);
        return t("range", &[&a, &b, &flag(txt.len() == 3), &flag(c)]);
    }
    if n == "!~" {
        return un("!", &bin("=~", &a, &b));
    }
    bin(n, &a, &b)
}
/// The tree of `v[0] ops[0] v[1] ops[1] ..` by splitting at the weakest operator; None: not a program.
fn tree(v: &[X], ops: &[usize]) -> Option<X> {
    if ops.is_empty() {
        return Some(v[0].clone());
    }
    let low = ops.iter().map(|o| OPS[*o].1).min().unwrap();
    let n = ops.iter().filter(|o| OPS[**o].1 == low).count();
    if (low == 1 || low == 4) && n > 1 {
        return None;
    }
    let right = low == 12;
    let mut at = 0;
    for (i, o) in ops.iter().enumerate() {
        if OPS[*o].1 == low {
            at = i;
            if right {
                break;
            }
        }
    }
    let a = tree(&v[..at + 1], &ops[..at])?;
    let b = tree(&v[at + 1..], &ops[at + 1..])?;
    Some(join(ops[at], a, b))
}

pub fn op_text(s: &mut Src, op: usize, space: usize) {
    let txt = OPS[op].0;
    let word = OPS[op].1 == 0;
    match space {
        // a + b
        0 => {
            s.lit(" ").lit(txt).lit(" ");
        }
        // a+b
        1 => {
            let b = *s.0.last().unwrap();
            // `a!` and `:a!` are names
            let word = word || txt.starts_with('!') && WORD.has(b);
            s.lit(if word { " " } else { "" }).lit(txt).lit(if word { " " } else { "" });
        }
        // a + <newline> b
        2 => {
            s.lit(" ").lit(txt).lit("\n  ");
        }
        // a +b
        _ => {
            s.lit(" ").lit(txt).lit(if word { " " } else { "" });
        }
    }
}
fn check(s: &Src, want: Option<X>, pre: bool) {
    match want {
        Some(x) => {
            let x = if pre { seq(&[asg(&[lvar(0, b"x"), lvar(0, b"y")], &[int(1), int(2)]), x]) } else { x };
            expect(s, &x);
            cover(1);
        }
        None => {
            reject_syntax(s);
            cover(2);
        }
    }
}

/// `n` operators in a row (all of them, any spacing), operands of one kind.
#[no_mangle]
pub extern "C-unwind" fn h_ops(n: u64) {
    ops_run(n as usize, &(0..OPS.len()).collect::<Vec<_>>())
}
/// As h_ops with one or two operators of each level only.
#[no_mangle]
pub extern "C-unwind" fn h_ops_lv(n: u64) {
    ops_run(n as usize, &[0, 2, 3, 5, 8, 10, 13, 14, 16, 18, 20, 22, 24, 25, 26])
}
/// One operator of each level.
#[no_mangle]
pub extern "C-unwind" fn h_ops_one(n: u64) {
    ops_run(n as usize, &[1, 2, 3, 4, 9, 15, 16, 17, 19, 23, 24])
}
fn ops_run(n: usize, set: &[usize]) {
    let mut s = Src::new();
    let space = if n < 3 { choose(4) } else { choose(2) };
    let kind = if n < 3 { choose(3) } else { 1 + choose(2) };
    let pre = kind == 2;
    if pre {
        s.lit("x,y=1,2\n");
    }
    let mut v = vec![];
    let mut ops = vec![];
    for i in 0..n + 1 {
        if kind == 2 && n > 1 {
            let c = b"xy"[i % 2];
            s.byte(c);
            v.push(lvar(0, &[c]));
        } else {
            v.push(operand(&mut s, kind));
        }
        if i < n {
            let o = set[choose(set.len())];
            op_text(&mut s, o, space);
            ops.push(o);
        }
    }
    let want = tree(&v, &ops);
    check(&s, want, pre);
}

/// Parentheses override precedence: (a o b) p c, a o (b p c), (a o b p c).
#[no_mangle]
pub extern "C-unwind" fn h_ops_paren(_n: u64) {
    let mut s = Src::new();
    let shape = choose(3);
    let o = choose(OPS.len());
    let p = choose(OPS.len());
    let nl = choose(2) == 1;
    if shape != 1 {
        s.lit("(");
    }
    if nl && shape != 1 {
        s.lit("\n");
    }
    let a = operand(&mut s, 1);
    op_text(&mut s, o, 0);
    if shape == 1 {
        s.lit("(");
    }
    let b = operand(&mut s, 1);
    if shape == 0 {
        s.lit(")");
    }
    op_text(&mut s, p, 0);
    let c = operand(&mut s, 1);
    if nl && shape != 0 {
        s.lit("\n");
    }
    if shape > 0 {
        s.lit(")");
    }
    let want = match shape {
        0 => Some(join(p, join(o, a, b), c)),
        1 => Some(join(o, a, join(p, b, c))),
        _ => tree(&[a, b, c], &[o, p]),
    };
    check(&s, want, false);
}

/// An operator of each kind stays an operator after every kind of operand end.
#[no_mangle]
pub extern "C-unwind" fn h_ops_after(_n: u64) {
    let ends: [(&str, X); 12] = [
        ("f()", call(b"f", &Args::default())),
        ("@a[1]", t("idx", &[&ivar(b"@a"), &l(&[int(1)])])),
        ("[1]", ary(&[int(1)], true)),
        ("(@a)", ivar(b"@a")),
        ("'s'", str_(b"s")),
        ("\"s\"", str_(b"s")),
        (":s", sym_(b"s")),
        ("1.5", float(1.5)),
        ("nil", nil()),
        ("@a.b", mcall(&ivar(b"@a"), b"b", &Args::default())),
        ("self", w("self")),
        ("$~", gvar(b"$~")),
    ];
    let k = choose(12);
    let o = choose(OPS.len());
    // `@a.b` with white space before, but not after, the operator is a command call
    let space = if k == 9 { choose(3) } else { choose(4) };
    let mut s = Src::new();
    s.lit(ends[k].0);
    op_text(&mut s, o, space);
    let b = operand(&mut s, 1);
    let want = join(o, ends[k].1.clone(), b);
    // `:s==@a`, `:s=~@a`, `@a.b**`..: the operator must not be read into the name
    check(&s, Some(want), false);
}

/// a ? b : c with an operator in one of the three places, or nested.
#[no_mangle]
pub extern "C-unwind" fn h_ternary(_n: u64) {
    let mut s = Src::new();
    let at = choose(6);
    let o = choose(OPS.len() - 2);
    let nl = choose(2) == 1;
    let q = if nl { " ?\n" } else { " ? " };
    let c_ = if nl { " :\n" } else { " : " };
    let sub = |s: &mut Src, i: usize| -> X {
        let a = operand(s, 1);
        if i == at {
            op_text(s, o, 0);
            let b = operand(s, 1);
            join(o, a, b)
        } else {
            a
        }
    };
    let a = sub(&mut s, 0);
    s.lit(q);
    let want = match at {
        3 => {
            // nested in the middle
            let b = sub(&mut s, 1);
            s.lit(q);
            let c = sub(&mut s, 2);
            s.lit(c_);
            let d = sub(&mut s, 9);
            s.lit(c_);
            let e = sub(&mut s, 9);
            if_(&a, &if_(&b, &c, &d), &e)
        }
        4 => {
            // nested at the end
            let b = sub(&mut s, 1);
            s.lit(c_);
            let c = sub(&mut s, 2);
            s.lit(q);
            let d = sub(&mut s, 9);
            s.lit(c_);
            let e = sub(&mut s, 9);
            if_(&a, &b, &if_(&c, &d, &e))
        }
        5 => {
            // assignments inside, `and` outside
            let b = sub(&mut s, 1);
            s.lit(c_).lit("x=");
            let c = sub(&mut s, 2);
            let k = choose(3);
            s.lit([" and ", " or ", " if "][k]);
            let d = sub(&mut s, 9);
            let e = if_(&a, &b, &asg(&[lvar(0, b"x")], &[c]));
            match k {
                0 => bin("&&", &e, &d),
                1 => bin("||", &e, &d),
                _ => if_(&d, &e, &empty()),
            }
        }
        _ => {
            let b = sub(&mut s, 1);
            s.lit(c_);
            let c = sub(&mut s, 2);
            if_(&a, &b, &c)
        }
    };
    expect(&s, &want);
    cover(1);
}

/// Prefix operators: `n` of them, then an operand with what follows it.
#[no_mangle]
pub extern "C-unwind" fn h_unary(n: u64) {
    let mut s = Src::new();
    let left = choose(4);
    // something before: nothing, an addition, a product or a power
    let lv = match left {
        0 => None,
        _ => {
            let a = operand(&mut s, 1);
            s.lit([" + ", " * ", " ** "][left - 1]);
            Some(a)
        }
    };
    let mut pre = vec![];
    for _ in 0..n {
        let k = choose(4);
        s.byte(b"!-+~"[k]);
        if k == 3 && pre.last() == Some(&0) {
            // `!~` is one token: keep them apart
            let n = s.len();
            s.0.insert(n - 1, b' ');
        }
        pre.push(k);
        if choose(2) == 1 {
            s.lit(" ");
        }
    }
    let numeric = choose(2) == 1;
    let mut x = if numeric { operand(&mut s, 0) } else { operand(&mut s, 1) };
    let mut suffix = choose(6);
    // a minus right before the number makes it a negative number, unless a power follows
    if numeric && pre.last() == Some(&1) {
        if suffix == 1 && !numeric {
            suffix = 0;
        }
        if suffix != 1 {
            x = neg_int(&x);
            pre.pop();
        }
    }
    match suffix {
        0 | 1 => {}
        2 => {
            s.lit(".m");
            x = mcall(&x, b"m", &Args::default());
        }
        3 => {
            s.lit("[1]");
            x = t("idx", &[&x, &l(&[int(1)])]);
        }
        4 => {
            s.lit("&.m(1)");
            x = scall(&x, b"m", &Args::of(&[int(1)]));
        }
        _ => {
            s.lit("::m");
            x = mcall(&x, b"m", &Args::default());
        }
    }
    // `!` `~` `+` bind tighter than **, minus weaker
    let mut powered = suffix != 1;
    if suffix == 1 {
        s.lit(" ** ");
    }
    let rhs = if suffix == 1 { Some(operand(&mut s, 1)) } else { None };
    for k in pre.iter().rev() {
        if *k == 1 && !powered {
            x = bin("**", &x, rhs.as_ref().unwrap());
            powered = true;
        }
        x = un(["!", "-@", "+@", "~"][*k], &x);
    }
    if !powered {
        x = bin("**", &x, rhs.as_ref().unwrap());
    }
    // something behind
    let right = choose(3);
    if right > 0 {
        s.lit([" + ", " * "][right - 1]);
        let b = operand(&mut s, 1);
        x = match (left, right) {
            (0, 1) => bin("+", &x, &b),
            (0, _) => bin("*", &x, &b),
            (1, 1) => bin("+", &bin("+", lv.as_ref().unwrap(), &x), &b),
            (1, _) => bin("+", lv.as_ref().unwrap(), &bin("*", &x, &b)),
            (2, 1) => bin("+", &bin("*", lv.as_ref().unwrap(), &x), &b),
            (2, _) => bin("*", &bin("*", lv.as_ref().unwrap(), &x), &b),
            (_, 1) => bin("+", &pow(lv.as_ref().unwrap(), &x), &b),
            (_, _) => bin("*", &pow(lv.as_ref().unwrap(), &x), &b),
        };
    } else {
        x = match left {
            0 => x,
            1 => bin("+", lv.as_ref().unwrap(), &x),
            2 => bin("*", lv.as_ref().unwrap(), &x),
            _ => pow(lv.as_ref().unwrap(), &x),
        };
    }
    expect(&s, &x);
    cover(1);
}
fn pow(a: &X, b: &X) -> X {
    bin("**", a, b)
}
fn neg_int(x: &X) -> X {
    let mut b = [0u8; 8];
    b.copy_from_slice(&x[1..9]);
    int(-i64::from_le_bytes(b))
}

/// Operators which can also begin an operand, after an identifier: white space on both sides or on
/// none makes them binary, white space in front only makes the identifier a command.
#[no_mangle]
pub extern "C-unwind" fn h_op_command(_n: u64) {
    let mut s = Src::new();
    let known = choose(2) == 1;
    if known {
        s.lit("f=0;");
    }
    let k = choose(7);
    let op = ["-", "+", "*", "&", "[", "::", "<"][k];
    let sp = choose(3);
    s.lit("f").lit(if sp > 0 { " " } else { "" }).lit(op).lit(if sp == 2 { " " } else { "" });
    let c = s.sym(UPPER);
    let a = cnst(&[c]);
    if k == 4 {
        s.lit("]");
    }
    let f = if known { lvar(0, b"f") } else { ident(b"f") };
    let cmd = !known && (sp == 1 && k != 6 || sp == 2 && (k == 4 || k == 5));
    let x = if cmd {
        let mut g = Args::default();
        match k {
            0 => g.pos.push(un("-@", &a)),
            1 => g.pos.push(un("+@", &a)),
            2 => {
                g.pos.push(t("splat", &[&a]));
                g.splat = true;
            }
            3 => g.block = Some(a),
            4 => g.pos.push(ary(&[a], false)),
            _ => g.pos.push(cpath(true, None, &[], &[c])),
        }
        call(b"f", &g)
    } else {
        match k {
            4 => t("idx", &[&f, &l(&[a])]),
            5 => cpath(false, Some(&f), &[], &[c]),
            _ => bin(op, &f, &a),
        }
    };
    let x = if known { seq(&[asg(&[lvar(0, b"f")], &[int(0)]), x]) } else { x };
    expect(&s, &x);
    cover(cmd as u32);
}

// ---- assignments ----

/// An assignable place. Gives the tree it has on the left; `new` collects new local variables.
pub fn place(s: &mut Src, k: usize, new: &mut Vec<X>) -> X {
    match k {
        0 => {
            let c = s.sym(LOWER);
            if !new.iter().any(|n| n[0] == c) {
                new.push(vec![c]);
            }
            lvar(0, &[c])
        }
        1 => {
            s.byte(b'@');
            let c = s.sym(LOWER);
            ivar(&[b'@', c])
        }
        2 => {
            s.lit("@@");
            let c = s.sym(LOWER);
            cvar(&[b'@', b'@', c])
        }
        3 => {
            s.lit("$");
            let c = s.sym(LOWER);
            gvar(&[b'$', c])
        }
        4 => {
            let c = s.sym(UPPER);
            cnst(&[c])
        }
        5 => {
            s.lit("@o.");
            let c = s.sym(LOWER);
            mcall(&ivar(b"@o"), &[c], &Args::default())
        }
        6 => {
            s.lit("@o[");
            let c = s.sym(DIGIT);
            s.lit("]");
            t("idx", &[&ivar(b"@o"), &l(&[int((c - b'0') as i64)])])
        }
        7 => {
            s.lit("A::");
            let c = s.sym(UPPER);
            cpath(false, None, &[b"A"], &[c])
        }
        8 => {
            s.lit("::");
            let c = s.sym(UPPER);
            cpath(true, None, &[], &[c])
        }
        _ => {
            s.lit("@o&.");
            let c = s.sym(LOWER);
            scall(&ivar(b"@o"), &[c], &Args::default())
        }
    }
}
pub const PLACES: usize = 10;
fn eq(s: &mut Src) {
    s.lit(["=", " = ", "= ", " =\n "][choose(4)]);
}

/// One place, one value: all places, and values of every strength.
#[no_mangle]
pub extern "C-unwind" fn h_assign(_n: u64) {
    let mut s = Src::new();
    let mut new = vec![];
    let p = place(&mut s, choose(PLACES), &mut new);
    eq(&mut s);
    let k = choose(9);
    let a = operand(&mut s, 1);
    let one = |v: X| asg(&[p.clone()], &[v]);
    let want = match k {
        0 => one(a),
        1 | 2 | 3 => {
            let o = if k == 1 { choose(OPS.len() - 2) } else { OPS.len() - 4 + k };
            op_text(&mut s, o, 0);
            let b = operand(&mut s, 1);
            if k == 1 {
                one(join(o, a, b))
            } else {
                join(o, one(a), b)
            }
        }
        4 => {
            s.lit(" ? ");
            let b = operand(&mut s, 1);
            s.lit(" : 3");
            one(if_(&a, &b, &int(3)))
        }
        5 => {
            s.lit(" if ");
            let b = operand(&mut s, 1);
            if_(&b, &one(a), &empty())
        }
        6 => {
            s.lit(" unless ");
            let b = operand(&mut s, 1);
            if_(&b, &empty(), &one(a))
        }
        7 => {
            s.lit(" while ");
            let b = operand(&mut s, 1);
            t("while", &[&b, &one(a), b"TT"])
        }
        _ => {
            s.lit(" until ");
            let b = operand(&mut s, 1);
            t("while", &[&b, &one(a), b"FT"])
        }
    };
    expect_lv(&s, &want, &Lv { names: new, ..Default::default() });
    cover(1);
}

/// Chains a = b = c, with the places of any two kinds, and compound operators inside.
#[no_mangle]
pub extern "C-unwind" fn h_assign_chain(_n: u64) {
    let mut s = Src::new();
    let mut n1 = vec![];
    let mut n2 = vec![];
    let p = place(&mut s, choose(PLACES), &mut n1);
    let k1 = choose(4);
    s.lit([" = ", " += ", " ||= ", " &&= "][k1]);
    let q = place(&mut s, choose(PLACES), &mut n2);
    let k2 = choose(4);
    s.lit([" = ", " -= ", " &&= ", " ||= "][k2]);
    let a = operand(&mut s, 1);
    let mk = |k: usize, p: &X, v: X, plus: &str, l: &str, r: &str| match k {
        0 => asg(&[p.clone()], &[v]),
        1 => t("op=", &[plus.as_bytes(), b" ", p, &v]),
        2 => bin(l, p, &asg(&[p.clone()], &[v])),
        _ => bin(r, p, &asg(&[p.clone()], &[v])),
    };
    let inner = mk(k2, &q, a, "-", "&&", "||");
    let want = mk(k1, &p, inner, "+", "||", "&&");
    let r = expect(&s, &want);
    // the variables exist once each
    let tb = r.lvar_collector.table();
    let mut all = n1.clone();
    for n in n2 {
        if !all.contains(&n) {
            all.push(n);
        }
    }
    ck(tb.len() == all.len(), "wrong number of local variables");
    for n in &all {
        ck(tb.iter().any(|x| x.as_bytes() == &n[..]), "local variable missing");
    }
    cover(1);
}

/// Compound assignment with every operator.
#[no_mangle]
pub extern "C-unwind" fn h_assign_op(_n: u64) {
    let ops = ["+", "-", "*", "/", "%", "^", "|", "&", "<<", ">>", "||", "&&"];
    let mut s = Src::new();
    let mut new = vec![];
    let p = place(&mut s, choose(PLACES), &mut new);
    let k = choose(ops.len());
    let sp = choose(3);
    // `@o.m %= ..`: with white space in front and none behind these begin a command argument
    s.lit(if sp > 0 { " " } else { "" }).lit(ops[k]).lit(["=", "= ", "=\n"][sp]);
    let v = match choose(4) {
        0 => operand(&mut s, 1),
        1 => {
            let a = operand(&mut s, 1);
            let o = choose(OPS.len() - 2);
            op_text(&mut s, o, 0);
            let b = operand(&mut s, 1);
            join(o, a, b)
        }
        2 => {
            let a = operand(&mut s, 1);
            s.lit(" ? 1 : 2");
            if_(&a, &int(1), &int(2))
        }
        _ => {
            s.lit("foo 1");
            call(b"foo", &Args::of(&[int(1)]))
        }
    };
    let e = match ops[k] {
        "||" | "&&" => bin(ops[k], &p, &asg(&[p.clone()], &[v])),
        o => t("op=", &[o.as_bytes(), b" ", &p, &v]),
    };
    let e = if choose(2) == 1 {
        s.lit(" if 1");
        if_(&int(1), &e, &empty())
    } else {
        e
    };
    expect_lv(&s, &e, &Lv { names: new, ..Default::default() });
    cover(1);
}

/// Multiple assignment: `n` places (each any kind, one of them possibly splat, possibly a trailing
/// comma) and 1..3 values (each possibly splat).
#[no_mangle]
pub extern "C-unwind" fn h_massign(n: u64) {
    let n = n as usize;
    let mut s = Src::new();
    let mut new = vec![];
    let splat = choose(n + 1);
    let trailing = splat == n && choose(2) == 1;
    let mut lhs = vec![];
    let k0 = choose(PLACES);
    for i in 0..n {
        if i > 0 {
            s.lit(if trailing { "," } else { ", " });
        }
        if i == splat {
            s.lit("*");
        }
        // the kinds of the places: one free, the others fixed
        let p = place(&mut s, if i == n - 1 { k0 } else { [0, 6, 5][i % 3] }, &mut new);
        lhs.push(if i == splat { t("splat", &[&p]) } else { p });
    }
    if trailing {
        s.lit(",");
        lhs.push(w("_"));
    }
    eq(&mut s);
    let m = 1 + choose(3);
    let mut rhs = vec![];
    let sp = choose(m + 1);
    for i in 0..m {
        if i > 0 {
            s.lit([", ", ",\n"][choose(2)]);
        }
        if i == sp {
            s.lit("*");
        }
        let a = operand(&mut s, 1);
        rhs.push(if i == sp { t("splat", &[&a]) } else { a });
    }
    let rhs = if lhs.len() == 1 && m != 1 || sp < m { vec![ary(&rhs, false)] } else { rhs };
    let want = asg(&lhs, &rhs);
    expect_lv(&s, &want, &Lv { names: new, ..Default::default() });
    cover(1);
}

/// What surrounds a multiple assignment: it ends at `;`, a modifier, `and`; in an argument list the
/// comma separates arguments instead.
#[no_mangle]
pub extern "C-unwind" fn h_massign_ctx(_n: u64) {
    let mut s = Src::new();
    let a = || lvar(0, b"a");
    let b = || lvar(0, b"b");
    let k = choose(10);
    let want = match k {
        0 => {
            s.lit("a,b=");
            let x = operand(&mut s, 1);
            s.lit(",2 if ");
            let y = operand(&mut s, 1);
            if_(&y, &asg(&[a(), b()], &[x, int(2)]), &empty())
        }
        1 => {
            s.lit("a,b=");
            let x = operand(&mut s, 1);
            s.lit(",2;");
            let y = operand(&mut s, 1);
            seq(&[asg(&[a(), b()], &[x, int(2)]), y])
        }
        2 => {
            // the value of an argument is one argument
            s.lit("f(a=");
            let x = operand(&mut s, 1);
            s.lit(",");
            let y = operand(&mut s, 1);
            s.lit(")");
            call(b"f", &Args::of(&[asg(&[a()], &[x]), y]))
        }
        3 => {
            s.lit("[a=");
            let x = operand(&mut s, 1);
            s.lit(",");
            let y = operand(&mut s, 1);
            s.lit("]");
            ary(&[asg(&[a()], &[x]), y], false)
        }
        4 => {
            s.lit("f((a,b=");
            let x = operand(&mut s, 1);
            s.lit(",2),3)");
            call(b"f", &Args::of(&[asg(&[a(), b()], &[x, int(2)]), int(3)]))
        }
        5 => {
            // a block inside an argument list is a statement context again
            s.lit("f(g{a=");
            let x = operand(&mut s, 1);
            s.lit(",2},3)");
            let bl = lambda(&[], &asg(&[a()], &[ary(&[x, int(2)], false)]), &Lv::of(&[b"a"]));
            call(b"f", &Args::of(&[call(b"g", &Args { block: Some(bl), ..Default::default() }), int(3)]))
        }
        6 => {
            s.lit("f a=");
            let x = operand(&mut s, 1);
            s.lit(",");
            let y = operand(&mut s, 1);
            call(b"f", &Args::of(&[asg(&[a()], &[x]), y]))
        }
        7 => {
            s.lit("a=b=");
            let x = operand(&mut s, 1);
            s.lit(",");
            let y = operand(&mut s, 1);
            // the values belong to the outer assignment
            asg(&[a()], &[ary(&[asg(&[b()], &[x]), y], false)])
        }
        8 => {
            s.lit("{a: b=");
            let x = operand(&mut s, 1);
            s.lit(", c: 2}");
            hash(&[(sym_(b"a"), asg(&[b()], &[x])), (sym_(b"c"), int(2))], false)
        }
        _ => {
            s.lit("def f(a=@b=");
            let x = operand(&mut s, 1);
            s.lit(",c=2) end");
            let o = |n: &[u8], v: X| t("opt", &[&name(n), &v]);
            def(b"f", &[o(b"a", asg(&[ivar(b"@b")], &[x])), o(b"c", int(2))], &empty(), &Lv::of(&[b"a", b"c"]))
        }
    };
    expect(&s, &want);
    cover(k as u32);
}

//! P13 control structures and modifiers, P30 begin/rescue/else/ensure.
use crate::ast::*;
use crate::h_expr::*;
use crate::rt::*;

/// Separator between statements.
pub fn sep(s: &mut Src) {
    s.lit(["\n", ";", " ; ", "\n\n", "\n # c\n"][choose(5)]);
}
/// Fewer separators.
pub fn sep2(s: &mut Src) {
    s.lit(["\n", ";"][choose(2)]);
}
/// `n` simple statements (symbolic instance variables), separated.
pub fn stmts(s: &mut Src, n: usize) -> X {
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            s.lit(";");
        }
        v.push(operand(s, 1));
    }
    seq(&v)
}
fn then(s: &mut Src) {
    s.lit(["\n", ";", " then ", "\nthen ", ";then\n", " then\n"][alt(6)]);
}
/// A condition: operand, comparison, `and`, assignment, call.
fn cond(s: &mut Src) -> X {
    match alt(4) {
        0 => operand(s, 1),
        1 => {
            let a = operand(s, 1);
            let k = pick(&[4usize, 12, 2, 25, 26]);
            op_text(s, k, 0);
            let b = operand(s, 1);
            join(k, a, b)
        }
        2 => {
            s.lit("foo");
            ident(b"foo")
        }
        _ => {
            s.lit("@v = ");
            let a = operand(s, 1);
            asg(&[ivar(b"@v")], &[a])
        }
    }
}

/// if / unless: `n` elsif branches, then and else parts of 0..2 statements.
#[no_mangle]
pub extern "C-unwind" fn h_if(n: u64) {
    let mut s = Src::new();
    budget(if n == 0 { 3 } else { 2 });
    let unless = n == 0 && alt(2) == 1;
    s.lit(if unless { "unless " } else { "if " });
    let c = cond(&mut s);
    then(&mut s);
    let m = alt(3);
    let a = stmts(&mut s, m);
    let mut branches = vec![];
    for _ in 0..n {
        s.lit(["\n", " ", ";"][alt(3)]).lit("elsif ");
        let c = operand(&mut s, 1);
        s.lit(["\n", ";", " then "][alt(3)]);
        let m = alt(2);
        let b = stmts(&mut s, m);
        branches.push((c, b));
    }
    s.lit(" ");
    let mut e = empty();
    let k = alt(4);
    if k > 0 {
        s.lit(["else ", "else\n", ";else;"][k - 1]);
        let m = if k == 1 { alt(3) } else { 1 };
        e = stmts(&mut s, m);
    }
    s.lit([" end", "\nend", ";end"][alt(3)]);
    for (c, b) in branches.iter().rev() {
        e = if_(c, b, &e);
    }
    let x = if unless { if_(&c, &e, &a) } else { if_(&c, &a, &e) };
    let x = tail(&mut s, x);
    expect(&s, &x);
    cover(1);
}
/// What can follow a closed structure on the same line.
fn tail(s: &mut Src, x: X) -> X {
    match alt(4) {
        0 => x,
        1 => {
            s.lit(".m");
            mcall(&x, b"m", &Args::default())
        }
        2 => {
            s.lit(" if ");
            let c = operand(s, 1);
            if_(&c, &x, &empty())
        }
        _ => {
            s.lit("\n");
            let c = operand(s, 1);
            seq(&[x, c])
        }
    }
}

/// while / until loops.
#[no_mangle]
pub extern "C-unwind" fn h_while(_n: u64) {
    budget(3);
    let mut s = Src::new();
    let pos = choose(2) == 1;
    s.lit(if pos { "while " } else { "until " });
    let c = match alt(5) {
        0 => {
            // the condition may contain a do block in parentheses, brackets or braces
            let k = alt(4);
            s.lit(["(f do ", "f(g do ", "[f do ", "@f[g do "][k]);
            let m = alt(2);
            let b = stmts(&mut s, m);
            s.lit(" end").lit([")", ")", "]", "]"][k]);
            let bl = |n: &[u8]| call(n, &Args { block: Some(lambda(&[], &body(&b), &Lv::default())), ..Default::default() });
            match k {
                0 => bl(b"f"),
                1 => call(b"f", &Args::of(&[bl(b"g")])),
                2 => ary(&[bl(b"f")], false),
                _ => t("idx", &[&ivar(b"@f"), &l(&[bl(b"g")])]),
            }
        }
        _ => cond(&mut s),
    };
    s.lit(["\n", ";", " do ", " do\n"][alt(4)]);
    let m = alt(3);
    let b = stmts(&mut s, m);
    s.lit([" end", "\nend", ";end"][alt(3)]);
    let x = t("while", &[&c, &b, &flag(pos), b"F"]);
    let x = tail(&mut s, x);
    expect(&s, &x);
    cover(pos as u32);
}

/// for loops over 1..3 variables.
#[no_mangle]
pub extern "C-unwind" fn h_for(_n: u64) {
    budget(3);
    let mut s = Src::new();
    let n = 1 + alt(3);
    let paren = alt(3);
    s.lit(["for ", "for(", "for ( "][paren]);
    let mut vars = vec![];
    let mut names: Vec<X> = vec![];
    for i in 0..n {
        if i > 0 {
            s.lit([",", ", "][alt(2)]);
        }
        let c = if i == 0 { s.sym(LOWER) } else { [b'x', b'y'][i - 1] };
        if i > 0 {
            s.byte(c);
        }
        vars.extend_from_slice(&lvar(0, &[c]));
        if !names.contains(&vec![c]) {
            names.push(vec![c]);
        }
    }
    if paren > 0 {
        s.lit(["", ","][alt(2)]).lit(")");
    }
    s.lit(" in ");
    let it = match alt(4) {
        0 => operand(&mut s, 1),
        1 => {
            s.lit("1..");
            let b = operand(&mut s, 0);
            t("range", &[&int(1), &b, b"FT"])
        }
        2 => {
            s.lit("foo");
            ident(b"foo")
        }
        _ => {
            s.lit("[1]");
            ary(&[int(1)], true)
        }
    };
    s.lit(["\n", ";", " do ", " do\n"][alt(4)]);
    // the body assigns to a loop variable and to a new one: both belong to the surrounding scope
    let b = if alt(2) == 1 {
        s.lit("v = ");
        let c = vars_first(&names);
        s.byte(c);
        if !names.contains(&vec![b'v']) {
            names.push(vec![b'v']);
        }
        asg(&[lvar(0, b"v")], &[lvar(0, &[c])])
    } else {
        empty()
    };
    s.lit([" end", "\nend", ";end"][alt(3)]);
    let x = t("for", &[&vars, &it, &blk(&[], &b, &Lv::default())]);
    expect_lv(&s, &x, &Lv { names, ..Default::default() });
    cover(1);
}
fn vars_first(v: &[X]) -> u8 {
    v[0][0]
}

/// case / when with `n` branches.
#[no_mangle]
pub extern "C-unwind" fn h_case(n: u64) {
    budget(3);
    let mut s = Src::new();
    s.lit("case");
    let subj = alt(3);
    let c = match subj {
        0 => {
            s.lit(" ");
            operand(&mut s, 1)
        }
        1 => {
            s.lit(" foo");
            ident(b"foo")
        }
        _ => w("-"),
    };
    s.lit(["\n", ";", "\n\n"][alt(3)]);
    let mut parts = vec![];
    for i in 0..n {
        s.lit(if i == 0 { "when " } else { ["\nwhen ", ";when ", " when "][alt(3)] });
        let m = 1 + alt(if i == 0 { 3 } else { 2 });
        let splat = if i == 0 { alt(m + 1) } else { m };
        let mut ws = vec![];
        for j in 0..m {
            if j > 0 {
                s.lit([", ", ",\n"][alt(2)]);
            }
            if j == splat {
                s.lit("*");
            }
            let a = operand(&mut s, 1);
            ws.push(if j == splat { t("splat", &[&a]) } else { a });
        }
        if i == 0 {
            then(&mut s);
        } else {
            s.lit(["\n", " then "][alt(2)]);
        }
        let m = alt(if i == 0 { 3 } else { 2 });
        let b = stmts(&mut s, m);
        parts.extend_from_slice(b"w");
        parts.extend_from_slice(&l(&ws));
        parts.extend_from_slice(&b);
    }
    let mut e = empty();
    if alt(2) == 1 {
        s.lit([" else ", "\nelse\n"][alt(2)]);
        let m = alt(2);
        e = stmts(&mut s, m);
    }
    s.lit([" end", "\nend"][alt(2)]);
    let x = t("case", &[&c, &parts, b"e", &e]);
    expect(&s, &x);
    cover(1);
}

/// A statement under `n` modifiers; every later one holds the earlier.
#[no_mangle]
pub extern "C-unwind" fn h_modifier(n: u64) {
    let mut s = Src::new();
    let k = choose(8);
    let mut x = match k {
        0 => operand(&mut s, 1),
        1 => {
            s.lit("f ");
            let a = operand(&mut s, 1);
            call(b"f", &Args::of(&[a]))
        }
        2 => {
            s.lit("foo");
            ident(b"foo")
        }
        3 => {
            s.lit("@a, @b = ");
            let a = operand(&mut s, 1);
            s.lit(", 2");
            asg(&[ivar(b"@a"), ivar(b"@b")], &[a, int(2)])
        }
        4 => {
            s.lit("@o.m");
            mcall(&ivar(b"@o"), b"m", &Args::default())
        }
        5 => {
            s.lit("begin;");
            let a = operand(&mut s, 1);
            s.lit(";end");
            body(&a)
        }
        6 => {
            let r = choose(3);
            s.lit(["break", "next", "return"][r]);
            let v = if choose(2) == 1 {
                s.lit(" ");
                operand(&mut s, 1)
            } else {
                nil()
            };
            t(["break", "next", "return"][r], &[&v])
        }
        _ => {
            s.lit("yield");
            t("yield", &[b"<>"])
        }
    };
    for _ in 0..n {
        let m = choose(5);
        if m == 4 && k == 6 {
            // `return rescue` is handled by h_jump
            return;
        }
        s.lit([" if ", " unless ", " while ", " until ", " rescue "][m]);
        let c = if choose(2) == 1 {
            let a = operand(&mut s, 1);
            let k = pick(&[25usize, 26, 3]);
            op_text(&mut s, k, 0);
            let b = operand(&mut s, 1);
            join(k, a, b)
        } else {
            operand(&mut s, 1)
        };
        x = match m {
            0 => if_(&c, &x, &empty()),
            1 => if_(&c, &empty(), &x),
            2 => t("while", &[&c, &x, b"TT"]),
            3 => t("while", &[&c, &x, b"FT"]),
            _ => t("begin", &[&x, b"r[]-", &c, b"e-n-"]),
        };
    }
    // the modifier belongs to its own statement only
    match choose(3) {
        0 => {}
        1 => {
            s.lit("\n");
            let a = operand(&mut s, 1);
            x = seq(&[x, a]);
        }
        _ => {
            s.0.splice(0..0, b"@z;".iter().copied());
            x = seq(&[ivar(b"@z"), x]);
        }
    }
    expect(&s, &x);
    cover(k as u32);
}

/// break / next / return / redo with their values, in every surrounding.
#[no_mangle]
pub extern "C-unwind" fn h_jump(_n: u64) {
    let mut s = Src::new();
    let place = choose(6);
    s.lit(["", "while @c do ", "f { ", "f do ", "def f; ", "begin; "][place]);
    let k = choose(4);
    let name = ["break", "next", "return", "redo"][k];
    s.lit(name);
    let x = if k == 3 {
        w("redo")
    } else {
        let v = match choose(6) {
            0 => nil(),
            1 => {
                s.lit(" ");
                operand(&mut s, 1)
            }
            2 => {
                s.lit(" ");
                let a = operand(&mut s, 0);
                s.lit(", ");
                let b = operand(&mut s, 0);
                ary(&[a, b], true)
            }
            3 => {
                s.lit(" *");
                let a = operand(&mut s, 1);
                ary(&[t("splat", &[&a])], false)
            }
            4 => {
                s.lit("(");
                let a = operand(&mut s, 1);
                s.lit(")");
                a
            }
            _ => {
                s.lit(" @x = ");
                let a = operand(&mut s, 1);
                asg(&[ivar(b"@x")], &[a])
            }
        };
        t(name, &[&v])
    };
    s.lit([" end", "\nend", ";end"][choose(3)]);
    let want = match place {
        0 => {
            let n = s.len();
            let cut = if s.0[n - 4] == b' ' || s.0[n - 4] == b';' || s.0[n - 4] == b'\n' { n - 4 } else { n };
            s.0.truncate(cut);
            x
        }
        1 => t("while", &[&ivar(b"@c"), &x, b"TF"]),
        2 => {
            let n = s.len();
            s.0.truncate(n - 3);
            s.lit("}");
            call(b"f", &Args { block: Some(lambda(&[], &x, &Lv::default())), ..Default::default() })
        }
        3 => call(b"f", &Args { block: Some(lambda(&[], &body(&x), &Lv::default())), ..Default::default() }),
        4 => def(b"f", &[], &x, &Lv::default()),
        _ => body(&x),
    };
    expect(&s, &want);
    cover(place as u32);
}

/// Structures nested in each other keep their own parts (dangling else, inner end).
#[no_mangle]
pub extern "C-unwind" fn h_nest(_n: u64) {
    let mut s = Src::new();
    // outer opens, inner complete structure, outer part, end
    let o = choose(6);
    s.lit(["if @c then ", "unless @c then ", "while @c do ", "case @c when 1 then ", "begin ", "f do "][o]);
    let i = choose(7);
    s.lit(["if ", "unless ", "while ", "case ", "begin ", "for v in ", "def m; "][i]);
    let ic = operand(&mut s, 1);
    s.lit(["\n", "\n", "\n", "\nwhen 1\n", ";", "\n", ";"][i]);
    let ib = operand(&mut s, 1);
    let has_else = [0, 1, 3].contains(&i) && choose(2) == 1;
    let ie = if has_else {
        s.lit("\nelse\n");
        operand(&mut s, 1)
    } else {
        empty()
    };
    s.lit("\nend\n");
    let inner = match i {
        0 => if_(&ic, &ib, &ie),
        1 => if_(&ic, &ie, &ib),
        2 => t("while", &[&ic, &ib, b"TF"]),
        3 => t("case", &[&ic, b"w", &l(&[int(1)]), &ib, b"e", &ie]),
        4 => body(&seq(&[ic, ib])),
        5 => t("for", &[&lvar(if o == 5 { 0 } else { 0 }, b"v"), &ic, &blk(&[], &ib, &Lv::default())]),
        _ => def(b"m", &[], &seq(&[ic, ib]), &Lv::default()),
    };
    let lv = if i == 5 { Lv::of(&[b"v"]) } else { Lv::default() };
    let outer_else = [0, 1, 3].contains(&o) && choose(2) == 1;
    let oe = if outer_else {
        s.lit("else\n");
        let e = operand(&mut s, 1);
        s.lit("\n");
        e
    } else {
        empty()
    };
    s.lit("end");
    let oc = ivar(b"@c");
    let want = match o {
        0 => if_(&oc, &inner, &oe),
        1 => if_(&oc, &oe, &inner),
        2 => t("while", &[&oc, &inner, b"TF"]),
        3 => t("case", &[&oc, b"w", &l(&[int(1)]), &inner, b"e", &oe]),
        4 => body(&inner),
        _ => call(b"f", &Args { block: Some(lambda(&[], &body(&inner), &lv)), ..Default::default() }),
    };
    expect(&s, &want);
    cover(o as u32);
}

/// The `do` behind a loop head is the loop's, whatever stands in the head; blocks inside brackets, bodies and strings of the head
/// keep theirs, and behind the head everything takes blocks again.
#[no_mangle]
pub extern "C-unwind" fn h_loop_head(n: u64) {
    let mut s = Src::new();
    let o = choose(3);
    s.lit(["while ", "until ", "for v in "][o]);
    let (c, v) = s_head(&mut s, n as usize);
    s.lit(" do ");
    let k = choose(4);
    let b = match k {
        0 => int(1),
        1 => bdo(&mut s, b"h", b'1'),
        2 => {
            s.lit("while @x do h end");
            t("while", &[&ivar(b"@x"), &ident(b"h"), b"TF"])
        }
        _ => {
            s.lit("h.i(2) do 3 end");
            mcall(
                &ident_call(b"h"),
                b"i",
                &Args { pos: vec![int(2)], block: Some(lambda(&[], &body(&int(3)), &Lv::default())), ..Default::default() },
            )
        }
    };
    if k == 0 {
        s.lit("1");
    }
    s.lit(" end");
    let x = match o {
        2 => t("for", &[&lvar(0, b"v"), &c, &blk(&[], &b, &Lv::default())]),
        _ => t("while", &[&c, &b, &flag(o == 0), b"F"]),
    };
    let lv = if o == 2 || v { Lv::of(&[b"v"]) } else { Lv::default() };
    match choose(3) {
        0 => {
            expect_lv(&s, &x, &lv);
        }
        1 => {
            s.lit("\n");
            let y = bdo(&mut s, b"q", b'7');
            expect_lv(&s, &seq(&[x, y]), &lv);
        }
        _ => {
            s.lit("; f ");
            s.lit("@a do 7 end");
            let y = call(b"f", &Args { pos: vec![ivar(b"@a")], block: Some(lambda(&[], &body(&int(7)), &Lv::default())), ..Default::default() });
            expect_lv(&s, &seq(&[x, y]), &lv);
        }
    }
    cover(o as u32);
}
fn ident_call(n: &[u8]) -> X {
    call(n, &Args::default())
}
/// `NAME do D end`
fn bdo(s: &mut Src, n: &[u8], d: u8) -> X {
    s.bytes(n).lit(" do ").byte(d);
    s.lit(" end");
    call(n, &Args { block: Some(lambda(&[], &body(&int((d - b'0') as i64)), &Lv::default())), ..Default::default() })
}
/// The head of a loop; does it make the variable `v`?
fn s_head(s: &mut Src, n: usize) -> (X, bool) {
    let kinds = 19;
    let k = choose(kinds);
    let none = Lv::default();
    let c = match k {
        0 => {
            s.lit("a");
            ident(b"a")
        }
        1 => {
            s.lit("while @a do 2 end");
            t("while", &[&ivar(b"@a"), &int(2), b"TF"])
        }
        2 => {
            s.lit("until b do c end");
            t("while", &[&ident(b"b"), &ident(b"c"), b"FF"])
        }
        3 => {
            s.lit("for v in b do c end");
            t("for", &[&lvar(0, b"v"), &ident(b"b"), &blk(&[], &ident(b"c"), &none)])
        }
        4 => {
            s.lit("(");
            let b = bdo(s, b"b", b'2');
            s.lit(")");
            b
        }
        5 => {
            s.lit("[");
            let b = bdo(s, b"b", b'2');
            s.lit("]");
            ary(&[b], false)
        }
        6 => {
            s.lit("f(");
            let b = bdo(s, b"b", b'2');
            s.lit(")");
            call(b"f", &Args::of(&[b]))
        }
        7 => {
            s.lit("@f[");
            let b = bdo(s, b"b", b'2');
            s.lit("]");
            t("idx", &[&ivar(b"@f"), &l(&[b])])
        }
        8 => {
            s.lit("{1 => ");
            let b = bdo(s, b"b", b'2');
            s.lit("}");
            hash(&[(int(1), b)], false)
        }
        9 => {
            s.lit("f { ");
            let b = bdo(s, b"b", b'2');
            s.lit(" }");
            call(b"f", &Args { block: Some(lambda(&[], &b, &none)), ..Default::default() })
        }
        10 => {
            s.lit("-> { ");
            let b = bdo(s, b"b", b'2');
            s.lit(" }");
            lambda(&[], &b, &none)
        }
        11 => {
            s.lit("\"#{");
            let b = bdo(s, b"b", b'2');
            s.lit("}\"");
            t("istr", &[&l(&[b])])
        }
        12 => {
            s.lit("begin ");
            let b = bdo(s, b"b", b'2');
            s.lit(" end");
            body(&b)
        }
        13 => {
            s.lit("if b then ");
            let b = bdo(s, b"b", b'2');
            s.lit(" end");
            if_(&ident(b"b"), &b, &empty())
        }
        14 => {
            s.lit("case b when 1 then ");
            let b = bdo(s, b"b", b'2');
            s.lit(" else ");
            let e = bdo(s, b"c", b'3');
            s.lit(" end");
            t("case", &[&ident(b"b"), b"w", &l(&[int(1)]), &b, b"e", &e])
        }
        15 => {
            s.lit("def m; ");
            let b = bdo(s, b"b", b'2');
            s.lit(" end");
            def(b"m", &[], &b, &none)
        }
        16 => {
            s.lit("f.g(@a, ");
            let b = bdo(s, b"b", b'2');
            s.lit(")");
            mcall(&ident_call(b"f"), b"g", &Args::of(&[ivar(b"@a"), b]))
        }
        17 => {
            s.lit("-> (w = (");
            let b = bdo(s, b"b", b'2');
            s.lit(")) { w }");
            lambda(&[t("opt", &[&name(b"w"), &b])], &lvar(0, b"w"), &Lv::of(&[b"w"]))
        }
        _ => {
            s.lit("class << self; ");
            let b = bdo(s, b"b", b'2');
            s.lit(" end");
            t("sclass", &[b"self", &blk(&[], &body(&b), &none)])
        }
    };
    // and then a call that must not take the `do`
    let recv = if k == 0 { ident_call(b"a") } else { c.clone() };
    let x = match choose(if n == 0 { 4 } else { 7 }) {
        0 => c,
        1 => {
            s.lit(".d");
            mcall(&recv, b"d", &Args::default())
        }
        2 => {
            s.lit(".d(@e)");
            mcall(&recv, b"d", &Args::of(&[ivar(b"@e")]))
        }
        3 => {
            s.lit(" && g");
            bin("&&", &c, &ident(b"g"))
        }
        4 => {
            s.lit(" || g @e");
            bin("||", &c, &call(b"g", &Args::of(&[ivar(b"@e")])))
        }
        5 => {
            s.lit(" and not_");
            bin("&&", &c, &ident(b"not_"))
        }
        _ => {
            s.lit(".d &@e");
            mcall(&c, b"d", &Args { block: Some(ivar(b"@e")), ..Default::default() })
        }
    };
    (x, k == 3)
}

// ---- P30 ----

/// begin / rescue / else / ensure with `n` rescue clauses; also in def, do-block and class bodies.
#[no_mangle]
pub extern "C-unwind" fn h_begin(n: u64) {
    let mut s = Src::new();
    budget(3);
    let place = choose(5);
    s.lit(["begin", "def m", "f do", "class C", "module C"][place]);
    s.lit(["\n", ";"][alt(2)]);
    let m = alt(3);
    let b = stmts(&mut s, m);
    let mut names: Vec<X> = vec![];
    let mut parts = b.clone();
    for i in 0..n {
        s.lit(["\nrescue", ";rescue"][alt(2)]);
        let m = if i == 0 { alt(4) } else { alt(2) };
        let mut ex = vec![];
        for j in 0..m {
            s.lit(if j == 0 { " " } else { ", " });
            if j == 2 {
                s.lit("*");
                let a = operand(&mut s, 1);
                ex.push(t("splat", &[&a]));
            } else {
                let c = s.sym(UPPER);
                ex.push(cnst(&[c]));
            }
        }
        let a = match alt(if i == 0 { 4 } else { 2 }) {
            0 => w("-"),
            1 => {
                s.lit(" => ");
                let c = s.sym(LOWER);
                if !names.contains(&vec![c]) {
                    names.push(vec![c]);
                }
                lvar(0, &[c])
            }
            2 => {
                s.lit(" => @e");
                ivar(b"@e")
            }
            _ => {
                s.lit(" => @o.e");
                mcall(&ivar(b"@o"), b"e", &Args::default())
            }
        };
        // a rescue clause without anything is ended by a line or `then`
        if i == 0 {
            then(&mut s);
        } else {
            s.lit("\n");
        }
        let k = alt(2);
        let rb = stmts(&mut s, k);
        parts.push(b'r');
        parts.extend_from_slice(&l(&ex));
        parts.extend_from_slice(&a);
        parts.extend_from_slice(&rb);
    }
    parts.push(b'e');
    if alt(2) == 1 {
        s.lit("\nelse ");
        let k = alt(2);
        parts.extend_from_slice(&stmts(&mut s, k));
    } else {
        parts.push(b'-');
    }
    parts.push(b'n');
    if alt(2) == 1 {
        s.lit("\nensure\n");
        let k = alt(2);
        parts.extend_from_slice(&stmts(&mut s, k));
    } else {
        parts.push(b'-');
    }
    s.lit("\nend");
    let x = t("begin", &[&parts]);
    let lv = Lv { names, ..Default::default() };
    match place {
        0 => {
            expect_lv(&s, &x, &lv);
        }
        1 => {
            expect_lv(&s, &t("def", &[&name(b"m"), &blk(&[], &x, &lv)]), &Lv::default());
        }
        2 => {
            let bl = lambda(&[], &x, &lv);
            expect_lv(&s, &call(b"f", &Args { block: Some(bl), ..Default::default() }), &Lv::default());
        }
        p => {
            let x = t(["class", "module"][p - 3], &[b"-", &name(b"C"), b"-", &blk(&[], &x, &lv)]);
            expect_lv(&s, &x, &Lv::default());
        }
    }
    cover(place as u32);
}

/// Clauses out of order, twice, or without an opener are rejected.
#[no_mangle]
pub extern "C-unwind" fn h_begin_bad(_n: u64) {
    let mut s = Src::new();
    let cl = ["rescue\n", "else\n", "ensure\n"];
    let place = choose(3);
    s.lit(["begin\n", "def m\n", "f do\n"][place]);
    let order: &[&[usize]] = &[&[1, 0], &[2, 0], &[2, 1], &[1, 1], &[2, 2], &[0, 2, 1], &[0, 1, 0], &[0, 1, 2, 2]];
    for k in order[choose(order.len())] {
        operand(&mut s, 1);
        s.lit("\n").lit(cl[*k]);
    }
    operand(&mut s, 1);
    s.lit("\nend");
    reject_syntax(&s);
    cover(1);
}

/// A rescue modifier holds one statement; begin blocks are operands.
#[no_mangle]
pub extern "C-unwind" fn h_begin_expr(_n: u64) {
    let mut s = Src::new();
    let k = choose(5);
    let pre = ["@x = ", "f(", "[", "1 + ", "@x ||= "][k];
    s.lit(pre).lit("begin\n");
    let a = operand(&mut s, 1);
    s.lit("\nrescue\n");
    let b = operand(&mut s, 1);
    s.lit("\nend").lit(["", ")", "]", "", ""][k]);
    let x = t("begin", &[&a, b"r[]-", &b, b"e-n-"]);
    let want = match k {
        0 => asg(&[ivar(b"@x")], &[x]),
        1 => call(b"f", &Args::of(&[x])),
        2 => ary(&[x], false),
        3 => bin("+", &int(1), &x),
        _ => bin("||", &ivar(b"@x"), &asg(&[ivar(b"@x")], &[x])),
    };
    expect(&s, &want);
    cover(k as u32);
}

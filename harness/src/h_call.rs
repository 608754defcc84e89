//! P18 arguments, blocks, yield and super; P19 method chains.
use crate::ast::*;
use crate::h_expr::operand;
use crate::rt::*;

const KINDS: usize = 22;
/// One argument other than the closing kinds (block argument, `=>` pairs).
fn arg(s: &mut Src, a: &mut Args, k: usize) {
    let x = match k {
        0 => operand(s, 1),
        1 => {
            s.lit("*");
            let x = operand(s, 1);
            a.splat = true;
            t("splat", &[&x])
        }
        2 => {
            s.lit("k");
            let c = s.sym(ALNUM);
            s.lit([": ", ":"][alt(2)]);
            let x = operand(s, 1);
            a.kw.push((vec![b'k', c], x));
            return;
        }
        3 => {
            s.lit("**");
            let x = operand(s, 1);
            a.dsplat.push(x);
            return;
        }
        4 => {
            s.lit("g(");
            let x = operand(s, 1);
            s.lit(", 1)");
            call(b"g", &Args::of(&[x, int(1)]))
        }
        5 => {
            s.lit("z = ");
            let x = operand(s, 1);
            asg(&[lvar(0, b"z")], &[x])
        }
        6 => {
            s.lit("->{1}");
            lambda(&[], &int(1), &Lv::default())
        }
        7 => {
            s.lit("@a ? 1 : ");
            let x = operand(s, 1);
            if_(&ivar(b"@a"), &int(1), &x)
        }
        8 => {
            s.lit("[1, ");
            let x = operand(s, 1);
            s.lit("]");
            ary(&[int(1), x], false)
        }
        9 => {
            s.lit("\"");
            let c = s.sym(ALNUM.or(Set::of(b" ,)}")));
            s.lit("\"");
            str_(&[c])
        }
        10 => {
            s.lit(":s");
            let c = s.sym(ALNUM);
            sym_(&[b's', c])
        }
        11 => {
            s.lit("a.b");
            mcall(&call(b"a", &Args::default()), b"b", &Args::default())
        }
        12 => {
            s.lit("@a + ");
            let x = operand(s, 1);
            bin("+", &ivar(b"@a"), &x)
        }
        13 => {
            s.lit("!");
            let x = operand(s, 1);
            un("!", &x)
        }
        14 => {
            s.lit("g {1}");
            call(b"g", &Args { block: Some(lambda(&[], &int(1), &Lv::default())), ..Default::default() })
        }
        15 => {
            s.lit("-");
            let c = s.sym(DIGIT);
            int(-((c - b'0') as i64))
        }
        16 => {
            s.lit("a");
            ident(b"a")
        }
        17 => {
            s.lit("(1)");
            int(1)
        }
        18 => {
            s.lit("1..2");
            t("range", &[&int(1), &int(2), b"F", b"T"])
        }
        19 => {
            s.lit("/a/");
            t("re", &[&l(&[str_(b"a")]), &name(b"m"), b"T"])
        }
        20 => {
            s.lit("::D");
            cpath(true, None, &[], b"D")
        }
        _ => {
            s.lit("{k: ");
            let x = operand(s, 1);
            s.lit("}");
            hash(&[(sym_(b"k"), x)], false)
        }
    };
    a.pos.push(x);
}
const FORMS: usize = 20;
const PAREN: [bool; FORMS] =
    [true, false, true, false, true, false, true, false, true, false, true, false, true, true, true, false, false, true, true, true];
fn form_head(s: &mut Src, f: usize) {
    s.lit([
        "f(", "f ", "@r.f(", "@r.f ", "@r&.f(", "@r&.f ", "yield(", "yield ", "super(", "super ", "C::f(", "C::f ", "@r.(", "C(", "C::D(", "self.f ", "a.f ", "a.f(", "@r.D(", "@r[0].f?(",
    ][f]);
}
fn form_tree(f: usize, a: &Args) -> X {
    let r = ivar(b"@r");
    match f {
        0 | 1 => call(b"f", a),
        2 | 3 => mcall(&r, b"f", a),
        4 | 5 => scall(&r, b"f", a),
        6 | 7 => t("yield", &[&a.x()]),
        8 | 9 => t("super", &[&a.x()]),
        10 | 11 => mcall(&cnst(b"C"), b"f", a),
        12 => mcall(&r, b"call", a),
        13 => call(b"C", a),
        14 => mcall(&cnst(b"C"), b"D", a),
        15 => mcall(b"self", b"f", a),
        16 => mcall(&ident(b"a"), b"f", a),
        17 => mcall(&call(b"a", &Args::default()), b"f", a),
        18 => mcall(&r, b"D", a),
        _ => mcall(&t("idx", &[&r, &l(&[int(0)])]), b"f?", a),
    }
}
/// A literal block with some layout.
fn block(s: &mut Src, k: usize) -> X {
    match k {
        0 => {
            s.lit([" { ", "{", " {\n"][alt(3)]);
            let b = operand(s, 1);
            s.lit([" }", "}", "\n}"][alt(3)]);
            lambda(&[], &b, &Lv::default())
        }
        1 => {
            s.lit([" do ", " do\n"][alt(2)]);
            let b = operand(s, 1);
            s.lit([" end", "\nend", ";end"][alt(3)]);
            lambda(&[], &body(&b), &Lv::default())
        }
        2 => {
            s.lit(" { |xa| xa }");
            lambda(&[t("req", &[&name(b"xa")])], &lvar(0, b"xa"), &Lv::of(&[b"xa"]))
        }
        _ => {
            s.lit(" do |xa, *xb| xb end");
            lambda(&[t("req", &[&name(b"xa")]), t("rest", &[&name(b"xb")])], &body(&lvar(0, b"xb")), &Lv::of(&[b"xa", b"xb"]))
        }
    }
}
/// `n % 10` arguments; tens: the group of forms.
#[no_mangle]
pub extern "C-unwind" fn h_call(n: u64) {
    let cnt = n % 10;
    let group = n / 10 % 10;
    budget(if cnt >= 2 { 0 } else { 1 } + (n / 100) as usize);
    let mut s = Src::new();
    let f = if cnt >= 2 { [[0usize, 3], [1, 2], [7, 8], [9, 12], [16, 14]][group as usize % 5][choose(2)] } else { choose(FORMS) };
    let paren = PAREN[f];
    let is_yield = f == 6 || f == 7;
    let outer = alt(4);
    s.lit(["", "@v = ", "1; ", "return "][outer]);
    form_head(&mut s, f);
    if paren {
        s.lit(["", " ", "\n"][alt(3)]);
    }
    let mut a = Args::default();
    for i in 0..cnt {
        let k = choose(KINDS);
        // an opening brace would start a block
        assume(paren || i > 0 || k != 21);
        if i > 0 {
            s.lit([", ", ",", ",\n", " , "][alt(4)]);
        }
        arg(&mut s, &mut a, k);
    }
    let close = choose(if cnt >= 2 { 3 } else { 5 });
    let need_comma = cnt > 0;
    match close {
        0 => {}
        1 => {
            assume(!is_yield);
            if need_comma {
                s.lit(", ");
            }
            s.lit("&");
            let b = operand(&mut s, 1);
            a.block = Some(b);
        }
        2 | 3 => {
            if need_comma {
                s.lit(", ");
            }
            let mut v = vec![];
            for i in 0..close - 1 {
                if i > 0 {
                    s.lit([", ", ",\n"][alt(2)]);
                }
                let k = match alt(3) {
                    0 => {
                        s.lit(":k");
                        sym_(b"k")
                    }
                    1 => operand(&mut s, 1),
                    _ => {
                        s.lit("\"s\"");
                        str_(b"s")
                    }
                };
                s.lit([" => ", "=>"][alt(2)]);
                let x = operand(&mut s, 1);
                v.push((k, x));
            }
            a.pos.push(hash(&v, false));
        }
        _ => {
            assume(paren && cnt > 0);
            s.lit([",", ",\n"][choose(2)]);
        }
    }
    if paren {
        s.lit([")", " )", "\n)"][alt(3)]);
    } else {
        assume(cnt > 0 || close > 0 && close < 4);
    }
    let m = if paren { 5 } else { 3 };
    let b = if is_yield {
        0
    } else if cnt == 1 {
        alt(m)
    } else {
        choose(m)
    };
    let mut both = false;
    if b > 0 {
        both = a.block.is_some();
        let x = block(&mut s, if paren { b - 1 } else { [1, 3][b - 1] });
        a.block = Some(x);
    }
    let mut x = form_tree(f, &a);
    // what follows
    match alt(4) {
        0 => {}
        1 => {
            assume(paren || b > 0);
            s.lit([".m", "\n.m", "&.m"][choose(3)]);
            x = if s.0.ends_with(b"&.m") { scall(&x, b"m", &Args::default()) } else { mcall(&x, b"m", &Args::default()) };
        }
        2 => {
            s.lit(" if ");
            let c = operand(&mut s, 1);
            x = match outer {
                0 => x,
                1 => asg(&[ivar(b"@v")], &[x]),
                2 => x,
                _ => t("return", &[&x]),
            };
            x = if_(&c, &x, &empty());
            if outer == 2 {
                x = seq(&[int(1), x]);
            }
            if both {
                return reject_syntax(&s);
            }
            expect(&s, &x);
            cover(3);
            return;
        }
        _ => {
            assume(outer == 2);
            s.lit("\n");
            let c = operand(&mut s, 1);
            x = seq(&[int(1), x, c]);
            if both {
                return reject_syntax(&s);
            }
            expect(&s, &x);
            cover(3);
            return;
        }
    }
    if both {
        cover(2);
        return reject_syntax(&s);
    }
    x = match outer {
        0 => x,
        1 => asg(&[ivar(b"@v")], &[x]),
        2 => seq(&[int(1), x]),
        _ => t("return", &[&x]),
    };
    expect(&s, &x);
    cover(1);
}
/// Calls without arguments, with and without parentheses and blocks.
#[no_mangle]
pub extern "C-unwind" fn h_call_none(_n: u64) {
    budget(2);
    let mut s = Src::new();
    let f = choose(14);
    s.lit(["f", "@r.f", "@r&.f", "yield", "super", "C::f", "self.f", "a.f", "f?", "f!", "@r.f!", "@r.if", "@r.C", "f"][f]);
    let has = choose(2) == 1;
    if has {
        s.lit(["()", "( )", "(\n)"][alt(3)]);
    }
    let mut a = Args::default();
    // `yield` takes no block; `super` without arguments none in this parser
    let k = if f == 3 || f == 4 && !has { 0 } else { choose(5) };
    if k > 0 {
        a.block = Some(block(&mut s, k - 1));
    }
    let r = ivar(b"@r");
    let x = match f {
        0 | 13 if !has && k == 0 => ident(b"f"),
        0 | 13 => call(b"f", &a),
        1 => mcall(&r, b"f", &a),
        2 => scall(&r, b"f", &a),
        3 => t("yield", &[&a.x()]),
        4 if !has => t("super", &[b"-"]),
        4 => t("super", &[&a.x()]),
        5 => mcall(&cnst(b"C"), b"f", &a),
        6 => mcall(b"self", b"f", &a),
        7 => mcall(&call(b"a", &Args::default()), b"f", &a),
        8 | 9 if !has && k == 0 => ident([b"f?", b"f!"][f - 8]),
        8 => call(b"f?", &a),
        9 => call(b"f!", &a),
        10 => mcall(&r, b"f!", &a),
        11 => mcall(&r, b"if", &a),
        _ => mcall(&r, b"C", &a),
    };
    let x = match choose(6) {
        0 => x,
        1 => {
            s.lit(" + 1");
            bin("+", &x, &int(1))
        }
        2 => {
            s.lit("\n[1]");
            seq(&[x, ary(&[int(1)], true)])
        }
        3 => {
            s.lit("\n(1)");
            seq(&[x, int(1)])
        }
        4 => {
            s.lit(" ? 1 : 2");
            if_(&x, &int(1), &int(2))
        }
        _ => {
            s.lit("\n-1");
            seq(&[x, int(-1)])
        }
    };
    expect(&s, &x);
    cover(1);
}
/// A do block belongs to the command, a brace block to the last call.
#[no_mangle]
pub extern "C-unwind" fn h_call_block(_n: u64) {
    budget(2);
    let mut s = Src::new();
    let pre = choose(5);
    s.lit(["", "@v = ", "return ", "@w += ", "!"][pre]);
    let f = choose(5);
    s.lit(["f ", "@r.f ", "super ", "@r&.f ", "f @x, "][f]);
    let k = choose(9);
    s.lit(["a", "a.b", "@r.b", "a(1)", "a ? b : c", "k: a", "*a", "!a", "g a"][k]);
    let brace = choose(2) == 1;
    let blk_ = block(&mut s, brace as usize ^ 1);
    let ac = |b: Option<&X>| match b {
        None => ident(b"a"),
        Some(b) => call(b"a", &Args { block: Some(b.clone()), ..Default::default() }),
    };
    let inner = if brace { Some(&blk_) } else { None };
    let mut a = Args::default();
    if f == 4 {
        a.pos.push(ivar(b"@x"));
    }
    let wi = |mut g: Args| {
        g.block = inner.cloned();
        g
    };
    match k {
        0 => a.pos.push(ac(inner)),
        1 => a.pos.push(mcall(&call(b"a", &Args::default()), b"b", &wi(Args::default()))),
        2 => a.pos.push(mcall(&ivar(b"@r"), b"b", &wi(Args::default()))),
        3 => a.pos.push(call(b"a", &wi(Args::of(&[int(1)])))),
        4 => {
            let c = if brace { call(b"c", &wi(Args::default())) } else { ident(b"c") };
            a.pos.push(if_(&ident(b"a"), &ident(b"b"), &c))
        }
        5 => a.kw.push((w("k"), ac(inner))),
        6 => {
            a.pos.push(t("splat", &[&ac(inner)]));
            a.splat = true
        }
        7 => a.pos.push(un("!", &ac(inner))),
        _ => a.pos.push(call(b"g", &Args::of(&[ac(inner)]))),
    }
    if !brace {
        a.block = Some(blk_.clone());
    }
    let x = match f {
        0 | 4 => call(b"f", &a),
        1 => mcall(&ivar(b"@r"), b"f", &a),
        2 => t("super", &[&a.x()]),
        _ => scall(&ivar(b"@r"), b"f", &a),
    };
    let x = match pre {
        0 => x,
        1 => asg(&[ivar(b"@v")], &[x]),
        2 => t("return", &[&x]),
        3 => t("op=", &[b"+ ", &ivar(b"@w"), &x]),
        _ => un("!", &x),
    };
    expect(&s, &x);
    cover(1);
}
/// Argument lists that must be rejected.
#[no_mangle]
pub extern "C-unwind" fn h_call_bad(_n: u64) {
    let mut s = Src::new();
    let f = choose(FORMS);
    assume(PAREN[f]);
    form_head(&mut s, f);
    s.lit(["", "@a, ", "*@a, ", "k: @a, ", "g(1), ", "**@h, "][choose(6)]);
    let open = match choose(16) {
        0 => {
            s.lit("&@b, ").sym(DIGIT);
            false
        }
        1 => {
            s.lit(":k => @v, ").sym(DIGIT);
            false
        }
        2 => {
            s.sym(DIGIT);
            s.lit(" ").sym(DIGIT);
            // (digits with a space between)
            false
        }
        3 => {
            s.sym(DIGIT);
            s.lit(",, ").sym(DIGIT);
            false
        }
        4 => {
            s.lit("*");
            false
        }
        5 => {
            s.lit("**");
            false
        }
        6 => {
            s.lit("&");
            false
        }
        7 => {
            s.lit("...");
            false
        }
        8 => {
            s.lit("k: 1 => ").sym(DIGIT);
            false
        }
        9 => {
            s.lit(":k => ");
            false
        }
        10 => {
            s.lit("&@b, &@").sym(LOWER);
            false
        }
        11 => {
            s.lit("&@b, k: @").sym(LOWER);
            false
        }
        12 => {
            s.lit("1; ").sym(DIGIT);
            false
        }
        13 => {
            s.lit("=> ").sym(DIGIT);
            false
        }
        14 => {
            s.lit("@").sym(LOWER);
            s.lit("]");
            false
        }
        _ => {
            s.sym(DIGIT);
            true
        }
    };
    if open {
        s.lit(["", ",", "\n"][choose(3)]);
        reject_eof(&s);
        cover(2);
    } else {
        s.lit(")");
        reject_syntax(&s);
        cover(1);
    }
}
/// `...` passes the parameters of the innermost method on; anywhere else it is rejected.
#[no_mangle]
pub extern "C-unwind" fn h_call_forward(_n: u64) {
    let mut s = Src::new();
    let mut lv = Lv::default();
    let mut params = vec![];
    let k = choose(4);
    // the method around the call
    s.lit(["def m(...)", "def m(xa, ...)", "def m(xa)", "def self.m(...)"][k]);
    if k == 1 || k == 2 {
        params.push(t("req", &[&name(b"xa")]));
        lv.names.push(w("xa"));
    }
    if k != 2 {
        params.push(t("fwd", &[]));
        lv.fwd = Some(lv.names.len());
        lv.names.push(w("..."));
    }
    let mut ok = k != 2;
    s.lit(["\n", ";", " "][choose(3)]);
    let c = choose(7);
    s.lit(["", "g { ", "if @a then ", "->{ ", "def n; ", "def n(...) ", "@v = "][c]);
    if c == 4 {
        ok = false;
    }
    if c == 5 {
        ok = true;
    }
    let f = choose(7);
    s.lit(["h(", "@r.h(", "super(", "h(@a, ", "h(*@a, ", "@r&.h(", "C::h("][f]);
    s.lit("...)");
    let mut a = Args { fwd: true, ..Default::default() };
    let r = ivar(b"@r");
    let call_ = match f {
        0 => call(b"h", &a),
        1 => mcall(&r, b"h", &a),
        2 => t("super", &[&a.x()]),
        3 => {
            a.pos.push(ivar(b"@a"));
            call(b"h", &a)
        }
        4 => {
            a.pos.push(t("splat", &[&ivar(b"@a")]));
            a.splat = true;
            call(b"h", &a)
        }
        5 => scall(&r, b"h", &a),
        _ => mcall(&cnst(b"C"), b"h", &a),
    };
    s.lit(["", " }", " end", " }", " end", " end", ""][c]);
    let fwd = Lv { names: vec![w("...")], fwd: Some(0), ..Default::default() };
    let b = match c {
        0 => call_,
        1 => call(b"g", &Args { block: Some(lambda(&[], &call_, &Lv::default())), ..Default::default() }),
        2 => if_(&ivar(b"@a"), &call_, &empty()),
        3 => lambda(&[], &call_, &Lv::default()),
        4 => def(b"n", &[], &call_, &Lv::default()),
        5 => def(b"n", &[t("fwd", &[])], &call_, &fwd),
        _ => asg(&[ivar(b"@v")], &[call_]),
    };
    s.lit(" end");
    if !ok {
        reject_syntax(&s);
        cover(2);
        return;
    }
    let x = if k == 3 { t("defs", &[b"self", &name(b"m"), &blk(&params, &body(&b), &lv)]) } else { def(b"m", &params, &b, &lv) };
    expect(&s, &x);
    cover(1);
}

/// A chain under construction; constants keep their path.
#[derive(Clone)]
enum Cur {
    X(X),
    Const { top: bool, parent: Option<X>, prefix: Vec<X>, name: X },
}
impl Cur {
    fn x(&self) -> X {
        match self {
            Cur::X(x) => x.clone(),
            Cur::Const { top, parent, prefix, name } => {
                let p: Vec<&[u8]> = prefix.iter().map(|x| &x[..]).collect();
                cpath(*top, parent.as_ref(), &p, name)
            }
        }
    }
    fn scope(&self, n: &[u8]) -> Cur {
        match self.clone() {
            Cur::X(x) => Cur::Const { top: false, parent: Some(x), prefix: vec![], name: n.to_vec() },
            Cur::Const { top, parent, mut prefix, name } => {
                prefix.push(name);
                Cur::Const { top, parent, prefix, name: n.to_vec() }
            }
        }
    }
}
const STARTS: usize = 22;
/// The beginning of a chain and, for a lone identifier, its form as a receiver.
fn start(s: &mut Src, k: usize) -> (Cur, Option<X>) {
    let nob = |x: X| (Cur::X(x), None);
    let lam = lambda(&[], &int(1), &Lv::default());
    s.lit([
        "@", "a", "A", "self", "f(1)", "[1]", "(@a)", "\"s\"", "1", ":s", "nil", "->{1}", "::A", "f {1}", "xx = @a; xx", "if @a then 1 end", "begin 1 end", "yield", "super(1)", "super", "@@a",
        "{k: 1}",
    ][k]);
    match k {
        0 => {
            let c = s.sym(ALPHA);
            nob(ivar(&[b'@', c]))
        }
        1 => (Cur::X(ident(b"a")), Some(call(b"a", &Args::default()))),
        2 => (Cur::Const { top: false, parent: None, prefix: vec![], name: w("A") }, None),
        3 => nob(w("self")),
        4 => nob(call(b"f", &Args::of(&[int(1)]))),
        5 => nob(ary(&[int(1)], true)),
        6 => nob(ivar(b"@a")),
        7 => nob(str_(b"s")),
        8 => nob(int(1)),
        9 => nob(sym_(b"s")),
        10 => nob(nil()),
        11 => nob(lam),
        12 => (Cur::Const { top: true, parent: None, prefix: vec![], name: w("A") }, None),
        13 => nob(call(b"f", &Args { block: Some(lam), ..Default::default() })),
        14 => nob(lvar(0, b"xx")),
        15 => nob(if_(&ivar(b"@a"), &int(1), &empty())),
        16 => nob(body(&int(1))),
        17 => nob(t("yield", &[b"<>"])),
        18 => nob(t("super", &[b"<#\x01\0\0\0\0\0\0\0>"])),
        19 => nob(t("super", &[b"-"])),
        20 => nob(cvar(b"@@a")),
        _ => nob(hash(&[(sym_(b"k"), int(1))], true)),
    }
}
const LINKS: usize = 18;
/// One link; `fresh` is the receiver form of a lone identifier.
fn link(s: &mut Src, cur: Cur, fresh: Option<X>, k: usize) -> Cur {
    let as_receiver = fresh.unwrap_or(cur.x());
    let nl = |s: &mut Src| {
        s.lit(["", "\n", "\n  ", " # c\n", "\n# c\n ", "\n\n", " "][alt(7)]);
    };
    let after = |s: &mut Src| {
        s.lit(["", "\n", " ", "\n # c\n"][alt(4)]);
    };
    let none = Args::default();
    let lam = lambda(&[], &int(1), &Lv::default());
    match k {
        0 | 1 => {
            nl(s);
            s.lit(["." , "&."][k]);
            after(s);
            s.lit("m");
            let n = [b'm', s.sym(ALNUM)];
            Cur::X(if k == 0 { mcall(&as_receiver, &n, &none) } else { scall(&as_receiver, &n, &none) })
        }
        2 | 3 => {
            nl(s);
            s.lit([".", "&."][k - 2]);
            s.lit("m(");
            let c = s.sym(DIGIT);
            s.lit(", *@a)");
            let a = Args { pos: vec![int((c - b'0') as i64), t("splat", &[&ivar(b"@a")])], splat: true, ..Default::default() };
            Cur::X(if k == 2 { mcall(&as_receiver, b"m", &a) } else { scall(&as_receiver, b"m", &a) })
        }
        4 => {
            s.lit("::");
            after(s);
            s.lit("m");
            let n = [b'm', s.sym(ALNUM)];
            Cur::X(mcall(&as_receiver, &n, &none))
        }
        5 => {
            s.lit("::m(1)");
            Cur::X(mcall(&as_receiver, b"m", &Args::of(&[int(1)])))
        }
        6 => {
            s.lit(["[", "[ ", "[\n"][alt(3)]);
            let x = operand(s, 1);
            s.lit("]");
            Cur::X(t("idx", &[&cur.x(), &l(&[x])]))
        }
        7 => {
            s.lit("[1, :k, *@a]");
            Cur::X(t("idx", &[&cur.x(), &l(&[int(1), sym_(b"k"), t("splat", &[&ivar(b"@a")])])]))
        }
        8 | 9 => {
            nl(s);
            s.lit([".(", "&.("][k - 8]);
            let x = operand(s, 1);
            s.lit(")");
            let a = Args::of(&[x]);
            Cur::X(if k == 8 { mcall(&cur.x(), b"call", &a) } else { scall(&cur.x(), b"call", &a) })
        }
        10 => {
            s.lit("::");
            after(s);
            s.lit("C");
            let c = s.sym(ALNUM);
            cur.scope(&[b'C', c])
        }
        11 => {
            s.lit("::C(1)");
            Cur::X(mcall(&cur.x(), b"C", &Args::of(&[int(1)])))
        }
        12 => {
            nl(s);
            s.lit(".C");
            Cur::X(mcall(&as_receiver, b"C", &none))
        }
        13 => {
            nl(s);
            s.lit(".m {1}");
            Cur::X(mcall(&as_receiver, b"m", &Args { block: Some(lam), ..Default::default() }))
        }
        14 => {
            nl(s);
            s.lit("&.m do 1 end");
            Cur::X(scall(&as_receiver, b"m", &Args { block: Some(lambda(&[], &body(&int(1)), &Lv::default())), ..Default::default() }))
        }
        15 => {
            nl(s);
            let j = alt(4);
            let n = ["m?", "m!", "class", "if"][j];
            s.lit(".").lit(n);
            Cur::X(mcall(&as_receiver, n.as_bytes(), &none))
        }
        16 => {
            let j = alt(5);
            let n = ["+", "[]", "==", "<<", "-@"][j];
            s.lit(".").lit(n).lit("(1)");
            Cur::X(mcall(&as_receiver, n.as_bytes(), &Args::of(&[int(1)])))
        }
        _ => {
            nl(s);
            s.lit(".m()");
            Cur::X(mcall(&as_receiver, b"m", &none))
        }
    }
}
/// Chains of `n % 10` links from every start; tens: extra freedom of layout.
#[no_mangle]
pub extern "C-unwind" fn h_chain(n: u64) {
    budget((n / 10) as usize);
    let mut s = Src::new();
    let st = if n % 10 >= 3 { choose(3) } else { choose(STARTS) };
    let (mut cur, mut fresh) = start(&mut s, st);
    for _ in 0..n % 10 {
        let k = choose(LINKS);
        cur = link(&mut s, cur, fresh.take(), k);
    }
    // a call with a literal block, or an empty list, may not be assigned to, but everything may be read
    let x = match alt(8) {
        0 => cur.x(),
        1 => {
            s.lit(" + 1");
            bin("+", &cur.x(), &int(1))
        }
        2 => {
            s.lit("\n@z");
            seq(&[cur.x(), ivar(b"@z")])
        }
        3 => {
            s.lit("\n# c\n\n");
            cur.x()
        }
        4 => {
            s.lit(" ? 1 : 2");
            if_(&cur.x(), &int(1), &int(2))
        }
        5 => {
            s.lit("; [1]");
            seq(&[cur.x(), ary(&[int(1)], true)])
        }
        6 => {
            s.lit("\n::D");
            seq(&[cur.x(), cpath(true, None, &[], b"D")])
        }
        _ => {
            s.lit(" and @z");
            bin("&&", &cur.x(), &ivar(b"@z"))
        }
    };
    let x = if st == 14 { pre_lvar(&x) } else { x };
    expect(&s, &x);
    cover(1);
}
/// `xx = @a;` stands before the statement: merge it into the sequence.
fn pre_lvar(x: &X) -> X {
    let a = asg(&[lvar(0, b"xx")], &[ivar(b"@a")]);
    if x.starts_with(b"(seq [") {
        let mut o = b"(seq [".to_vec();
        o.extend_from_slice(&a);
        o.extend_from_slice(&x[6..]);
        o
    } else {
        seq(&[a, x.clone()])
    }
}
/// Assignment to the end of a chain.
#[no_mangle]
pub extern "C-unwind" fn h_chain_assign(n: u64) {
    budget(1);
    let mut s = Src::new();
    let st = choose(4);
    let (mut cur, mut fresh) = start(&mut s, st);
    for _ in 0..n {
        let k = choose(LINKS);
        cur = link(&mut s, cur, fresh.take(), k);
    }
    // the target itself
    let k = [0usize, 1, 4, 6, 7, 10, 12][choose(7)];
    cur = link(&mut s, cur, fresh.take(), k);
    let target = cur.x();
    let r = ivar(b"@v");
    let j = choose(8);
    s.lit([" = ", "=", " += ", " ||= ", ", @b = ", " = @w = ", " &&= ", " <<= "][j]).lit("@v");
    let x = match j {
        0 | 1 => asg(&[target], &[r]),
        2 => t("op=", &[b"+ ", &target, &r]),
        3 => bin("||", &target, &asg(&[target.clone()], &[r])),
        4 => asg(&[target, ivar(b"@b")], &[r]),
        5 => asg(&[target], &[asg(&[ivar(b"@w")], &[r])]),
        6 => bin("&&", &target, &asg(&[target.clone()], &[r])),
        _ => t("op=", &[b"<< ", &target, &r]),
    };
    expect(&s, &x);
    cover(1);
}
/// Chains broken in the middle.
#[no_mangle]
pub extern "C-unwind" fn h_chain_bad(_n: u64) {
    budget(1);
    let mut s = Src::new();
    let st = choose(8);
    let (cur, fresh) = start(&mut s, st);
    let k = choose(LINKS);
    link(&mut s, cur, fresh, k);
    let j = choose(9);
    s.lit([".", "&.", "::", ".\n", "..m", ".@a", ".1", ".[1]", "&..m"][j]);
    if j < 4 {
        reject_eof(&s);
        cover(2);
    } else if j == 4 {
        // a range
        accept(&s);
    } else {
        reject_syntax(&s);
        cover(1);
    }
}

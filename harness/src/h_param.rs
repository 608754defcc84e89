//! P17 formal parameters; P29 numbered parameters.
use crate::ast::*;
use crate::h_expr::operand;
use crate::rt::*;

#[derive(Clone, Copy, PartialEq, PartialOrd)]
enum St {
    Req,
    Opt,
    Rest,
    Post,
    Key,
    KwRest,
    End,
}
/// The parameters written so far.
struct Params {
    x: Vec<X>,
    lv: Lv,
    /// Names that are plain local variables, in order.
    st: St,
    bad: bool,
}
/// `def f(..)`, `def f ..`, `{|..|}`, `->(..)`, `->..{}`
#[derive(Clone, Copy, PartialEq)]
enum Where {
    Paren,
    Line,
    Pipe,
    Bare,
}
const KINDS: usize = 11;
fn pname(s: &mut Src, i: usize, v: usize) -> X {
    let mut n = vec![b"xyzwvu"[2 * i % 6 + v]];
    s.bytes(&n.clone());
    n.push(s.sym(LOWER));
    n
}
/// A default value: the tree.
fn default(s: &mut Src, p: &Params, wh: Where) -> X {
    match alt(if wh == Where::Pipe { 5 } else { 8 }) {
        0 => operand(s, 1),
        1 => {
            // an earlier parameter
            match p.lv.names.first() {
                Some(n) if n[0] != b'.' => {
                    s.bytes(n).lit(" ");
                    lvar(0, n)
                }
                _ => {
                    s.lit("nil");
                    nil()
                }
            }
        }
        2 => {
            s.lit("[");
            let a = operand(s, 1);
            s.lit(", 2]");
            ary(&[a, int(2)], false)
        }
        3 => {
            s.lit("(@a | 1)");
            bin("|", &ivar(b"@a"), &int(1))
        }
        4 => {
            s.lit("-1");
            int(-1)
        }
        5 => {
            s.lit("@a ? 1 : 2");
            if_(&ivar(b"@a"), &int(1), &int(2))
        }
        6 => {
            // (the parser takes the body of a lambda for a block of the call)
            assume(wh != Where::Bare);
            s.lit("g(1, 2).m");
            mcall(&call(b"g", &Args::of(&[int(1), int(2)])), b"m", &Args::default())
        }
        _ => {
            s.lit("@a | 1");
            bin("|", &ivar(b"@a"), &int(1))
        }
    }
}
fn param(s: &mut Src, p: &mut Params, i: usize, kind: usize, wh: Where) {
    let st = p.st;
    let eq = |s: &mut Src| {
        s.lit([" = ", "=", "= "][alt(3)]);
    };
    let mut ok = true;
    match kind {
        0 => {
            let n = pname(s, i, 0);
            match st {
                St::Req => p.x.push(t("req", &[&name(&n)])),
                St::Opt | St::Rest | St::Post => {
                    p.x.push(t("post", &[&name(&n)]));
                    p.st = St::Post;
                }
                _ => ok = false,
            }
            p.lv.names.push(n);
        }
        1 => {
            let n = pname(s, i, 0);
            eq(s);
            let d = default(s, p, wh);
            ok = st <= St::Opt;
            p.x.push(t("opt", &[&name(&n), &d]));
            p.lv.names.push(n);
            p.st = St::Opt;
        }
        2 | 3 => {
            ok = st < St::Rest;
            s.lit("*");
            if kind == 2 {
                let n = pname(s, i, 0);
                p.x.push(t("rest", &[&name(&n)]));
                p.lv.names.push(n);
            } else {
                p.x.push(t("rest", &[b"-"]));
            }
            p.st = St::Rest;
        }
        4 | 5 => {
            ok = st <= St::Key;
            let n = pname(s, i, 0);
            s.lit(":");
            let d = if kind == 4 {
                w("-")
            } else {
                s.lit([" ", ""][alt(2)]);
                default(s, p, wh)
            };
            p.x.push(t("key", &[&name(&n), &d]));
            p.lv.kw.push(p.lv.names.len());
            p.lv.names.push(n);
            p.st = St::Key;
        }
        6 => {
            ok = st < St::KwRest;
            s.lit("**");
            let n = pname(s, i, 0);
            p.x.push(t("kwrest", &[&name(&n)]));
            p.lv.kwrest = Some(p.lv.names.len());
            p.lv.names.push(n);
            p.st = St::KwRest;
        }
        7 => {
            s.lit("&");
            let n = pname(s, i, 0);
            p.x.push(t("block", &[&name(&n)]));
            p.lv.block = Some(p.lv.names.len());
            p.lv.names.push(n);
            p.st = St::End;
        }
        8 => {
            // the parser accepts `...` after required parameters only
            assume(st == St::Req || st >= St::Key);
            ok = st == St::Req;
            s.lit("...");
            p.x.push(t("fwd", &[]));
            p.lv.fwd = Some(p.lv.names.len());
            p.lv.names.push(w("..."));
            p.st = St::End;
        }
        k => {
            // destructuring
            assume(st == St::Req || st == St::Rest);
            s.lit(["(", "( "][alt(2)]);
            let mut v = vec![];
            let n = k - 8;
            for j in 0..n {
                if j > 0 {
                    s.lit([", ", ",", ",\n"][alt(3)]);
                }
                let nm = pname(s, i, j);
                v.push(name(&nm));
                p.lv.names.push(nm);
            }
            if n == 1 {
                s.lit([",", ""][alt(2)]);
            }
            s.lit(")");
            let v: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
            p.x.push(t("dest", &v));
        }
    }
    if st == St::End {
        ok = false;
    }
    p.bad |= !ok;
}
/// Writes `[p1, p2, .., other]` and returns its tree inside the scope (`depth` blocks below).
fn uses(s: &mut Src, p: &Params, depth: usize) -> X {
    s.lit("[");
    let mut v = vec![];
    for n in &p.lv.names {
        if n[0] == b'.' {
            continue;
        }
        s.bytes(n).lit(", ");
        v.push(lvar(depth, n));
    }
    s.lit("other]");
    v.push(ident(b"other"));
    ary(&v, false)
}
/// Writes a construct of kind `ctx` with the given parameter kinds.
fn construct(s: &mut Src, ctx: usize, kinds: &[usize]) -> (X, bool) {
    let wh = [Where::Paren, Where::Line, Where::Pipe, Where::Pipe, Where::Paren, Where::Bare, Where::Paren, Where::Paren, Where::Pipe][ctx];
    s.lit(["def f(", "def f ", "f {|", "f(@a) do |", "->(", "->", "def self.f=(", "-> (", "@a.f @b do |"][ctx]);
    let mut p = Params { x: vec![], lv: Lv::default(), st: St::Req, bad: false };
    for (i, k) in kinds.iter().enumerate() {
        if i > 0 {
            let n = if wh == Where::Line || wh == Where::Bare { 3 } else { 5 };
            s.lit([", ", ",", ",\n", " , ", "\n, "][alt(n)]);
        }
        if wh == Where::Bare && *k == 4 {
            assume(i + 1 < kinds.len());
        }
        if i == 0 && *k > 8 {
            // the parenthesis would open the parameter list
            assume(wh == Where::Paren || wh == Where::Pipe);
        }
        param(s, &mut p, i, *k, wh);
    }
    s.lit([[")", "\n)"][if wh == Where::Paren { alt(2) } else { 0 }], "\n", "| ", "|\n", ")", " ", ")", ") ", "|"][ctx]);
    let mut bare_do = false;
    s.lit(match ctx {
        0 | 6 => ["\n", " ", ";"][alt(3)],
        4 => "{",
        5 => {
            let k = alt(2);
            bare_do = k == 1;
            ["{", "do "][k]
        }
        7 => "do\n",
        _ => "",
    });
    let nested = alt(3);
    let b = match nested {
        0 => uses(s, &p, 0),
        1 => {
            s.lit("g {");
            let b = uses(s, &p, 1);
            s.lit("}");
            call(b"g", &Args { block: Some(lambda(&[], &b, &Lv::default())), ..Default::default() })
        }
        _ => {
            // the parameters are unknown in a method inside
            s.lit("def g; ");
            let mut v = vec![];
            s.lit("[");
            for n in &p.lv.names {
                if n[0] != b'.' {
                    s.bytes(n).lit(", ");
                    v.push(ident(n));
                }
            }
            s.lit("1]; end");
            v.push(int(1));
            let c = v.len() == 1;
            def(b"g", &[], &ary(&v, c), &Lv::default())
        }
    };
    s.lit([" end", " end", " }", " end", "}", [" }", " end"][bare_do as usize], "\nend", " end", " end"][ctx]);
    let lam = |b: &X| lambda(&p.x, b, &p.lv);
    let x = match ctx {
        0 | 1 => def(b"f", &p.x, &b, &p.lv),
        2 => call(b"f", &Args { block: Some(lam(&b)), ..Default::default() }),
        3 => call(b"f", &Args { pos: vec![ivar(b"@a")], block: Some(lam(&body(&b))), ..Default::default() }),
        6 => t("defs", &[b"self", &name(b"f="), &blk(&p.x, &body(&b), &p.lv)]),
        8 => mcall(&ivar(b"@a"), b"f", &Args { pos: vec![ivar(b"@b")], block: Some(lam(&body(&b))), ..Default::default() }),
        _ => lam(&b),
    };
    (x, p.bad)
}
/// `n` parameters of all kinds in every construct: accepted exactly in the right order, with the right roles.
#[no_mangle]
pub extern "C-unwind" fn h_param(n: u64) {
    budget(if n % 10 >= 2 { 1 } else { 2 });
    let mut s = Src::new();
    let ctx = if n < 10 { choose(9) } else { [0, 2, 1][(n / 10 - 1) as usize] };
    let kinds: Vec<usize> = (0..n % 10).map(|_| choose(KINDS)).collect();
    let (x, bad) = construct(&mut s, ctx, &kinds);
    if bad {
        reject_syntax(&s);
        cover(2);
    } else {
        expect(&s, &x);
        cover(1);
    }
}
/// The same name twice is rejected, whatever the kinds of the two parameters.
#[no_mangle]
pub extern "C-unwind" fn h_param_dup(_n: u64) {
    let mut s = Src::new();
    let ctx = choose(4);
    let k1 = choose(5);
    let k2 = choose(8);
    let rank = |k: usize| [0, 1, 2, 3, 4, 5, 6, 0][k];
    assume(k2 == 6 && k1 == 0 || k2 != 6 && rank(k2) >= rank(k1));
    assume(!(k1 == k2 && (k1 == 2 || k1 == 4)));
    s.lit(["def f(", "f {|", "->(", "def f "][ctx]);
    let n1 = [b'x', s_name(&mut s, k1, &mut Vec::new())];
    s.lit(", ");
    if choose(2) == 1 {
        s.lit("zz, ");
        assume(rank(k1) == 0);
    }
    let mut v = vec![];
    let n2 = [b'x', s_name(&mut s, k2, &mut v)];
    s.lit([") end", "| }", "){}", "\nend"][ctx]);
    let same_name = n1 == n2 || v.iter().any(|x| *x == n1[1] || *x == n2[1]);
    if same_name {
        reject_syntax(&s);
        cover(1);
    } else {
        accept(&s);
        cover(2);
    }
}
/// required, optional, rest, keyword, kwrest, block, destructuring (two names), post
fn s_name(s: &mut Src, k: usize, more: &mut Vec<u8>) -> u8 {
    s.lit(["x", "x", "*x", "x", "**x", "&x", "(x", "x"][k]);
    let c = s.sym(LOWER);
    match k {
        1 => {
            s.lit(" = 1");
        }
        3 => {
            s.lit(": 1");
        }
        6 => {
            s.lit(", x");
            more.push(s.sym(LOWER));
            s.lit(")");
        }
        _ => {}
    }
    c
}
/// What is not a parameter is rejected.
#[no_mangle]
pub extern "C-unwind" fn h_param_bad(_n: u64) {
    let mut s = Src::new();
    let ctx = choose(4);
    s.lit(["def f(", "f {|", "->(", "f do |"][ctx]);
    s.lit(["", "a, ", "a = 1, ", "k: 1, "][choose(4)]);
    s.lit(["", "*", "**", "&"][choose(4)]);
    match choose(12) {
        0 => {
            s.sym(UPPER);
        }
        1 => {
            s.lit("@").sym(LOWER);
        }
        2 => {
            s.lit("$").sym(LOWER);
        }
        3 => {
            s.sym(DIGIT);
        }
        4 => {
            s.lit("_").sym(Set::range(b'1', b'9'));
        }
        5 => {
            s.lit(["if", "end", "do", "def", "while", "class", "return", "yield", "and", "then", "unless", "super"][choose(12)]);
        }
        6 => {
            s.lit("\"").sym(ALNUM);
            s.lit("\"");
        }
        7 => {
            s.lit(":").sym(LOWER);
        }
        8 => {
            s.lit("@@").sym(LOWER);
        }
        9 => {
            s.lit("b c");
        }
        10 => {
            s.lit("b.").sym(LOWER);
        }
        _ => {
            s.lit("b + ").sym(LOWER);
        }
    }
    s.lit([") end", "| }", "){}", "| end"][ctx]);
    reject_syntax(&s);
    cover(1);
}
/// Definitions without parameters; trailing commas in blocks; white space.
#[no_mangle]
pub extern "C-unwind" fn h_param_none(_n: u64) {
    let mut s = Src::new();
    let k = choose(14);
    s.lit(["def f", "def f()", "def f( )", "def f(\n)", "f {", "f {||", "f {| |", "f do ||", "->", "->()", "-> ( ) ", "f do", "f {|xa,|", "f do |xa,\n|"][k]);
    s.lit([&["\n", ";", " ;"][..], &["\n", " ", ";", ""], &[" ", "\n", "", "\n\n"], &["{", " {", "do ", " do\n"]][match k {
        0 => 0,
        1..=3 => 1,
        8..=10 => 3,
        _ => 2,
    }][choose(match k {
        0 => 3,
        _ => 4,
    })]);
    if k == 11 && !s.0.ends_with(b"\n") && !s.0.ends_with(b" ") {
        s.lit(" ");
    }
    let do_lambda = s.0.ends_with(b"do ") || s.0.ends_with(b"do\n");
    let b = operand(&mut s, 1);
    let c = operand_after(&mut s, b);
    let blk_ = |b: &X| call(b"f", &Args { block: Some(lambda(&[], b, &Lv::default())), ..Default::default() });
    let x = match k {
        0..=3 => {
            s.lit(" end");
            def(b"f", &[], &c, &Lv::default())
        }
        4..=6 => {
            s.lit("}");
            blk_(&c)
        }
        7 | 11 => {
            s.lit("\nend");
            blk_(&body(&c))
        }
        8..=10 => {
            s.lit(if do_lambda { " end" } else { "}" });
            lambda(&[], &c, &Lv::default())
        }
        12 => {
            s.lit("}");
            call(b"f", &Args { block: Some(lambda(&[t("req", &[&name(b"xa")])], &c, &Lv::of(&[b"xa"]))), ..Default::default() })
        }
        _ => {
            s.lit(" end");
            call(b"f", &Args { block: Some(lambda(&[t("req", &[&name(b"xa")])], &body(&c), &Lv::of(&[b"xa"]))), ..Default::default() })
        }
    };
    expect(&s, &x);
    cover(1);
}
fn operand_after(s: &mut Src, b: X) -> X {
    if choose(2) == 1 {
        s.lit(" | 1");
        bin("|", &b, &int(1))
    } else {
        b
    }
}

/// Writes a use of a numbered parameter in some expression.
fn numbered_use(s: &mut Src) -> X {
    let k = alt(13);
    s.lit(["", "", "[", "[1, ", "g ", "@v = ", "\"#{", "g(", "", "g k: ", "-", "", "{a: "][k]);
    let n = vec![b'_', { s.lit("_"); s.sym(Set::range(b'1', b'9')) }];
    s.lit(["", " + 1", ", 2]", "]", ", 2", "", "}\"", ")", " ? 1 : 2", ", l: 2", "", "[0]", ", b: 2}"][k]);
    let i = ident(&n);
    match k {
        1 => bin("+", &i, &int(1)),
        2 => ary(&[i, int(2)], false),
        3 => ary(&[int(1), i], false),
        4 => call(b"g", &Args::of(&[i, int(2)])),
        5 => asg(&[ivar(b"@v")], &[i]),
        6 => t("istr", &[&l(&[i])]),
        7 => call(b"g", &Args::of(&[i])),
        8 => if_(&i, &int(1), &int(2)),
        9 => call(b"g", &Args { kw: vec![(w("k"), i), (w("l"), int(2))], ..Default::default() }),
        10 => un("-@", &i),
        11 => t("idx", &[&i, &l(&[int(0)])]),
        12 => hash(&[(sym_(b"a"), i), (sym_(b"b"), int(2))], false),
        _ => i,
    }
}
/// What the text inside a block does with numbered parameters.
struct Use {
    own: bool,
    below: bool,
    bad: bool,
}
/// Writes a block whose body has `n` items; at most `depth` blocks below.
fn numbered_block(s: &mut Src, n: usize, depth: usize) -> (X, Use) {
    let form = alt(4);
    s.lit(["g {", "g do ", "->{", "-> do "][form]);
    let mut has_for = false;
    let var = [b"i" as &[u8], b"j", b"k"][depth];
    let mut u = Use { own: false, below: false, bad: false };
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            s.lit("; ");
        }
        let m = if depth > 0 { 8 } else { 3 };
        let x = match choose(m) {
            0 => {
                u.own = true;
                numbered_use(s)
            }
            1 => operand(s, 1),
            2 => {
                // a `for` loop belongs to the block
                s.lit("for ").bytes(var).lit(" in @a do ");
                let b = numbered_use(s);
                u.own = true;
                s.lit(" end");
                has_for = true;
                t("for", &[&lvar(0, var), &ivar(b"@a"), &blk(&[], &b, &Lv::default())])
            }
            3 => {
                let (x, d) = numbered_block(s, 1, depth - 1);
                u.below |= d.own || d.below;
                u.bad |= d.bad;
                x
            }
            4 => {
                // a method is a world of its own
                s.lit("def m; ");
                let (x, d) = numbered_block(s, 1, depth - 1);
                u.bad |= d.bad;
                s.lit("; end");
                def(b"m", &[], &x, &Lv::default())
            }
            5 => {
                s.lit("if @c then ");
                let (x, d) = numbered_block(s, 1, depth - 1);
                u.below |= d.own || d.below;
                u.bad |= d.bad;
                s.lit(" end");
                if_(&ivar(b"@c"), &x, &empty())
            }
            6 => {
                s.lit("for ").bytes(var).lit(" in @a do ");
                let (x, d) = numbered_block(s, 1, depth - 1);
                u.below |= d.own || d.below;
                u.bad |= d.bad;
                s.lit(" end");
                has_for = true;
                t("for", &[&lvar(0, var), &ivar(b"@a"), &blk(&[], &x, &Lv::default())])
            }
            _ => {
                let (x, d) = numbered_block(s, 2, 0);
                u.below |= d.own || d.below;
                u.bad |= d.bad;
                x
            }
        };
        v.push(x);
    }
    u.bad |= u.own && u.below;
    s.lit(["}", " end", "}", " end"][form]);
    let b = seq(&v);
    let lv = if has_for { Lv::of(&[var]) } else { Lv::default() };
    let x = match form {
        0 => call(b"g", &Args { block: Some(lambda(&[], &b, &lv)), ..Default::default() }),
        1 => call(b"g", &Args { block: Some(lambda(&[], &body(&b), &lv)), ..Default::default() }),
        _ => lambda(&[], &b, &lv),
    };
    (x, u)
}
/// Numbered parameters in nested blocks: one level only.
#[no_mangle]
pub extern "C-unwind" fn h_numbered(n: u64) {
    // bodies of n % 10 items; the tens select how deep and how varied
    let (b, depth) = [(2, 1), (0, 2), (1, 1)][(n / 10) as usize];
    budget(b);
    let mut s = Src::new();
    let (x, u) = numbered_block(&mut s, (n % 10) as usize, depth);
    if u.bad {
        reject_syntax(&s);
        cover(2);
    } else {
        let r = expect(&s, &x);
        // the block records whether it uses numbered parameters
        let lv = match &r.node.kind {
            ruruby_parse::NodeKind::Lambda(b) => &b.lvar,
            ruruby_parse::NodeKind::FuncCall { arglist, .. } => match &arglist.block.as_ref().unwrap().kind {
                ruruby_parse::NodeKind::Lambda(b) => &b.lvar,
                _ => fail("no block"),
            },
            _ => fail("no block"),
        };
        ck(lv.numbered_param.is_some() == u.own, "numbered parameters are not recorded in their block");
        cover(1);
    }
}
/// Numbered parameters cannot be assigned or declared; other names can.
#[no_mangle]
pub extern "C-unwind" fn h_numbered_names(_n: u64) {
    let mut s = Src::new();
    let k = choose(22);
    s.lit([
        "", "", "", "a, ", "*", "for ", "begin; rescue => ", "g {|", "g {|a, *", "g {|**", "g {|&", "g {|(b, ", "def f(", "def f(k = 1, ", "->(", "def ", "g { ", "g { ", "@a = ", "for a, ",
        "def f(a, ", "g {|",
    ][k]);
    s.lit("_");
    let mut n = vec![b'_'];
    let c = s.sym(WORD);
    n.push(c);
    let two = choose(2) == 1;
    if two {
        n.push(s.sym(WORD));
    }
    let numbered = !two && (b'1'..=b'9').contains(&c);
    s.lit([
        " = 1", " += 1", ", a = 1, 2", " = 1", ", a = 1", " in @a do end", "; end", "| }", "| }", "| }", "| }", ")| }", ") end", ") end", ") {}", "; end", " = 2 }", " ||= 2 }", " = 3",
        " in @a do end", " = 1) end", ": 1| }",
    ][k]);
    if numbered {
        reject_syntax(&s);
        cover(1);
    } else {
        let r = accept(&s);
        // and it is an ordinary local variable at the top level
        if k < 7 || k == 18 || k == 19 {
            ck(r.lvar_collector.table().iter().any(|x| x.as_bytes() == &n[..]), "the variable is missing");
        }
        cover(2);
    }
}
/// A method named like a numbered parameter can be called.
#[no_mangle]
pub extern "C-unwind" fn h_numbered_call(_n: u64) {
    let mut s = Src::new();
    let inside = choose(2) == 1;
    s.lit(if inside { "g {" } else { "" });
    s.lit("_");
    let n = [b'_', s.sym(Set::range(b'1', b'9'))];
    let k = choose(4);
    s.lit(["()", "(1)", "(){}", "(*@a)"][k]);
    let nob = lambda(&[], &empty(), &Lv::default());
    let x = match k {
        0 => call(&n, &Args::default()),
        1 => call(&n, &Args::of(&[int(1)])),
        2 => call(&n, &Args { block: Some(nob), ..Default::default() }),
        _ => call(&n, &Args { pos: vec![t("splat", &[&ivar(b"@a")])], splat: true, ..Default::default() }),
    };
    if inside {
        s.lit("}");
        expect(&s, &call(b"g", &Args { block: Some(lambda(&[], &x, &Lv::default())), ..Default::default() }));
    } else {
        expect(&s, &x);
    }
    cover(1);
}

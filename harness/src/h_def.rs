//! P26 classes, modules, singleton classes, methods and constants.
use crate::ast::*;
use crate::h_expr::operand;
use crate::rt::*;

fn cname(s: &mut Src, c: u8) -> X {
    s.byte(c);
    vec![c, s.sym(ALNUM)]
}
/// The separator after a header.
fn sep(s: &mut Src) {
    s.lit(["\n", ";", " ;\n", " # c\n", "\n\n"][alt(5)]);
}
/// `..; body; clauses` up to, not including, `end`. `lv` collects the variables of the scope.
fn clauses(s: &mut Src, b: &X, lv: &mut Lv, most: usize) -> X {
    let mut o = b.clone();
    let n = alt(most + 1);
    for i in 0..n {
        s.lit(["\nrescue", ";rescue"][alt(2)]);
        let k = alt(6);
        let assign = k == 1 || k == 4;
        let excs = match k {
            0 | 1 => vec![],
            2 | 4 => {
                s.lit(" ");
                vec![cnst(&cname(s, b'E'))]
            }
            3 => {
                s.lit(" ");
                let a = cnst(&cname(s, b'E'));
                s.lit(", F::G");
                vec![a, cpath(false, None, &[b"F"], b"G")]
            }
            _ => {
                s.lit(" *@a");
                vec![t("splat", &[&ivar(b"@a")])]
            }
        };
        let a = if assign {
            let target = alt(2);
            s.lit([" => ", "=>"][alt(2)]).lit(["er", "@er"][target]);
            if target == 0 {
                if !lv.names.iter().any(|x| &x[..] == b"er") {
                    lv.names.push(w("er"));
                }
                lvar(0, b"er")
            } else {
                ivar(b"@er")
            }
        } else {
            w("-")
        };
        s.lit(["\n", ";", " then "][alt(3)]);
        let m = alt(2);
        let r = if m == 1 || i > 0 { empty() } else { operand(s, 1) };
        o.extend_from_slice(&l2(b"r", &excs, &a, &r));
    }
    let mut e = w("-");
    if n > 0 && alt(2) == 1 {
        s.lit("\nelse\n");
        e = operand(s, 1);
    }
    let mut f = w("-");
    if alt(2) == 1 {
        s.lit("\nensure ");
        f = operand(s, 1);
    }
    t("begin", &[&o, b"e", &e, b"n", &f])
}
fn l2(tag: &[u8], excs: &[X], a: &X, r: &X) -> X {
    let mut o = tag.to_vec();
    o.extend_from_slice(&l(excs));
    o.extend_from_slice(a);
    o.extend_from_slice(r);
    o
}
/// The statements of a body; local variables go to `lv`.
fn stmts(s: &mut Src, n: usize, lv: &mut Lv, method: bool) -> X {
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            s.lit(["\n", ";"][alt(2)]);
        }
        let x = match alt(8) {
            0 => operand(s, 1),
            1 => {
                s.lit("def m");
                let c = s.sym(ALNUM);
                s.lit("; xv; end");
                def(&[b'm', c], &[], &ident(b"xv"), &Lv::default())
            }
            2 => {
                s.lit("xv = ");
                let x = operand(s, 1);
                if !lv.names.iter().any(|x| &x[..] == b"xv") {
                    lv.names.push(w("xv"));
                }
                s.lit("; xv");
                v.push(asg(&[lvar(0, b"xv")], &[x]));
                lvar(0, b"xv")
            }
            3 => {
                s.lit("self");
                w("self")
            }
            4 => {
                s.lit("alias a b");
                t("alias", &[&sym_(b"a"), &sym_(b"b")])
            }
            5 => {
                if method {
                    s.lit("yield");
                    t("yield", &[b"<>"])
                } else {
                    s.lit("K = ");
                    let x = operand(s, 1);
                    asg(&[cnst(b"K")], &[x])
                }
            }
            6 => {
                s.lit("class << self; 1; end");
                t("sclass", &[b"self", &blk(&[], &body(&int(1)), &Lv::default())])
            }
            _ => {
                if method {
                    s.lit("super");
                    t("super", &[b"-"])
                } else {
                    s.lit("class K < L; end");
                    t("class", &[b"-", &name(b"K"), &cnst(b"L"), &blk(&[], &body(&empty()), &Lv::default())])
                }
            }
        };
        v.push(x);
    }
    seq(&v)
}
/// Around a definition: what stands before and after it. Returns the kind chosen before.
fn before(s: &mut Src) -> usize {
    let k = alt(5);
    s.lit(["", "@v = ", "xv = 1; ", "1\n", "f(@a); "][k]);
    k
}
fn after(s: &mut Src, k: usize, x: X) -> X {
    let x = match k {
        1 => asg(&[ivar(b"@v")], &[x]),
        _ => x,
    };
    let mut v = match k {
        2 => vec![asg(&[lvar(0, b"xv")], &[int(1)])],
        3 => vec![int(1)],
        4 => vec![call(b"f", &Args::of(&[ivar(b"@a")]))],
        _ => vec![],
    };
    match alt(4) {
        0 => v.push(x),
        1 => {
            s.lit("\nxv");
            v.push(x);
            v.push(if k == 2 { lvar(0, b"xv") } else { ident(b"xv") });
        }
        2 => {
            s.lit(" if @c");
            v.push(if_(&ivar(b"@c"), &x, &empty()));
        }
        _ => {
            assume(k != 1);
            s.lit(".m");
            v.push(mcall(&x, b"m", &Args::default()));
        }
    }
    seq(&v)
}
fn end(s: &mut Src) {
    s.lit(["\nend", ";end", " end", "\n\nend"][alt(4)]);
}
/// Classes and modules.
#[no_mangle]
pub extern "C-unwind" fn h_class(n: u64) {
    budget(2 + (n / 10) as usize);
    let mut s = Src::new();
    let pre = before(&mut s);
    let module = choose(2) == 1;
    s.lit(if module { "module " } else { "class " });
    let p = choose(8);
    s.lit(["", "A::", "A::B::", "::A::", "@a::", "a.b::", "self::", "::A::B::"][p]);
    let base = match p {
        0 => w("-"),
        1 => cnst(b"A"),
        2 => cpath(false, None, &[b"A"], b"B"),
        3 => cpath(true, None, &[], b"A"),
        4 => ivar(b"@a"),
        5 => mcall(&call(b"a", &Args::default()), b"b", &Args::default()),
        6 => w("self"),
        _ => cpath(true, None, &[b"A"], b"B"),
    };
    let nm = cname(&mut s, b'D');
    let mut sup = w("-");
    let mut outer_lv = Lv::default();
    if pre == 2 {
        outer_lv.names.push(w("xv"));
    }
    if !module {
        let k = choose(8);
        if k > 0 {
            s.lit([" < ", "<", " <", "< "][alt(4)]);
        }
        s.lit(["", "B", "::B::C", "Struct.new(:a)", "(B)", "@a[0]", "B::C", "a ? B : C"][k]);
        sup = match k {
            0 => sup,
            1 | 4 => cnst(b"B"),
            2 => cpath(true, None, &[b"B"], b"C"),
            3 => mcall(&cnst(b"Struct"), b"new", &Args::of(&[sym_(b"a")])),
            5 => t("idx", &[&ivar(b"@a"), &l(&[int(0)])]),
            6 => cpath(false, None, &[b"B"], b"C"),
            _ => if_(&ident(b"a"), &cnst(b"B"), &cnst(b"C")),
        };
    }
    sep(&mut s);
    let mut lv = Lv::default();
    let m = alt(3);
    let b = stmts(&mut s, m, &mut lv, false);
    let b = clauses(&mut s, &b, &mut lv, 1);
    end(&mut s);
    let x = t(if module { "module" } else { "class" }, &[&base, &name(&nm), &sup, &blk(&[], &b, &lv)]);
    let x = if module { t("module", &[&base, &name(&nm), b"-", &blk(&[], &b, &lv)]) } else { x };
    let x = after(&mut s, pre, x);
    expect_lv(&s, &x, &outer_lv);
    cover(1);
}
/// Singleton classes.
#[no_mangle]
pub extern "C-unwind" fn h_sclass(n: u64) {
    budget(2 + n as usize);
    let mut s = Src::new();
    let pre = before(&mut s);
    s.lit(["class << ", "class <<", "class<< "][choose(3)]);
    let k = choose(8);
    s.lit(["self", "@a", "A", "a.b(1)", "a", "xv", "A::B", "(@a)"][k]);
    let tgt = match k {
        0 => w("self"),
        1 | 7 => ivar(b"@a"),
        2 => cnst(b"A"),
        3 => mcall(&call(b"a", &Args::default()), b"b", &Args::of(&[int(1)])),
        4 => ident(b"a"),
        5 if pre == 2 => lvar(0, b"xv"),
        5 => ident(b"xv"),
        _ => cpath(false, None, &[b"A"], b"B"),
    };
    sep(&mut s);
    let mut lv = Lv::default();
    let m = alt(3);
    let b = stmts(&mut s, m, &mut lv, false);
    let b = clauses(&mut s, &b, &mut lv, 1);
    end(&mut s);
    let x = t("sclass", &[&tgt, &blk(&[], &b, &lv)]);
    let x = after(&mut s, pre, x);
    expect(&s, &x);
    cover(1);
}
/// Methods, singleton methods and do-blocks with statements and clauses.
#[no_mangle]
pub extern "C-unwind" fn h_def_body(n: u64) {
    budget(3 + n as usize);
    let mut s = Src::new();
    let pre = before(&mut s);
    let k = choose(9);
    s.lit(["def ff", "def self.ff", "def A.ff", "def @a.ff", "private def ff", "gg(def ff", "gg do", "@a.gg(1) do", "def ff(xp, er: 1)"][k]);
    sep(&mut s);
    let mut lv = Lv::default();
    let mut params = vec![];
    if k == 8 {
        lv.names = vec![w("xp"), w("er")];
        lv.kw.push(1);
        params = vec![t("req", &[&name(b"xp")]), t("key", &[&name(b"er"), &int(1)])];
    }
    let block = k == 6 || k == 7;
    // a block sees the variables around it
    assume(!block || pre != 2);
    let m = alt(3);
    let b = stmts(&mut s, m, &mut lv, true);
    let b = clauses(&mut s, &b, &mut lv, 2);
    end(&mut s);
    if k == 5 {
        s.lit(")");
    }
    let info = blk(&params, &b, &lv);
    let d = t("def", &[&name(b"ff"), &info]);
    let lam = t("lambda", &[&info]);
    let x = match k {
        0 | 8 => d,
        1 => t("defs", &[b"self", &name(b"ff"), &info]),
        2 => t("defs", &[&cnst(b"A"), &name(b"ff"), &info]),
        3 => t("defs", &[&ivar(b"@a"), &name(b"ff"), &info]),
        4 => {
            // `.m` would belong to the definition
            s.lit(" ");
            call(b"private", &Args::of(&[d]))
        }
        5 => call(b"gg", &Args::of(&[d])),
        6 => call(b"gg", &Args { block: Some(lam), ..Default::default() }),
        _ => mcall(&ivar(b"@a"), b"gg", &Args { pos: vec![int(1)], block: Some(lam), ..Default::default() }),
    };
    let at = s.0.len();
    let y = after(&mut s, pre, x);
    assume(k != 4 || s.0[at..] != b".m"[..]);
    expect(&s, &y);
    cover(1);
}
/// Class definitions and constant assignments inside `n` contexts.
#[no_mangle]
pub extern "C-unwind" fn h_dynamic(n: u64) {
    let mut s = Src::new();
    let mut in_def = false;
    let mut bad = false;
    let mut ends = vec![];
    for _ in 0..n {
        let k = choose(14);
        s.lit([
            "def f; ", "def self.f(a) ", "class A; ", "module A; ", "class << self; ", "g { ", "g do ", "->{ ", "if @a then ", "while @a do ", "begin ", "for i in @a do ", "case @a when 1 then ",
            "@x = (",
        ][k]);
        ends.push([" end", " end", " end", " end", " end", " }", " end", " }", " end", " end", " end", " end", " end", ")"][k]);
        match k {
            0 | 1 => in_def = true,
            2 | 3 => {
                bad |= in_def;
                in_def = false;
            }
            4 => in_def = false,
            _ => {}
        }
    }
    let k = choose(22);
    s.lit([
        "A = 1", "A::B = 1", "::A = 1", "A ||= 1", "A, @b = 1, 2", "@b, A = 1, 2", "*A = 1", "A += 1", "@x = A = 1", "begin; rescue => A; end", "A &&= 1", "@b, *A = 1", "class K; end", "module K; end",
        // not assignments to constants
        "A.b = 1", "A[1] = 2", "A::b = 1", "A == 1", "f(A)", "A::B.c += 1", "class << A; end", "def g; end",
    ][k]);
    bad |= in_def && k < 14;
    while let Some(e) = ends.pop() {
        s.lit(e);
    }
    if bad {
        reject_syntax(&s);
        cover(2);
    } else {
        accept(&s);
        cover(1);
    }
}
/// Malformed definitions.
#[no_mangle]
pub extern "C-unwind" fn h_class_bad(_n: u64) {
    let mut s = Src::new();
    let k = choose(16);
    match k {
        0 => {
            s.lit("class ").sym(LOWER);
            s.lit("x; end");
        }
        1 => {
            s.lit("module A").sym(ALNUM);
            s.lit(" < B; end");
        }
        2 => {
            s.lit("class A.").sym(LOWER);
            s.lit("x; end");
        }
        3 => {
            s.lit("class A::").sym(LOWER);
            s.lit("x; end");
        }
        4 => {
            s.lit("class @").sym(ALPHA);
            s.lit("; end");
        }
        5 => {
            s.lit("class ").sym(DIGIT);
            s.lit("; end");
        }
        6 => {
            s.lit("class A < ; end\nend");
        }
        7 => {
            s.lit("class A; ensure; rescue; end");
        }
        8 => {
            s.lit("def f; else; rescue; end");
        }
        9 => {
            s.lit("module $").sym(LOWER);
            s.lit("; end");
        }
        10 => {
            s.lit("def f(a; end");
        }
        11 => {
            s.lit("def @").sym(LOWER);
            s.lit("; end");
        }
        12 => {
            s.lit("class A; end end");
        }
        13 => {
            s.lit("class A; }");
        }
        14 => {
            s.lit("def ").sym(DIGIT);
            s.lit("; end");
        }
        _ => {
            s.lit("def \"").sym(LOWER);
            s.lit("\"; end");
        }
    }
    reject(&s);
    cover(1);
}
/// Constants and their paths in every place.
#[no_mangle]
pub extern "C-unwind" fn h_const(_n: u64) {
    let mut s = Src::new();
    let ctx = choose(16);
    s.lit(["", "[", "{", "@a ? ", "@a ? 1 : ", "f(", "f ", "@v = ", "-", "!", "f k: ", "case @a when ", "@a + ", "\"#{", "@a[", "1.."][ctx]);
    let p = choose(7);
    s.lit(["", "A::", "::", "::A::", "@a::", "A::B::", "f(1)::"][p]);
    let nm = cname(&mut s, b'D');
    let c = match p {
        0 => cnst(&nm),
        1 => cpath(false, None, &[b"A"], &nm),
        2 => cpath(true, None, &[], &nm),
        3 => cpath(true, None, &[b"A"], &nm),
        4 => cpath(false, Some(&ivar(b"@a")), &[], &nm),
        5 => cpath(false, None, &[b"A", b"B"], &nm),
        _ => cpath(false, Some(&call(b"f", &Args::of(&[int(1)]))), &[], &nm),
    };
    s.lit(["", ", ::B]", " => 1}", " : ::B", "", ", ::B)", ", B", "", "", "", ", l: B", ", B then 1 end", " * B", "}\"", "]", ""][ctx]);
    let b = cnst(b"B");
    let tb = cpath(true, None, &[], b"B");
    let x = match ctx {
        0 => c,
        1 => ary(&[c, tb], false),
        2 => hash(&[(c, int(1))], false),
        3 => if_(&ivar(b"@a"), &c, &tb),
        4 => if_(&ivar(b"@a"), &int(1), &c),
        5 => call(b"f", &Args::of(&[c, tb])),
        6 => call(b"f", &Args::of(&[c, b])),
        7 => asg(&[ivar(b"@v")], &[c]),
        8 => un("-@", &c),
        9 => un("!", &c),
        10 => call(b"f", &Args { kw: vec![(w("k"), c), (w("l"), b)], ..Default::default() }),
        11 => t("case", &[&ivar(b"@a"), b"w", &l(&[c, b]), &int(1), b"e", &empty()]),
        12 => bin("+", &ivar(b"@a"), &bin("*", &c, &b)),
        13 => t("istr", &[&l(&[c])]),
        14 => t("idx", &[&ivar(b"@a"), &l(&[c])]),
        _ => t("range", &[&int(1), &c, b"F", b"F"]),
    };
    expect(&s, &x);
    cover(1);
}

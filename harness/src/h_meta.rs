//! Properties of arbitrary text that need no grammar: what a text means does not depend on where it stands, and what is wrong
//! with it does not depend on what follows.
use crate::ast::*;
use crate::rt::*;
use ruruby_parse::*;

fn lv_of(r: &LvarCollector) -> X {
    let mut o = vec![];
    lvars(&mut o, r);
    o
}
fn around(a: &str, s: &Src, b: &str) -> Src {
    let mut t = Src::new();
    t.lit(a).bytes(&s.0).lit(b);
    t
}
/// (text before, text after); the comments tell what the tree is.
static PLAIN: &[(&str, &str)] = &[("", "\n"), ("\n", ""), (" ", ""), ("", " "), ("", ";"), ("", " # c"), ("# c\n", ""), ("(", "\n)"), ("\\\n", ""), ("", "\n\n")];
static WRAP: usize = 16;

/// The text `s` has the tree `r`: it has the same tree inside every construct that holds statements.
fn embedded(s: &Src, r: &ParseResult) {
    let a = dump(&r.node);
    let k = choose(PLAIN.len() + WRAP);
    let lv = lv_of(&r.lvar_collector);
    if k < PLAIN.len() {
        let (x, y) = PLAIN[k];
        // nothing at all in parentheses is nil
        if x == "(" && r.node.is_empty() {
            return;
        }
        let t = around(x, s, y);
        let q = accept(&t);
        same(&dump(&q.node), &a);
        same(&lv_of(&q.lvar_collector), &lv);
        // every node is found at its own place, moved by the text before
        if x != "(" {
            let mut locs = vec![];
            each(&r.node, &mut |n| locs.push(n.loc));
            let mut i = 0;
            each(&q.node, &mut |n| {
                if !r.node.is_empty() {
                    ck(n.loc == Loc(locs[i].0 + x.len(), locs[i].1 + x.len()), "a location is not moved with the text");
                }
                i += 1;
            });
        }
        cover(3);
        return;
    }
    let x9x9x9 = ident(b"x9x9x9");
    let e = empty();
    let one = int(1);
    let no = Lv::of(&[]);
    let blk = |b: &[u8]| t("blk", &[&l(&[]), b, &lv]);
    let call_blk = |b: &[u8]| call(b"f9f9f9", &Args { block: Some(t("lambda", &[&blk(b)])), ..Default::default() });
    let (x, y, want, outer): (&str, &str, X, bool) = match k - PLAIN.len() {
        0 => ("begin\n", "\nend", body(&a), false),
        1 => ("if x9x9x9\n", "\nend", if_(&x9x9x9, &a, &e), false),
        2 => ("if x9x9x9;else\n", "\nend", if_(&x9x9x9, &e, &a), false),
        3 => ("while x9x9x9\n", "\nend", t("while", &[&x9x9x9, &a, b"TF"]), false),
        4 => ("f9f9f9 {\n", "\n}", call_blk(&a), true),
        5 => ("f9f9f9 do\n", "\nend", call_blk(&body(&a)), true),
        6 => ("->{\n", "\n}", t("lambda", &[&blk(&a)]), true),
        7 => ("def f9f9f9\n", "\nend", t("def", &[&name(b"f9f9f9"), &blk(&body(&a))]), true),
        8 => ("case x9x9x9\nwhen 1\n", "\nend", t("case", &[&x9x9x9, b"w", &l(&[one.clone()]), &a, b"e", &e]), false),
        9 => ("[(", "\n)]", ary(&[a.clone()], false), false),
        10 => ("1 + (", "\n)", bin("+", &one, &a), false),
        11 => ("z9z9z9 = (", "\n)", a.clone(), false),
        12 => ("f9f9f9(1, (", "\n))", call(b"f9f9f9", &Args::of(&[one.clone(), a.clone()])), false),
        13 => ("x9x9x9 ? (", "\n) : 1", if_(&x9x9x9, &a, &one), false),
        14 => ("x9x9x9 if (", "\n)", if_(&a, &x9x9x9, &e), false),
        15 => ("class A9A9A9\n", "\nend", vec![], true),
        _ => unreachable!(),
    };
    let k = k - PLAIN.len();
    if r.node.is_empty() && k >= 9 && k <= 14 {
        return;
    }
    // a constant cannot be assigned in a method, a class cannot be defined in one
    if k == 7 && (s.0.contains(&b'=') && s.0.iter().any(|c| UPPER.has(*c)) || s.0.len() > 5 && (s.0.windows(5).any(|w| w == b"class") || s.0.windows(6).any(|w| w == b"module"))) {
        return;
    }
    let tx = around(x, s, y);
    let q = accept(&tx);
    let d = dump(&q.node);
    match k {
        11 => {
            // z9z9z9 is the first variable of the scope, the others come behind it
            if !matches!(&q.node.kind, NodeKind::MulAssign(_, v) if v.len() == 1 && dump(&v[0]) == a) {
                differ(&d, &a)
            }
        }
        15 => {
            if !matches!(&q.node.kind, NodeKind::ClassDef { info, .. } if dump(&info.body) == body(&a) && lv_of(&info.lvar) == lv) {
                differ(&d, &a)
            }
        }
        9 => {
            if !matches!(&q.node.kind, NodeKind::Array(v, _) if v.len() == 1 && dump(&v[0]) == a) {
                differ(&d, &a)
            }
        }
        _ => same(&d, &want),
    }
    if k != 11 {
        same(&lv_of(&q.lvar_collector), &if outer { no.x() } else { lv });
    }
    cover(4);
}

/// Every text of `n` ASCII bytes.
#[no_mangle]
pub extern "C-unwind" fn h_embed(n: u64) {
    let mut s = Src::new();
    for _ in 0..n {
        s.sym(ASCII);
    }
    match Parser::parse_program(s.text(), "t.rb") {
        Ok(r) => {
            cover(1);
            embedded(&s, &r)
        }
        Err(_) => cover(2),
    }
}

/// Words, literals, operators, brackets and line ends.
static TOKS: &[&str] = &[
    "a", "1", "(", ")", "b", "B", "\"s\"", ":s", "@i", "$g", "[", "]", "{", "}", "|", "+", "-", "*", "**", "&", "!", "=", "==", "=>", ",", ".", "::", "?", ":", "..", "a:", "->", "if", "unless", "while", "do", "end", "then",
    "else", "elsif", "def", "return", "yield", "self", "nil", "and", "or", "rescue", "ensure", "begin", "in", "for", "case", "when", "\n", ";", "f(", "a=", "/", "+=", "&.", "<<", "%w[x]", "defined?", "break", "alias", "super", "||=", "/x/",
    "\"#{", "<", "?x", "class A", "-1", "1.5", "...", "~", "_1", "f{", "|a|",
];
static FEW: &[&str] = &["a", "1", "(", ")", "{", "}", "[", "]", "=", ",", ".", "-", "*", "&", ":s", "a:", "=>", "if", "do", "end", "while", "?", ":", "\n", "def", "begin", "rescue", "f(", "|", "->", "else", "and"];

/// n: number of tokens, + 10: of the short list, + 100: behind an assignment.
pub fn some_tokens(n: u64, f: &mut dyn FnMut(&Src, Result<ParseResult, ParseErr>, bool)) {
    let mut s = Src::new();
    let all = if n / 10 % 10 > 0 { FEW } else { TOKS };
    if n >= 100 {
        s.lit("a = 1; ");
    }
    let n = n as usize % 10;
    for i in 0..n {
        if i > 0 {
            s.lit(" ");
        }
        // (the characters of literals and names are arbitrary)
        match pick(all) {
            "1" => {
                s.sym(Set::range(b'1', b'9'));
            }
            t @ (":s" | "@i" | "$g" | "?x") => {
                s.lit(&t[..1]).sym(LOWER);
            }
            "\"s\"" => {
                s.lit("\"").sym(PRINT.minus(Set::of(b"\"\\#")));
                s.lit("\"");
            }
            t => {
                s.lit(t);
            }
        }
        let r = Parser::parse_program(s.text(), "t.rb");
        let last = i + 1 == n;
        // what is wrong stays wrong (see h_wrong_stays): the rest of the tokens needs no look
        let wrong = matches!(&r, Err(e) if e.kind != ParseErrKind::UnexpectedEOF);
        if last || wrong || choose(2) == 1 {
            f(&s, r, wrong);
            return;
        }
    }
}
/// Every sequence of up to `n` tokens.
#[no_mangle]
pub extern "C-unwind" fn h_embed_tok(n: u64) {
    some_tokens(n, &mut |s, r, _| match r {
        Ok(r) => {
            cover(1);
            embedded(s, &r)
        }
        Err(_) => cover(2),
    })
}

static TAILS: &[&str] = &["", "\n", " ", "\n1", "\nend", "\n)", "\n}", "\n]", "\n\"", "\n#", "\n=", "\na\n", "\n.a", "\n: 1", "\nA\n"];
fn stays(s: &Src, e: &ParseErr) {
    // (a line that goes on in the next one is not complete)
    if s.0.last() == Some(&b'\\') {
        return cover(7);
    }
    // the error is the lack of something at the end of the line: it is still one, wherever the line ends now
    let mut end = s.len();
    while end > 0 && b" \t\r\x0c\n;".contains(&s.0[end - 1]) {
        end -= 1;
    }
    let at_end = e.loc.0 >= end;
    let k = choose(TAILS.len());
    let t = around("", s, TAILS[k]);
    let q = reject(&t);
    if at_end {
        ck(TAILS[k] == "\n\"" || q.kind != ParseErrKind::UnexpectedEOF, "a wrong program with more text behind it is reported as incomplete");
        return cover(8);
    }
    if q.kind == ParseErrKind::UnexpectedEOF {
        fail("a wrong program with more text behind it is reported as incomplete");
    }
    if q.loc != e.loc {
        fail("the error moves with the text behind it");
    }
    ck(q.kind == e.kind, "the error changes with the text behind it");
    ck(e.loc.0 <= e.loc.1 + 1 && e.loc.1 <= s.len(), "the error is located outside of the text");
    cover(3);
}
fn open_stays(s: &Src) {
    // (not in the middle of a token, not in a % literal that a space or a line end may close)
    if s.0.contains(&b'%') {
        return cover(6);
    }
    if !matches!(Parser::parse_program(around("", s, " ").text(), "t.rb"), Err(e) if e.kind == ParseErrKind::UnexpectedEOF) {
        return cover(6);
    }
    match Parser::parse_program(around("", s, "\n").text(), "t.rb") {
        Ok(_) => cover(5),
        Err(e) => {
            ck(e.kind == ParseErrKind::UnexpectedEOF, "an incomplete program becomes a wrong one at the end of the line");
            cover(4)
        }
    }
}
/// Every text of `n` ASCII bytes: an error does not depend on the text behind it.
#[no_mangle]
pub extern "C-unwind" fn h_wrong_stays(n: u64) {
    let mut s = Src::new();
    for _ in 0..n {
        s.sym(ASCII);
    }
    match Parser::parse_program(s.text(), "t.rb") {
        Ok(_) => cover(1),
        Err(e) if e.kind == ParseErrKind::UnexpectedEOF => open_stays(&s),
        Err(e) => stays(&s, &e),
    }
}
/// Every sequence of up to `n` tokens.
#[no_mangle]
pub extern "C-unwind" fn h_wrong_stays_tok(n: u64) {
    some_tokens(n, &mut |s, r, wrong| match r {
        Err(e) if wrong => stays(s, &e),
        Err(_) => open_stays(s),
        _ => cover(1),
    })
}

// ---- helpers of the node types ----
fn node_of(k: usize, i: u64) -> Node {
    let l = Loc(1, 2);
    let n = || Box::new(Node::new(NodeKind::Integer(i as i64), l));
    Node::new(
        match k {
            0 => NodeKind::Integer(i as i64),
            1 => NodeKind::Float(f64::from_bits(1)),
            2 => NodeKind::Bool(i & 1 == 1),
            3 => NodeKind::Nil,
            4 => NodeKind::UnOp(UnOp::Neg, n()),
            5 => NodeKind::Splat(n()),
            6 => NodeKind::CompStmt(vec![]),
            7 => NodeKind::CompStmt(vec![*n()]),
            8 => NodeKind::Array(vec![], true),
            9 => NodeKind::Bignum(5.into()),
            10 => NodeKind::SpecialVar(i as u32),
            11 => NodeKind::String(String::new()),
            _ => NodeKind::LocalVar(0, String::new()),
        },
        l,
    )
}
/// Classification and conversion helpers, over every 64 bit number.
#[no_mangle]
pub extern "C-unwind" fn h_helpers(_n: u64) {
    let i = sym64();
    match choose(6) {
        0 => {
            let k = choose(13);
            let n = node_of(k, i);
            let v = i as i64;
            let fits_u = k == 0 && (i >> 32) == 0;
            let fits_i = k == 0 && v as i32 as i64 == v;
            match n.is_imm_u32() {
                Some(x) => ck(fits_u && x as u64 == i, "is_imm_u32"),
                None => ck(!fits_u, "is_imm_u32"),
            }
            match n.is_imm_i32() {
                Some(x) => ck(fits_i && x as i64 == v, "is_imm_i32"),
                None => ck(!fits_i, "is_imm_i32"),
            }
            ck(n.is_splat() == (k == 5), "is_splat");
            ck(n.is_empty() == (k == 6), "is_empty");
            ck(n.loc() == Loc(1, 2), "loc");
            cover(1);
        }
        1 => {
            let kinds = [CmpKind::Eq, CmpKind::Ne, CmpKind::Lt, CmpKind::Le, CmpKind::Gt, CmpKind::Ge, CmpKind::TEq];
            let k = choose(kinds.len());
            ck(CmpKind::from(k as u8) == kinds[k] && kinds[k] as usize == k, "CmpKind::from");
            cover(2);
        }
        2 => {
            let a = LvarId::from(i as usize);
            let b = LvarId::from(i as u32);
            ck(a.as_usize() as u64 == i && usize::from(a) as u64 == i && a.as_u32() == i as u32, "LvarId::from(usize)");
            ck(b.as_usize() as u64 == i & 0xffff_ffff && b.as_u32() == i as u32 && usize::from(b) as u64 == i & 0xffff_ffff, "LvarId::from(u32)");
            let j = sym64();
            ck((a == LvarId::from(j as usize)) == (i == j), "LvarId ==");
            cover(3);
        }
        3 => {
            let (a, b, c, d) = (sym64() as usize, sym64() as usize, sym64() as usize, sym64() as usize);
            let n = Node::new_binop(BinOp::Sub, Node::new(NodeKind::Integer(1), Loc(a, b)), Node::new(NodeKind::Integer(2), Loc(c, d)));
            ck(n.loc.0 == if a < c { a } else { c } && n.loc.1 == if b > d { b } else { d }, "location of new_binop");
            ck(matches!(&n.kind, NodeKind::BinOp(BinOp::Sub, x, y) if x.kind == NodeKind::Integer(1) && y.kind == NodeKind::Integer(2)), "new_binop");
            let n = Node::new_nil(Loc(a, b));
            ck(n.kind == NodeKind::Nil && n.loc() == Loc(a, b), "new_nil");
            cover(4);
        }
        4 => {
            let v: Vec<Node> = (0..choose(3)).map(|k| Node::new(NodeKind::Integer(i as i64), Loc(k, k))).collect();
            let a = ArgList::from_args(v.clone());
            ck(a.args == v && a.kw_args.is_empty() && a.hash_splat.is_empty() && a.block.is_none() && !a.forwarding && !a.splat, "ArgList::from_args");
            ck(ArgList::default() == ArgList::from_args(vec![]), "ArgList::default");
            cover(5);
        }
        _ => {
            let l = Loc(i as usize, sym64() as usize);
            let a = Annot::new(sym64(), l);
            ck(a.loc() == l && a.loc == l, "Annot::loc");
            cover(6);
        }
    }
}

//! P22 names of methods and symbols, P31 reserved words and identifiers.
use crate::ast::*;
use crate::rt::*;

pub const RESERVED: &[&str] = &[
    "BEGIN", "END", "alias", "and", "begin", "break", "case", "class", "def", "defined?", "do", "else", "elsif", "end", "ensure", "for", "if", "in", "module", "next", "or", "redo", "rescue",
    "return", "super", "then", "until", "unless", "when", "while", "yield",
];
/// Names that only look like reserved words.
pub const NEAR: &[&str] = &[
    "ends", "_end", "iff", "i", "def_", "defined", "classy", "clas", "End", "IF", "Class", "selfish", "nil1", "truefalse", "do2", "or_", "inn", "begi", "BEGIN_", "END1", "in1", "retur", "yields",
    "__LINE", "__FILE", "until_", "orr", "_if", "els", "elsi",
];
pub const OPERATORS: &[&str] = &[
    "+", "-", "*", "/", "%", "<<", ">>", "&", "|", "<=>", "==", "!=", "<", "<=", ">", ">=", "===", "=~", "[]", "[]=", "+@", "-@",
];
/// Operators the definition form lacks but calls and symbols know.
pub const MORE_OPERATORS: &[&str] = &["**", "^", "~", "!", "!~"];

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Lower,
    Const,
    Quest,
    Bang,
    ConstQuest,
    ConstBang,
    Wide,
    Near,
    Reserved,
    Setter,
    ConstSetter,
    WideSetter,
    Op,
    MoreOp,
}
use Kind::*;
pub const PLAIN: &[Kind] = &[Lower, Const, Quest, Bang, ConstQuest, ConstBang, Wide, Near, Reserved];
pub const SETTERS: &[Kind] = &[Setter, ConstSetter, WideSetter];
fn two_letter_word(a: u8, b: u8) -> bool {
    matches!(&[a, b], b"do" | b"if" | b"in" | b"or")
}
/// A name with symbolic characters.
pub fn gen(s: &mut Src, k: Kind) -> X {
    let at = s.len();
    match k {
        Lower | Setter | Quest | Bang => {
            let a = s.sym(LOWER.or(Set::of(b"_")));
            let b = s.sym(WORD);
            if k == Lower || k == Setter {
                assume(!two_letter_word(a, b));
            }
            // numbered parameters are not names
            assume(!(a == b'_' && b.is_ascii_digit()));
        }
        Const | ConstSetter | ConstQuest | ConstBang => {
            s.sym(UPPER);
            s.sym(WORD);
        }
        Wide | WideSetter => {
            s.lit("あ");
            s.sym(WORD);
        }
        Near => {
            s.lit(pick(NEAR));
        }
        Reserved => {
            s.lit(pick(RESERVED));
        }
        Op => {
            s.lit(pick(OPERATORS));
        }
        MoreOp => {
            s.lit(pick(MORE_OPERATORS));
        }
    }
    match k {
        Quest | ConstQuest => s.lit("?"),
        Bang | ConstBang => s.lit("!"),
        Setter | ConstSetter | WideSetter => s.lit("="),
        _ => s,
    };
    s.0[at..].to_vec()
}
fn req(n: &str) -> X {
    t("req", &[&name(n.as_bytes())])
}
/// Parameters and the rest of a definition.
fn def_tail(s: &mut Src, k: Kind) -> (Vec<X>, Lv) {
    let n = choose(5);
    let alone = matches!(k, Setter | ConstSetter | WideSetter | Op | MoreOp);
    // a parameter directly after the name needs a parenthesis or a space
    s.lit(["\n", ";", "(q)", " q\n", "()"][n]).lit(["end", " end"][(n + alone as usize) % 2]);
    match n {
        2 | 3 => (vec![req("q")], Lv::of(&[b"q"])),
        _ => (vec![], Lv::default()),
    }
}
/// `def NAME`
#[no_mangle]
pub extern "C-unwind" fn h_def_name(_n: u64) {
    let mut s = Src::new();
    s.lit("def ");
    let k = match choose(4) {
        0 => pick(PLAIN),
        1 => pick(SETTERS),
        _ => Op,
    };
    let m = gen(&mut s, k);
    let (p, lv) = def_tail(&mut s, k);
    s.lit("\n1");
    expect_lv(&s, &seq(&[def(&m, &p, &empty(), &lv), int(1)]), &Lv::default());
    cover(k as u32);
}
/// `def RECEIVER.NAME`
#[no_mangle]
pub extern "C-unwind" fn h_defs_name(_n: u64) {
    let mut s = Src::new();
    s.lit("def ");
    let r = choose(6);
    s.lit(["self.", "a.", "A.", "A::", "@a.", "$a."][r]);
    let rv = [w("self"), lvar(0, b"a"), cnst(b"A"), cnst(b"A"), ivar(b"@a"), gvar(b"$a")][r].clone();
    let k = match choose(if r == 0 { 4 } else { 3 }) {
        0 => {
            if r < 2 {
                pick(PLAIN)
            } else {
                Quest
            }
        }
        1 => Setter,
        2 => Op,
        _ => MoreOp,
    };
    let m = gen(&mut s, k);
    let (p, lv) = def_tail(&mut s, k);
    s.lit("\n1");
    let d = t("defs", &[&rv, &name(&m), &blk(&p, &body(&empty()), &lv)]);
    expect(&s, &seq(&[d, int(1)]));
    cover(k as u32);
}
/// `RECEIVER.NAME`
#[no_mangle]
pub extern "C-unwind" fn h_mcall_name(_n: u64) {
    let mut s = Src::new();
    let d = choose(5);
    s.lit("@r").lit([".", "&.", "\n.", ".\n", "::"][d]);
    let k = match choose(3) {
        0 => pick(PLAIN),
        1 => Op,
        _ => MoreOp,
    };
    if d == 4 && matches!(k, Const | ConstQuest | ConstBang | Near | Op | MoreOp) {
        return;
    }
    let m = gen(&mut s, k);
    let op = matches!(k, Op | MoreOp);
    let tail = choose(if d == 0 { 7 } else { 3 });
    if m == b"[]=" && tail >= 3 || tail == 3 && op {
        return;
    }
    if tail == 4 && (op || matches!(k, Quest | Bang | ConstQuest | ConstBang) || m.ends_with(b"?")) {
        return;
    }
    s.lit(["", "(1)", " 2", ".z", " = 3", " == 4", "\n5"][tail]);
    let mk = |a: &Args| if d == 1 { scall(&ivar(b"@r"), &m, a) } else { mcall(&ivar(b"@r"), &m, a) };
    let plain = mk(&Args::default());
    let x = match tail {
        0 => plain,
        1 => mk(&Args::of(&[int(1)])),
        2 => mk(&Args::of(&[int(2)])),
        3 => mcall(&plain, b"z", &Args::default()),
        4 => asg(&[plain], &[int(3)]),
        5 => bin("==", &plain, &int(4)),
        _ => seq(&[plain, int(5)]),
    };
    expect(&s, &x);
    cover(k as u32);
}
/// `:NAME` and what follows it.
#[no_mangle]
pub extern "C-unwind" fn h_sym_name(_n: u64) {
    let mut s = Src::new();
    s.lit(":");
    let k = choose(6);
    let m = match k {
        0 => {
            let k = pick(PLAIN);
            gen(&mut s, k)
        }
        1 => {
            let k = pick(SETTERS);
            gen(&mut s, k)
        }
        2 => gen(&mut s, Op),
        3 => gen(&mut s, MoreOp),
        _ => {
            let at = s.len();
            s.lit(["@", "@@"][k - 4]);
            s.sym(ALPHA.or(Set::of(b"_")));
            s.sym(WORD);
            s.0[at..].to_vec()
        }
    };
    let t = choose(9);
    let word = m[m.len() - 1].is_ascii_alphanumeric() || m[m.len() - 1] == b'_';
    // an operator right behind could be a part of the name
    if (t == 3 || t == 4 || t == 5) && !word {
        return;
    }
    s.lit(["", " ", ".z", "==1", "=>2", "=~3", " = 1", "\n4", ", 5"][t]);
    let x = sym_(&m);
    match t {
        0 | 1 => {
            expect(&s, &x);
        }
        2 => {
            expect(&s, &mcall(&x, b"z", &Args::default()));
        }
        3 => {
            expect(&s, &bin("==", &x, &int(1)));
        }
        4 => {
            // inside a hash
            let mut h = Src::new();
            h.lit("@h = {").bytes(&s.0.clone()).lit("}");
            expect(&h, &asg(&[ivar(b"@h")], &[hash(&[(x, int(2))], true)]));
        }
        5 => {
            expect(&s, &bin("=~", &x, &int(3)));
        }
        6 => {}
        7 => {
            expect(&s, &seq(&[x, int(4)]));
        }
        _ => {
            let mut h = Src::new();
            h.lit("f(").bytes(&s.0.clone()).lit(")");
            expect(&h, &call(b"f", &Args::of(&[x, int(5)])));
        }
    }
    cover(k as u32);
}
/// A symbol needs a name right after the colon.
#[no_mangle]
pub extern "C-unwind" fn h_sym_bad(_n: u64) {
    let mut s = Src::new();
    match choose(4) {
        0 => {
            s.lit(": ");
            s.sym(ALNUM);
        }
        1 => {
            s.lit(":");
            s.sym(DIGIT);
        }
        2 => {
            s.lit(":@");
            s.sym(DIGIT);
        }
        _ => {
            s.lit(":");
            s.sym(Set::of(b"(){},.;?\\#"));
            s.lit("a");
        }
    }
    reject(&s);
    cover(1);
}
fn alias_part(s: &mut Src) -> X {
    match choose(4) {
        0 => {
            s.lit(":");
            let k = [Lower, Quest, Op, Setter][alt(4)];
            gen(s, k)
        }
        1 => {
            let k = [Lower, Const, Bang, Near, Wide, Setter][alt(6)];
            gen(s, k)
        }
        2 => {
            let k = [Op, MoreOp, Reserved][alt(3)];
            gen(s, k)
        }
        _ => {
            s.lit("$");
            let a = s.sym(ALPHA);
            let b = s.sym(WORD);
            vec![b'$', a, b]
        }
    }
}
/// `alias NEW OLD`
#[no_mangle]
pub extern "C-unwind" fn h_alias(_n: u64) {
    let mut s = Src::new();
    budget(1);
    s.lit("alias ");
    let a = alias_part(&mut s);
    s.lit(" ");
    let b = alias_part(&mut s);
    let r = choose(3);
    s.lit(["", "\n1", "; 1"][r]);
    let x = t("alias", &[&sym_(&a), &sym_(&b)]);
    if r == 0 {
        expect(&s, &x);
    } else {
        expect(&s, &seq(&[x, int(1)]));
    }
    cover(1);
}

// ---- P31 ----

/// An identifier of any spelling that is not reserved is an identifier wherever it stands.
#[no_mangle]
pub extern "C-unwind" fn h_ident(n: u64) {
    let mut s = Src::new();
    let k = pick(&[Lower, Wide, Near]);
    let at = s.len();
    if n == 3 && k == Lower {
        // three letters
        let a = s.sym(LOWER);
        let b = s.sym(LOWER);
        let c = s.sym(LOWER);
        assume(!matches!(&[a, b, c], b"def" | b"end" | b"for" | b"and" | b"nil"));
    } else {
        gen(&mut s, k);
    }
    let m = s.0[at..].to_vec();
    let up = m[0].is_ascii_uppercase();
    let t = choose(8);
    s.lit(["", " = 1", "(1)", " 1", ".z", " + 1", " {}", " = 1\n"][t]);
    if t == 7 {
        s.bytes(&m);
    }
    let id = if up { cnst(&m) } else { ident(&m) };
    let lv: Lv = if up { Lv::default() } else { Lv::of(&[&m]) };
    let v = if up { id.clone() } else { lvar(0, &m) };
    match t {
        0 => {
            expect_lv(&s, &id, &Lv::default());
        }
        1 => {
            expect_lv(&s, &asg(&[v], &[int(1)]), &lv);
        }
        2 | 3 => {
            expect(&s, &call(&m, &Args::of(&[int(1)])));
        }
        4 => {
            let r = if up { id } else { call(&m, &Args::default()) };
            expect(&s, &mcall(&r, b"z", &Args::default()));
        }
        5 => {
            expect(&s, &bin("+", &id, &int(1)));
        }
        6 => {
            if !up {
                expect(&s, &call(&m, &Args { block: Some(lambda(&[], &empty(), &Lv::default())), ..Default::default() }));
            }
        }
        _ => {
            expect_lv(&s, &seq(&[asg(&[v.clone()], &[int(1)]), v]), &lv);
        }
    }
    cover(t as u32);
}
/// A reserved word cannot be assigned, called as a function or used as a parameter name.
#[no_mangle]
pub extern "C-unwind" fn h_reserved(_n: u64) {
    let mut s = Src::new();
    let t = choose(7);
    let r = pick(RESERVED);
    s.lit(["", "def f(", "f { |", "@a, ", "for ", "alias ", "class "][t]);
    s.lit(r);
    s.lit([" = 1", ")\nend", "| 1 }", " = 1, 2", " in 1\nend", " ", "\nend"][t]);
    if matches!(t, 0 | 3) && matches!(r, "yield" | "super" | "redo") {
        // complete expressions; what may be assigned to is not checked
        return;
    }
    reject(&s);
    cover(t as u32);
}
/// Reserved words name methods after a dot, in definitions, as symbols and as hash keys.
#[no_mangle]
pub extern "C-unwind" fn h_reserved_name(_n: u64) {
    let mut s = Src::new();
    let t = choose(6);
    let r = pick(RESERVED);
    s.lit(["@a.", "def ", ":", "@h = {", "def self.", "@a&."][t]);
    s.lit(r);
    let bare = !r.ends_with('?');
    if t == 3 && !bare {
        return;
    }
    s.lit(["", "\nend", "", ": 1}", "\nend", "\n"][t]);
    let m = r.as_bytes();
    let x = match t {
        0 => mcall(&ivar(b"@a"), m, &Args::default()),
        1 => def(m, &[], &empty(), &Lv::default()),
        2 => sym_(m),
        3 => asg(&[ivar(b"@h")], &[hash(&[(sym_(m), int(1))], true)]),
        4 => crate::ast::t("defs", &[b"self", &name(m), &blk(&[], &body(&empty()), &Lv::default())]),
        _ => scall(&ivar(b"@a"), m, &Args::default()),
    };
    expect(&s, &x);
    cover(t as u32);
}
/// true, false, nil, self, __LINE__, __FILE__
#[no_mangle]
pub extern "C-unwind" fn h_pseudo(_n: u64) {
    let mut s = Src::new();
    let k = choose(6);
    let lines = choose(4);
    for _ in 0..lines {
        s.lit(["\n", "# c\n", " \n"][choose(3)]);
    }
    let c = choose(4);
    s.lit(["", "f(", "[", "@a = "][c]);
    s.lit(["true", "false", "nil", "self", "__LINE__", "__FILE__"][k]);
    s.lit(["", ")", "]", ""][c]);
    let e = choose(3);
    s.lit(["", "\n", ".z"][e]);
    let v = [w("true"), w("false"), nil(), w("self"), int(lines as i64 + 1), str_(b"t.rb")][k].clone();
    let z = |x: X| if e == 2 { mcall(&x, b"z", &Args::default()) } else { x };
    let x = match c {
        0 => z(v),
        1 => z(call(b"f", &Args::of(&[v]))),
        2 => z(ary(&[v], k != 3)),
        _ => asg(&[ivar(b"@a")], &[z(v)]),
    };
    expect(&s, &x);
    cover(k as u32);
}

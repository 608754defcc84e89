//! What holds for the tree of every accepted program: every local variable resolves to a slot, the tables of the scopes belong to their
//! parameters, constant literals hold constants only, every node and parameter lies inside the program.
//! And what every entry point of the parser has in common.
use crate::ast::*;
use crate::h_err::*;
use crate::h_meta::*;
use crate::rt::*;
use ruruby_parse::*;

struct W<'a> {
    text: &'a str,
    /// tables of the scopes around, innermost last; None: nothing outside is visible
    sc: Vec<Option<&'a LvarCollector>>,
}
#[cfg(feature = "native")]
fn bad(n: &Node, m: &str) -> ! {
    fail(&format!("{}: {:?} {:?}", m, n.loc, String::from_utf8_lossy(&dump(n))))
}
#[cfg(not(feature = "native"))]
#[inline(never)]
fn bad(_n: &Node, m: &str) -> ! {
    fail(m)
}
fn plain(n: &Node) -> bool {
    matches!(
        n.kind,
        NodeKind::Bool(_) | NodeKind::Integer(_) | NodeKind::Bignum(_) | NodeKind::Float(_) | NodeKind::Nil | NodeKind::Symbol(_) | NodeKind::String(_) | NodeKind::Bytes(_)
    )
}
fn number(n: &Node) -> bool {
    matches!(n.kind, NodeKind::Integer(_) | NodeKind::Bignum(_))
}
fn is_name(s: &str) -> bool {
    match s.as_bytes().first() {
        Some(c) => LOWER.has(*c) || *c == b'_' || *c >= 0x80,
        None => false,
    }
}
fn is_const(s: &str) -> bool {
    matches!(s.as_bytes().first(), Some(c) if UPPER.has(*c) || *c >= 0x80)
}
impl<'a> W<'a> {
    fn loc(&self, l: Loc) -> Option<&'a str> {
        let n = self.text.len();
        // (nothing is located at the end of the program)
        if l.0 == l.1 && l.0 >= n {
            return None;
        }
        ck(l.0 <= l.1 && l.1 < n, "a location outside of the program");
        ck(self.text.is_char_boundary(l.0) && self.text.is_char_boundary(l.1 + 1), "a location inside of a character");
        Some(&self.text[l.0..l.1 + 1])
    }
    fn table(&self, outer: usize) -> Option<&'a LvarCollector> {
        let mut k = self.sc.len();
        let mut left = outer;
        while k > 0 {
            k -= 1;
            match self.sc[k] {
                None => return None,
                Some(t) => {
                    if left == 0 {
                        return Some(t);
                    }
                    left -= 1;
                }
            }
        }
        None
    }
    fn var(&self, n: &Node, outer: usize, name: &str) {
        match self.table(outer) {
            None => bad(n, "a local variable of a scope that cannot be seen"),
            Some(t) => {
                if !t.table().iter().any(|x| x == name) {
                    bad(n, "a local variable without a slot")
                }
            }
        }
        // no scope in between knows the name
        for k in 0..outer {
            if self.table(k).unwrap().table().iter().any(|x| x == name) && k < outer {
                // (it may have been made later than this use)
                cover(9);
            }
        }
    }
    /// The parameters, the table and the body of a scope of its own.
    fn scope(&mut self, n: &Node, b: &'a BlockInfo, barrier: bool) {
        let lv = &b.lvar;
        let t = lv.table();
        for i in 0..t.len() {
            ck(!t[i].is_empty(), "a variable without a name");
            for j in 0..i {
                if t[i] == t[j] {
                    bad(n, "a name has two slots")
                }
            }
        }
        let mut last = 0;
        let mut kw = 0;
        let (mut kwrest, mut block, mut fwd) = (None, None, None);
        let mut used: Vec<&str> = vec![];
        for p in &b.params {
            let (order, name): (usize, Option<&str>) = match &p.kind {
                ParamKind::Param(s) => (0, Some(s)),
                ParamKind::Destruct(v) => {
                    for (s, l) in v {
                        if !t.iter().any(|x| x == s) || used.contains(&s.as_str()) {
                            bad(n, "a parameter without a slot of its own")
                        }
                        used.push(s);
                        if self.loc(*l) != Some(s.as_str()) {
                            bad(n, "a parameter is not located at its name")
                        }
                    }
                    (0, None)
                }
                ParamKind::Optional(s, _) => (1, Some(s)),
                ParamKind::Rest(s) => (2, s.as_deref()),
                ParamKind::Post(s) => (3, Some(s)),
                ParamKind::Keyword(s, _) => (4, Some(s)),
                ParamKind::KWRest(s) => (5, Some(s)),
                ParamKind::Block(s) => (6, Some(s)),
                ParamKind::Delegate => (6, None),
            };
            // (a destructured parameter may stand behind optional ones)
            if order < last && order != 0 {
                bad(n, "parameters out of order")
            }
            last = order;
            if let Some(s) = name {
                if used.contains(&s) {
                    bad(n, "two parameters of one name")
                }
                used.push(s);
                if !is_name(s) {
                    bad(n, "a parameter without a name")
                }
                let at = match t.iter().position(|x| x == s) {
                    Some(k) => LvarId::from(k),
                    None => bad(n, "a parameter without a slot"),
                };
                match &p.kind {
                    ParamKind::Keyword(..) => {
                        if lv.kw.get(kw) != Some(&at) {
                            bad(n, "a keyword parameter is not recorded")
                        }
                        kw += 1;
                    }
                    ParamKind::KWRest(_) => kwrest = Some(at),
                    ParamKind::Block(_) => block = Some(at),
                    _ => {}
                }
                match self.loc(p.loc) {
                    Some(x) => {
                        let x = x.trim_start_matches(|c| c == '*' || c == '&' || c == ' ');
                        // (numbered parameters stand nowhere)
                        if !x.starts_with(s) && !(s.starts_with('_') && s.len() == 2) {
                            bad(n, "a parameter is not located at its name")
                        }
                    }
                    None => {}
                }
            }
            if let ParamKind::Delegate = p.kind {
                fwd = t.iter().position(|x| x == "...").map(LvarId::from);
                ck(fwd.is_some(), "forwarded parameters without a slot");
            }
        }
        if lv.kw.len() != kw || lv.kwrest_param() != kwrest || lv.block_param() != block || lv.forwarding_param != fwd {
            bad(n, "the table does not belong to the parameters")
        }
        self.loc(b.loc);
        if barrier {
            self.sc.push(None)
        }
        self.sc.push(Some(lv));
        for p in &b.params {
            match &p.kind {
                ParamKind::Optional(_, d) => self.node(d),
                ParamKind::Keyword(_, Some(d)) => self.node(d),
                _ => {}
            }
        }
        self.node(&b.body);
        self.sc.pop();
        if barrier {
            self.sc.pop();
        }
    }
    fn args(&mut self, n: &Node, a: &'a ArgList) {
        if a.splat != a.args.iter().any(|x| matches!(x.kind, NodeKind::Splat(_))) {
            bad(n, "the splat flag does not belong to the arguments")
        }
        for (k, x) in &a.kw_args {
            ck(!k.is_empty(), "a keyword argument without a name");
            self.node(x)
        }
        a.args.iter().for_each(|x| self.node(x));
        a.hash_splat.iter().for_each(|x| self.node(x));
        if let Some(b) = &a.block {
            self.node(b)
        }
    }
    fn node(&mut self, n: &'a Node) {
        if !n.is_empty() {
            self.loc(n.loc);
        }
        match &n.kind {
            NodeKind::LocalVar(k, s) => {
                self.var(n, *k, s);
                if !is_name(s) {
                    bad(n, "not the name of a variable")
                }
            }
            NodeKind::Ident(s) => {
                if !is_name(s) && !is_const(s) {
                    bad(n, "not a name")
                }
            }
            NodeKind::InstanceVar(s) => ck(s.len() > 1 && s.starts_with('@') && (is_name(&s[1..]) || is_const(&s[1..])), "not an instance variable"),
            NodeKind::ClassVar(s) => ck(s.len() > 2 && s.starts_with("@@") && (is_name(&s[2..]) || is_const(&s[2..])), "not a class variable"),
            NodeKind::GlobalVar(s) => ck(s.len() > 1 && s.starts_with('$'), "not a global variable"),
            NodeKind::Const { parent, prefix, name, toplevel } => {
                ck(is_const(name), "not a constant");
                ck(prefix.iter().all(|x| is_const(x)), "not a constant");
                ck(!(*toplevel && parent.is_some()), "a constant of the top level and of something");
                if let Some(p) = parent {
                    self.node(p)
                }
            }
            NodeKind::Array(v, c) => {
                if *c != v.iter().all(plain) {
                    bad(n, "the constant flag of an array")
                }
                v.iter().for_each(|x| self.node(x))
            }
            NodeKind::Hash(v, c) => {
                if *c != v.iter().all(|(a, b)| plain(a) && plain(b)) {
                    bad(n, "the constant flag of a hash")
                }
                for (a, b) in v {
                    self.node(a);
                    self.node(b)
                }
            }
            NodeKind::RegExp(v, o, c) => {
                if *c != v.iter().all(plain) {
                    bad(n, "the constant flag of a regular expression")
                }
                ck(o.bytes().all(|c| b"imxonesu-".contains(&c)), "options of a regular expression");
                v.iter().for_each(|x| self.node(x))
            }
            NodeKind::Range { start, end, is_const, .. } => {
                if *is_const != (number(start) && number(end)) {
                    bad(n, "the constant flag of a range")
                }
                self.node(start);
                self.node(end)
            }
            NodeKind::InterporatedString(v) => {
                ck(!v.is_empty(), "an interpolated string without parts");
                for (i, x) in v.iter().enumerate() {
                    if let NodeKind::String(s) = &x.kind {
                        // (text of the source; an interpolated literal string may stand beside it)
                        ck(!s.is_empty() || i > 0 || v.len() > 0, "an empty part");
                    }
                    self.node(x)
                }
            }
            NodeKind::CompStmt(v) => {
                if v.len() == 1 {
                    bad(n, "a sequence of one statement")
                }
                v.iter().for_each(|x| self.node(x))
            }
            NodeKind::MulAssign(a, b) => {
                if a.is_empty() || b.is_empty() {
                    bad(n, "an assignment without sides")
                }
                if a.iter().filter(|x| matches!(x.kind, NodeKind::Splat(_))).count() > 1 {
                    bad(n, "two splat targets")
                }
                // (several values are given one by one to as many targets or packed into an array)
                a.iter().for_each(|x| self.node(x));
                b.iter().for_each(|x| self.node(x))
            }
            NodeKind::For { param, iter, body } => {
                ck(!param.is_empty(), "a for loop without variables");
                for (k, s) in param {
                    self.var(n, *k, s)
                }
                self.node(iter);
                ck(body.params.is_empty() && body.lvar.is_empty_table(), "a for loop with variables of its own");
                self.node(&body.body)
            }
            NodeKind::Case { cond, when_, else_ } => {
                if let Some(c) = cond {
                    self.node(c)
                }
                ck(!when_.is_empty(), "a case without branches");
                for w in when_ {
                    ck(!w.when.is_empty(), "a branch without values");
                    w.when.iter().for_each(|x| self.node(x));
                    self.node(&w.body)
                }
                self.node(else_)
            }
            NodeKind::Lambda(b) => self.scope(n, b, false),
            NodeKind::MethodDef(s, b) => {
                ck(!s.is_empty(), "a method without a name");
                self.scope(n, b, true)
            }
            NodeKind::SingletonMethodDef(o, s, b) => {
                ck(!s.is_empty(), "a method without a name");
                self.node(o);
                self.scope(n, b, true)
            }
            NodeKind::ClassDef { base, name, superclass, info, is_module } => {
                ck(is_const(name), "a class without a name");
                ck(!(*is_module && superclass.is_some()), "a module with a superclass");
                if let Some(x) = base {
                    self.node(x)
                }
                if let Some(x) = superclass {
                    self.node(x)
                }
                ck(info.params.is_empty(), "a class with parameters");
                self.scope(n, info, true)
            }
            NodeKind::SingletonClassDef { singleton, info } => {
                self.node(singleton);
                ck(info.params.is_empty(), "a class with parameters");
                self.scope(n, info, true)
            }
            NodeKind::MethodCall { receiver, method, arglist, .. } => {
                ck(!method.is_empty(), "a call without a name");
                self.node(receiver);
                self.args(n, arglist)
            }
            NodeKind::FuncCall { method, arglist, .. } => {
                ck(!method.is_empty(), "a call without a name");
                self.args(n, arglist)
            }
            NodeKind::Yield(a) | NodeKind::Super(Some(a)) => self.args(n, a),
            NodeKind::Symbol(_) => {}
            _ => {
                let mut v = vec![];
                kids(n, &mut v);
                v.into_iter().for_each(|x| self.node(x))
            }
        }
    }
}
trait EmptyTable {
    fn is_empty_table(&self) -> bool;
}
impl EmptyTable for LvarCollector {
    fn is_empty_table(&self) -> bool {
        self.table().is_empty()
    }
}
fn well(s: &Src, r: &ParseResult) {
    let text = unsafe { std::str::from_utf8_unchecked(&s.0) };
    kept(&r.source_info.code, text);
    let mut w = W { text, sc: vec![Some(&r.lvar_collector)] };
    w.node(&r.node);
    let t = r.lvar_collector.table();
    for i in 0..t.len() {
        ck((0..i).all(|j| t[i] != t[j]), "a name has two slots");
    }
}
fn formed(s: &Src) {
    let text = s.text();
    match Parser::parse_program(text.clone(), "t.rb") {
        Ok(r) => {
            well(s, &r);
            cover(1)
        }
        Err(e) => {
            kept(&e.source_info.code, &text);
            let l = e.loc;
            ck(l.0 <= text.len() && l.1 <= text.len() && l.0 <= l.1 + 1, "an error outside of the program");
            ck(text.is_char_boundary(l.0), "an error inside of a character");
            cover(2)
        }
    }
}
/// The programs of the other properties' generators.
#[no_mangle]
pub extern "C-unwind" fn h_formed_gen(n: u64) {
    unsafe { INSPECT = Some(well) }
    use crate::{h_call::*, h_coll::*, h_def::*, h_expr::*, h_flow::*, h_here::*, h_param::*, h_scope::*, h_str::*};
    match n {
        0 => h_param(1),
        1 => h_param(13),
        2 => h_param_none(0),
        3 => h_call(1),
        4 => h_call_block(0),
        5 => h_class(0),
        6 => h_def_body(0),
        7 => h_scope(3),
        8 => h_scope_bind(0),
        9 => h_interp_ctx(0),
        10 => h_here_seq(0),
        11 => h_here_ctx(0),
        12 => h_begin(1),
        13 => h_massign(2),
        14 => h_massign_ctx(0),
        15 => h_numbered(1),
        16 => h_for(0),
        17 => h_case(1),
        18 => h_loop_head(1),
        19 => h_chain(1),
        20 => h_array(2),
        21 => h_hash(1),
        22 => h_range(0),
        23 => h_interp(1),
        24 => h_sclass(0),
        25 => h_call_forward(0),
        26 => h_param(2),
        27 => h_nest(0),
        28 => h_assign_chain(0),
        _ => h_begin_expr(0),
    }
}
/// Every text of `n` ASCII bytes.
#[no_mangle]
pub extern "C-unwind" fn h_formed(n: u64) {
    let mut s = Src::new();
    for _ in 0..n {
        s.sym(ASCII);
    }
    formed(&s)
}
/// Every sequence of up to `n` tokens (see `some_tokens`).
#[no_mangle]
pub extern "C-unwind" fn h_formed_tok(n: u64) {
    some_tokens(n, &mut |s, _, _| formed(s))
}
/// Forms within forms; names of variables in the holes.
#[no_mangle]
pub extern "C-unwind" fn h_formed_form(n: u64) {
    budget(if n == 1 { 2 } else { 1 });
    let mut toks = vec![];
    form(&mut toks, choose(FORMS.len()), n as usize % 10);
    let mut s = Src::new();
    s.lit(["", "v = 1\n", "def m(v)\n", "f { |v, *x| ", "while v = 1\n", "\u{3042} = 1; "][alt(6)]);
    let k = s.len();
    let close = match s.0.first() {
        Some(b'd') | Some(b'w') => "\nend",
        Some(b'f') => " }",
        _ => "",
    };
    let (p, _, _) = prefix(&toks, toks.len());
    s.bytes(&p.0);
    s.lit(["", "\n", "\nv", " if v"][alt(4)]);
    s.lit(close);
    let _ = k;
    formed(&s)
}

// ---- entry points ----
struct Nothing;
impl LocalsContext for Nothing {
    fn find_lvar(&self, _: &str) -> Option<usize> {
        None
    }
}
/// `texts`: with the messages.
fn outcome(r: Result<ParseResult, ParseErr>, texts: bool) -> (X, Vec<Loc>) {
    let mut locs = vec![];
    match r {
        Ok(r) => {
            let mut o = dump(&r.node);
            lvars(&mut o, &r.lvar_collector);
            each(&r.node, &mut |n| locs.push(n.loc));
            (o, locs)
        }
        Err(e) => {
            let k = match e.kind {
                ParseErrKind::UnexpectedEOF => vec![b'E'],
                ParseErrKind::SyntaxError(s) if texts => [b"S".to_vec(), s.into_bytes()].concat(),
                ParseErrKind::SyntaxError(_) => b"S".to_vec(),
            };
            (k, vec![e.loc])
        }
    }
}
fn entries(s: &Src, texts: bool) {
    let a = outcome(Parser::<DummyContext>::parse_program(s.text(), "t.rb"), texts);
    let no = Nothing;
    let b = match choose(6) {
        0 => outcome(Parser::<DummyContext>::parse_program_eval(s.text(), "t.rb".into(), None), texts),
        1 => outcome(Parser::parse_program_eval(s.text(), "u/v.rb".into(), Some(&no)), texts),
        2 => outcome(Parser::<DummyContext>::parse_program_binding(s.text(), "t.rb".into(), None, None), texts),
        3 => outcome(Parser::parse_program_binding(s.text(), "".into(), Some(LvarCollector::new()), Some(&no)), texts),
        4 => {
            // after another program, a wrong one and an incomplete one
            let _ = Parser::<DummyContext>::parse_program("a = 1; def m(b) c = 2; yield(&".to_string(), "t.rb");
            let _ = Parser::<DummyContext>::parse_program("f { |b| while _1 do \"#{<<A}".to_string(), "t.rb");
            let _ = Parser::<DummyContext>::parse_program("a = 1 ) b".to_string(), "t.rb");
            outcome(Parser::<DummyContext>::parse_program(s.text(), "t.rb"), texts)
        }
        _ => outcome(Parser::<DummyContext>::parse_program(s.text(), "/x/y/z"), texts),
    };
    same(&b.0, &a.0);
    ck(a.1 == b.1, "the locations depend on the entry point or on what was parsed before");
    cover(1)
}
/// Every text of `n` ASCII bytes is read alike by every entry point.
#[no_mangle]
pub extern "C-unwind" fn h_entries(n: u64) {
    let mut s = Src::new();
    for _ in 0..n {
        s.sym(ASCII);
    }
    entries(&s, false)
}
#[no_mangle]
pub extern "C-unwind" fn h_entries_tok(n: u64) {
    some_tokens(n, &mut |s, _, _| entries(s, true))
}
#[no_mangle]
pub extern "C-unwind" fn h_entries_form(n: u64) {
    budget(1);
    let mut toks = vec![];
    form(&mut toks, choose(FORMS.len()), n as usize % 10);
    let mut s = Src::new();
    s.lit(["", "v = 1\n", "def m(v)\n", "f { |v, *x| "][alt(4)]);
    let (p, _, _) = prefix(&toks, toks.len());
    s.bytes(&p.0);
    entries(&s, true)
}
/// (the last line is completed)
fn kept(code: &str, text: &str) {
    let n = text.len();
    ck(code.len() >= n && &code[..n] == text && (code.len() == n || &code[n..] == "\n"), "the program is not kept")
}

// ---- names ----
/// `s` with every one-letter word `from` replaced by the two bytes of `to`.
fn renamed(s: &Src, from: u8, to: [u8; 2]) -> Src {
    let mut o = Src::new();
    let b = &s.0;
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let word = |k: usize| k < b.len() && WORD.has(b[k]);
        if c == from && (i == 0 || (!word(i - 1) && b[i - 1] != b'%')) && !word(i + 1) {
            o.0.extend_from_slice(&to);
        } else {
            o.0.push(c)
        }
        i += 1;
    }
    o
}
static RENAMED: &[u8] = b"vwxyfmkjieabABCDsn";
fn renaming(p: &Src) {
    let from = RENAMED[choose(RENAMED.len())];
    assume(p.0.contains(&from));
    let up = from.is_ascii_uppercase();
    let (base, to, c) = if up || choose(2) == 0 {
        let c = sym(WORD);
        let h = if up { b'Q' } else { b'q' };
        ([h, b'z'], [h, c], c)
    } else {
        // (no reserved word ends in q)
        let c = sym(LOWER.or(Set::of(b"_")));
        ([b'z', b'q'], [c, b'q'], c)
    };
    let want = outcome(Parser::<DummyContext>::parse_program(renamed(p, from, base).text(), "t.rb"), true);
    let got = outcome(Parser::<DummyContext>::parse_program(renamed(p, from, to).text(), "t.rb"), true);
    ck(want.1 == got.1, "the locations depend on what a name is");
    ck(want.0.len() == got.0.len(), "the program depends on what a name is");
    for (a, b) in want.0.iter().zip(&got.0) {
        ck(if *a == b'z' { *b == c } else { a == b }, "the program depends on what a name is")
    }
    cover(if up { 1 } else { 2 });
}
/// Forms within forms, complete (n < 10) or cut off after any token: what a local variable, method, keyword or
/// constant is called does not matter.
#[no_mangle]
pub extern "C-unwind" fn h_rename(n: u64) {
    budget(if n % 10 == 1 { 1 } else { 0 });
    let mut toks = vec![];
    form(&mut toks, choose(FORMS.len()), n as usize % 10);
    let cut = if n < 10 { toks.len() } else { 1 + choose(toks.len()) };
    let mut s = Src::new();
    s.lit(["", "v = 1\n", "def m(v)\n", "f { |v, *x| ", "m = 1; "][choose(5)]);
    let close = match s.0.first() {
        Some(b'd') => "\nend",
        Some(b'f') => " }",
        _ => "",
    };
    let (p, _, _) = prefix(&toks, cut);
    s.bytes(&p.0);
    if n < 10 {
        s.lit(close);
    }
    renaming(&s)
}

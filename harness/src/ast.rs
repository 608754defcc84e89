//! A location-free byte form of the syntax tree, for comparing what the parser built with what the
//! program text says it has to build. `dump` writes the form of a real tree, the other functions
//! write the form of an expected one.
use crate::rt::*;
use ruruby_parse::*;

pub type X = Vec<u8>;

fn st(o: &mut X, s: &[u8]) {
    o.push(b'\'');
    o.push(s.len() as u8);
    o.extend_from_slice(s);
}
fn idx(o: &mut X, n: usize) {
    o.push(b'0' + n as u8);
}
fn opt(o: &mut X, n: Option<LvarId>) {
    match n {
        Some(n) => idx(o, n.as_usize()),
        None => o.push(b'-'),
    }
}
fn list(o: &mut X, v: &[Node]) {
    o.push(b'[');
    for n in v {
        d(o, n);
    }
    o.push(b']');
}
fn open(o: &mut X, tag: &str) {
    o.push(b'(');
    o.extend_from_slice(tag.as_bytes());
    o.push(b' ');
}
fn ob(o: &mut X, v: &Option<Box<Node>>) {
    match v {
        Some(n) => d(o, n),
        None => o.push(b'-'),
    }
}
fn fl(o: &mut X, b: bool) {
    o.push(if b { b'T' } else { b'F' })
}
pub fn binop_name(op: BinOp) -> &'static str {
    match op {
        BinOp::Add => "+",
        BinOp::Sub => "-",
        BinOp::Mul => "*",
        BinOp::Div => "/",
        BinOp::Rem => "%",
        BinOp::Exp => "**",
        BinOp::Shr => ">>",
        BinOp::Shl => "<<",
        BinOp::BitAnd => "&",
        BinOp::BitOr => "|",
        BinOp::BitXor => "^",
        BinOp::Compare => "<=>",
        BinOp::Cmp(CmpKind::Eq) => "==",
        BinOp::Cmp(CmpKind::Ne) => "!=",
        BinOp::Cmp(CmpKind::Lt) => "<",
        BinOp::Cmp(CmpKind::Le) => "<=",
        BinOp::Cmp(CmpKind::Gt) => ">",
        BinOp::Cmp(CmpKind::Ge) => ">=",
        BinOp::Cmp(CmpKind::TEq) => "===",
        BinOp::LAnd => "&&",
        BinOp::LOr => "||",
        BinOp::Match => "=~",
    }
}
fn real(o: &mut X, r: &NReal) {
    match r {
        NReal::Integer(i) => o.extend_from_slice(&int(*i)),
        NReal::Float(f) => o.extend_from_slice(&float(*f)),
        NReal::Bignum(b) => big(o, b),
    }
}
fn big(o: &mut X, b: &num::BigInt) {
    let (s, v) = b.to_u32_digits();
    o.push(b'B');
    o.push(match s {
        num::bigint::Sign::Minus => b'-',
        _ => b'+',
    });
    o.push(v.len() as u8);
    for w in v {
        o.extend_from_slice(&w.to_le_bytes());
    }
}
fn block(o: &mut X, b: &BlockInfo) {
    open(o, "blk");
    o.push(b'[');
    for p in &b.params {
        match &p.kind {
            ParamKind::Param(s) => {
                open(o, "req");
                st(o, s.as_bytes())
            }
            ParamKind::Post(s) => {
                open(o, "post");
                st(o, s.as_bytes())
            }
            ParamKind::Optional(s, n) => {
                open(o, "opt");
                st(o, s.as_bytes());
                d(o, n)
            }
            ParamKind::Rest(s) => {
                open(o, "rest");
                match s {
                    Some(s) => st(o, s.as_bytes()),
                    None => o.push(b'-'),
                }
            }
            ParamKind::Keyword(s, n) => {
                open(o, "key");
                st(o, s.as_bytes());
                ob(o, n)
            }
            ParamKind::KWRest(s) => {
                open(o, "kwrest");
                st(o, s.as_bytes())
            }
            ParamKind::Block(s) => {
                open(o, "block");
                st(o, s.as_bytes())
            }
            ParamKind::Delegate => open(o, "fwd"),
            ParamKind::Destruct(v) => {
                open(o, "dest");
                for (s, _) in v {
                    st(o, s.as_bytes())
                }
            }
        }
        o.push(b')');
    }
    o.push(b']');
    d(o, &b.body);
    lvars(o, &b.lvar);
    o.push(b')');
}
/// Names in order of their ids, and the roles of the parameters.
pub fn lvars(o: &mut X, l: &LvarCollector) {
    o.push(b'{');
    for s in l.table() {
        st(o, s.as_bytes());
    }
    o.push(b'|');
    for k in &l.kw {
        idx(o, k.as_usize());
    }
    o.push(b'|');
    opt(o, l.kwrest_param());
    opt(o, l.block_param());
    opt(o, l.forwarding_param);
    o.push(b'}');
}
fn args(o: &mut X, a: &ArgList) {
    o.push(b'<');
    for n in &a.args {
        d(o, n);
    }
    for (k, n) in &a.kw_args {
        o.push(b'k');
        st(o, k.as_bytes());
        d(o, n);
    }
    for n in &a.hash_splat {
        o.push(b'*');
        d(o, n);
    }
    if let Some(b) = &a.block {
        o.push(b'&');
        d(o, b);
    }
    if a.forwarding {
        o.push(b'.');
    }
    if a.splat {
        o.push(b's');
    }
    o.push(b'>');
}
pub fn d(o: &mut X, n: &Node) {
    match &n.kind {
        NodeKind::SelfValue => return o.extend_from_slice(b"self"),
        NodeKind::Nil => return o.extend_from_slice(b"nil"),
        NodeKind::Integer(i) => return o.extend_from_slice(&int(*i)),
        NodeKind::Bignum(b) => return big(o, b),
        NodeKind::Float(f) => return o.extend_from_slice(&float(*f)),
        NodeKind::Imaginary(r) => {
            open(o, "im");
            real(o, r)
        }
        NodeKind::Bool(b) => return o.extend_from_slice(if *b { b"true" } else { b"false" }),
        NodeKind::String(s) => return o.extend_from_slice(&str_(s.as_bytes())),
        NodeKind::Bytes(s) => return o.extend_from_slice(&bytes_(s)),
        NodeKind::InterporatedString(v) => {
            open(o, "istr");
            list(o, v)
        }
        NodeKind::Command(n) => {
            open(o, "cmd");
            d(o, n)
        }
        NodeKind::Symbol(s) => return o.extend_from_slice(&sym_(s.as_bytes())),
        NodeKind::Range { start, end, exclude_end, is_const } => {
            open(o, "range");
            d(o, start);
            d(o, end);
            fl(o, *exclude_end);
            fl(o, *is_const)
        }
        NodeKind::Array(v, c) => {
            open(o, "ary");
            list(o, v);
            fl(o, *c)
        }
        NodeKind::Hash(v, c) => {
            open(o, "hash");
            for (a, b) in v {
                d(o, a);
                o.push(b'>');
                d(o, b);
            }
            fl(o, *c)
        }
        NodeKind::RegExp(v, s, c) => {
            open(o, "re");
            list(o, v);
            st(o, s.as_bytes());
            fl(o, *c)
        }
        NodeKind::LocalVar(k, s) => return o.extend_from_slice(&lvar(*k, s.as_bytes())),
        NodeKind::Ident(s) => return o.extend_from_slice(&ident(s.as_bytes())),
        NodeKind::InstanceVar(s) => {
            open(o, "ivar");
            st(o, s.as_bytes())
        }
        NodeKind::GlobalVar(s) => {
            open(o, "gvar");
            st(o, s.as_bytes())
        }
        NodeKind::SpecialVar(k) => {
            open(o, "svar");
            o.extend_from_slice(&int(*k as i64))
        }
        NodeKind::ClassVar(s) => {
            open(o, "cvar");
            st(o, s.as_bytes())
        }
        NodeKind::Const { toplevel, parent, prefix, name } => {
            open(o, "const");
            fl(o, *toplevel);
            ob(o, parent);
            for p in prefix {
                st(o, p.as_bytes());
            }
            o.push(b':');
            st(o, name.as_bytes())
        }
        NodeKind::BinOp(op, a, b) => {
            open(o, binop_name(*op));
            d(o, a);
            d(o, b)
        }
        NodeKind::UnOp(op, a) => {
            open(
                o,
                match op {
                    UnOp::BitNot => "~",
                    UnOp::Not => "!",
                    UnOp::Pos => "+@",
                    UnOp::Neg => "-@",
                },
            );
            d(o, a)
        }
        NodeKind::Index { base, index } => {
            open(o, "idx");
            d(o, base);
            list(o, index)
        }
        NodeKind::Splat(a) => {
            open(o, "splat");
            d(o, a)
        }
        NodeKind::AssignOp(op, a, b) => {
            open(o, "op=");
            o.extend_from_slice(binop_name(*op).as_bytes());
            o.push(b' ');
            d(o, a);
            d(o, b)
        }
        NodeKind::MulAssign(a, b) => {
            open(o, "=");
            list(o, a);
            list(o, b)
        }
        NodeKind::CompStmt(v) => {
            open(o, "seq");
            list(o, v)
        }
        NodeKind::If { cond, then_, else_ } => {
            open(o, "if");
            d(o, cond);
            d(o, then_);
            d(o, else_)
        }
        NodeKind::For { param, iter, body } => {
            open(o, "for");
            for (k, s) in param {
                o.extend_from_slice(&lvar(*k, s.as_bytes()));
            }
            d(o, iter);
            block(o, body)
        }
        NodeKind::While { cond, body, cond_op, postfix } => {
            open(o, "while");
            d(o, cond);
            d(o, body);
            fl(o, *cond_op);
            fl(o, *postfix)
        }
        NodeKind::Case { cond, when_, else_ } => {
            open(o, "case");
            ob(o, cond);
            for w in when_ {
                o.push(b'w');
                list(o, &w.when);
                d(o, &w.body);
            }
            o.push(b'e');
            d(o, else_)
        }
        NodeKind::Begin { body, rescue, else_, ensure } => {
            open(o, "begin");
            d(o, body);
            for r in rescue {
                o.push(b'r');
                list(o, &r.exception_list);
                ob(o, &r.assign);
                d(o, &r.body);
            }
            o.push(b'e');
            ob(o, else_);
            o.push(b'n');
            ob(o, ensure)
        }
        NodeKind::Lambda(b) => {
            open(o, "lambda");
            block(o, b)
        }
        NodeKind::Break(a) => {
            open(o, "break");
            d(o, a)
        }
        NodeKind::Next(a) => {
            open(o, "next");
            d(o, a)
        }
        NodeKind::Redo => return o.extend_from_slice(b"redo"),
        NodeKind::Return(a) => {
            open(o, "return");
            d(o, a)
        }
        NodeKind::Yield(a) => {
            open(o, "yield");
            args(o, a)
        }
        NodeKind::MethodDef(s, b) => {
            open(o, "def");
            st(o, s.as_bytes());
            block(o, b)
        }
        NodeKind::SingletonMethodDef(n, s, b) => {
            open(o, "defs");
            d(o, n);
            st(o, s.as_bytes());
            block(o, b)
        }
        NodeKind::ClassDef { base, name, superclass, info, is_module } => {
            open(o, if *is_module { "module" } else { "class" });
            ob(o, base);
            st(o, name.as_bytes());
            ob(o, superclass);
            block(o, info)
        }
        NodeKind::SingletonClassDef { singleton, info } => {
            open(o, "sclass");
            d(o, singleton);
            block(o, info)
        }
        NodeKind::MethodCall { receiver, method, arglist, safe_nav } => {
            open(o, if *safe_nav { "&." } else { "." });
            d(o, receiver);
            st(o, method.as_bytes());
            args(o, arglist)
        }
        NodeKind::FuncCall { method, arglist, safe_nav } => {
            open(o, if *safe_nav { "&call" } else { "call" });
            st(o, method.as_bytes());
            args(o, arglist)
        }
        NodeKind::Defined(a) => {
            open(o, "defined");
            d(o, a)
        }
        NodeKind::Super(a) => {
            open(o, "super");
            match a {
                Some(a) => args(o, a),
                None => o.push(b'-'),
            }
        }
        NodeKind::AliasMethod(a, b) => {
            open(o, "alias");
            d(o, a);
            d(o, b)
        }
        NodeKind::DiscardLhs => return o.extend_from_slice(b"_"),
    }
    o.push(b')');
}
pub fn dump(n: &Node) -> X {
    let mut o = Vec::with_capacity(256);
    d(&mut o, n);
    o
}

// ---- expected forms ----
pub fn int(i: i64) -> X {
    let mut o = vec![b'#'];
    o.extend_from_slice(&i.to_le_bytes());
    o
}
pub fn float(f: f64) -> X {
    let mut o = vec![b'F'];
    o.extend_from_slice(&f.to_bits().to_le_bytes());
    o
}
pub fn str_(s: &[u8]) -> X {
    let mut o = vec![b'"', s.len() as u8];
    o.extend_from_slice(s);
    o
}
pub fn bytes_(s: &[u8]) -> X {
    let mut o = vec![b'b', s.len() as u8];
    o.extend_from_slice(s);
    o
}
pub fn sym_(s: &[u8]) -> X {
    let mut o = vec![b':', s.len() as u8];
    o.extend_from_slice(s);
    o
}
pub fn lvar(k: usize, s: &[u8]) -> X {
    let mut o = vec![b'l', b'0' + k as u8];
    st(&mut o, s);
    o
}
pub fn ident(s: &[u8]) -> X {
    let mut o = vec![b'i', b'd'];
    st(&mut o, s);
    o
}
pub fn w(s: &str) -> X {
    s.as_bytes().to_vec()
}
/// (tag part part ...)
pub fn t(tag: &str, parts: &[&[u8]]) -> X {
    let mut o = vec![];
    open(&mut o, tag);
    for p in parts {
        o.extend_from_slice(p);
    }
    o.push(b')');
    o
}
pub fn l(parts: &[X]) -> X {
    let mut o = vec![b'['];
    for p in parts {
        o.extend_from_slice(p);
    }
    o.push(b']');
    o
}
pub fn name(s: &[u8]) -> X {
    let mut o = vec![];
    st(&mut o, s);
    o
}
pub fn ivar(s: &[u8]) -> X {
    t("ivar", &[&name(s)])
}
pub fn cvar(s: &[u8]) -> X {
    t("cvar", &[&name(s)])
}
pub fn gvar(s: &[u8]) -> X {
    t("gvar", &[&name(s)])
}
pub fn svar(k: u32) -> X {
    t("svar", &[&int(k as i64)])
}
pub fn cnst(s: &[u8]) -> X {
    t("const", &[b"F-:", &name(s)])
}
/// Constant with a prefix path.
pub fn cpath(top: bool, parent: Option<&X>, prefix: &[&[u8]], last: &[u8]) -> X {
    let mut o = vec![];
    open(&mut o, "const");
    fl(&mut o, top);
    match parent {
        Some(p) => o.extend_from_slice(p),
        None => o.push(b'-'),
    }
    for p in prefix {
        st(&mut o, p);
    }
    o.push(b':');
    st(&mut o, last);
    o.push(b')');
    o
}
pub fn bin(op: &str, a: &[u8], b: &[u8]) -> X {
    t(op, &[a, b])
}
pub fn un(op: &str, a: &[u8]) -> X {
    t(op, &[a])
}
pub fn seq(v: &[X]) -> X {
    if v.len() == 1 {
        v[0].clone()
    } else {
        t("seq", &[&l(v)])
    }
}
pub fn asg(a: &[X], b: &[X]) -> X {
    t("=", &[&l(a), &l(b)])
}
pub fn if_(c: &[u8], a: &[u8], b: &[u8]) -> X {
    t("if", &[c, a, b])
}
pub fn flag(b: bool) -> X {
    vec![if b { b'T' } else { b'F' }]
}
pub fn ary(v: &[X], is_const: bool) -> X {
    t("ary", &[&l(v), &flag(is_const)])
}
pub fn hash(v: &[(X, X)], is_const: bool) -> X {
    let mut o = vec![];
    for (a, b) in v {
        o.extend_from_slice(a);
        o.push(b'>');
        o.extend_from_slice(b);
    }
    t("hash", &[&o, &flag(is_const)])
}
/// An argument list under construction.
#[derive(Clone, Default)]
pub struct Args {
    pub pos: Vec<X>,
    pub kw: Vec<(X, X)>,
    pub dsplat: Vec<X>,
    pub block: Option<X>,
    pub fwd: bool,
    pub splat: bool,
}
impl Args {
    pub fn x(&self) -> X {
        let mut o = vec![b'<'];
        for n in &self.pos {
            o.extend_from_slice(n);
        }
        for (k, n) in &self.kw {
            o.push(b'k');
            st(&mut o, k);
            o.extend_from_slice(n);
        }
        for n in &self.dsplat {
            o.push(b'*');
            o.extend_from_slice(n);
        }
        if let Some(b) = &self.block {
            o.push(b'&');
            o.extend_from_slice(b);
        }
        if self.fwd {
            o.push(b'.')
        }
        if self.splat {
            o.push(b's')
        }
        o.push(b'>');
        o
    }
    pub fn of(v: &[X]) -> Args {
        Args { pos: v.to_vec(), ..Default::default() }
    }
}
pub fn call(m: &[u8], a: &Args) -> X {
    t("call", &[&name(m), &a.x()])
}
pub fn mcall(r: &[u8], m: &[u8], a: &Args) -> X {
    t(".", &[r, &name(m), &a.x()])
}
pub fn scall(r: &[u8], m: &[u8], a: &Args) -> X {
    t("&.", &[r, &name(m), &a.x()])
}
/// The local variables of one scope.
#[derive(Clone, Default)]
pub struct Lv {
    pub names: Vec<X>,
    pub kw: Vec<usize>,
    pub kwrest: Option<usize>,
    pub block: Option<usize>,
    pub fwd: Option<usize>,
}
impl Lv {
    pub fn of(v: &[&[u8]]) -> Lv {
        Lv { names: v.iter().map(|x| x.to_vec()).collect(), ..Default::default() }
    }
    pub fn x(&self) -> X {
        let mut o = vec![b'{'];
        for n in &self.names {
            st(&mut o, n);
        }
        o.push(b'|');
        for k in &self.kw {
            idx(&mut o, *k);
        }
        o.push(b'|');
        for k in [self.kwrest, self.block, self.fwd] {
            match k {
                Some(k) => idx(&mut o, k),
                None => o.push(b'-'),
            }
        }
        o.push(b'}');
        o
    }
}
/// params, body, local variables
pub fn blk(params: &[X], body: &[u8], lv: &Lv) -> X {
    t("blk", &[&l(params), body, &lv.x()])
}
pub fn lambda(params: &[X], body: &[u8], lv: &Lv) -> X {
    t("lambda", &[&blk(params, body, lv)])
}
/// begin .. end without clauses
pub fn body(b: &[u8]) -> X {
    t("begin", &[b, b"e-n-"])
}
pub fn def(m: &[u8], params: &[X], b: &[u8], lv: &Lv) -> X {
    t("def", &[&name(m), &blk(params, &body(b), lv)])
}
pub fn nil() -> X {
    w("nil")
}
pub fn empty() -> X {
    w("(seq [])")
}

// ---- checks ----
pub fn same(got: &X, want: &X) {
    if got != want {
        differ(got, want)
    }
}
#[cfg(feature = "native")]
pub fn differ(got: &X, want: &X) -> ! {
    fail(&format!("the tree differs: got {:?} want {:?}", String::from_utf8_lossy(got), String::from_utf8_lossy(want)))
}
#[cfg(not(feature = "native"))]
#[inline(never)]
pub fn differ(_got: &X, _want: &X) -> ! {
    fail("the tree differs")
}
#[cfg(feature = "native")]
pub fn rejected(e: &ParseErr) -> ! {
    fail(&format!("rejected: {:?} at {:?}", e.kind, e.loc))
}
#[cfg(not(feature = "native"))]
#[inline(never)]
pub fn rejected(_e: &ParseErr) -> ! {
    fail("rejected")
}
/// Looks at every accepted program, if set (h_formed_gen).
pub static mut INSPECT: Option<fn(&Src, &ParseResult)> = None;
/// Parses a program that has to be accepted.
pub fn accept(s: &Src) -> ParseResult {
    match Parser::parse_program(s.text(), "t.rb") {
        Ok(r) => {
            if let Some(f) = unsafe { INSPECT } {
                f(s, &r)
            }
            r
        }
        Err(e) => rejected(&e),
    }
}
/// The program has to be accepted and its tree to be `want`.
pub fn expect(s: &Src, want: &X) -> ParseResult {
    let r = accept(s);
    same(&dump(&r.node), want);
    r
}
/// As `expect`, with the local variables of the program.
pub fn expect_lv(s: &Src, want: &X, lv: &Lv) -> ParseResult {
    let r = expect(s, want);
    let mut o = vec![];
    lvars(&mut o, &r.lvar_collector);
    same(&o, &lv.x());
    r
}
#[cfg(feature = "native")]
pub fn accepted(r: &ParseResult) -> ! {
    fail(&format!("accepted: {:?}", String::from_utf8_lossy(&dump(&r.node))))
}
#[cfg(not(feature = "native"))]
#[inline(never)]
pub fn accepted(_r: &ParseResult) -> ! {
    fail("accepted")
}
/// The program has to be rejected.
pub fn reject(s: &Src) -> ParseErr {
    match Parser::parse_program(s.text(), "t.rb") {
        Ok(r) => accepted(&r),
        Err(e) => e,
    }
}
/// The program has to be rejected with a syntax error (not as an incomplete one).
pub fn reject_syntax(s: &Src) {
    let e = reject(s);
    if e.kind == ParseErrKind::UnexpectedEOF {
        fail("reported as incomplete");
    }
}
pub fn reject_eof(s: &Src) {
    let e = reject(s);
    if e.kind != ParseErrKind::UnexpectedEOF {
        fail("an incomplete program is reported as a wrong one");
    }
}

// ---- walking a tree ----
/// Calls `f` with every node, parents first (`up`: the parent's location).
pub fn each(n: &Node, f: &mut dyn FnMut(&Node)) {
    f(n);
    let mut v: Vec<&Node> = vec![];
    kids(n, &mut v);
    for k in v {
        each(k, f)
    }
}
/// The locations of all nodes, parameters and scopes, parents first; None: an empty statement (located nowhere in particular).
pub fn all_locs(n: &Node, o: &mut Vec<Option<Loc>>) {
    each(n, &mut |n| {
        o.push(if n.is_empty() { None } else { Some(n.loc) });
        let b = match &n.kind {
            NodeKind::Lambda(b) | NodeKind::MethodDef(_, b) | NodeKind::SingletonMethodDef(_, _, b) => b,
            NodeKind::ClassDef { info, .. } | NodeKind::SingletonClassDef { info, .. } | NodeKind::For { body: info, .. } => info,
            _ => return,
        };
        for p in &b.params {
            o.push(Some(p.loc));
            if let ParamKind::Destruct(v) = &p.kind {
                v.iter().for_each(|x| o.push(Some(x.1)))
            }
        }
    });
}
fn kids_args<'a>(a: &'a ArgList, v: &mut Vec<&'a Node>) {
    v.extend(a.args.iter());
    v.extend(a.kw_args.iter().map(|x| &x.1));
    v.extend(a.hash_splat.iter());
    if let Some(b) = &a.block {
        v.push(b)
    }
}
fn kids_block<'a>(b: &'a BlockInfo, v: &mut Vec<&'a Node>) {
    for p in &b.params {
        match &p.kind {
            ParamKind::Optional(_, n) => v.push(n),
            ParamKind::Keyword(_, Some(n)) => v.push(n),
            _ => {}
        }
    }
    v.push(&b.body);
}
pub fn kids<'a>(n: &'a Node, v: &mut Vec<&'a Node>) {
    match &n.kind {
        NodeKind::SelfValue | NodeKind::Nil | NodeKind::Integer(_) | NodeKind::Bignum(_) | NodeKind::Float(_) | NodeKind::Imaginary(_) | NodeKind::Bool(_) | NodeKind::String(_) | NodeKind::Bytes(_)
        | NodeKind::Symbol(_) | NodeKind::LocalVar(..) | NodeKind::Ident(_) | NodeKind::InstanceVar(_) | NodeKind::GlobalVar(_) | NodeKind::SpecialVar(_) | NodeKind::ClassVar(_) | NodeKind::Redo | NodeKind::DiscardLhs => {}
        NodeKind::InterporatedString(x) | NodeKind::Array(x, _) | NodeKind::RegExp(x, _, _) | NodeKind::CompStmt(x) => v.extend(x.iter()),
        NodeKind::Command(a) | NodeKind::UnOp(_, a) | NodeKind::Splat(a) | NodeKind::Break(a) | NodeKind::Next(a) | NodeKind::Return(a) | NodeKind::Defined(a) => v.push(a),
        NodeKind::Range { start, end, .. } => v.extend([&**start, &**end]),
        NodeKind::Hash(x, _) => {
            for (a, b) in x {
                v.extend([a, b])
            }
        }
        NodeKind::Const { parent, .. } => v.extend(parent.iter().map(|x| &**x)),
        NodeKind::BinOp(_, a, b) | NodeKind::AssignOp(_, a, b) | NodeKind::AliasMethod(a, b) => v.extend([&**a, &**b]),
        NodeKind::Index { base, index } => {
            v.push(base);
            v.extend(index.iter())
        }
        NodeKind::MulAssign(a, b) => {
            v.extend(a.iter());
            v.extend(b.iter())
        }
        NodeKind::If { cond, then_, else_ } => v.extend([&**cond, &**then_, &**else_]),
        NodeKind::For { iter, body, .. } => {
            v.push(iter);
            kids_block(body, v)
        }
        NodeKind::While { cond, body, .. } => v.extend([&**cond, &**body]),
        NodeKind::Case { cond, when_, else_ } => {
            v.extend(cond.iter().map(|x| &**x));
            for w in when_ {
                v.extend(w.when.iter());
                v.push(&w.body);
            }
            v.push(else_)
        }
        NodeKind::Begin { body, rescue, else_, ensure } => {
            v.push(body);
            for r in rescue {
                v.extend(r.exception_list.iter());
                v.extend(r.assign.iter().map(|x| &**x));
                v.push(&r.body);
            }
            v.extend(else_.iter().map(|x| &**x));
            v.extend(ensure.iter().map(|x| &**x));
        }
        NodeKind::Lambda(b) => kids_block(b, v),
        NodeKind::Yield(a) => kids_args(a, v),
        NodeKind::MethodDef(_, b) => kids_block(b, v),
        NodeKind::SingletonMethodDef(n, _, b) => {
            v.push(n);
            kids_block(b, v)
        }
        NodeKind::ClassDef { base, superclass, info, .. } => {
            v.extend(base.iter().map(|x| &**x));
            v.extend(superclass.iter().map(|x| &**x));
            kids_block(info, v)
        }
        NodeKind::SingletonClassDef { singleton, info } => {
            v.push(singleton);
            kids_block(info, v)
        }
        NodeKind::MethodCall { receiver, arglist, .. } => {
            v.push(receiver);
            kids_args(arglist, v)
        }
        NodeKind::FuncCall { arglist, .. } => kids_args(arglist, v),
        NodeKind::Super(a) => {
            if let Some(a) = a {
                kids_args(a, v)
            }
        }
    }
}

//! Scopes of local variables (P14), variables from outside the program (P15), LvarCollector (P16).
use crate::ast::*;
use crate::rt::*;
use ruruby_parse::*;

#[derive(Clone, Copy, PartialEq)]
enum K {
    Eval,
    Block,
    Method,
    Class,
    For,
}
struct Sc {
    k: K,
    lv: Lv,
}
/// The reference: a stack of scopes.
struct M {
    sc: Vec<Sc>,
    /// what the external context answers
    ext: Vec<(X, usize)>,
}
impl M {
    fn new() -> M {
        M { sc: vec![Sc { k: K::Eval, lv: Lv::default() }], ext: vec![] }
    }
    fn open(&mut self, k: K) {
        self.sc.push(Sc { k, lv: Lv::default() })
    }
    fn close(&mut self) -> Lv {
        self.sc.pop().unwrap().lv
    }
    fn find(&self, n: &[u8]) -> Option<usize> {
        let mut outer = 0;
        for (i, c) in self.sc.iter().enumerate().rev() {
            if c.lv.names.iter().any(|x| x == n) {
                return Some(outer);
            }
            match c.k {
                K::Method | K::Class => return None,
                K::Block => {
                    // the scope of the program itself does not count
                    if i > 0 {
                        outer += 1
                    }
                }
                _ => {}
            }
        }
        self.ext.iter().find(|x| x.0 == n).map(|x| x.1 + outer)
    }
    fn set(&mut self, n: &[u8]) -> X {
        let k = match self.find(n) {
            Some(k) => k,
            None => {
                self.param(n);
                0
            }
        };
        lvar(k, n)
    }
    fn param(&mut self, n: &[u8]) {
        let c = self.sc.iter_mut().rev().find(|c| c.k != K::For).unwrap();
        c.lv.names.push(n.to_vec())
    }
    fn get(&self, n: &[u8]) -> X {
        match self.find(n) {
            Some(k) => lvar(k, n),
            None => ident(n),
        }
    }
    fn in_method(&self) -> bool {
        for c in self.sc.iter().rev() {
            match c.k {
                K::Method => return true,
                K::Class | K::Eval => return false,
                _ => {}
            }
        }
        false
    }
}
struct G {
    left: usize,
    used: usize,
    full: bool,
}
impl G {
    /// The first name is always `a`: the names are interchangeable.
    fn name(&mut self) -> &'static [u8] {
        let n = if self.used == 0 { 0 } else { choose(2) };
        self.used = 1;
        [b"a" as &[u8], b"b"][n]
    }
    fn stmts(&mut self, s: &mut Src, m: &mut M, depth: usize) -> X {
        let mut v = vec![];
        while self.left > 0 {
            let k = choose(if self.full { 13 } else { 9 } + (depth > 0) as usize);
            if depth > 0 && k == 0 {
                break;
            }
            let k = if depth > 0 { k - 1 } else { k };
            self.left -= 1;
            if !v.is_empty() {
                s.lit("\n");
            }
            let x = self.stmt(s, m, depth, k);
            v.push(x);
        }
        seq(&v)
    }
    fn stmt(&mut self, s: &mut Src, m: &mut M, depth: usize, k: usize) -> X {
        match k {
            0 => {
                let n = self.name();
                s.bytes(n).lit("=1");
                asg(&[m.set(n)], &[int(1)])
            }
            1 => {
                let n = self.name();
                s.bytes(n);
                m.get(n)
            }
            2 => {
                s.lit("f{");
                m.open(K::Block);
                let b = self.stmts(s, m, depth + 1);
                s.lit("}");
                let lv = m.close();
                call(b"f", &Args { block: Some(lambda(&[], &b, &lv)), ..Default::default() })
            }
            3 => {
                let n = self.name();
                s.lit("f{|").bytes(n).lit("|");
                m.open(K::Block);
                m.param(n);
                let b = self.stmts(s, m, depth + 1);
                s.lit("}");
                let lv = m.close();
                call(b"f", &Args { block: Some(lambda(&[t("req", &[&name(n)])], &b, &lv)), ..Default::default() })
            }
            4 => {
                s.lit("->{");
                m.open(K::Block);
                let b = self.stmts(s, m, depth + 1);
                s.lit("}");
                let lv = m.close();
                lambda(&[], &b, &lv)
            }
            5 => {
                s.lit("def m\n");
                m.open(K::Method);
                let b = self.stmts(s, m, depth + 1);
                s.lit("\nend");
                let lv = m.close();
                def(b"m", &[], &b, &lv)
            }
            6 => {
                // a class in a method is rejected, a singleton class is not
                let sing = m.in_method();
                m.open(K::Class);
                                s.lit(if sing { "class<<self\n" } else { "class C\n" });
                let b = self.stmts(s, m, depth + 1);
                s.lit("\nend");
                let lv = m.close();
                if sing {
                    t("sclass", &[b"self", &blk(&[], &body(&b), &lv)])
                } else {
                    t("class", &[b"-", &name(b"C"), b"-", &blk(&[], &body(&b), &lv)])
                }
            }
            7 => {
                let n = self.name();
                s.lit("for ").bytes(n).lit(" in 1 do\n");
                let v = m.set(n);
                m.open(K::For);
                let b = self.stmts(s, m, depth + 1);
                s.lit("\nend");
                m.close();
                t("for", &[&v, &int(1), &blk(&[], &b, &Lv::default())])
            }
            8 => {
                s.lit("if 1\n");
                let b = self.stmts(s, m, depth + 1);
                s.lit("\nend");
                if_(&int(1), &b, &empty())
            }
            9 => {
                let n = self.name();
                s.lit("def m(").bytes(n).lit(")");
                m.open(K::Method);
                m.param(n);
                let b = self.stmts(s, m, depth + 1);
                s.lit("\nend");
                let lv = m.close();
                def(b"m", &[t("req", &[&name(n)])], &b, &lv)
            }
            10 => {
                s.lit("f do\n");
                m.open(K::Block);
                let b = self.stmts(s, m, depth + 1);
                s.lit("\nend");
                let lv = m.close();
                call(b"f", &Args { block: Some(lambda(&[], &body(&b), &lv)), ..Default::default() })
            }
            11 => {
                s.lit("while 1 do\n");
                let b = self.stmts(s, m, depth + 1);
                s.lit("\nend");
                t("while", &[&int(1), &b, &flag(true), &flag(false)])
            }
            _ => {
                s.lit("begin\n");
                let b = self.stmts(s, m, depth + 1);
                s.lit("\nensure\n");
                let n = self.name();
                s.bytes(n).lit("\nend");
                let e = m.get(n);
                t("begin", &[&b, b"e-n", &e])
            }
        }
    }
}
/// Every program of `n` statements (`n % 10`) over two variables; `n >= 10`: more kinds of scopes.
#[no_mangle]
pub extern "C-unwind" fn h_scope(n: u64) {
    let mut g = G { left: n as usize % 10, used: 0, full: n >= 10 };
    let mut m = M::new();
    let mut s = Src::new();
    let mut v = g.stmts(&mut s, &mut m, 0);
    // both variables are looked at last
    let a = m.get(b"a");
    let b = m.get(b"b");
    s.lit("\n[a,b]");
    let last = ary(&[a, b], false);
    v = join(v, last);
    let lv = m.close();
    expect_lv(&s, &v, &lv);
    cover(1);
}
/// `first` may be a sequence or a single statement
fn join(first: X, last: X) -> X {
    if first.starts_with(b"(seq [") {
        let mut o = first[..first.len() - 2].to_vec();
        if o.len() == 6 {
            return last;
        }
        o.extend_from_slice(&last);
        o.extend_from_slice(b"])");
        o
    } else {
        seq(&[first, last])
    }
}

/// Every way to introduce a variable.
fn binder(s: &mut Src, m: &mut M, n: &[u8]) -> X {
    let one = int(1);
    match choose(22) {
        0 => {
            s.bytes(n).lit("=1");
            asg(&[m.set(n)], &[one])
        }
        1 => {
            s.bytes(n).lit("||=1");
            let v = m.set(n);
            bin("||", &v, &asg(&[v.clone()], &[one]))
        }
        2 => {
            s.bytes(n).lit(" +=1");
            let v = m.set(n);
            t("op=", &[b"+ ", &v, &one])
        }
        3 => {
            s.bytes(n).lit(",@q=1,2");
            asg(&[m.set(n), ivar(b"@q")], &[one, int(2)])
        }
        4 => {
            s.lit("@q,").bytes(n).lit(" = 1,2");
            asg(&[ivar(b"@q"), m.set(n)], &[one, int(2)])
        }
        5 => {
            s.lit("@q=").bytes(n).lit("=1");
            asg(&[ivar(b"@q")], &[asg(&[m.set(n)], &[one])])
        }
        6 => {
            s.lit("g(").bytes(n).lit("=1)");
            call(b"g", &Args::of(&[asg(&[m.set(n)], &[one])]))
        }
        7 => {
            s.lit("g 2, ").bytes(n).lit(" = 1");
            call(b"g", &Args::of(&[int(2), asg(&[m.set(n)], &[one])]))
        }
        8 => {
            s.lit("[").bytes(n).lit("=1]");
            ary(&[asg(&[m.set(n)], &[one])], false)
        }
        9 => {
            s.lit("{2=>").bytes(n).lit("=1}");
            hash(&[(int(2), asg(&[m.set(n)], &[one]))], false)
        }
        10 => {
            s.lit("(").bytes(n).lit("=1)");
            asg(&[m.set(n)], &[one])
        }
        11 => {
            s.lit("\"#{").bytes(n).lit("=1}\"");
            t("istr", &[&l(&[asg(&[m.set(n)], &[one])])])
        }
        12 => {
            s.lit("/#{").bytes(n).lit("=1}/");
            t("re", &[&l(&[str_(b""), asg(&[m.set(n)], &[one]), str_(b"")]), &name(b"m"), b"F"])
        }
        13 => {
            s.lit("if ").bytes(n).lit("=1;end");
            if_(&asg(&[m.set(n)], &[one]), &empty(), &empty())
        }
        14 => {
            s.lit("2 while ").bytes(n).lit("=1");
            t("while", &[&asg(&[m.set(n)], &[one]), &int(2), &flag(true), &flag(true)])
        }
        15 => {
            s.bytes(n).lit("=1 unless 2");
            if_(&int(2), &empty(), &asg(&[m.set(n)], &[one]))
        }
        16 => {
            s.lit("for ").bytes(n).lit(" in 1 do end");
            t("for", &[&m.set(n), &one, &blk(&[], &empty(), &Lv::default())])
        }
        17 => {
            s.lit("begin;rescue=>").bytes(n).lit(";end");
            t("begin", &[&empty(), b"r[]", &m.set(n), &empty(), b"e-n-"])
        }
        18 => {
            s.lit("case ").bytes(n).lit("=1\nwhen 2;end");
            t("case", &[&asg(&[m.set(n)], &[one]), b"w", &l(&[int(2)]), &empty(), b"e", &empty()])
        }
        19 => {
            s.lit("begin;").bytes(n).lit("=1;end");
            body(&asg(&[m.set(n)], &[one]))
        }
        20 => {
            s.lit("!(").bytes(n).lit("=1)");
            un("!", &asg(&[m.set(n)], &[one]))
        }
        _ => {
            s.lit("return ").bytes(n).lit("=1");
            t("return", &[&asg(&[m.set(n)], &[one])])
        }
    }
}
/// Every way to look at a variable, each meaning something else when it is none.
fn usage(s: &mut Src, m: &mut M, n: &[u8]) -> X {
    let v = m.find(n).is_some();
    let x = m.get(n);
    let fc = call(n, &Args::default());
    let recv = if v { x.clone() } else { fc.clone() };
    match choose(25) {
        0 => {
            s.bytes(n);
            x
        }
        1 => {
            s.bytes(n).lit(".m");
            mcall(&recv, b"m", &Args::default())
        }
        2 => {
            s.bytes(n).lit("()");
            fc
        }
        3 => {
            s.bytes(n).lit(" -1");
            if v {
                bin("-", &x, &int(1))
            } else {
                call(n, &Args::of(&[int(-1)]))
            }
        }
        4 => {
            s.bytes(n).lit(" [1]");
            if v {
                t("idx", &[&x, &l(&[int(1)])])
            } else {
                call(n, &Args::of(&[ary(&[int(1)], true)]))
            }
        }
        5 => {
            s.bytes(n).lit("[1]");
            t("idx", &[&x, &l(&[int(1)])])
        }
        6 => {
            s.bytes(n).lit(" *@q");
            if v {
                bin("*", &x, &ivar(b"@q"))
            } else {
                call(n, &Args { pos: vec![un("splat", &ivar(b"@q"))], splat: true, ..Default::default() })
            }
        }
        7 => {
            s.bytes(n).lit(" &@q");
            if v {
                bin("&", &x, &ivar(b"@q"))
            } else {
                call(n, &Args { block: Some(ivar(b"@q")), ..Default::default() })
            }
        }
        8 => {
            s.lit("g ").bytes(n);
            call(b"g", &Args::of(&[x]))
        }
        9 => {
            s.lit("g(1, ").bytes(n).lit(")");
            call(b"g", &Args::of(&[int(1), x]))
        }
        10 => {
            s.bytes(n).lit("+1");
            bin("+", &x, &int(1))
        }
        11 => {
            s.bytes(n).lit(" ? 1 : 2");
            if_(&x, &int(1), &int(2))
        }
        12 => {
            // (a variable takes no block)
            s.bytes(n).lit(if v { "(){}" } else { "{}" });
            call(n, &Args { block: Some(lambda(&[], &empty(), &Lv::default())), ..Default::default() })
        }
        13 => {
            s.lit("!").bytes(n);
            un("!", &x)
        }
        14 => {
            s.lit("\"#{").bytes(n).lit("}\"");
            t("istr", &[&l(&[x])])
        }
        15 => {
            s.bytes(n).lit("::C");
            cpath(false, Some(&x), &[], b"C")
        }
        16 => {
            s.bytes(n).lit(" = 1");
            asg(&[m.set(n)], &[int(1)])
        }
        17 => {
            s.bytes(n).lit(" -= 1");
            let v = m.set(n);
            t("op=", &[b"- ", &v, &int(1)])
        }
        18 => {
            s.lit("<<A\n#{").bytes(n).lit("}\nA\n");
            t("istr", &[&l(&[x, str_(b"\n")])])
        }
        19 => {
            // assigned inside a here document, known behind it
            s.lit("g(<<A, ").bytes(n).lit(" -1)\n#{").bytes(n).lit("=1}\nA\n");
            let v = m.set(n);
            let a = asg(&[v], &[int(1)]);
            call(b"g", &Args::of(&[t("istr", &[&l(&[a, str_(b"\n")])]), bin("-", &m.get(n), &int(1))]))
        }
        20 => {
            // a block inside a here document
            s.lit("<<A\n#{f{").bytes(n).lit("}}\nA\n");
            m.open(K::Block);
            let y = m.get(n);
            let lv = m.close();
            let c = call(b"f", &Args { block: Some(lambda(&[], &y, &lv)), ..Default::default() });
            t("istr", &[&l(&[c, str_(b"\n")])])
        }
        21 => {
            // the line goes on behind a here document that assigns
            s.lit("g(<<A, ").bytes(n).lit(")\n#{").bytes(n).lit("}\nA\n");
            call(b"g", &Args::of(&[t("istr", &[&l(&[x.clone(), str_(b"\n")])]), x]))
        }
        22 => {
            s.lit("`#{\"#{").bytes(n).lit("}\"}`");
            t("cmd", &[&t("istr", &[&l(&[t("istr", &[&l(&[x])])])])])
        }
        23 => {
            s.lit("/#{").bytes(n).lit("}/");
            t("re", &[&l(&[str_(b""), x, str_(b"")]), &name(b"m"), b"F"])
        }
        _ => {
            s.lit("[").bytes(n).lit(",").bytes(n).lit(".m]");
            ary(&[x, mcall(&recv, b"m", &Args::default())], false)
        }
    }
}
/// A binder and a use in each relation of their scopes; `n`: the relation.
fn relate(s: &mut Src, m: &mut M, n: &[u8]) -> X {
    let blk0 = |b: &X, lv: &Lv| call(b"f", &Args { block: Some(lambda(&[], b, lv)), ..Default::default() });
    match choose(22) {
        0 => {
            let a = binder(s, m, n);
            s.lit([";", "\n"][choose(2)]);
            let b = usage(s, m, n);
            seq(&[a, b])
        }
        1 => {
            let a = usage(s, m, n);
            s.lit("\n");
            let b = binder(s, m, n);
            seq(&[a, b])
        }
        2 => {
            let a = binder(s, m, n);
            s.lit("\nf{");
            m.open(K::Block);
            let b = usage(s, m, n);
            s.lit("}");
            let lv = m.close();
            seq(&[a, blk0(&b, &lv)])
        }
        3 => {
            s.lit("f{");
            m.open(K::Block);
            let b = binder(s, m, n);
            s.lit("}\n");
            let lv = m.close();
            let x = blk0(&b, &lv);
            let a = usage(s, m, n);
            seq(&[x, a])
        }
        4 => {
            let a = binder(s, m, n);
            s.lit("\n->(z){f{");
            m.open(K::Block);
            m.param(b"z");
            m.open(K::Block);
            let b = usage(s, m, n);
            s.lit("}}");
            let lv = m.close();
            let b = blk0(&b, &lv);
            let lv = m.close();
            seq(&[a, lambda(&[t("req", &[&name(b"z")])], &b, &lv)])
        }
        5 => {
            let a = binder(s, m, n);
            s.lit("\ndef m\n");
            m.open(K::Method);
            let b = usage(s, m, n);
            s.lit("\nend");
            let lv = m.close();
            seq(&[a, def(b"m", &[], &b, &lv)])
        }
        6 => {
            s.lit("def m\n");
            m.open(K::Method);
            let b = binder(s, m, n);
            s.lit("\nend\n");
            let lv = m.close();
            let a = usage(s, m, n);
            seq(&[def(b"m", &[], &b, &lv), a])
        }
        7 => {
            let a = binder(s, m, n);
            s.lit("\nclass C\n");
            m.open(K::Class);
            let b = usage(s, m, n);
            s.lit("\nend");
            let lv = m.close();
            seq(&[a, t("class", &[b"-", &name(b"C"), b"-", &blk(&[], &body(&b), &lv)])])
        }
        8 => {
            let a = binder(s, m, n);
            s.lit("\nmodule C\nf{");
            m.open(K::Class);
            m.open(K::Block);
            let b = usage(s, m, n);
            s.lit("}\nend");
            let lv = m.close();
            let b = blk0(&b, &lv);
            let lv = m.close();
            seq(&[a, t("module", &[b"-", &name(b"C"), b"-", &blk(&[], &body(&b), &lv)])])
        }
        9 => {
            s.lit("if 1\n");
            let a = binder(s, m, n);
            s.lit("\nelse\n");
            let b = usage(s, m, n);
            s.lit("\nend\n");
            let c = usage_plain(s, m, n);
            seq(&[if_(&int(1), &a, &b), c])
        }
        10 => {
            s.lit("while 1\n");
            let a = binder(s, m, n);
            s.lit("\nend\n");
            let c = usage(s, m, n);
            seq(&[t("while", &[&int(1), &a, &flag(true), &flag(false)]), c])
        }
        11 => {
            s.lit("for z in 1\n");
            m.set(b"z");
            m.open(K::For);
            let a = binder(s, m, n);
            s.lit("\nend\n");
            m.close();
            let c = usage(s, m, n);
            seq(&[t("for", &[&m.get(b"z"), &int(1), &blk(&[], &a, &Lv::default())]), c])
        }
        12 => {
            // a default value sees the surroundings of a block, not those of a method
            let a = binder(s, m, n);
            s.lit("\n->(z=");
            m.open(K::Block);
            let d = usage_plain(s, m, n);
            m.param(b"z");
            s.lit("){}");
            let lv = m.close();
            seq(&[a, lambda(&[t("opt", &[&name(b"z"), &d])], &empty(), &lv)])
        }
        13 => {
            let a = binder(s, m, n);
            s.lit("\ndef m(z=");
            m.open(K::Method);
            let d = usage_plain(s, m, n);
            m.param(b"z");
            s.lit(")\nend");
            let lv = m.close();
            seq(&[a, def(b"m", &[t("opt", &[&name(b"z"), &d])], &empty(), &lv)])
        }
        14 => {
            // a parameter hides the variable outside
            let a = binder(s, m, n);
            s.lit("\nf{|").bytes(n).lit("|");
            m.open(K::Block);
            m.param(n);
            let b = usage(s, m, n);
            s.lit("}\n");
            let lv = m.close();
            let c = usage_plain(s, m, n);
            seq(&[a, call(b"f", &Args { block: Some(lambda(&[t("req", &[&name(n)])], &b, &lv)), ..Default::default() }), c])
        }
        15 => {
            s.lit("def m(").bytes(n).lit(")\nf{");
            m.open(K::Method);
            m.param(n);
            m.open(K::Block);
            let b = usage(s, m, n);
            s.lit("}\nend\n");
            let lv = m.close();
            let b = blk0(&b, &lv);
            let lv = m.close();
            let c = usage_plain(s, m, n);
            seq(&[def(b"m", &[t("req", &[&name(n)])], &b, &lv), c])
        }
        16 => {
            // two blocks side by side
            s.lit("f{");
            m.open(K::Block);
            let a = binder(s, m, n);
            s.lit("}\nf{");
            let lv = m.close();
            let a = blk0(&a, &lv);
            m.open(K::Block);
            let b = usage(s, m, n);
            s.lit("}");
            let lv = m.close();
            seq(&[a, blk0(&b, &lv)])
        }
        17 => {
            let a = binder(s, m, n);
            s.lit("\nclass << self\n");
            m.open(K::Class);
            let b = usage(s, m, n);
            s.lit("\nend");
            let lv = m.close();
            seq(&[a, t("sclass", &[b"self", &blk(&[], &body(&b), &lv)])])
        }
        18 => {
            // a method inside a block of a method
            s.lit("def m\n");
            m.open(K::Method);
            let a = binder(s, m, n);
            s.lit("\ndef k\n");
            m.open(K::Method);
            let b = usage(s, m, n);
            s.lit("\nend\n");
            let lv = m.close();
            let b = def(b"k", &[], &b, &lv);
            let c = usage_plain(s, m, n);
            s.lit("\nend");
            let lv = m.close();
            def(b"m", &[], &seq(&[a, b, c]), &lv)
        }
        19 => {
            s.lit("begin\n");
            let a = binder(s, m, n);
            s.lit("\nrescue\n");
            let b = usage(s, m, n);
            s.lit("\nensure\n");
            let c = usage_plain(s, m, n);
            s.lit("\nend");
            t("begin", &[&a, b"r[]-", &b, b"e-n", &c])
        }
        20 => {
            let a = binder(s, m, n);
            s.lit("\nf do\n");
            m.open(K::Block);
            s.lit("for z in 1\n");
            let z = m.set(b"z");
            m.open(K::For);
            let b = usage(s, m, n);
            s.lit("\nend\nend");
            m.close();
            let lv = m.close();
            let b = t("for", &[&z, &int(1), &blk(&[], &b, &Lv::default())]);
            seq(&[a, call(b"f", &Args { block: Some(lambda(&[], &body(&b), &lv)), ..Default::default() })])
        }
        _ => {
            // the variable is known in its own right hand side
            s.bytes(n).lit("=");
            let v = m.set(n);
            let b = usage_plain(s, m, n);
            s.lit("\n");
            let c = usage(s, m, n);
            seq(&[asg(&[v], &[b]), c])
        }
    }
}
fn usage_plain(s: &mut Src, m: &mut M, n: &[u8]) -> X {
    s.bytes(n);
    m.get(n)
}
/// `n`: 0: a symbolic name, 1: fixed.
#[no_mangle]
pub extern "C-unwind" fn h_scope_bind(n: u64) {
    let nm = if n == 0 { [sym(Set::range(b'h', b'l'))] } else { [b'k'] };
    let mut s = Src::new();
    let mut m = M::new();
    let x = relate(&mut s, &mut m, &nm);
    let lv = m.close();
    expect_lv(&s, &x, &lv);
    cover(1);
}

// ---- variables from outside the program ----
struct Ext(Vec<(X, usize)>);
impl LocalsContext for Ext {
    fn find_lvar(&self, id: &str) -> Option<usize> {
        self.0.iter().find(|x| x.0 == id.as_bytes()).map(|x| x.1)
    }
}
/// A program in an external context that knows some variables `outer` blocks away.
#[no_mangle]
pub extern "C-unwind" fn h_extern(n: u64) {
    let nm = [b'k'];
    let mut ext = vec![];
    // which names does the context know: the one under test, another one
    let known = if n == 2 { 1 } else { choose(3) };
    let outer = sym(Set::range(0, 3)) as usize;
    if known == 1 {
        ext.push((nm.to_vec(), outer));
    }
    if known == 2 {
        ext.push((b"kk".to_vec(), outer));
        ext.push((b"h".to_vec(), 1));
    }
    let mut m = M::new();
    m.ext = ext.clone();
    let cx = Ext(ext);
    let mut s = Src::new();
    // as an evaluated string, or as the text of a binding with variables of its own
    let mut own = vec![];
    let binding = choose(if n == 2 { 2 } else { 3 });
    if binding > 0 {
        m.sc[0].k = K::Block;
        if binding == 2 {
            own.push(b"y".to_vec());
            if choose(2) == 1 {
                own.push(nm.to_vec());
            }
        }
        m.sc[0].lv.names = own.clone();
    }
    let x = match n {
        0 => {
            let k = choose(4);
            match k {
                0 => usage(&mut s, &mut m, &nm),
                1 => {
                    s.lit("f{");
                    m.open(K::Block);
                    let b = usage(&mut s, &mut m, &nm);
                    s.lit("}");
                    let lv = m.close();
                    call(b"f", &Args { block: Some(lambda(&[], &b, &lv)), ..Default::default() })
                }
                2 => {
                    s.lit("f{->{");
                    m.open(K::Block);
                    m.open(K::Block);
                    let b = usage(&mut s, &mut m, &nm);
                    s.lit("}}");
                    let lv = m.close();
                    let b = lambda(&[], &b, &lv);
                    let lv = m.close();
                    call(b"f", &Args { block: Some(lambda(&[], &b, &lv)), ..Default::default() })
                }
                _ => {
                    s.lit("for z in 1 do\n");
                    let z = m.set(b"z");
                    m.open(K::For);
                    let b = usage(&mut s, &mut m, &nm);
                    s.lit("\nend");
                    m.close();
                    t("for", &[&z, &int(1), &blk(&[], &b, &Lv::default())])
                }
            }
        }
        _ => relate(&mut s, &mut m, &nm),
    };
    let lv = m.close();
    let r = if binding == 0 {
        Parser::parse_program_eval(s.text(), "t.rb".into(), if known == 0 && choose(2) == 1 { None } else { Some(&cx) })
    } else {
        let col = if binding == 2 {
            let mut c = LvarCollector::new();
            for v in &own {
                c.insert(std::str::from_utf8(v).unwrap());
            }
            Some(c)
        } else {
            None
        };
        Parser::parse_program_binding(s.text(), "t.rb".into(), col, if known == 0 && choose(2) == 1 { None } else { Some(&cx) })
    };
    match r {
        Ok(r) => {
            same(&dump(&r.node), &x);
            let mut o = vec![];
            lvars(&mut o, &r.lvar_collector);
            same(&o, &lv.x());
        }
        Err(e) => rejected(&e),
    }
    cover(1);
}
/// Line by line as at a prompt: each line is parsed with the variables the lines before left.
#[no_mangle]
pub extern "C-unwind" fn h_binding_seq(n: u64) {
    let mut g = G { left: 0, used: 0, full: false };
    let mut m = M::new();
    m.sc[0].k = K::Block;
    let mut col: Option<LvarCollector> = if choose(2) == 1 { Some(LvarCollector::new()) } else { None };
    for _ in 0..n {
        let mut s = Src::new();
        g.left = 2;
        let a = choose(9);
        g.left -= 1;
        let x = g.stmt(&mut s, &mut m, 0, a);
        match Parser::<DummyContext>::parse_program_binding(s.text(), "t.rb".into(), col.clone(), None) {
            Ok(r) => {
                same(&dump(&r.node), &x);
                let mut o = vec![];
                lvars(&mut o, &r.lvar_collector);
                same(&o, &m.sc[0].lv.x());
                col = Some(r.lvar_collector);
            }
            Err(e) => rejected(&e),
        }
    }
    cover(1);
}

// ---- LvarCollector ----
/// Every history of `n` operations over symbolic names against a list of names.
#[no_mangle]
pub extern "C-unwind" fn h_collector(n: u64) {
    budget(2);
    let mut names: Vec<X> = vec![];
    let mut c;
    let mut roles = [None, None, None];
    match choose(3) {
        0 => c = LvarCollector::new(),
        1 => c = LvarCollector::default(),
        _ => {
            let a = sym(ALPHA);
            names.push(vec![a]);
            c = LvarCollector::from(one(a));
        }
    }
    for _ in 0..n {
        let k = choose(5);
        let nm = if k == 4 { b"...".to_vec() } else { vec![sym(ALPHA)] };
        let nm = if k != 4 && alt(2) == 1 { [nm, vec![sym(WORD)]].concat() } else { nm };
        let text = unsafe { String::from_utf8_unchecked(nm.clone()) };
        let at = names.iter().position(|x| *x == nm);
        let fresh = LvarId::from(names.len());
        let before = c.clone();
        let r = match k {
            0 => {
                let r = c.insert(&text);
                ck(r == at.map(LvarId::from).unwrap_or(fresh), "insert: wrong id");
                ck(r.as_u32() as usize == r.as_usize() && usize::from(r) == r.as_usize() && LvarId::from(r.as_u32()) == r, "id conversion");
                if at.is_none() {
                    names.push(nm.clone());
                }
                None
            }
            1 => Some(c.insert_new(text.clone())),
            2 => Some(c.insert_block_param(text.clone())),
            3 => Some(c.insert_kwrest_param(text.clone())),
            _ => Some(c.insert_delegate_param()),
        };
        if let Some(r) = r {
            if at.is_some() {
                ck(r.is_none(), "a name was added twice");
                ck(c == before, "a refused operation changed the collector");
            } else {
                ck(r == Some(fresh), "wrong id of a new name");
                names.push(nm.clone());
                match k {
                    2 => roles[1] = Some(fresh),
                    3 => roles[0] = Some(fresh),
                    4 => roles[2] = Some(fresh),
                    _ => {}
                }
            }
        }
        ck(c.len() == names.len() && c.table().len() == names.len(), "length");
        ck(c.kwrest_param() == roles[0], "keyword rest parameter");
        ck(c.block_param() == roles[1] && *c.block() == roles[1], "block parameter");
        ck(c.forwarding_param == roles[2], "forwarded parameters");
        ck(c.kw.is_empty(), "keyword parameters");
    }
    for (i, v) in names.iter().enumerate() {
        ck(c.table()[i].as_bytes() == &v[..], "a name moved");
        let text = unsafe { String::from_utf8_unchecked(v.clone()) };
        ck(c.table.get_lvarid(&text) == Some(LvarId::from(i)), "a name is found at a wrong id");
        let mut q = vec![b'"'];
        q.extend_from_slice(v);
        q.push(b'"');
        ck(c.get_name(i.into()).as_bytes() == &q[..], "get_name");
    }
    let o = sym(ALPHA);
    if !names.iter().any(|x| *x == vec![o]) {
        ck(c.table.get_lvarid(&one(o)).is_none(), "an unknown name is found");
    }
    ck(c.get_name(names.len().into()) == "<unnamed>", "name of an unknown id");
    cover(1);
}
fn one(b: u8) -> String {
    unsafe { String::from_utf8_unchecked(vec![b]) }
}

//! Incomplete and wrong programs (P03), error reports (P02), SourceInfo (P25).
use crate::ast::*;
use crate::rt::*;
use ruruby_parse::*;

// ---- incomplete or wrong ----
/// (text, what it does): `.` nothing, `p` something has to follow, `( [ { e ? s` opens (`e`: closed by
/// `end`, `?`: by a colon, `s`: text), `-` closes, `=` closes and something has to follow, `E` hole (`P`: one for
/// something in brackets only).
pub type Tok = (&'static str, u8);
pub static FORMS: &[&[Tok]] = &[
    &[("(", b'('), ("", b'E'), (")", b'-')],
    &[("[", b'['), ("", b'E'), (",", b'p'), ("", b'E'), ("]", b'-')],
    &[("{", b'{'), ("", b'E'), (" =>", b'p'), ("", b'E'), ("}", b'-')],
    &[("{", b'{'), ("k:", b'p'), ("", b'E'), (", j:", b'p'), ("", b'E'), ("}", b'-')],
    &[("f(", b'('), ("", b'E'), (",", b'p'), ("*", b'p'), ("", b'E'), (")", b'-')],
    &[("f(", b'('), ("k:", b'p'), ("", b'E'), (", &", b'p'), ("", b'E'), (")", b'-')],
    &[("f(", b'('), ("1 =>", b'p'), ("", b'E'), (",", b'p'), ("2=>", b'p'), ("", b'E'), (")", b'-')],
    &[("f(", b'('), ("k: 1,", b'p'), ("**", b'p'), ("", b'E'), (")", b'-')],
    &[("f{", b'{'), ("", b'E'), ("}", b'-')],
    &[("f{", b'{'), ("|", b'p'), ("x", b'p'), (",", b'p'), ("*y", b'p'), ("|", b'.'), ("", b'E'), ("}", b'-')],
    &[("f do", b'e'), ("|", b'p'), ("x", b'p'), ("=", b'p'), ("", b'P'), ("|\n", b'.'), ("", b'E'), (" end", b'-')],
    &[("->", b'e'), ("(", b'('), ("x", b'p'), (",", b'p'), ("y=", b'p'), ("", b'E'), (")", b'='), ("do", b'.'), ("", b'E'), (" end", b'-')],
    &[("->", b'p'), ("{", b'{'), ("", b'E'), ("}", b'-')],
    &[("\"", b's'), ("a", b'.'), ("#{", b'{'), ("", b'E'), ("}", b'-'), ("b", b'.'), ("\"", b'-')],
    &[("/", b's'), ("a", b'.'), ("#{", b'{'), ("", b'E'), ("}", b'-'), ("b", b'.'), ("/", b'-')],
    &[("`", b's'), ("a", b'.'), ("#{", b'{'), ("", b'E'), ("}", b'-'), ("b", b'.'), ("`", b'-')],
    &[("%Q(", b's'), ("a", b'.'), ("#{", b'{'), ("", b'E'), ("}", b'-'), ("b", b'.'), (")", b'-')],
    &[(":\"", b's'), ("a", b'.'), ("#{", b'{'), ("", b'E'), ("}", b'-'), ("b", b'.'), ("\"", b'-')],
    &[("'", b's'), ("a", b'.'), ("\"", b'.'), ("'", b'-')],
    &[("%w(", b's'), ("a", b'.'), (" b", b'.'), (")", b'-')],
    &[("%q{", b's'), ("a", b'.'), ("{", b'.'), ("}", b'.'), ("}", b'-')],
    &[("if", b'e'), ("", b'E'), (" then", b'.'), ("", b'E'), (" else", b'.'), ("", b'E'), (" end", b'-')],
    &[("if", b'e'), ("", b'E'), ("\n", b'.'), ("", b'E'), ("\nelsif", b'p'), ("", b'E'), ("\n", b'.'), ("", b'E'), ("\nend", b'-')],
    &[("unless", b'e'), ("", b'E'), (";", b'.'), ("", b'E'), (";", b'.'), ("end", b'-')],
    &[("while", b'e'), ("", b'P'), (" do", b'.'), ("", b'E'), (" end", b'-')],
    &[("until", b'e'), ("", b'P'), ("\n", b'.'), ("", b'E'), ("\nend", b'-')],
    &[("for", b'e'), (" i", b'.'), (",", b'p'), ("j", b'.'), (" in", b'.'), ("", b'P'), (" do", b'.'), ("", b'E'), (" end", b'-')],
    &[("case", b'e'), ("", b'E'), ("\nwhen", b'p'), ("", b'E'), (",", b'p'), ("", b'E'), (" then", b'.'), ("", b'E'), ("\nelse", b'.'), ("", b'E'), (" end", b'-')],
    &[("case", b'e'), ("\nwhen", b'p'), ("", b'E'), ("\n", b'.'), ("", b'E'), ("\nend", b'-')],
    &[("begin", b'e'), ("", b'E'), ("\nrescue", b'.'), (" A", b'.'), (",", b'p'), ("B", b'.'), ("=>", b'p'), ("e", b'.'), ("\n", b'.'), ("", b'E'), ("\nelse\n", b'.'), ("", b'E'), ("\nensure", b'.'), ("", b'E'), (" end", b'-')],
    &[("def", b'e'), (" m", b'.'), ("(", b'('), ("x", b'p'), (",", b'p'), ("y", b'p'), ("=", b'p'), ("", b'E'), (",", b'p'), ("kk:", b'p'), ("", b'E'), (")", b'-'), ("", b'E'), (" end", b'-')],
    &[("def", b'e'), (" self", b'.'), (".", b'p'), ("m", b'.'), (" x", b'p'), (",", b'p'), ("*y", b'p'), ("\n", b'.'), ("", b'E'), ("\nrescue\n", b'.'), ("", b'E'), ("\nend", b'-')],
    &[("class", b'e'), (" C", b'.'), ("<", b'p'), ("B", b'.'), ("\n", b'.'), ("", b'E'), ("\nend", b'-')],
    &[("class <<", b'e'), ("self", b'.'), ("\n", b'.'), ("", b'E'), ("\nend", b'-')],
    &[("module", b'e'), (" C", b'.'), ("::", b'p'), ("D", b'.'), (";", b'.'), ("", b'E'), (";end", b'-')],
    &[("", b'E'), ("+", b'p'), ("", b'E')],
    &[("", b'E'), ("**", b'p'), ("", b'E'), (" ||", b'p'), ("", b'E')],
    &[("", b'E'), (" ?", b'?'), ("", b'E'), (" : ", b'='), ("", b'E')],
    &[("v", b'.'), (" =", b'p'), ("", b'E')],
    &[("v", b'.'), (" +=", b'p'), ("", b'E')],
    &[("v", b'.'), (" ||=", b'p'), ("", b'E')],
    &[("!", b'p'), ("", b'E')],
    &[("-", b'p'), ("(", b'('), ("", b'E'), (")", b'-')],
    &[("", b'E'), (".", b'p'), ("m", b'.'), ("(", b'('), ("", b'E'), (")", b'-')],
    &[("v", b'.'), ("&.", b'p'), ("m", b'.'), ("[", b'['), ("", b'E'), ("]", b'-')],
    &[("A", b'.'), ("::", b'p'), ("B", b'.'), ("[", b'['), ("", b'E'), ("]", b'-')],
    &[("(", b'('), ("v, w =", b'p'), ("", b'E'), (",", b'p'), ("", b'E'), (")", b'-')],
    &[("(", b'('), ("return", b'.'), ("", b'P'), (" if", b'p'), ("", b'E'), (")", b'-')],
    &[("(", b'('), ("", b'E'), (" and", b'p'), ("", b'E'), (" while", b'p'), ("", b'E'), (")", b'-')],
    &[("(", b'('), ("", b'E'), (" rescue", b'p'), ("", b'E'), (")", b'-')],
    &[("(", b'('), ("f ", b'.'), ("", b'P'), (",", b'p'), ("", b'E'), (")", b'-')],
    &[("yield(", b'('), ("", b'E'), (")", b'-')],
    &[("defined?(", b'('), ("", b'E'), (")", b'-')],
    &[("(", b'('), ("alias", b'p'), (" x", b'p'), (" y", b'.'), (")", b'-')],
    &[("::", b'p'), ("A", b'.')],
    &[("(", b'('), ("", b'E'), ("\n", b'.'), ("", b'E'), (";", b'.'), (")", b'-')],
];
static LEAVES: &[&str] = &["1", " v", "\"x\"", " @v", " :s", " nil", "-2", " C", "[]", " f()"];

static mut NUMBERED: bool = false;
static NUMS: &[&str] = &["101", "102", "103", "104", "105", "106", "107", "108", "109", "110", "111", "112", "113", "114", "115", "116"];
/// A form with a leaf in every hole but the first `nest` ones; returns the tokens.
pub fn form(out: &mut Vec<(&'static str, u8)>, k: usize, depth: usize) {
    let f = FORMS[k];
    let holes = f.iter().filter(|x| x.1 == b'E' || x.1 == b'P').count();
    let at = if holes == 0 {
        0
    } else if depth > 1 {
        choose(holes)
    } else {
        alt(holes)
    };
    let mut h = 0;
    for t in f {
        if t.1 != b'E' && t.1 != b'P' {
            out.push(*t);
            continue;
        }
        if h == at && depth > 1 {
            // (a space keeps words apart)
            out.push((" ", b' '));
            let k = choose(FORMS.len());
            // (no class definition in a method)
            let g = FORMS[k];
            assume(!(f[0].0 == "def" && (g[0].0 == "module" || g[0].0 == "class")));
            let wrap = t.1 == b'P' || b".pvE?".contains(&FORMS[k][0].1);
            if wrap {
                out.push(("(", b'('));
            }
            form(out, k, depth - 1);
            if wrap {
                out.push((")", b'-'));
            }
        } else if unsafe { NUMBERED } {
            // every hole its own number
            let k = out.iter().filter(|x| x.1 == b'v').count();
            out.push((NUMS[k], b'v'));
        } else if h == at {
            out.push((LEAVES[alt(LEAVES.len())], b'v'));
        } else {
            out.push(("2", b'v'));
        }
        h += 1;
    }
}
/// The text of the first `cut` tokens and what is open behind them; the last element tells whether
/// something has to follow.
pub fn prefix(toks: &[Tok], cut: usize) -> (Src, Vec<u8>, bool) {
    let mut s = Src::new();
    let mut open = vec![];
    let mut pend = false;
    for (i, t) in toks.iter().enumerate() {
        if i == cut {
            break;
        }
        // words next to each other
        if let (Some(a), Some(b)) = (s.0.last(), t.0.as_bytes().first()) {
            if WORD.has(*a) && WORD.has(*b) && open.last() != Some(&b's') {
                s.lit(" ");
            }
        }
        s.lit(t.0);
        if t.1 == b' ' {
            continue;
        }
        pend = false;
        match t.1 {
            b'.' | b'v' => {}
            b'p' => pend = true,
            b'-' => {
                open.pop();
            }
            b'=' => {
                open.pop();
                pend = true
            }
            k => open.push(k),
        }
    }
    (s, open, pend)
}
/// A program cut off after any token is incomplete while something is open, never wrong.
#[no_mangle]
pub extern "C-unwind" fn h_prefix(n: u64) {
    budget(if n == 1 { 2 } else { 0 });
    let mut toks = vec![];
    if n > 10 {
        // behind a complete statement
        toks.push(("v = 1\n", b'.'));
    }
    let first = toks.len() + 1;
    form(&mut toks, choose(FORMS.len()), n as usize % 10);
    let cut = first + choose(toks.len() + 1 - first);
    assume(toks[cut - 1].1 != b' ');
    let (mut s, open, pend) = prefix(&toks, cut);
    if open.last() != Some(&b's') {
        s.lit(["", "\n", " ", " # c\n", "\n\n"][alt(5)]);
    }
    if open.is_empty() && !pend {
        accept(&s);
        cover(1);
    } else {
        let e = reject(&s);
        if e.kind != ParseErrKind::UnexpectedEOF {
            fail("an incomplete program is reported as a wrong one");
        }
        ck(e.loc.0 <= s.len() + 1 && e.loc.1 <= s.len() + 1, "location behind the end");
        cover(2);
    }
}
/// After an expression inside an open construct, what closes another one is a syntax error at that place.
#[no_mangle]
pub extern "C-unwind" fn h_wrong(n: u64) {
    budget(if n == 1 { 1 } else { 0 });
    let mut toks = vec![];
    form(&mut toks, choose(FORMS.len()), n as usize);
    let cut = 1 + choose(toks.len());
    let last = toks[cut - 1].1;
    assume(last == b'v' || last == b'-');
    let (mut s, open, _) = prefix(&toks, cut);
    let top = open.last().copied().unwrap_or(0);
    assume(top != b's');
    let closers: [(&str, u8); 7] = [(")", b'('), ("]", b'['), ("}", b'{'), ("end", b'e'), ("then", 0), ("when", 0), ("in", 0)];
    let k = choose(closers.len());
    let (c, kind) = closers[k];
    assume(kind != top || top == 0);
    // (words that may follow inside the construct)
    assume(!(top == b'e' && k > 3));
    let sp = [" ", "\n", "  "][alt(3)];
    s.lit(sp);
    let at = s.len();
    s.lit(c);
    // whatever comes then
    s.lit(["", "\n", " 1", ")", "\nend", " (", " \"", " if"][alt(8)]);
    let e = reject(&s);
    if e.kind == ParseErrKind::UnexpectedEOF {
        fail("a wrong program is reported as incomplete");
    }
    if e.loc != Loc(at, at + c.len() - 1) {
        fail("the error is not located at the token that is wrong");
    }
    cover(1);
}

// ---- error reports ----
/// (text before, the token that is wrong, text after)
static BAD: &[(&str, &str, &str)] = &[
    ("1 ", "2", ""),
    ("1 ", "\"a\"", ""),
    ("1 ", "foo", " + 1"),
    ("v = 1 ", "@x", ""),
    ("", ")", ""),
    ("", "]", " + 1"),
    ("1 ", "}", ""),
    ("1 ", "end", ""),
    ("", "else", " 1"),
    ("", "when", " 1"),
    ("", "rescue", ""),
    ("a = ", ")", ""),
    ("a = ", "=", " 1"),
    ("a = 1 + ", "then", ""),
    ("f(1 ", "2", ")"),
    ("f(1, ", "]", ")"),
    ("f(a: ", ")", ""),
    ("f(&b", ",", "1)"),
    ("f 1 ", "2", ""),
    ("f k: 1 ", "2", ""),
    ("f(1) ", "2", ""),
    ("f(1) ", "g", ""),
    ("[1 ", "2", "]"),
    ("[1, ", ")", ""),
    ("{1=>1 ", "2", "}"),
    ("{1 ", "2", "}"),
    ("{a: 1 ", "b", ": 2}"),
    ("if 1 ", "2", " end"),
    ("if ", ")", "; end"),
    ("unless 1;2;", "elsif", " 2;end"),
    ("while 1 ", "2", ";end"),
    ("for ", "1", " in 2;end"),
    ("for a ", "of", " 2;end"),
    ("for a, ", "@b", " in 2;end"),
    ("case 1;", "2", ";end"),
    ("begin;ensure;1;", "rescue", ";end"),
    ("begin;ensure;", "else", ";end"),
    ("def ", "1", ";end"),
    ("def f(", "1", ");end"),
    ("def f(a,", "a", ");end"),
    ("def f(a,bb,*", "bb", ");end"),
    ("def f(*a, ", "*", "b);end"),
    ("def f(&b", ",", "a);end"),
    ("def f(", "_1", ");end"),
    ("def f(", "@a", ");end"),
    ("def f(a ", "b", ");end"),
    ("class ", "a", ";end"),
    ("module ", "a", ";end"),
    ("class A < ", ")", ";end"),
    ("def m;", "class", " C;end;end"),
    ("def m;", "module", " C;end;end"),
    ("def m;", "Foo", " = 1;end"),
    ("def m(a);", "C", ",d = 1, 2;end"),
    ("->(", "1", "){}"),
    ("->(a) ", "1", ""),
    ("f{|", "1", "|}"),
    ("f{|aa,", "aa", "|}"),
    ("f{|a ", "b", "|}"),
    ("f{1 ", "2", "}"),
    ("f do 1 ", "2", " end"),
    ("\"#{1 ", "2", "}\""),
    ("\"#{", ")", "}\""),
    ("\"\u{e9}#{2 ", "1", "}\u{e9}\""),
    ("1 ? 2 ", "3", ""),
    ("1 ? 2 ", ";", " 3"),
    ("a&.", "1", ""),
    ("a.", "1", ""),
    ("A::", "1", ""),
    ("1..2", "..", "3"),
    ("1 == 2 ", "==", " 3"),
    ("1 <=> 2 ", "!=", " 3"),
    ("", "and", " 1"),
    ("1 and ", "or", " 1"),
    ("yield ", ")", ""),
    ("self ", "1", ""),
    ("nil ", "a", ""),
    (":a ", "b", ""),
    ("\"a\" ", "1", ""),
    ("", "_1", " = 1"),
    ("a, ", "_2", " = 1, 2"),
    ("", "_3", " += 1"),
    ("@", "1", ""),
    ("@@", "2", ""),
    ("f(", "...", ")"),
    ("alias ", "1", " a"),
    ("alias a ", "2", ""),
    ("def f(k: 1, ", "a", ");end"),
    ("(1 ", "2", ")"),
    ("(1; ", "]", ")"),
    ("a[1 ", "2", "]"),
    ("a[1, ", ")", ""),
    ("a.b(1 ", "2", ")"),
    ("!", ")", ""),
    ("- ", "]", ""),
    ("a ? ", ":", " 1"),
    ("return ", "]", ""),
    ("1 if ", ")", ""),
    ("1 while ", "end", ""),
    ("1 rescue ", "}", ""),
    (":\u{3042} ", "\"\u{3044}\u{3046}\"", ""),
    ("\u{e9} = 1 ", "\u{3042}\u{3042}", " + 1"),
];
fn width(s: &str) -> usize {
    s.chars().map(|c| if c == '\u{301}' || c == '\u{200b}' { 0 } else if c >= '\u{2e80}' { 2 } else { 1 }).sum()
}
fn push_n(o: &mut String, c: char, n: usize) {
    for _ in 0..n {
        o.push(c)
    }
}
#[cfg(feature = "native")]
fn differs(what: &str, got: &str, want: &str) -> ! {
    fail(&format!("{}: got {:?} want {:?}", what, got, want))
}
#[cfg(not(feature = "native"))]
fn differs(what: &str, _got: &str, _want: &str) -> ! {
    fail(what)
}
fn same_text(what: &str, got: &str, want: &str) {
    if got != want {
        differs(what, got, want)
    }
}
/// Lines before the wrong one.
static LEAD: &[&str] = &["", "\n", "x = 1\n", "\n\n# \u{3042}\n", "\"a\nb\"\n", "def g\nend\n", "/\u{e9}/\n\n", "%w(a\n b)\n", "x = [1,\n2]\n\n\n", "f 1 do |a|\nend\n", "s = <<A\nz\nA\n"];
/// Text before it on the same line.
static INDENT: &[&str] = &["", "  ", "z = 3; ", "\u{3042} = \"\u{e9}\"; ", "if 1 then 2 end; "];
/// Wrong programs: the report shows path, line and exactly the wrong token.
#[no_mangle]
pub extern "C-unwind" fn h_report(n: u64) {
    budget(n as usize);
    let (a, b, c) = pick(BAD);
    let mut s = Src::new();
    let lead = LEAD[alt(LEAD.len())];
    s.lit(lead);
    let mut line = 1;
    for x in lead.bytes() {
        if x == b'\n' {
            line += 1
        }
    }
    let top = s.len();
    let ind = INDENT[alt(INDENT.len())];
    s.lit(ind).lit(a);
    let at = s.len();
    if b == "2" {
        s.sym(DIGIT);
    } else if b == "b" || b == "g" {
        s.sym(Set::range(b'b', b'z'));
    } else {
        s.lit(b);
    }
    let end = s.len();
    s.lit(c);
    let eol = s.len();
    s.lit(["", "\n", "\nq = 1\n", "\n)\n", "\n\u{3042} = 1"][alt(5)]);
    let path = ["t.rb", "/d/\u{3042}.rb", "a b", "", "x\n"][alt(5)];
    let text = s.text();
    let e = match Parser::parse_program(text.clone(), path) {
        Ok(r) => accepted(&r),
        Err(e) => e,
    };
    if e.kind == ParseErrKind::UnexpectedEOF {
        fail("reported as incomplete");
    }
    if e.loc != Loc(at, end - 1) {
        fail("the error is not located at the token that is wrong");
    }
    ck(e.source_info.path.to_str() == Some(path), "path of the report");
    let mut code = text.clone();
    if !code.ends_with('\n') {
        code.push('\n');
    }
    same_text("source of the report", &e.source_info.code, &code);
    ck(e.source_info.get_line(&e.loc) == line, "line of the report");
    let mut want = String::new();
    want.push_str(path);
    want.push(':');
    want.push((b'0' + line as u8) as char);
    want.push('\n');
    want.push_str(&text[top..eol]);
    want.push('\n');
    push_n(&mut want, ' ', width(&text[top..at]));
    push_n(&mut want, '^', width(&text[at..end]));
    want.push('\n');
    same_text("rendered report", &e.source_info.get_location(&e.loc), &want);
    cover(1);
}
/// Incomplete programs: the report shows the last line.
#[no_mangle]
pub extern "C-unwind" fn h_report_eof(_n: u64) {
    budget(2);
    let mut s = Src::new();
    s.lit(LEAD[alt(LEAD.len())]).lit(INDENT[alt(INDENT.len())]);
    s.lit(pick(&["(", "if 1", "\"a", "def f", "[1,", "x +", "f {", "->(", "/a", "%w(a", "begin", "a.", "a ? 1", "\"\u{3042}#{1", "'\u{e9}"]));
    s.lit(["", "\n", "\n\n", " \n", "\n# c", "\n\u{3042}"][alt(5)]);
    let text = s.text();
    let e = match Parser::parse_program(text.clone(), "t.rb") {
        Ok(r) => accepted(&r),
        Err(e) => e,
    };
    ck(e.kind == ParseErrKind::UnexpectedEOF, "an incomplete program is reported as a wrong one");
    ck(e.loc == Loc(text.len(), text.len()), "the end of the program is somewhere else");
    let n = text.lines().count();
    let line = e.source_info.get_line(&e.loc);
    ck(line == n || line == n + 1 && !text.ends_with('\n'), "line of the end");
    let r = e.source_info.get_location(&e.loc);
    let mut want = String::from("t.rb:");
    want.push((b'0' + n as u8) as char);
    want.push('\n');
    let last = text.lines().last().unwrap_or("");
    want.push_str(last);
    want.push('\n');
    push_n(&mut want, ' ', width(last));
    want.push_str("^\n");
    same_text("rendered report", &r, &want);
    cover(1);
}

// ---- SourceInfo ----
/// Texts of `n` pieces: letters, line breaks, wide and multibyte characters.
fn source(n: usize) -> Src {
    let mut s = Src::new();
    for _ in 0..n {
        match choose(4) {
            0 => {
                s.sym(LOWER);
            }
            1 => {
                s.lit("\n");
            }
            2 => {
                s.lit("\u{e9}");
            }
            _ => {
                s.lit("\u{3042}");
            }
        }
    }
    s
}
/// Line numbers and rendering of every location in every text.
#[no_mangle]
pub extern "C-unwind" fn h_srcinfo(n: u64) {
    let s = source(n as usize);
    let text = s.text();
    let si = SourceInfo::new("d/t.rb", text.clone());
    let mut code = text.clone();
    if !code.ends_with('\n') {
        code.push('\n');
    }
    same_text("source", &si.code, &code);
    ck(si.file_name() == "d/t.rb" && si.short_file_name() == "t.rb", "file name");
    // a location from the first byte of one character to the last byte of the same or a later one
    let mut cs: Vec<(usize, usize)> = text.char_indices().map(|(i, c)| (i, i + c.len_utf8() - 1)).collect();
    cs.push((text.len(), text.len()));
    let a = choose(cs.len());
    let b = a + choose(cs.len() - a);
    let loc = Loc(cs[a].0, cs[b].1);
    let at = |p: usize| 1 + code.as_bytes()[..p].iter().filter(|c| **c == b'\n').count();
    let last = code.lines().count().max(1);
    let line = at(loc.0).min(last);
    ck(si.get_line(&loc) == line, "line number");
    let got = si.get_location(&loc);
    let mut want = String::from("d/t.rb:");
    want.push((b'0' + line as u8) as char);
    want.push('\n');
    let mut top = 0;
    let mut shown = false;
    for l in code.split_terminator('\n') {
        let end = top + l.len();
        if top <= loc.1 && end >= loc.0 {
            shown = true;
            want.push_str(l);
            want.push('\n');
            let from = loc.0.max(top);
            let to = (loc.1 + 1).min(end);
            push_n(&mut want, ' ', width(&code[top..from]));
            // a line break inside the location counts as one column
            push_n(&mut want, '^', width(&code[from..to.max(from)]) + (loc.1 >= end) as usize);
            want.push('\n');
        }
        top = end + 1;
    }
    if !shown {
        let l = code.lines().last().unwrap_or("");
        want.push_str(l);
        want.push('\n');
        push_n(&mut want, ' ', width(l));
        want.push_str("^\n");
    }
    same_text("rendered location", &got, &want);
    cover(1);
}
/// Lines longer than the terminal is wide: the marks stand below the text of the location.
#[no_mangle]
pub extern "C-unwind" fn h_srcinfo_long(n: u64) {
    let len = pick(&[79usize, 80, 81, 159, 160, 161, 200]);
    let mut s = Src::new();
    let two = choose(2) == 1;
    if two {
        s.lit("ab\n");
    }
    let top = s.len();
    for i in 0..len {
        s.byte(b'a' + (i % 26) as u8);
    }
    let c = s.sym(ALNUM);
    let _ = c;
    if choose(2) == 1 {
        s.lit("\nxy");
    }
    let text = s.text();
    let si = SourceInfo::new("t", text.clone());
    let a = pick(&[0usize, 1, 78, 79, 80, 81, 158, 159, 160, 161, 199]);
    assume(a < len);
    let n = if n == 0 { pick(&[1usize, 2]) } else { pick(&[1usize, 3, 40, 79, 80, 81, 120]) };
    assume(a + n <= len + 1);
    let loc = Loc(top + a, top + a + n - 1);
    ck(si.get_line(&loc) == 1 + two as usize, "line number");
    let got = si.get_location(&loc);
    let mut l = got.lines();
    ck(l.next() == Some(if two { "t:2" } else { "t:1" }), "path and line");
    let shown = l.next().unwrap_or("");
    let marks = l.next().unwrap_or("");
    ck(l.next().is_none(), "one line is shown");
    // where the marks begin, the text shown is that of the location
    let lead = marks.bytes().take_while(|c| *c == b' ').count();
    let k = marks.len() - lead;
    ck(k == n && marks.bytes().skip(lead).all(|c| c == b'^'), "as many marks as columns");
    ck(lead < 80, "the marks begin in the window");
    ck(shown.len() >= lead + n && shown.as_bytes()[lead..lead + n] == text.as_bytes()[loc.0..loc.0 + n], "marks below other text");
    ck(text[top..top + len + 1].contains(shown), "shows other text");
    cover(1);
}
/// Merging and copying of locations.
#[no_mangle]
pub extern "C-unwind" fn h_loc_merge(_n: u64) {
    let (a, b, c, d) = (sym64() as usize, sym64() as usize, sym64() as usize, sym64() as usize);
    assume(a <= b && c <= d);
    let m = Loc(a, b).merge(Loc(c, d));
    ck(m.0 <= a && m.0 <= c && (m.0 == a || m.0 == c), "begin of the merged location");
    ck(m.1 >= b && m.1 >= d && (m.1 == b || m.1 == d), "end of the merged location");
    ck(m == Loc(c, d).merge(Loc(a, b)), "merge is not symmetric");
    cover(1);
}

/// File names: what is shown of every path of `n` bytes.
#[no_mangle]
pub extern "C-unwind" fn h_srcinfo_path(n: u64) {
    let mut s = Src::new();
    for _ in 0..n {
        s.sym(Set::of(b"a./"));
    }
    let p = s.text();
    let si = SourceInfo::new(p.clone(), "1");
    ck(si.file_name() == p.as_str(), "file name");
    let last = p.split('/').filter(|c| !c.is_empty() && *c != ".").last();
    let want = match last {
        None | Some("..") => p.as_str(),
        Some(c) => c,
    };
    same_text("short file name", &si.short_file_name(), want);
    cover(1);
}

// ---- locations ----
/// What the location of a node has to show; the empty text: nothing is said about it.
fn shows(n: &Node, tx: &str) -> bool {
    let is = |s: &str| tx == s;
    match &n.kind {
        NodeKind::Ident(s) | NodeKind::LocalVar(_, s) | NodeKind::InstanceVar(s) | NodeKind::GlobalVar(s) | NodeKind::ClassVar(s) => is(s),
        NodeKind::Const { prefix, name, toplevel, parent } => {
            if parent.is_some() {
                tx.ends_with(name.as_str())
            } else {
                let mut w = String::new();
                if *toplevel {
                    w.push_str("::");
                }
                for p in prefix {
                    w.push_str(p);
                    w.push_str("::");
                }
                w.push_str(name);
                // (the path of a class definition is located as a whole)
                is(&w) || tx.starts_with(w.as_str()) && tx[w.len()..].starts_with("::")
            }
        }
        NodeKind::FuncCall { method, .. } | NodeKind::MethodCall { method, .. } => is(method) || method == "to_sym" && tx.starts_with('"'),
        NodeKind::Integer(i) => {
            let mut v: i64 = 0;
            let neg = tx.starts_with('-');
            for c in tx.bytes() {
                if c.is_ascii_digit() {
                    v = v * 10 + (c - b'0') as i64
                }
            }
            v == i.abs() && (*i < 0) == neg
        }
        NodeKind::Symbol(s) => tx.ends_with(s.as_str()) || tx.starts_with(":\""),
        NodeKind::SelfValue => is("self"),
        NodeKind::Array(..) => tx.starts_with('[') && tx.ends_with(']') || tx.starts_with('%'),
        // (key-value arguments without braces: nothing is said)
        NodeKind::Hash(..) => !tx.starts_with('{') || tx.ends_with('}'),
        NodeKind::BinOp(_, a, b) | NodeKind::AssignOp(_, a, b) => n.loc == a.loc.merge(b.loc),
        NodeKind::Range { start, end, .. } => n.loc == start.loc.merge(end.loc),
        NodeKind::UnOp(UnOp::Not, a) => tx.starts_with('!') && n.loc.1 == a.loc.1,
        NodeKind::UnOp(UnOp::Neg, a) => tx.starts_with('-') && n.loc.1 == a.loc.1,
        NodeKind::Splat(a) => tx.starts_with('*') && n.loc.1 == a.loc.1,
        NodeKind::MulAssign(a, b) => !a.is_empty() && !b.is_empty() && n.loc == a[0].loc.merge(b[b.len() - 1].loc),
        NodeKind::MethodDef(..) | NodeKind::SingletonMethodDef(..) => is("def"),
        NodeKind::ClassDef { name, .. } => tx.ends_with(name.as_str()),
        NodeKind::Return(_) => tx.starts_with("return"),
        NodeKind::Yield(_) => tx.starts_with("yield"),
        NodeKind::While { .. } | NodeKind::For { .. } | NodeKind::Case { .. } => true,
        _ => true,
    }
}
#[cfg(feature = "native")]
fn wrong_loc(n: &Node, tx: &str) -> ! {
    fail(&format!("wrong location: {:?} {:?} of {:?}", n.loc, tx, String::from_utf8_lossy(&dump(n))))
}
#[cfg(not(feature = "native"))]
fn wrong_loc(_n: &Node, _tx: &str) -> ! {
    fail("wrong location")
}
/// Every node of every program is located at its own text.
fn locs(s: &Src, pos: &[(usize, usize)]) {
    let r = accept(s);
    let text = unsafe { std::str::from_utf8_unchecked(&s.0) };
    let mut seen = 0;
    each(&r.node, &mut |n| {
        let (a, b) = (n.loc.0, n.loc.1);
        if a > b || b >= text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b + 1) {
            // (nothing is located at the end of the program)
            if !(a == text.len() && b == a) {
                wrong_loc(n, "")
            }
            return;
        }
        let tx = &text[a..b + 1];
        if !shows(n, tx) {
            wrong_loc(n, tx)
        }
        if let NodeKind::Integer(i) = n.kind {
            if i > 100 {
                seen += 1;
                if pos[i as usize - 101] != (a, b) {
                    wrong_loc(n, tx)
                }
            }
        }
    });
    ck(seen >= pos.len(), "a part of the program is missing");
    cover(1);
}
/// Forms within forms, with numbers in the holes.
#[no_mangle]
pub extern "C-unwind" fn h_locs(n: u64) {
    unsafe { NUMBERED = true }
    budget(1);
    let mut toks = vec![];
    form(&mut toks, choose(FORMS.len()), n as usize % 10);
    let mut s = Src::new();
    s.lit(["", "\n  ", "\u{3042} = \"\u{e9}\"; ", "s = <<A\n\u{3042}\nA\n"][alt(4)]);
    let base = s.len();
    let mut pos = vec![];
    for i in 0..toks.len() {
        if toks[i].1 == b'v' {
            let (p, _, _) = prefix(&toks, i + 1);
            pos.push((base + p.len() - 3, base + p.len() - 1));
        }
    }
    let (p, _, _) = prefix(&toks, toks.len());
    s.bytes(&p.0);
    s.lit(["", "\n", " # c"][alt(3)]);
    locs(&s, &pos);
}
/// A literal or variable (`~` stands for a symbolic letter, `^` for a capital, `0` for a digit) is located at
/// exactly its own text, whatever is before and after it.
#[no_mangle]
pub extern "C-unwind" fn h_locs_leaf(_n: u64) {
    budget(2);
    let mut s = Src::new();
    s.lit(["", "\n", "\u{3042} = '\u{e9}'; ", "s = <<A\n\u{3042}\nA\n", "# \u{3042}\n"][alt(5)]);
    let (open, close) = [("[", "]"), ("f(", ")"), ("f ", ""), ("x = ", ""), ("{1=>", "}"), ("return ", ""), ("(", ")"), ("if 1 then ", " end"), ("->{", "}"), ("def m; ", "; end"), ("\"\u{e9}#{", "}\u{e9}\"")][alt(11)];
    s.lit(open);
    s.lit(["", " ", "  "][alt(3)]);
    let t = pick(&[
        "0", "00_0", "0.0", "0e0", "0i", "ox0", "ob1", "1.0e-0", "2.0i", "~", "~0", "~\u{3042}", "\u{3042}~", "@~", "@\u{3042}~", "@@~0", "$~", "$\u{3042}", "^", "^~", "^\u{3042}", ":~", ":\u{3042}~", ":^~", ":\"~ \u{e9}\"",
        "'~'", "'\u{e9}~'", "\"~\"", "\"\u{e9}~\\n\"", "\"~#{0}\"", "\"\u{e9}#{~}~\"", "/~/", "/\u{e9}~/i", "/~#{0}\u{e9}/", "%w(~)", "%w(\u{e9} ~)", "%i(~ \u{e9})", "%q(~)", "%Q(\u{e9})", "%(~#{0})", "`~`", "`\u{e9}#{0}`",
        "self", "nil", "true", "false", "__LINE__", "__FILE__", "?~", "?\u{e9}", "[0]", "[ ~,\n0]", "{0=>~}", "{~: 0}", ":+", ":[]=", ":~?", ":~=", "-0", "-0.5", "->{0}", "->(~){0}",
    ]);
    // (`f ?a` is taken for the begin of a conditional)
    assume(!((t.starts_with('?') || t.starts_with('{')) && open == "f "));
    let at = s.len();
    for c in t.chars() {
        match c {
            '~' => {
                // (no reserved word comes out)
                s.sym(Set::of(b"gqz"));
            }
            '^' => {
                s.sym(Set::of(b"GQZ"));
            }
            '0' => {
                s.sym(Set::of(b"01"));
            }
            'o' => {
                s.lit("0");
            }
            c => {
                let mut b = [0; 4];
                s.lit(c.encode_utf8(&mut b));
            }
        }
    }
    let end = s.len();
    s.lit(["", " ", "\n"][alt(if close.is_empty() { 2 } else { 3 })]);
    s.lit(close);
    s.lit(["", " # \u{3042}", "\n", " if 1"][alt(4)]);
    let r = accept(&s);
    let text = unsafe { std::str::from_utf8_unchecked(&s.0) };
    let mut found = false;
    each(&r.node, &mut |n| {
        let hit = match n.kind {
            NodeKind::CompStmt(_) | NodeKind::Begin { .. } => false,
            NodeKind::Lambda(_) => n.loc == Loc(at, at + 1) && t.starts_with("->"),
            _ => n.loc == Loc(at, end - 1),
        };
        if hit {
            found = true
        }
        if !t.starts_with("->") && n.loc.0 < end && n.loc.1 >= at && !(n.loc.0 <= at && n.loc.1 >= end - 1) && !(n.loc.0 >= at && n.loc.1 < end) {
            wrong_loc(n, text)
        }
    });
    ck(found, "the operand is not located at its own text");
    cover(1);
}

// ---- layout ----
static SPACES: &[&str] = &[" ", "\t", "  ", " \\\n", "\\\n  ", "\x0c"];
static BREAKS: &[&str] = &["\n", " \n", "\n\n", "\n  ", " # c\n", "\n# c)]\n \n", "\r\n", "\n\t#\n"];
/// White space between two tokens changes nothing; after an opener or a token that needs something behind it
/// neither do line breaks and comments.
#[no_mangle]
pub extern "C-unwind" fn h_layout(n: u64) {
    budget(if n == 1 { 1 } else { 0 });
    let mut toks = vec![];
    form(&mut toks, choose(FORMS.len()), n as usize % 10);
    let cut = 1 + choose(toks.len() - 1);
    let (a, open, pend) = prefix(&toks, cut);
    let (whole, _, _) = prefix(&toks, toks.len());
    let last = toks[cut - 1];
    let next = toks[cut];
    assume(open.last() != Some(&b's') && next.1 != b' ');
    // places where white space decides what the rest is
    assume(!(next.0 == "(" || next.0 == "["));
    assume(!(last.1 == b'v' && (next.0 == "+" || next.0 == "." || next.0 == "**")) || last.0 != " v" && last.0 != " C");
    assume(!(last.0 == "A" && next.0 == "::" || last.0 == "alias" || last.0 == " x" && next.0 == " y"));
    let can_break = (pend && last.0 != " x" && last.0 != "kk:" && !(last.1 == b' ' && cut > 1 && toks[cut - 2].0 == "kk:")) || b"([{".contains(&last.1);
    let sep = if can_break {
        if choose(2) == 0 {
            SPACES[alt(SPACES.len())]
        } else {
            BREAKS[alt(BREAKS.len())]
        }
    } else {
        SPACES[alt(SPACES.len())]
    };
    let mut s = Src::new();
    s.bytes(&a.0);
    s.lit(sep);
    s.bytes(&whole.0[a.len()..]);
    let want = accept(&whole);
    let got = accept(&s);
    if dump(&want.node) != dump(&got.node) {
        fail("white space changes the program");
    }
    // every node is where it was, moved by the white space before it
    let (mut x, mut y) = (vec![], vec![]);
    all_locs(&want.node, &mut x);
    all_locs(&got.node, &mut y);
    let to = |p: usize| if p < a.len() { p } else { p + sep.len() };
    for (p, q) in x.iter().zip(&y) {
        if let (Some(p), Some(q)) = (p, q) {
            if *q != Loc(to(p.0), to(p.1)) {
                moved(*p, *q)
            }
        }
    }
    cover(if can_break { 1 } else { 2 });
}
#[cfg(feature = "native")]
fn moved(p: Loc, q: Loc) -> ! {
    fail(&format!("white space changes the location: {:?} {:?}", p, q))
}
#[cfg(not(feature = "native"))]
fn moved(_p: Loc, _q: Loc) -> ! {
    fail("white space changes the location")
}
/// Statements may be separated by any mix of line breaks, semicolons and comments, and there may be more of
/// these before the first and after the last one.
#[no_mangle]
pub extern "C-unwind" fn h_layout_stmts(n: u64) {
    budget(if n == 3 { 2 } else { 1 });
    const SEPS: &[&str] = &["\n", ";", ";;", ";\n", " ; ", "\n\n", "\r\n", "\n;", " # ;\n", ";# c\n", "\n \n", "\n# a\n# b\n"];
    const IN: &[(&str, &str)] = &[
        ("", ""), ("(", ")"), ("begin\n", "\nend"), ("if 1\n", "\nend"), ("if 1 then ", " end"), ("if 1\n2\nelse\n", "\nend"), ("while 1\n", "\nend"), ("def m\n", "\nend"), ("def m(a)\n", "\nend"), ("def m a\n", "\nend"), ("class C\n", "\nend"), ("class C < B\n", "\nend"),
        ("module M\n", "\nend"), ("class << self\n", "\nend"), ("f do\n", "\nend"), ("f do |a|\n", "\nend"), ("f {", "}"), ("f {|a|", "}"), ("->{", "}"), ("-> do\n", "\nend"), ("case 1\nwhen 2\n", "\nend"), ("case 1\nwhen 2 then ", "\nwhen 3\n4\nend"), ("case 1\nwhen 2\n3\nelse\n", "\nend"),
        ("begin\n1\nrescue\n", "\nend"), ("begin\n1\nrescue A => e\n", "\nend"), ("begin\n1\nensure\n", "\nend"), ("for i in 1\n", "\nend"), ("until 1\n", "\nend"), ("unless 1\n", "\nend"), ("\"#{", "}\""), ("x = (", ")"), ("[(", ")]"),
    ];
    let seps = SEPS;
    let (a, b) = pick(IN);
    let all: &[&str] = &["v = 1", "f 2", "a.b 3", "x", "g(1)", "return", "h { 1 }", "k do 2 end", "\"s\"", "p :a", "i if 1", "l rescue 2", "x += 1", "a, b = 1, 2", "not_a", "'t'", "m?", "n!", "A", "@a", "$b", "nil"];
    let mut want = Src::new();
    let mut got = Src::new();
    want.lit(a);
    got.lit(a);
    // something empty before the first statement
    let lead = [" ", "\n", ";", "\n# c\n", " \n ", "\n\n"][alt(6)];
    // (an empty statement is none in parentheses)
    assume(!(lead == ";" && a.len() < 2));
    got.lit(lead);
    let cnt = if n == 2 { 3 } else { 2 };
    let mut free = 1;
    for i in 0..cnt {
        if i > 0 {
            want.lit("\n");
            got.lit(seps[alt(seps.len())]);
        }
        let k = if free > 0 { choose(all.len()) } else { alt(all.len()) };
        free -= 1;
        want.lit(all[k]);
        got.lit(all[k]);
    }
    let tail = ["", " ", "\n", ";", "\n\n", " # c\n", ";\n"][alt(7)];
    got.lit(tail);
    want.lit(b);
    got.lit(b);
    let (want, got) = (accept(&want), accept(&got));
    if dump(&want.node) != dump(&got.node) {
        fail("separators change the program");
    }
    cover(1);
}

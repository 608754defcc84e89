use crate::rt::*;
use ruruby_parse::*;

/// Parses the text and, on an error, renders its location. Nothing may panic or run forever.
pub fn total(s: &Src) {
    match Parser::parse_program(s.text(), "t.rb") {
        Ok(r) => {
            cover(1);
            out(r.lvar_collector.len() as u64)
        }
        Err(e) => {
            cover(2);
            out(1000 + e.source_info.get_location(&e.loc).len() as u64);
        }
    }
}

/// Every program of `n` ASCII bytes.
#[no_mangle]
pub extern "C-unwind" fn h_total(n: u64) {
    let mut s = Src::new();
    for _ in 0..n {
        s.sym(ASCII);
    }
    total(&s)
}

/// (text before, text after) the bytes under test: every construct of the grammar, cut open.
static CTX: &[(&str, &str)] = &[
    ("\"", "\""),
    ("\"a", ""),
    ("\"\\", "\""),
    ("\"\\x", "\""),
    ("\"\\u", "\""),
    ("\"\\u{", "}\""),
    ("\"\\u12", "\""),
    ("\"#", "\""),
    ("\"#{", "}\""),
    ("\"#{1}", "\""),
    ("\"#{a}\" \"", "\""),
    ("'", "'"),
    ("`", "`"),
    ("`#", "`"),
    ("/", "/"),
    ("/\\", "/"),
    ("/[", "]/"),
    ("/#", "/"),
    ("/#{1}", "/"),
    ("/a/", ""),
    ("/a", "/x"),
    ("%", ")"),
    ("%", "a)"),
    ("%Q(", ")"),
    ("%q(", ")"),
    ("%w[", "]"),
    ("%i", "a b]"),
    ("%r{", "}"),
    ("%x<", ">"),
    ("%Q(#{1}", ")"),
    (":", ""),
    (":\"", "\""),
    (":'", "'"),
    ("?", ""),
    ("?\\", ""),
    ("<<", "\nx\nA\n"),
    ("<<A", "\nx\nA\n"),
    ("<<A\n", "A\n"),
    ("<<A\n#", "\nA"),
    ("<<-A\n", "A"),
    ("<<'A'\n", "A\n"),
    ("<<`A`\n#{", "}\nA\n"),
    ("f(<<A)\nx\n", "A\n"),
    ("f(<<A,", "<<B)\nA\nB\n"),
    ("$", ""),
    ("$1", ""),
    ("$42949672", ""),
    ("@", ""),
    ("@@", ""),
    ("0x", ""),
    ("0b", ""),
    ("0o", ""),
    ("1.", ""),
    ("1e", ""),
    ("9223372036854775", ""),
    ("-", ""),
    ("-1", ""),
    ("a.", ""),
    ("a&.", ""),
    ("a::", ""),
    ("A::", ""),
    ("a[", "]"),
    ("a,", "=1"),
    ("a,b", "1,2"),
    ("*", "=1"),
    ("a ", " b"),
    ("a=1;a", "a"),
    ("1", "2"),
    ("1 ? ", ":3"),
    ("f(", ")"),
    ("f(1,", ")"),
    ("f(a:", ")"),
    ("f(1=>", ")"),
    ("f ", " 1"),
    ("f {", "}"),
    ("f {|", "|1}"),
    ("f {|a,", "|}"),
    ("f {|(a", ")|}"),
    ("f do ", " end"),
    ("->", "{}"),
    ("->(", "){}"),
    ("{", "}"),
    ("{a", "1}"),
    ("{a:", "}"),
    ("[", "]"),
    ("[1,", "]"),
    ("(", ")"),
    ("def ", "\nend"),
    ("def f", "end"),
    ("def f(", ")end"),
    ("def f(a=", ")end"),
    ("def f a", "\nend"),
    ("def self.", ";end"),
    ("def A.", ";end"),
    ("def @a.", ";end"),
    ("class A", "\nend"),
    ("class ", "\nend"),
    ("class A<", "\nend"),
    ("class<<", "\nend"),
    ("module ", "\nend"),
    ("alias ", " b"),
    ("alias a ", ""),
    ("if ", "\n1 end"),
    ("if 1 ", " 2 end"),
    ("unless 1\n", "end"),
    ("if 1\n2\nels", "\nend"),
    ("while 1", "end"),
    ("until ", "do end"),
    ("for ", " in 1 do end"),
    ("for a in ", "do end"),
    ("for (a", ") in b;end"),
    ("case 1\nwhen ", "\nend"),
    ("case ", "when 1;2 end"),
    ("case\nwhen 1 then 2\n", "end"),
    ("begin\n", "end"),
    ("begin;rescue ", "end"),
    ("begin;rescue A=>", ";end"),
    ("begin;ensure ", "end"),
    ("1 while ", ""),
    ("1 rescue ", ""),
    ("return ", ""),
    ("break ", " if 1"),
    ("next", ""),
    ("redo", ""),
    ("yield", ""),
    ("yield ", "1"),
    ("super", ""),
    ("super(", ")"),
    ("defined? ", ""),
    ("defined?(", ")"),
    ("not ", "1"),
    ("a and ", "b"),
    ("a or", " b"),
    ("_1", ""),
    ("f{_1", "}"),
    ("f{_1;g{", "}}"),
    ("f{", "_1}"),
    ("a=", ""),
    ("a+=", ""),
    ("a||=", "b"),
    ("A=", ""),
    ("a.b=", "1"),
    ("a[1]", "=2"),
    ("#", "\n1"),
    ("a\\", "b"),
    ("=begin", "=end"),
    ("__LINE__", ""),
    ("__FILE__", ""),
    ("BEGIN", "{}"),
    ("undef ", ""),
    ("p ", " do end"),
    ("a..", ""),
    ("a...", "b"),
    ("!", ""),
    ("~", "a"),
    ("2**", "a"),
    ("&", ""),
    ("a ? b :", "c"),
    ("a ?", ":c"),
    (")", ""),
    ("}", ""),
    ("end", ""),
    ("1i", ""),
    ("def f(...)g(", ")end"),
    ("def f(a:", ")end"),
    ("def f(*", ")end"),
    ("def f(**", ")end"),
    ("def f(&", ")end"),
    ("def f(a,", "*b)end"),
];

/// Every program made of one of the constructs above with `n` arbitrary ASCII bytes inside.
#[no_mangle]
pub extern "C-unwind" fn h_total_ctx(n: u64) {
    let (a, b) = pick(CTX);
    let mut s = Src::new();
    s.lit(a);
    for _ in 0..n {
        s.sym(ASCII);
    }
    s.lit(b);
    total(&s)
}

/// Letters, digits, spaces, marks and symbols of two, three and four bytes, of display width 0, 1 and 2.
pub static MB: &[&str] = &[
    "\u{e9}", "\u{b2}", "\u{663}", "\u{a0}", "\u{85}", "\u{301}", "\u{3042}", "\u{ff11}", "\u{2028}", "\u{200b}",
    "\u{feff}", "\u{20ac}", "\u{1d11e}", "\u{1d7d8}", "\u{1f600}", "\u{10ffff}",
];

/// Constructs with a multibyte character and `n` arbitrary ASCII bytes after it.
#[no_mangle]
pub extern "C-unwind" fn h_total_mb(n: u64) {
    let (a, b) = pick(CTX);
    let mut s = Src::new();
    s.lit(a);
    s.lit(pick(MB));
    for _ in 0..n {
        s.sym(ASCII);
    }
    s.lit(b);
    total(&s)
}

/// Programs of `n` characters, one of them a multibyte character, the others arbitrary ASCII bytes.
#[no_mangle]
pub extern "C-unwind" fn h_total_mix(n: u64) {
    let mut s = Src::new();
    let at = choose(n as usize);
    for i in 0..n as usize {
        if i == at {
            s.lit(pick(MB));
        } else {
            s.sym(ASCII);
        }
    }
    total(&s)
}

//! The work of the parser (bytes it allocates: tokens, nodes, copies of its state) grows in proportion to the program.
use crate::h_err::FORMS;
use crate::rt::*;
use ruruby_parse::*;
use std::alloc::{GlobalAlloc, Layout, System};

static mut BYTES: usize = 0;
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES += l.size();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        BYTES += l.size();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            BYTES += n - l.size();
        }
        System.realloc(p, l, n)
    }
}

/// Bytes allocated while parsing; whether the program is accepted.
fn work(s: &Src) -> (usize, bool) {
    let t = s.text();
    let b = unsafe { BYTES };
    let r = Parser::parse_program(t, "t.rb");
    let a = unsafe { BYTES };
    (a - b, r.is_ok())
}
/// The pieces of a form before and behind its hole `at`, parenthesised where the hole needs it.
fn halves(k: usize, at: usize) -> (String, String) {
    let mut a = String::new();
    let mut b = String::new();
    let mut h = 0;
    let mut past = false;
    let mut put = |past: bool, t: &str| {
        let o = if past { &mut b } else { &mut a };
        if let (Some(x), Some(y)) = (o.bytes().last(), t.bytes().next()) {
            if WORD.has(x) && WORD.has(y) {
                o.push(' ')
            }
        }
        o.push_str(t)
    };
    put(false, "(");
    for t in FORMS[k] {
        if t.1 == b'E' || t.1 == b'P' {
            if h == at {
                put(false, " (");
                past = true;
                put(true, ")");
            } else {
                put(past, " 2");
            }
            h += 1;
        } else {
            put(past, t.0)
        }
    }
    put(true, ")");
    (a, b)
}
fn holes(k: usize) -> usize {
    FORMS[k].iter().filter(|x| x.1 == b'E' || x.1 == b'P').count()
}
fn pick_form() -> (String, String, usize) {
    let k = choose(FORMS.len());
    let n = holes(k);
    assume(n > 0);
    let (a, b) = halves(k, choose(n));
    (a, b, k)
}
fn check(w: &dyn Fn(usize) -> Src, n: usize, accepted: bool) {
    let (a, x) = work(&w(n));
    let (b, y) = work(&w(n * 2));
    let (c, z) = work(&w(n * 4));
    if accepted {
        ck(x && y && z, "rejected");
    } else {
        ck(!x && !y && !z, "accepted");
    }
    // (proportional: c - b = 2 * (b - a))
    #[cfg(feature = "native")]
    if (c - b) > 3 * (b - a) + 2000 {
        fail(&format!("the work grows faster than the program: {} {} {}", a, b, c))
    }
    ck((c - b) <= 3 * (b - a) + 2000, "the work grows faster than the program");
    out(a as u64 & 0);
    cover(1);
}
/// One construct nested in the same hole again and again (`n`, 2n, 4n levels).
#[no_mangle]
pub extern "C-unwind" fn h_work_nest(n: u64) {
    let (a, b, _) = pick_form();
    // (a class cannot be defined in a method)
    check(
        &|d| {
            let mut s = Src::new();
            for _ in 0..d {
                s.lit(&a);
            }
            s.sym(Set::range(b'1', b'9'));
            for _ in 0..d {
                s.lit(&b);
            }
            s
        },
        n as usize,
        true,
    )
}
/// Two constructs nested in one another by turns.
#[no_mangle]
pub extern "C-unwind" fn h_work_pair(n: u64) {
    let (a, b, k) = pick_form();
    let (c, e, j) = pick_form();
    let is = |k: usize, w: &str| FORMS[k][0].0.starts_with(w);
    assume(!((is(k, "def") && (is(j, "class C") || is(j, "class") || is(j, "module"))) || (is(j, "def") && (is(k, "class") || is(k, "module")))));
    check(
        &|d| {
            let mut s = Src::new();
            for _ in 0..d {
                s.lit(&a).lit(&c);
            }
            s.sym(Set::range(b'1', b'9'));
            for _ in 0..d {
                s.lit(&e).lit(&b);
            }
            s
        },
        n as usize,
        true,
    )
}
/// The same construct cut off in its innermost hole.
#[no_mangle]
pub extern "C-unwind" fn h_work_cut(n: u64) {
    let (a, _, _) = pick_form();
    check(
        &|d| {
            let mut s = Src::new();
            for _ in 0..d {
                s.lit(&a);
            }
            s
        },
        n as usize,
        false,
    )
}
/// (before, what is repeated, between, behind)
static ROW: &[(&str, &str, &str, &str)] = &[
    ("", "a", "\n", ""),
    ("", "a", ";", ""),
    ("", "a = 1", "\n", ""),
    ("[", "1", ", ", "]"),
    ("{", "1 => 2", ", ", "}"),
    ("{", "a: 2", ", ", "}"),
    ("f(", "1", ", ", ")"),
    ("f(", "k: 1", ", ", ")"),
    ("f(", "*a", ", ", ")"),
    ("f ", "a", ", ", ""),
    ("", "a", ", ", " = 1"),
    ("a, b = ", "1", ", ", ""),
    ("", "1", " + ", ""),
    ("", "1", " ** ", ""),
    ("", "a", " && ", ""),
    ("", "a", " and ", ""),
    ("", "a", " = ", ""),
    ("", "a", ".", ""),
    ("", "a(1)", ".", ""),
    ("", "a", "\n.", ""),
    ("", "a {}", ".", ""),
    ("a", "[1]", "", ""),
    ("A", "::B", "", ""),
    ("", "!", "", "a"),
    ("", "-", "", "a"),
    ("", "- ", "", "1"),
    ("", "a ? 1", " : ", " : 2"),
    ("1", " if 2", "", ""),
    ("1", " rescue 2", "", ""),
    ("if 1", "\nelsif 2", "", "\nend"),
    ("case 1", "\nwhen 2", "", "\nend"),
    ("case 1\nwhen ", "2", ", ", "\nend"),
    ("begin", "\nrescue A", "", "\nend"),
    ("", "\"a\"", " ", ""),
    ("\"", "a", "", "\""),
    ("\"", "\\n", "", "\""),
    ("\"", "#{1}", "", "\""),
    ("\"", "#@a", "", "\""),
    ("'", "a", "", "'"),
    ("%w(", "a", " ", ")"),
    ("%Q(", "(", "", ""),
    ("/", "a", "", "/"),
    ("/", "#{1}", "", "/"),
    ("`", "#{1}", "", "`"),
    ("", "a", "", ""),
    ("@", "a", "", ""),
    (":", "a", "", ""),
    ("", "1", "", ""),
    ("0x", "f", "", ""),
    ("<<A\n", "x\n", "", "A\n"),
    ("<<A\n", "#{1}\n", "", "A\n"),
    ("", "<<A\nx\nA\n", "", ""),
    ("f(", "<<A", ", ", ")\n"),
    ("", "# c\n", "", ""),
    ("", "\n", "", ""),
    ("", " ", "", "1"),
    ("", "1", " \\\n + ", ""),
    ("def f(", "a", "", ")\nend"),
    ("def f;", "a", ";", ";end"),
    ("", "def f;end", ";", ""),
    ("", "class A;end", ";", ""),
    ("f {", "a", ";", "}"),
    ("", "->{}", ";", ""),
    ("", "f {|x| x}", ";", ""),
    ("", "if 1;end", ";", ""),
    ("for a in ", "b", ".", " do end"),
    ("while ", "b", ".", " do end"),
    ("alias a b;", "a", ";", ""),
];
/// A construct repeated side by side (`n`, 2n, 4n times).
#[no_mangle]
pub extern "C-unwind" fn h_work_row(n: u64) {
    let (a, m, t, b) = pick(ROW);
    let bad = (a, m) == ("%Q(", "(") || (a, m) == ("f(", "<<A");
    check(
        &|d| {
            let mut s = Src::new();
            s.lit(a);
            for i in 0..d {
                if i > 0 {
                    s.lit(t);
                }
                s.lit(m);
            }
            s.lit(b);
            s
        },
        n as usize,
        !bad,
    )
}

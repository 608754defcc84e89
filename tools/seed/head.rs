#![allow(dead_code, unused_imports)]
use ruruby_parse::*;

fn parse(s: &str) -> Result<ParseResult, ParseErr> {
    Parser::parse_program(s.to_string(), "t.rb")
}
/// The syntax tree without locations.
fn tree(s: &str) -> String {
    match parse(s) {
        Ok(r) => strip(&format!("{:?}", r.node)),
        Err(e) => format!("error {:?} {:?}", e.kind, e.loc),
    }
}
fn strip(d: &str) -> String {
    let mut o = String::new();
    let mut rest = d;
    while let Some(i) = rest.find("Loc(") {
        o.push_str(&rest[..i]);
        let j = rest[i..].find(')').unwrap();
        rest = &rest[i + j + 1..];
    }
    o.push_str(rest);
    o
}
fn node(s: &str) -> NodeKind {
    parse(s).unwrap_or_else(|e| panic!("{:?} rejected: {:?} {:?}", s, e.kind, e.loc)).node.kind
}
fn err(s: &str) -> ParseErr {
    match parse(s) {
        Ok(r) => panic!("{:?} accepted: {:?}", s, r.node),
        Err(e) => e,
    }
}
fn eq(a: &str, b: &str) {
    assert_eq!(tree(a), tree(b), "{:?} and {:?}", a, b);
    assert!(parse(a).is_ok(), "{:?} rejected", a);
}
fn ne(a: &str, b: &str) {
    assert_ne!(tree(a), tree(b), "{:?} and {:?}", a, b);
}
fn string(s: &str) -> String {
    match node(s) {
        NodeKind::String(s) => s,
        k => panic!("{:?} is {:?}", s, k),
    }
}


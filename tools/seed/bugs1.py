L = "src/parser/lexer.rs"; P = "src/parser.rs"; X = "src/parser/expression.rs"; LI = "src/parser/literals.rs"; D = "src/parser/define.rs"; F = "src/parser/flow_control.rs"; LV = "src/lvar_collector.rs"; SI = "src/source_info.rs"; N = "src/node.rs"; T = "src/token.rs"

bug("p06-unicode-len", "P06", L, "                if i == 6 {", "                if i == 8 {",
    "a \\u{..} escape with seven digits that starts with a large digit, i.e. more than six hex digits",
    "the six digit limit of unicode escapes is not enforced", 'assert!(parse("\\"\\\\u{0000041}\\"").is_err()); let _ = parse("\\"\\\\u{fffffffff}\\"");')
bug("p02-dynconst", "P02", X, '                        return Err(error_unexpected(lhs.loc(), "Dynamic constant assignment."))', '                        return Err(error_unexpected(self.prev_loc(), "Dynamic constant assignment."))',
    "a constant assigned inside a method", "the error points at the = instead of the constant",
    'assert_eq!(err("def f\\n  Foo = 1\\nend").loc, Loc(8, 10));')
bug("p02-expect-ident", "P02", P, '            _ => Err(error_unexpected(self.prev_loc(), "Expect identifier.")),', '            _ => Err(error_unexpected(self.loc(), "Expect identifier.")),',
    "something else than a name where a parameter name has to stand", "the error is located at the token behind the wrong one",
    'assert_eq!(err("def f(a, 33, b)\\nend").loc, Loc(9, 10)); assert_eq!(err("for 12 in a\\nend").loc, Loc(4, 5));')
bug("p03-ternary-eof", "P03", X, "        if self.consume_punct_no_term(Punct::Question)? {\n            let then_ = self.parse_arg()?;", "        if self.consume_punct_no_term(Punct::Question)? {\n            if self.peek()?.is_eof() {\n                return Err(error_unexpected(loc, \"Expect an expression.\"));\n            }\n            let then_ = self.parse_arg()?;",
    "a program cut off after the ? of a conditional", "an incomplete program is reported as a syntax error",
    'assert_eq!(err("x = 1 ?").kind, ParseErrKind::UnexpectedEOF); assert_eq!(err("x = 1 ? \\n").kind, ParseErrKind::UnexpectedEOF);')
bug("p04-max", "P04", L, "                    Some(i) => NReal::Integer(i),", "                    Some(i) if i < i64::MAX => NReal::Integer(i),\n                    Some(_) => NReal::Bignum(b),",
    "the single literal 9223372036854775807", "the largest 64 bit integer becomes a big integer",
    'assert_eq!(node("9223372036854775807"), NodeKind::Integer(i64::MAX)); assert_eq!(node("9223372036854775806"), NodeKind::Integer(i64::MAX - 1));')
bug("p05-exp-underscore", "P05", L, "            loop {\n                if let Some(ch) = self.consume_numeric() {\n                    s.push(ch);\n                } else if self.consume('_') {\n                } else {\n                    break;\n                }\n            }\n            float_flag = true;", "            while let Some(ch) = self.consume_numeric() {\n                s.push(ch);\n            }\n            float_flag = true;",
    "an underscore between the digits of an exponent", "the literal is cut off at the underscore",
    'assert_eq!(node("1e1_0"), NodeKind::Float(1e10)); assert_eq!(node("2.5e1_1"), NodeKind::Float(2.5e11));')
bug("p06-x80", "P06", L, "                if c > 0x7f {", "                if c > 0x80 {",
    "exactly the escape \\x80", "the byte 0x80 becomes the character U+0080 (two bytes)",
    'match node("\\"\\\\x80\\"") { NodeKind::Bytes(b) => assert_eq!(b, vec![0x80u8]), k => panic!("{:?}", k) }')
bug("p08-nested-square", "P08", L, "            '[' => (Some('['), ']'),", "            '[' => (None, ']'),",
    "nested square brackets in a % literal", "the literal ends at the first closing bracket",
    'eq("%w[a [b] c]", "%w(a [b] c)"); eq("%q[[]]", "\'[]\'");')
bug("p10-shr-right", "P10", X, "                lhs = Node::new_binop(BinOp::Shr, lhs, self.parse_arg_add()?);", "                lhs = Node::new_binop(BinOp::Shr, lhs, self.parse_arg_shift()?);",
    "two shifts of which the first is a right shift", "right shifts group to the right",
    'eq("1 >> 2 << 3", "(1 >> 2) << 3"); eq("1 << 2 >> 3", "(1 << 2) >> 3");')
bug("p11-pos-exp", "P11", X, "let lhs = Node::new_unop(UnOp::Pos, self.parse_unary()?, loc);", "let lhs = Node::new_unop(UnOp::Pos, self.parse_exponent()?, loc);",
    "unary plus in front of a power", "unary plus binds weaker than **",
    'eq("+a ** 2", "(+a) ** 2"); eq("!+a ** 2", "(!(+a)) ** 2");')
bug("p12-splat-lhs", "P12", X, "            return Ok(Node::new_splat(self.check_lhs(*lhs)?, loc));", "            return Ok(Node::new_splat(*lhs, loc));",
    "a splat target in a multiple assignment", "the splatted variable is not registered as a local variable",
    'let r = parse("a, *b = 1, 2\\nb").unwrap(); assert_eq!(r.lvar_collector.table().len(), 2); assert!(!tree("*a, b = 1\\na").contains("Ident"));')
bug("p13-while-do", "P13", F, "        let cond = self.parse_expr()?;\n        self.suppress_do_block = old_suppress_do_flag;\n        self.parse_do()?;\n        let body = self.parse_comp_stmt()?;\n        self.expect_reserved(Reserved::End)?;\n        self.loop_stack.pop().unwrap();", "        let cond = self.parse_expr()?;\n        self.suppress_do_block = false;\n        self.parse_do()?;\n        let body = self.parse_comp_stmt()?;\n        self.expect_reserved(Reserved::End)?;\n        self.loop_stack.pop().unwrap();",
    "a loop in the condition of a loop (or head of a for), followed by a call before the do", "the do of the outer loop is taken as a block of the call",
    'eq("for i in while a do b end.c do d end", "for i in (while a do b end.c)\\n d end");')
bug("p14-for-depth", "P14", F, "            let outer = self.add_local_var_if_new(&name);\n            vars.push((outer, name));", "            let _ = self.add_local_var_if_new(&name);\n            vars.push((0, name));",
    "a for loop in a block whose variable already exists outside the block", "the loop variable is the block's own one",
    'assert!(tree("a = 1; f { for a in b do c end }").contains("param: [(1, \\"a\\")]"), "{}", tree("a = 1; f { for a in b do c end }"));')
bug("p15-heredoc-ctx", "P15", LI, "            extern_context: self.extern_context.clone(),", "            extern_context: None,",
    "an interpolated variable of the surrounding context in a here document of an evaluated program", "the variable is parsed as a method call",
    '''#[derive(Debug, Clone)]
struct C;
impl LocalsContext for C { fn find_lvar(&self, id: &str) -> Option<usize> { if id == "x" { Some(2) } else { None } } }
let t = |s: &str| format!("{:?}", Parser::parse_program_eval(s.to_string(), "t".into(), Some(&C)).unwrap().node);
assert!(t("x").contains("LocalVar")); assert!(t("<<A\\na#{x}\\nA\\n").contains("LocalVar"), "{}", t("<<A\\na#{x}\\nA\\n"));''')
bug("p16-case", "P16", LV, "        self.0.iter().position(|i| i == name).map(LvarId::from)", "        self.0.iter().position(|i| i.eq_ignore_ascii_case(name)).map(LvarId::from)",
    "two names that differ only in case", "the second name gets the slot of the first",
    'let mut c = LvarCollector::new(); c.insert("ab"); c.insert("aB"); assert_eq!(c.len(), 2); assert_eq!(parse("a_b = 1; a_B = 2").unwrap().lvar_collector.table().len(), 2);')
bug("p17-opt-post", "P17", P, "                        Kind::Required => state = Kind::Optional,\n                        Kind::Optional => {}", "                        Kind::Required => state = Kind::Optional,\n                        Kind::Optional | Kind::PostReq => {}",
    "an optional parameter behind a parameter that follows an optional one", "a wrong parameter list is accepted",
    'assert!(parse("def f(a=1,b,c=2);end").is_err()); assert!(parse("def f(a=1,b,c);end").is_ok());')
bug("p18-hashsplat", "P18", X, "                arglist.hash_splat.push(self.parse_arg()?);", "                let node = self.parse_arg()?;\n                arglist.hash_splat.insert(0, node);",
    "a call with two double splat arguments", "double splat arguments are recorded in reverse order",
    'let t = tree("f(**aa, **bb)"); assert!(t.find("aa").unwrap() < t.find("bb").unwrap());')
bug("p20-trim", "P20", L, "                if line.trim_start() == &self.code[delimiter.clone()] {", "                if line.trim() == &self.code[delimiter.clone()] {",
    "a line of a <<- here document that is the tag followed by a blank", "the here document ends too early",
    'assert_eq!(string("<<-A\\nx\\nA \\ny\\n A\\n"), "x\\nA \\ny\\n");')
bug("p22-minus-at", "P22", L, "                '+' | '-' => {\n                    self.consume('@');\n                }", "                '-' => {}\n                '+' => {\n                    self.consume('@');\n                }",
    "the method name -@ in a symbol, alias or singleton definition", "the @ is cut off",
    'assert_eq!(node(":-@"), NodeKind::Symbol("-@".to_string())); assert_eq!(node(":+@"), NodeKind::Symbol("+@".to_string())); assert!(parse("def self.-@; end").is_ok());')
bug("p23-crlf", "P23", L, "            Some(ch) if ch.is_ascii_whitespace() => {\n                self.pos += ch.len_utf8();\n                true", "            Some(ch) if ch.is_ascii_whitespace() && ch != '\\r' => {\n                self.pos += ch.len_utf8();\n                true",
    "a program with carriage returns before its line breaks", "the carriage return is an unexpected character",
    'eq("a = 1\\r\\nb = 2\\r\\n", "a = 1\\nb = 2\\n");')
bug("p24-scope-loc", "P24", X, "                        prefix.push(parent_name);\n                        Node::new_const(name, toplevel, parent, prefix, self.prev_loc().merge(loc))", "                        prefix.push(parent_name);\n                        Node::new_const(name, toplevel, parent, prefix, self.prev_loc())",
    "a scoped constant", "a constant path is located at its last part",
    'assert_eq!(parse("1;A::B").unwrap().node.loc, Loc(0, 5)); match parse("1;A::B").unwrap().node.kind { NodeKind::CompStmt(v) => assert_eq!(v[1].loc, Loc(2, 5)), k => panic!("{:?}", k) }')
bug("p25-newline", "P25", SI, "                if line.end >= loc.0 && line.top <= loc.0 {", "                if line.end > loc.0 && line.top <= loc.0 {",
    "the line number of a location at a line break", "the number of the last line is reported",
    'let s = SourceInfo::new("t", "ab\\ncd\\nef\\n"); assert_eq!(s.get_line(&Loc(2, 2)), 1); assert_eq!(s.get_line(&Loc(3, 3)), 2);')
bug("p26-for-class", "P26", P, "                ScopeKind::Class | ScopeKind::Eval => return false,\n                ScopeKind::Block | ScopeKind::For => {}", "                ScopeKind::Class | ScopeKind::Eval | ScopeKind::For => return false,\n                ScopeKind::Block => {}",
    "a class in a for loop in a method", "a class definition in a method body is accepted",
    'assert!(parse("def f; for a in b do class C; end; end; end").is_err()); assert!(parse("for a in b do class C; end; end").is_ok());')
bug("p27-hash-const", "P27", N, "            .all(|(k, v)| k.is_const_expr() && v.is_const_expr());", "            .all(|(_, v)| v.is_const_expr());",
    "a hash with a computed key and a literal value", "the hash is flagged constant",
    'assert!(tree("{a() => 1}").contains("false)"), "{}", tree("{a() => 1}")); match node("{x() => 1}") { NodeKind::Hash(_, c) => assert!(!c), k => panic!("{:?}", k) }')
bug("p30-ensure-else", "P30", X, "        let ensure = if self.consume_reserved(Reserved::Ensure)? {", "        let ensure = if else_.is_none() && self.consume_reserved(Reserved::Ensure)? {",
    "a begin block with both else and ensure", "ensure after else is rejected",
    'assert!(parse("begin\\na\\nrescue\\nb\\nelse\\nc\\nensure\\nd\\nend").is_ok());')

bug("p01-symbol-bytes", "P01", LI, "            TokenKind::StringLit(ident) => ident.to_owned().as_string()?,", "            TokenKind::StringLit(ident) => ident.to_owned().as_string().unwrap(),",
    "a quoted symbol that is not UTF-8", "parsing panics", 'let _ = parse(":\\"\\\\xff\\""); assert!(parse(":\\"a\\"").is_ok());')
bug("p02-expect-reserved", "P02", P, "            TokenKind::Reserved(reserved) if *reserved == expect => Ok(()),\n            t => Err(error_unexpected(\n                self.prev_loc(),", "            TokenKind::Reserved(reserved) if *reserved == expect => Ok(()),\n            t => Err(error_unexpected(\n                self.lexer.peek_token().map(|t| t.loc).unwrap_or_default(),",
    "another token where a reserved word is expected", "the error is located at the token behind the wrong one",
    'assert_eq!(err("for a b in c do end").loc, Loc(6, 6));')
bug("p03-lambda-eof", "P03", LI, "        } else {\n            let loc = self.loc();\n            let tok = self.get()?;\n            return Err(error_unexpected(\n                loc,\n                format!(\"Expected 'do'", "        } else {\n            let loc = self.loc();\n            let tok = self.peek()?;\n            return Err(error_unexpected(\n                loc,\n                format!(\"Expected 'do'",
    "a program cut off between the parameters and the body of a lambda", "an incomplete program is reported as a syntax error",
    'assert_eq!(err("f = ->(a)").kind, ParseErrKind::UnexpectedEOF);')
bug("p05-float-imag", "P05", L, "        if self.consume('i') {\n            Ok(self.new_imaginarylit(number))", "        if !float_flag && self.consume('i') {\n            Ok(self.new_imaginarylit(number))",
    "an imaginary literal with a fraction or an exponent", "only integers can be imaginary",
    'assert_eq!(node("2.5i"), NodeKind::Imaginary(NReal::Float(2.5)));')
bug("p06-u-spaces", "P06", L, "                        while self.consume(' ') {}\n", "                        self.consume(' ');\n",
    "two blanks between the code points of \\u{..}", "the escape is rejected", 'assert_eq!(string("\\"\\\\u{41  42 }\\""), "AB");')
bug("p07-q-backslash", "P07", L, "            Some('q') => {\n                let s = self.read_string_literal_single(open, term, false)?;", "            Some('q') => {\n                let s = self.read_string_literal_single(open, term, true)?;",
    "an escaped backslash or delimiter in %q", "backslashes stay doubled", 'assert_eq!(string("%q(a\\\\\\\\b)"), "a\\\\b");')
bug("p08-i-newline", "P08", LI, "                'i' => {\n                    let ary = content\n                        .split(|c| c == ' ' || c == '\\n')", "                'i' => {\n                    let ary = content\n                        .split(' ')",
    "a %i list over several lines", "line breaks become part of the symbols", 'eq("%i[a\\nb]", "[:a, :b]");')
bug("p09-adjacent-delim", "P09", LI, "                                delimiter = next_delimiter;\n", "                                let _ = next_delimiter;\n",
    "an interpolated literal in brackets followed by an adjacent interpolated string literal", "the second literal is read up to the delimiter of the first",
    'eq("%Q(a#{1}b)\\"c#{2}d\\"", "\\"a#{1}bc#{2}d\\"");')
bug("p10-land-right", "P10", X, "            let rhs = self.parse_arg_eq()?;\n            lhs = Node::new_binop(BinOp::LAnd, lhs, rhs);", "            let rhs = self.parse_arg_logical_and()?;\n            lhs = Node::new_binop(BinOp::LAnd, lhs, rhs);",
    "two && in a row", "&& groups to the right", 'eq("a && b && c", "(a && b) && c");')
bug("p10-match-chain", "P10", X, "        } else if self.consume_punct_no_term(Punct::Match)? {\n            let rhs = self.parse_arg_comp()?;", "        } else if self.consume_punct_no_term(Punct::Match)? {\n            let rhs = self.parse_arg_eq()?;",
    "=~ followed by another operator of its level", "a chain of non-associative operators is accepted", 'assert!(parse("1 =~ 2 == 3").is_err());')
bug("p11-not-exp", "P11", X, "let lhs = Node::new_unop(UnOp::Not, self.parse_unary()?, loc);", "let lhs = Node::new_unop(UnOp::Not, self.parse_exponent()?, loc);",
    "! in front of a power", "! binds weaker than **", 'eq("!1 ** 2", "(!1) ** 2");')
bug("p12-two-splats", "P12", X, "                splat_flag = true;\n", "", "two splats in a multiple assignment, none of them first", "two splat targets are accepted",
    'assert!(parse("a, *b, *c = 1").is_err());')
bug("p12-discard", "P12", X, "                mlhs.push(Node::new_discard(loc));\n                break;", "                break;", "a trailing comma on the left of a multiple assignment", "a, = b assigns the whole array",
    'ne("a, = b", "a = b"); assert!(tree("a, = b").contains("DiscardLhs"));')
bug("p13-rescue-mod", "P13", X, "                let rescue = self.parse_expr()?;\n", "                let rescue = self.parse_stmt()?;\n",
    "a rescue modifier followed by another modifier", "the later modifier applies to the rescue value only", 'eq("a rescue b if c", "(a rescue b) if c");')
bug("p13-until-flag", "P13", X, "                node = Node::new_while_postfix(cond, node, false, loc);", "                node = Node::new_while(cond, node, false, loc);",
    "an until modifier", "the loop is not flagged as a modifier (a begin body would not run first)", 'assert!(tree("begin\\na\\nend until b").contains("postfix: true"));')
bug("p14-sclass-scope", "P14", D, "        let loc = loc.merge(self.prev_loc());\n        self.consume_term()?;\n\n        self.scope.push(LvarScope::new_class(None));", "        let loc = loc.merge(self.prev_loc());\n        self.consume_term()?;\n\n        self.scope.push(LvarScope::new_block(None));",
    "a singleton class using a name assigned outside", "the outer variable is seen in the singleton class", 'assert!(tree("a = 1\\nclass << self\\na\\nend").contains("Ident"));')
bug("p16-block-kwrest", "P16", LV, "        let lvar = self.insert_new(val)?;\n        self.block = Some(lvar);", "        let lvar = self.insert_new(val)?;\n        self.block = self.kwrest.or(Some(lvar));",
    "a block parameter after a keyword rest parameter", "the slot of the block parameter is wrong", 'let mut c = LvarCollector::new(); c.insert_kwrest_param("a".into()); c.insert_block_param("b".into()); assert_eq!(c.block_param().unwrap().as_usize(), 1);')
bug("p17-destruct-dup", "P17", P, "            let loc = self.loc();\n            let name = self.expect_ident()?;\n            self.new_param(name.clone(), loc)?;\n            idents.push((name, loc));", "            let loc = self.loc();\n            let name = self.expect_ident()?;\n            self.scope_mut().lvar.insert(&name);\n            idents.push((name, loc));",
    "a destructuring parameter that repeats a name", "the repeated name is accepted", 'assert!(parse("f {|a, (b, a)| }").is_err());')
bug("p17-kwrest-order", "P17", P, "                    if state == Kind::KWRest {\n                        return Err(error_unexpected(\n                            loc,\n                            \"Keyword parameter is not", "                    if state > Kind::KWRest {\n                        return Err(error_unexpected(\n                            loc,\n                            \"Keyword parameter is not",
    "a keyword parameter after **rest", "a wrong order is accepted", 'assert!(parse("def f(**a, b: 1);end").is_err());')
bug("p18-super-do", "P18", X, "        } else if self.is_command() {\n            self.parse_arglist_block(None)?\n        } else {\n            return Ok(Node::new_super(None, loc));", "        } else if self.is_command() {\n            self.parse_arglist(None)?\n        } else {\n            return Ok(Node::new_super(None, loc));",
    "super with arguments, no parentheses, and a do-block", "the block is rejected", 'assert!(parse("def f; super 1 do 2 end; end").is_ok());')
bug("p18-trailing-pairs", "P18", X, "                                if let TokenKind::Punct(p) = self.peek()?.kind {", "                                if let TokenKind::Punct(p) = self.peek_no_term()?.kind {",
    "a trailing comma after => arguments with the closing parenthesis on the next line", "the call is rejected", 'eq("f(1=>2,\\n)", "f(1=>2)");')
bug("p19-prefix-order", "P19", X, "                        prefix.push(parent_name);\n", "                        prefix.insert(0, parent_name);\n",
    "a constant path of three or more parts in an expression", "the parts of the path are in the wrong order", 'match node("A::B::C") { NodeKind::Const { prefix, .. } => assert_eq!(prefix, vec!["A".to_string(), "B".to_string()]), k => panic!("{:?}", k) }')
bug("p20-last-line", "P20", L, "            let line = &self.code[start..end];\n", "            if next.is_err() {\n                return Err(Self::error_eof(self.pos));\n            }\n            let line = &self.code[start..end];\n",
    "a terminator on the last line without a line break behind it", "the here document is not terminated", 'assert_eq!(string("<<A\\nx\\nA"), "x\\n");')
bug("p21-x-tab", "P21", N, "                    } else if !ch.is_ascii_whitespace() {", "                    } else if ch != ' ' && ch != '\\n' {",
    "a tab in a free format regular expression", "the tab stays in the pattern", 'eq("/a\\tb/x", "/a b/x");')
bug("p21-x-escape", "P21", L, "                                if let Some(c) = self.consume_hex() {\n                                    x = x * 16 + c;", "                                if let Some(c) = self.consume_hex() {\n                                    x = (x << 4 | c) & 0x7f;",
    "a \\x escape above 7f in a regular expression", "the high bit is lost", 'assert!(tree("/\\\\xe3/").contains("xe3"));')
bug("p22-teq", "P22", P, '            Punct::TEq => Ok("==="),', '            Punct::TEq => Ok("=="),', "a definition of the method ===", "it is defined as ==", 'assert!(tree("def ===(a);end").contains("\\"===\\""));')
bug("p22-mcall-eq", "P22", X, "        let (id, loc) = self.read_method_name(false)?;", "        let (id, loc) = self.read_method_name(!self.suppress_acc_assign && self.defined_mode)?;",
    "an attribute assignment inside defined?", "the = becomes part of the method name", 'assert!(!tree("defined?(a.b = 1)").contains("b="));')
bug("p23-mb-comment", "P23", L, "                Some('\\n') | None => return,\n                Some(ch) => self.pos += ch.len_utf8(),", "                Some('\\n') | None => return,\n                Some(_) => self.pos += 1,",
    "a comment with a multibyte character", "the program ends at the comment", 'eq("a = 1 # \\u{e9}\\nb = 2", "a = 1\\nb = 2");')
bug("p24-heredoc", "P24", L, "        Lexer {\n            token_start_pos: pos,\n            pos,\n            heredoc_pos: 0,", "        Lexer {\n            token_start_pos: 0,\n            pos,\n            heredoc_pos: 0,",
    "a here document with interpretation of escapes", "its text is located at the beginning of the program", 'assert_eq!(parse("<<A\\nxyz\\nA\\n").unwrap().node.loc, Loc(4, 7));')
bug("p24-splat", "P24", X, "                    let loc = loc.merge(first_lhs.loc());\n                    let first_lhs = Node::new_splat(first_lhs, loc);", "                    let first_lhs = Node::new_splat(first_lhs, self.prev_loc());",
    "a splat as the first target of a multiple assignment", "the splat is located at its operand", 'assert_eq!(parse("*a, b = 1").unwrap().node.loc.0, 0);')
bug("p26-base", "P26", D, "            } => match prefix.pop() {", "            } => match (!prefix.is_empty()).then(|| prefix.remove(0)) {",
    "a class with a path of three or more parts", "the parts of the path are mixed up", 'assert!(tree("class A::B::C; end") != tree("class B::A::C; end")); match node("class A::B::C; end") { NodeKind::ClassDef { base: Some(b), .. } => match b.kind { NodeKind::Const { name, .. } => assert_eq!(name, "B"), k => panic!("{:?}", k) }, k => panic!("{:?}", k) }')
bug("p27-range-const", "P27", N, "        let is_const = start.is_integer() && end.is_integer();", "        let is_const = start.is_integer() || end.is_integer();",
    "a range with one literal and one computed end", "the range is flagged constant", 'match node("1..a") { NodeKind::Range { is_const, .. } => assert!(!is_const), k => panic!("{:?}", k) }')
bug("p27-index-empty", "P27", LI, "            if self.consume_punct(Punct::RBrace)? {\n                return Ok(Node::new_hash(kvp, loc.merge(self.prev_loc())));\n            };", "            if self.consume_punct_no_term(Punct::RBrace)? {\n                return Ok(Node::new_hash(kvp, loc.merge(self.prev_loc())));\n            };",
    "a hash whose closing brace stands on a line of its own after a trailing comma", "the hash is rejected", 'eq("{1=>2,\\n}", "{1=>2}");')
bug("p28-nth", "P28", L, "            while let Some(ch) = self.consume_numeric() {", "            if let Some(ch) = self.consume_numeric() {",
    "a numbered reference of three digits", "the digits behind the second are cut off", 'assert_eq!(node("$123"), NodeKind::SpecialVar(223));')
bug("p30-rescue-then", "P30", X, "                if !self.peek_punct_no_term(Punct::FatArrow) {\n                    exception = self.parse_mul_assign_rhs(None)?;\n                };", "                if !self.peek_punct_no_term(Punct::FatArrow) {\n                    exception = vec![self.parse_arg()?];\n                };",
    "a rescue clause with two exception classes", "the list is rejected", 'assert!(parse("begin\\na\\nrescue A, B => e\\nb\\nend").is_ok());')
bug("p31-key", "P31", T, "            TokenKind::Reserved(reserved) => reserved.to_str(),\n            _ => return None,", "            TokenKind::Reserved(reserved) if *reserved != Reserved::BEGIN && *reserved != Reserved::END => reserved.to_str(),\n            _ => return None,",
    "BEGIN or END as a hash key", "the hash is rejected", 'assert!(parse("{END: 1, if: 2}").is_ok());')

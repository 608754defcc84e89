L = "src/parser/lexer.rs"; P = "src/parser.rs"; X = "src/parser/expression.rs"; LI = "src/parser/literals.rs"; D = "src/parser/define.rs"; F = "src/parser/flow_control.rs"; LV = "src/lvar_collector.rs"; SI = "src/source_info.rs"; N = "src/node.rs"
prop("P01", "Parsing any text ends with a tree or an error, never a crash or a hang",
     "For every program text the parser returns either a syntax tree or a parse error. It never panics (overflow, slicing inside a character, unreachable code, unwrap), never loops forever, and never reads outside the text.",
     ["inputs"], "every UTF-8 text, standing alone or inside any literal, definition or argument list",
     "The tests parse a few dozen well formed snippets; malformed and truncated text is hardly touched, and a panic needs one particular byte at one particular place.",
     [L, P, X, LI, D, F], [("character level cursor `get`/`peek`", L), ("token errors propagated instead of unwrapped", P)],
     "h_total:0 h_total:1 h_total:2 h_total:3 h_total:4 h_total_ctx:0 h_total_ctx:1 h_total_ctx:2 h_total_mb:0 h_total_mb:1 h_total_mix:1 h_total_mix:2 h_total_mix:3",
     "every text of up to 4 ASCII bytes; every text of up to 2 ASCII bytes inside each of the surrounding contexts of h_total_ctx; 1 to 3 tokens of the token alphabet of h_total_mix; multibyte characters from a representative list; at most 6 million IR instructions per path (a longer path counts as a hang)",
     "longer arbitrary texts; nesting deep enough to exhaust the call stack; multibyte characters outside the list", deep="h_total_ctx:3")
prop("P04", "Integer literals denote exactly their value in every radix and size",
     "A decimal, hexadecimal, octal or binary literal, with underscores between digits and with an optional minus sign, yields exactly the number it denotes. Values that fit in 64 bits are plain integers, all others big integers, and a prefix without digits is rejected.",
     ["inputs"], "every digit string, radix, sign and underscore placement", "The tests know a handful of numbers; an off-by-one at the 64 bit edge or a wrong digit value shows only for particular digits.",
     [L, X], [("read_number_literal / new_radix_lit", L), ("negative literal folding", X)],
     "h_dec:1 h_dec:2 h_dec:3 h_dec:4 h_dec:5 h_dec_edge:2 h_radix:1 h_radix:2 h_radix:3 h_radix_edge:2 h_num_bad:0 h_num_long:12 h_num_long:18 h_num_long:25",
     "all decimal literals of 1-5 digits, all 0x/0o/0b literals of 1-3 digits, two symbolic digits after fixed heads around 2^63, 2^64 and 2^96, literals of up to 28 digits (128 bits) with two symbolic digits, four surroundings, four underscore patterns",
     "literals longer than 128 bits; more than five fully symbolic digits at once", deep="h_radix:4 h_num_long:22")
prop("P05", "Float and imaginary literals denote their value; dots and ranges stay apart",
     "A literal with a fraction or exponent yields the double nearest to its text, negated if signed, and an `i` suffix makes the number imaginary. A dot not followed by a digit is a method call and two or three dots are a range.",
     ["inputs"], "every arrangement of integer, fraction and exponent digits, signs, underscores and suffixes", "Tests hold two or three floats.",
     [L, X], [("read_number_literal", L)],
     "h_float:110 h_float:111 h_float:221 h_float:101 h_float:112 h_float:333 h_imag:1 h_imag:2 h_imag:3 h_num_dot:0",
     "1-3 integer, 0-3 fraction and 0-3 exponent digits, both signs, underscores, E/e/e+/e-",
     "conversion of the digit text to the nearest double is the standard library's and enters as an uninterpreted function of the canonical digit text")

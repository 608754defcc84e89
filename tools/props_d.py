prop("P20", "Here documents hold exactly their lines and leave the rest alone",
     "A here document (`<<A`, `<<-A`, with bare, double, single or back quoted tag) holds exactly the lines between the line it starts on and the first line that is its terminator; the rest of that line, further here documents on it and the lines after the terminator are parsed as if the text were not there; single quoted tags take the text raw, others interpolate in the surrounding scope.",
     ["inputs"], "every tag, every text, every place on the line and in the program", "Tests hold a few here documents; a line resembling the terminator or a second one on the line is not tried.",
     [L, LI], [("read_heredocument / heredoc_pos", L), ("parse_heredocument", LI)],
     "h_here:0 h_here:1 h_here:2 h_here_ctx:0 h_here_two:2 h_here_seq:0 h_here_not:0",
     "eight tag forms, tags of 1-2 symbolic characters, 0-2 lines of ten kinds (symbolic text, almost-terminators, escapes, multibyte), 16 places on the line, two here documents per line",
     "`<<~` (not dedented by the parser); tags with spaces", deep="h_here:3 h_here_two:3")
prop("P21", "Regular expressions: text, escapes, options and free format",
     "A regular expression literal keeps its text with exactly the documented translations (\\s, \\e, \\xHH, octal, \\b inside a class, numeric back references kept), its options, and its interpolated pieces in order; /x drops white space and comments outside classes and escapes only; `/` begins a literal where an operand may start and divides elsewhere.",
     ["inputs"], "every sequence of characters, escapes, classes, pieces, options and surroundings", "Tests hold two or three literals.",
     [L, LI, N], [("read_regexp_sub", L), ("check_postfix", L), ("FreeFormatContext", N)],
     "h_re:1 h_re:2 h_re_opt:0 h_re_opt:1 h_re_opt:2 h_re_free:1 h_re_free:2 h_re_free:3 h_re_interp:1 h_re_interp:2 h_re_free_interp:0 h_re_ctx:0 h_re_div:0 h_re_open:0",
     "sequences of 1-2 items of nine kinds with symbolic characters; 0-2 option letters; 1-3 free format items; 1-2 interpolated pieces of eight kinds; 26 surroundings",
     "escapes inside %r (kept as written)", deep="h_re:3 h_re_opt:3 h_re_free:4")
prop("P22", "Method, symbol and alias names are read whole and exactly",
     "The name in `def name`, `def recv.name`, `recv.name`, `:name` and `alias new old` is exactly the one written: plain, constant-like, `?`/`!`/`=` suffixed, operator, reserved word or multibyte; what follows the name is not swallowed and nothing is cut off.",
     ["inputs"], "every name and every text after it", "Tests try a few operator names.",
     [L, P, D, LI], [("read_method_name / read_method_ext / read_symbol_literal", L), ("parse_op_definable", P), ("alias_name", D)],
     "h_def_name:0 h_defs_name:0 h_mcall_name:0 h_sym_name:0 h_sym_bad:0 h_alias:0",
     "names of 2 symbolic characters with every suffix, all reserved words, 30 words resembling them, all operators; five kinds of text after the name",
     "definition of ** ^ ~ ! !~ ` without a receiver (unsupported by the parser); global variable symbols; name `")
prop("P27", "Arrays, hashes, ranges and index expressions keep every element in order",
     "Array, hash and range literals and index expressions contain exactly the written elements in order, whatever the white space, line breaks and trailing commas; `k:`, `\"k\":` and `=>` keys are told apart; splats stay splats; the constant flag is set iff every element is a constant literal; malformed ones are rejected.",
     ["inputs"], "every list of elements, separators and surroundings", "Tests try a few lists; a wrong constant flag or dropped element shows for particular element kinds.",
     [X, LI, N], [("parse_hash_literal", LI), ("new_array / new_hash / new_range / is_const_expr", N), ("parse_mul_assign_rhs", X)],
     "h_array:0 h_array:11 h_array:2 h_hash:0 h_hash:1 h_hash:2 h_range:0 h_index:0 h_coll_bad:0",
     "0-2 elements of 24 kinds, 0-2 pairs with 11 key kinds, all pairs of 10 range ends, 0-2 indices; at most one (two) layout choices differ from the plain one", "longer lists (3 elements in the thorough tier); `**` in hash literals, endless ranges (unsupported)",
     deep="h_array:3 h_array:12 h_hash:11 h_hash:12")
prop("P28", "Instance, class, global and special variables keep kind and name",
     "`@a`, `@@a`, `$a` and constants become variables of that kind with exactly the written name; `$1`.. , `$&`, `$'`, `$:`, `$\"` and their long names become the special variable they denote, other `$` punctuation a global variable; reading and assigning the same text mean the same variable; a sigil without a name is rejected.",
     ["inputs"], "every name and surrounding", "Tests check six special variables.",
     [L, X], [("read_global_var / read_identifier", L)],
     "h_var:0 h_var_rw:0 h_var_bad:0", "names of 1-2 symbolic characters and longer fixed ones, nine kinds, nine surroundings", "longer symbolic names")
prop("P31", "Reserved words and identifiers are told apart everywhere",
     "A word is reserved iff it is exactly one of the reserved words: longer, shorter or differently cased words are ordinary identifiers or constants that can be read, assigned and called; reserved words cannot be assigned or used as parameters, yet name methods after a dot, in definitions, as symbols and hash keys; true/false/nil/self/__LINE__/__FILE__ denote their value.",
     ["inputs"], "every word in every position", "Tests cannot try all words.",
     [L, X], [("check_reserved", L), ("parse_primary pseudo variables", X)],
     "h_ident:2 h_ident:3 h_reserved:0 h_reserved_name:0 h_pseudo:0", "all words of 2 and 3 lower case letters, 30 words resembling reserved ones, all 31 reserved words", "longer symbolic words")

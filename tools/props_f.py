prop("P02", "A syntax error points at the offending token, path and line",
     "A program that is wrong at some token is rejected with an error whose location is exactly that token, whatever precedes and follows it; the report carries the given path and text, names the line and shows that line with marks below exactly the token, multibyte and wide characters counted by their display width.",
     ["inputs"], "every wrong token in every kind of construct, after every kind of text before it and with any path", "Tests never look at the location or the text of an error.",
     ["src/error.rs", SI, P, L], [("error_unexpected / ParseErr", "src/error.rs"), ("SourceInfo::get_location", SI)],
     "h_report:1 h_report:2 h_report_eof:0",
     "92 wrong programs with symbolic tokens over the constructs of the language, 11 kinds of leading lines, 5 indents, 5 paths, 5 tails (combined with one or two deviations from the plain one)",
     "errors whose place is a matter of taste (a bad numeric literal, a name used twice over several lines)")
prop("P03", "Incomplete programs are told apart from wrong ones",
     "A program cut off after any token is accepted if nothing is open, and otherwise rejected as unexpected end of input, not as a syntax error, so that an interactive reader can ask for more lines; a program that cannot be completed is never reported as incomplete.",
     ["inputs"], "every prefix of every construct, nested in every other", "Tests hold complete programs only.",
     [P, L, LI, D, F], [("ParseErrKind::UnexpectedEOF", "src/error.rs"), ("expect_* / error_eof", P)],
     "h_prefix:1 h_prefix:2 h_prefix:11 h_wrong:1 h_wrong:2 h_here_cut:1 h_here_cut:2",
     "57 forms over all constructs, each nested in each hole of each other one, cut off after every token; after every token each closing token or keyword that does not belong there; here documents of up to two lines of symbolic text cut off anywhere before their terminator, in 8 surroundings",
     "deeper nesting")
prop("P14", "Local variables are in scope from assignment to end of their scope",
     "A name denotes a local variable from its assignment, parameter or loop variable to the end of its scope, with the depth of blocks between; methods, classes and modules start afresh, blocks and lambdas see the variables around them, `for`, `if` and `while` bodies share the scope they stand in; elsewhere the name is a method call.",
     ["inputs"], "every arrangement of bindings, uses and nested scopes", "Tests look at few nestings; scope resolution depends on the order and the kind of every scope on the way.",
     [P, X, D, LV], [("find_identifier / LvarScope", P), ("LvarCollector", LV), ("parse_identifier", X)],
     "h_scope:3 h_scope:13 h_scope_bind:0",
     "all programs of three scope elements (binding, use, scope of every kind) with symbolic names against an independent resolver; every binding form", "longer sequences (4 in the thorough tier)", deep="h_scope:4")
prop("P15", "Programs are parsed in the scope they are given",
     "Parsing for eval or in a binding sees the local variables of the surrounding contexts, with the right depth from inside blocks, hidden inside methods and classes, and returns the collector extended by the new variables so that a following program sees them in their slots.",
     ["inputs", "histories"], "every context chain, program and sequence of programs on one binding", "Tests do not use parse_program_eval or parse_program_binding in nested scopes.",
     [P, LV], [("parse_program_eval / parse_program_binding", P), ("LocalsContext::find_lvar", P)],
     "h_extern:0 h_extern:2 h_binding_seq:2",
     "every extern context of up to two levels with symbolic names, uses in every scope of up to two nested ones, sequences of two programs", "longer sequences", deep="h_extern:1")
prop("P16", "The collector gives each name one stable slot",
     "Inserting names in any order gives each new name the next slot, an old one its old slot; lookups find exactly the inserted names; keyword-rest, block and delegate parameters are recorded with their slots; the table lists the names in slot order.",
     ["histories"], "every sequence of insertions and lookups", "A wrong slot needs a particular sequence of repeated names.",
     [LV], [("LvarCollector::insert / insert_new / get_name_id", LV)],
     "h_collector:4", "every sequence of four operations with symbolic names of one letter (up to two of them with a second character)", "longer sequences (5 in the thorough tier)", deep="h_collector:5")
prop("P23", "White space, line breaks and comments do not change the program",
     "Spaces, tabs, form feeds and continued lines between two tokens, line breaks and comments after an opening bracket or a token that needs something behind it, any mix of line breaks, semicolons and comments between, before and behind statements leave the syntax tree as it is.",
     ["inputs"], "every pair of tokens of every construct and every separator", "Tests use one layout each.",
     [L, P, X, LI, D, F], [("skip_whitespace / consume_cont_line", L), ("peek / peek_no_term", P), ("consume_term", P)],
     "h_layout:1 h_layout:2 h_layout_stmts:1 h_layout_stmts:2",
     "8 blank and 8 breaking separators at every token of 57 forms alone and (one of each kind) of every form nested in every hole of every other; 12 statement separators, 6 leading and 7 trailing ones in 32 kinds of bodies",
     "places where white space decides the meaning (before `(`, `[`, `::`, prefix operators), `=begin` comments, vertical tabs",
     deep="h_layout_stmts:3")
prop("P24", "Every node is located at its own text",
     "Names, literals and operands are located at exactly their own text in the source, operators at the text from the first to the last operand, calls at the method name, definitions at their name or keyword; every location lies on character boundaries inside the program, whatever multibyte text stands before.",
     ["inputs"], "every node of every construct, nested in every other, after any text", "Tests never look at locations.",
     [N, P, X, LI, L, "src/token.rs"], [("Loc::merge", SI), ("prev_loc / loc", P), ("Annot", "src/token.rs")],
     "h_locs:1 h_locs:2 h_locs_leaf:0",
     "57 forms with a number in every hole, each nested in each hole of each other one; 60 literals and names with symbolic characters in 11 surroundings after multibyte text",
     "nodes without a documented location (arguments given as pairs without braces, paths in class definitions)")
prop("P25", "Locations translate into line, column and marks exactly",
     "SourceInfo gives every location in every text its line number, shows each line the location covers with the marks below exactly the columns of the location, counting display widths, keeps long lines to the part around the location, and reports path and file name as given; merging locations gives the smallest one that covers both.",
     ["inputs"], "every text, location and path", "Tests do not render locations.",
     [SI], [("get_line / get_location / get_next_char", SI), ("Loc::merge", SI)],
     "h_srcinfo:1 h_srcinfo:3 h_srcinfo:4 h_srcinfo_long:0 h_srcinfo_long:1 h_srcinfo_path:4 h_loc_merge:0",
     "every text of up to 4 characters from a letter, a line break, narrow and wide multibyte ones and every location in it; lines of 79-200 columns; paths of 4 characters of `a`, `.`, `/`; all locations below 2^64",
     "control and combining characters in the shown lines; locations over several long lines")
na("P32", "Deeply nested programs do not exhaust the stack",
   "Nesting of any depth (parentheses, blocks, arrays, interpolation) either parses or yields an error instead of exhausting the call stack.",
   ["inputs"], "every nesting depth", "Tests nest a few levels.", [X, P, LI], [("recursive descent", X)],
   "The property is about machine stack size against unbounded recursion depth; the executor models memory objects, not stack limits, and any bound on the depth misses the failing inputs (thousands of levels). The parser has no depth limit, so the property in fact does not hold; see DESIGN.md.")
na("P34", "The command line tool reads a file or lines and prints the tree",
   "The ruruby-parse binary parses its argument or the named file and prints the syntax tree or the error.",
   ["inputs"], "every command line and file", "The binary has no tests.", ["src/main.rs"], [("main / parse_and_output", "src/main.rs")],
   "The binary consists of clap's argument handling, file system calls and printing: system calls the executor cannot encode; its only other logic is one call of parse_program, which the other properties decide.")

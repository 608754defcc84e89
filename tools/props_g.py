prop("P33", "Work grows in proportion to the program",
     "Nesting a construct twice as deep, or writing twice as many elements, statements, operators or clauses in a row, takes no more than proportionally more work, in complete programs as well as in ones that are cut off; no construct makes the parser start over again exponentially often.",
     ["inputs"], "every construct nested in or following itself and every other one", "Tests parse short snippets; re-parsing after lookahead doubles the work per nesting level only.",
     [P, X, L, LI], [("save_state / restore_state / is_command", P), ("speculative parsing", X)],
     "h_work_nest:8 h_work_row:16 h_work_cut:8 h_work_pair:1",
     "57 forms nested 8, 16 and 32 deep, alone and cut off, each in each hole of each other one (1, 2 and 4 levels), 16, 32 and 64 times in a row; work is measured in bytes allocated (every parse step allocates) and instructions per path (40 million at most)",
     "asymptotic growth beyond these lengths; growth slower than what the allowance (a factor of 3 per doubling plus a constant) lets pass",
     deep="h_work_nest:12 h_work_row:32 h_work_cut:12 h_work_pair:2", max_steps=40000000)
prop("P35", "A program means the same wherever statements may stand",
     "Any text that is a program by itself denotes the same tree as a statement in the body of a block, method, class, loop, branch, clause or interpolation, in parentheses, and between other statements.",
     ["inputs"], "every text and every surrounding", "Tests look at one construct at a time at the top level.",
     [P, X, F, D, L, LI], [("parse_comp_stmt", P), ("parse_stmt", X)],
     "h_embed:1 h_embed:2 h_embed:3 h_embed_tok:2 h_embed_tok:13 h_embed_tok:102 h_embed_tok:113",
     "every text of up to 3 ASCII bytes and every sequence of up to 2 tokens (3 of the short list), also behind an assignment to a local variable, in 26 surroundings",
     "texts that end in a here document or a backslash; statements that are only allowed at the top level (return, constant assignment, class in a method)",
     deep="h_embed_tok:3 h_embed_tok:14 h_embed:4")
prop("P36", "Text behind an error does not change the error",
     "A syntax error is reported with the same kind and place whatever follows it in the program; a program that is incomplete stays incomplete (and is not wrong) when an empty line is added.",
     ["inputs"], "every erroneous text and every continuation", "Tests have few rejected programs, none with something behind.",
     [P, X, F, D, L, LI], [("error_unexpected / error_eof", P), ("ParseErr", "src/error.rs")],
     "h_wrong_stays:1 h_wrong_stays:2 h_wrong_stays:3 h_wrong_stays_tok:2 h_wrong_stays_tok:13 h_wrong_stays_tok:102 h_wrong_stays_tok:113",
     "every text of up to 3 ASCII bytes and every sequence of up to 2 tokens (3 of the short list), also behind an assignment, with each of the tails",
     "errors located at the end of the line (they may move); texts that end in a backslash; % literals cut off (the line break can be their delimiter)",
     deep="h_wrong_stays:4")
prop("P37", "Node helpers classify and convert exactly",
     "is_imm_u32 / is_imm_i32 accept exactly the integers that fit, comparison kinds and binary operators map one to one, ids of local variables convert without loss, new nodes and empty argument lists hold what they were made of.",
     ["inputs"], "every 64 bit value and every operator", "The helpers have no tests; users of the syntax tree call them.",
     [N, LV, "src/token.rs"], [("is_imm_u32 / is_imm_i32", N), ("CmpKind::from / new_binop", N), ("LvarId", LV)],
     "h_helpers:0", "all 64 bit integers; every operator", "")
prop("P38", "Every tree that is produced is well formed",
     "In the tree of every accepted program each local variable refers to a slot that exists at its depth and bears its name, the variable table of each scope starts with its parameters, names and constant flags are those of the text, each location lies within the program on character boundaries and covers its node's name, statement lists are never of one statement, and splat flags tell the truth.",
     ["inputs"], "every accepted program", "Tests compare a few trees; consumers index by slot and depth and slice the text by location without checks.",
     [P, X, F, D, L, LI, N, LV], [("LvarCollector / scopes", LV), ("Loc", P), ("Node constructors", N)],
     "h_formed:1 h_formed:2 h_formed:3 h_formed_tok:2 h_formed_tok:13 h_formed_tok:102 h_formed_tok:113 h_formed_form:1 h_formed_form:2 " + " ".join("h_formed_gen:%d" % i for i in (0, 2, 4, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19, 22, 23, 25, 27, 28, 29)),
     "every text of up to 3 ASCII bytes, every sequence of up to 2 tokens (3 of the short list), also behind an assignment, the 57 forms and each of them in each hole of each other one in 6 surroundings, and the programs of 21 generators of the other properties (thorough: 30)",
     "programs beyond these shapes",
     deep="h_formed_form:2 h_formed_tok:3 h_formed:4 " + " ".join("h_formed_gen:%d" % i for i in (1, 3, 5, 6, 13, 20, 21, 24, 26)))
prop("P39", "All entry points read the same language",
     "parse_program, parse_program_eval and parse_program_binding without outer variables give the same tree, variables and locations, or the same error at the same place, for the same text, whatever the path is and whatever was parsed before.",
     ["inputs", "histories"], "every text and every entry point", "Tests call each entry point with one or two programs.",
     [P, "src/source_info.rs", LV], [("Parser::parse / parse_program_eval / parse_program_binding", P)],
     "h_entries:1 h_entries:2 h_entries:3 h_entries_tok:2 h_entries_tok:13 h_entries_tok:102 h_entries_form:1",
     "every text of up to 3 ASCII bytes (without the wording of messages), every sequence of up to 2 tokens (3 of the short list), also behind an assignment, the 57 forms in 4 surroundings; six ways to call",
     "contexts with variables (P16)",
     deep="h_entries_tok:113 h_entries_form:2")
prop("P40", "What a name is called does not matter",
     "Renaming a local variable, parameter, method, keyword, symbol or constant of a program to another name of its kind changes that name in the tree and nothing else; a program that is wrong or incomplete remains so, at the same place.",
     ["inputs"], "every program and every name", "Tests use a handful of names.",
     [L, P, X, D], [("lex_identifier / reserved words", L), ("LvarCollector", LV)],
     "h_rename:1 h_rename:11",
     "the 57 forms in 5 surroundings, complete and cut off after every token; each name replaced by every two-byte name of its kind with one arbitrary character",
     "longer names; names that end in ? or !; reserved words (P04)",
     deep="h_rename:2 h_rename:12")

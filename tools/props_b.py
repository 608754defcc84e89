prop("P10", "Binary operators group by precedence and associativity",
     "An expression built from the binary operators `.. ... || && == != === =~ !~ >= > <= < <=> | ^ & << >> + - * / % ** and or` yields the tree that Ruby's precedence table and associativity give, whatever the white space around the operators; parentheses override it, the ternary binds weaker than ranges, and operators that may not be chained are rejected.",
     ["inputs"], "every sequence of operators, spacing and parenthesisation", "Tests hold a few mixed expressions; a swapped pair of levels or a flipped associativity shows only for the pair concerned.",
     [X, L, P], [("operator precedence chain parse_not .. parse_exponent", X), ("is_command disambiguation", P)],
     "h_ops:1 h_ops:2 h_ops_lv:3 h_ops_one:3 h_ops_paren:0 h_ops_after:0 h_ternary:0",
     "all sequences of 1 and 2 operators over all 27 operators in four spacings with digit, instance variable and local variable operands; 3 operators over one or two representatives of each level; symbolic operand characters",
     "four or more operators in a row (4 in the thorough tier)", deep="h_ops_one:4")
prop("P11", "Unary operators bind to the right operand",
     "`!`, `~`, unary `+` and `-` and their chains apply to the operand Ruby's table assigns them: tighter than every binary operator except that unary minus is weaker than `**` (also on number literals); directly after an identifier and a space they begin a command argument.",
     ["inputs"], "every chain of unary operators in front of every operand and binary operator", "A handful of unary expressions are tested.",
     [X, P], [("parse_unary_minus / parse_exponent / parse_unary", X), ("is_command", P)],
     "h_unary:1 h_unary:2 h_op_command:0",
     "chains of 1 and 2 unary operators before 6 operand kinds followed by every binary operator; every operator between an identifier and an operand in all four spacings",
     "chains of more than three", deep="h_unary:3")
prop("P12", "Assignments: targets, chaining, compound and multiple assignment",
     "Plain, compound (`+=` .. `||=`) and multiple assignments to local, instance, class and global variables, constants, attributes and index expressions build exactly the assignment they say: chains group to the right, `||=`/`&&=` expand to a test and an assignment, splats and trailing commas are kept, values stop at `,` in an argument list, and each assigned local variable is registered once.",
     ["inputs"], "every target kind, operator, value shape and surrounding", "Tests cover simple assignments; the interaction of commas, splats and surroundings is not sampled.",
     [X, P, N], [("parse_assign / parse_mul_assign", X), ("check_lhs", P)],
     "h_assign:0 h_assign_chain:0 h_assign_op:0 h_massign:1 h_massign:2 h_massign:3 h_massign_ctx:0",
     "11 target kinds; 9 value kinds; chains of two assignments; 12 compound operators; multiple assignment with 1-3 targets and 1-3 values with optional splat on either side; symbolic variable characters",
     "nested (parenthesised) target lists, more than three targets")
prop("P13", "Control structures and modifiers own exactly their parts",
     "if/unless/elsif/else, case/when, while/until, for, break/next/return/redo and the statement modifiers build the node they denote with condition, branches and bodies taken from exactly their own part of the text, with every permitted separator; modifiers apply to the whole statement before them, leftmost first; an `else` or `end` belongs to the innermost open structure.",
     ["inputs"], "every arrangement of branches, separators, bodies and nesting", "Each structure is tested once in one layout.",
     [F, X, P], [("parse_if / parse_case / parse_while / parse_for", F), ("parse_stmt modifiers", X)],
     "h_if:0 h_if:1 h_if:2 h_while:0 h_for:0 h_case:1 h_case:2 h_modifier:1 h_modifier:2 h_jump:0 h_nest:0 h_loop_head:1",
     "0-2 elsif, 1-2 when branches with up to 3 values, bodies of 0-2 statements, 1-3 loop variables, one or two modifiers, all pairs of nested structures; 19 constructs with `do` blocks in the heads of loops, followed by 7 kinds of calls; of the layout choices (separators, body sizes, condition kinds, what follows) at most three (two with elsif) differ from the plain one at a time; symbolic operand characters",
     "deeper nesting; more branches", deep="h_if:3 h_case:3 h_modifier:3")
prop("P30", "begin / rescue / else / ensure clauses are complete and in order",
     "A begin block, method, do-block, class or module body with rescue clauses keeps every exception class, the variable and the body of each clause, the else and the ensure part; clauses out of order or repeated are rejected; a rescue modifier covers its statement.",
     ["inputs"], "every combination of clauses, exception lists, assignments and separators", "Only a few combinations are tested.",
     [X, D], [("parse_begin", X)],
     "h_begin:0 h_begin:1 h_begin:2 h_begin_bad:0 h_begin_expr:0",
     "0-2 rescue clauses with 0-3 exceptions (classes, splat), five surroundings, bodies of 0-2 statements, at most three layout choices differing from the plain one",
     "more than two clauses (three in the thorough tier)", deep="h_begin:3")

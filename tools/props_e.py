prop("P17", "Formal parameters keep kind, name, order and default",
     "The parameter list of a method, lambda or block is exactly the one written: required, optional, rest, post, keyword, keyword-rest, block and forwarded parameters in order, each with its own name and default expression; the body sees exactly these names; lists that repeat a name or break the order of kinds are rejected.",
     ["inputs"], "every parameter list in every kind of definition", "Tests try a few lists; the state machine has many orders of kinds.",
     [D, P, LV], [("parse_formal_params", P), ("parse_params / parse_def", D)],
     "h_param:0 h_param:1 h_param:2 h_param:13 h_param:23 h_param_dup:0 h_param_bad:0 h_param_none:0",
     "0-2 parameters of every kind and of symbolic names in every definition form, 3 parameters with at most two unusual ones, layouts limited to one or two deviations from the plain one",
     "more parameters; nested destructuring, anonymous `&` and `**` (unsupported by the parser)", deep="h_param:33")
prop("P18", "Calls keep receiver, method, arguments and block exactly as written",
     "A call has exactly the written receiver, method name, positional, keyword, splat, hash and block-pass arguments in order and the written block; with and without parentheses, commands included: a brace block belongs to the last call, a do-block to the command; a space before a parenthesis decides what it belongs to.",
     ["inputs"], "every list of arguments in every form of call", "Tests try a few calls; the outcome depends on white space and combinations of argument kinds.",
     [P, X], [("parse_arguments / parse_argument_list", P), ("is_command", P), ("parse_block", P)],
     "h_call:0 h_call:1 h_call:2 h_call:12 h_call:22 h_call_none:0 h_call_block:0 h_call_bad:0 h_call_forward:0",
     "0-2 arguments of every kind in every call form, with every kind of block; one or two deviations from the plain layout",
     "longer lists (3-4 in the thorough tier); calls the parser does not support (`f(k:)`, `super { }`, reserved words as keyword names)", deep="h_call:32 h_call:42 h_call:101")
prop("P19", "Method chains apply each step to the result of the one before",
     "A chain of `.m`, `&.m`, `::M`, `::m`, `[..]`, `.()`, arguments and blocks applies each step to everything before it, in the written order, across line breaks and comments before a leading dot; safe navigation stays on its own step; the chain as an assignment target assigns through its last step.",
     ["inputs"], "every chain of steps on every kind of first operand", "Tests hold few chains.",
     [X, P], [("parse_primary_sub / parse_method_call", X)],
     "h_chain:1 h_chain:21 h_chain:2 h_chain:3 h_chain_assign:0 h_chain_assign:1 h_chain_bad:0",
     "chains of 1-2 steps of every kind on every kind of operand, 3 steps on a few, with line breaks and comments", "longer chains", deep="h_chain:12")
prop("P26", "Classes, modules, methods and their bodies are complete and scoped",
     "`class`, `module`, `class <<` and `def` keep name, superclass, receiver, parameters and the whole body with its rescue, else and ensure clauses; constants may be assigned and classes defined only outside methods; the end belongs to the innermost open definition.",
     ["inputs"], "every definition, body and nesting", "Tests hold a few definitions.",
     [D, P], [("parse_class / parse_singleton_class / parse_module", D), ("parse_def", D), ("ParseContext kinds", P)],
     "h_class:0 h_sclass:0 h_def_body:0 h_dynamic:0 h_dynamic:1 h_dynamic:2 h_class_bad:0 h_const:0",
     "every header form with symbolic names, bodies of up to two statements and clauses, two levels of nesting", "`class ::A` (the parser drops the leading ::)",
     deep="h_class:10 h_sclass:1 h_def_body:1 h_dynamic:3")
prop("P29", "Numbered block parameters become parameters of their own block",
     "In a block without written parameters `_1` to `_9` make the block take as many parameters as the highest number used and denote them; they belong to the innermost block, `for` bodies counting to the block around; written parameters, nested use and other names are told apart.",
     ["inputs"], "every block, place and number", "Tests hold one or two blocks.",
     [P, X, LV], [("numbered_param / parse_block", P), ("parse_identifier", X)],
     "h_numbered:1 h_numbered:11 h_numbered:12 h_numbered:22 h_numbered_names:0 h_numbered_call:0",
     "one and two uses of symbolic numbers in 20 places, one and two nested blocks", "numbered parameters outside any block")

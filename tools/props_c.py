prop("P06", "Double quoted content: every escape denotes its character",
     "In every quoting form with escapes (\"..\", %Q, %{}, %<>, backticks, :\"..\", heredocs) plain characters stand for themselves, the escapes \\a \\b \\t \\n \\v \\f \\r \\e \\s, octal, \\xHH, \\uHHHH and \\u{...} denote exactly their character or byte, backslash newline vanishes and any other escaped character is itself; bad escapes are rejected; adjacent literals and ?c follow the same rules.",
     ["inputs"], "every character, escape, position and quoting form", "A test per escape cannot show that the digits of a number are all weighed right or that two neighbours do not disturb each other.",
     [L, LI], [("read_escaped_char", L), ("read_interpolate", L), ("parse_string_literal / parse_char_literal", LI)],
     "h_dq:0 h_dq_num:0 h_dq_seq:2 h_dq_bad:0 h_char:0 h_adjacent:0",
     "every escape with symbolic digits or characters in eight quoting forms; sequences of 2 items of 8 kinds; all printable ASCII characters, four multibyte characters",
     "\\c, \\C- and \\M- (not supported by the parser); squiggly heredocs (not dedented)", deep="h_dq_seq:3")
prop("P07", "Single quoted content is taken literally",
     "In '..', %q and :'..' only the escaped delimiter and the escaped backslash are escapes; every other character, backslashes, hash signs and newlines included, stands for itself.",
     ["inputs"], "every sequence of characters and delimiters", "Tests hold one single quoted string with an escape.",
     [L, LI], [("read_string_literal_single", L)],
     "h_sq:1 h_sq:2 h_sq_sym:0", "sequences of 1-2 items (symbolic printable characters, escapes, multibyte characters) in '..' and %q with five delimiter pairs",
     "backslash newline in single quotes; longer sequences (3 in the thorough tier)", deep="h_sq:3")
prop("P08", "% literals end at their own delimiter and split into words",
     "%q %Q %w %i %r and bare % literals accept any punctuation delimiter, end at the matching one counting nested pairs of brackets, keep the text between, and the word lists split at white space only; an unsupported kind or an alphanumeric delimiter is rejected; after an operand % is the remainder operator.",
     ["inputs"], "every delimiter, nesting and content", "Tests use one or two delimiters.",
     [L, LI], [("parse_percent_notation", LI), ("read_string_literal_double with nesting", L)],
     "h_pct_delim:0 h_pct_bad:0 h_pct_nest:3 h_words:1 h_words:2",
     "every ASCII punctuation delimiter; all bracket sequences of length 3; 1-2 words with symbolic characters, any separators", "word lists separated by tabs; %W %I %s %x (rejected as unsupported)", deep="h_pct_nest:5 h_words:3")
prop("P09", "Interpolation keeps text and code pieces in order and in scope",
     "`#{...}`, `#@x`, `#@@x`, `#$x` inside every quoting form become the pieces of an interpolated string in source order with the text between them, the code parsed as ordinary statements in the scope where the literal stands; braces, quotes and literals nested inside the code do not end it.",
     ["inputs"], "every arrangement of text pieces, code pieces and quoting forms", "Tests know a single interpolation in a plain string.",
     [L, LI], [("read_interpolate / InterpolateState", L), ("parse_interpolated_string_literal", LI)],
     "h_interp:1 h_interp:2 h_interp_adjacent:0 h_interp_ctx:0 h_interp_nest:3 h_interp_nest:4",
     "1-2 interpolated pieces of every kind with text before, between and after in eight quoting forms; nested literals and braces inside the code; local variables of four surrounding scopes; every sequence of up to 4 nested or escaped delimiters, characters and interpolated parts in a bracket literal", "three and more pieces in the other literals; regular expressions are in P21", deep="h_interp_nest:5")

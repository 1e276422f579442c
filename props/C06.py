TITLE = "Tokens and literals mean exactly what is written"
STATEMENT = ("Source text is split into the longest tokens it spells, comments (also nested) and white space apart, with exact positions; every text ends in tokens or a reported error, also when it stops inside a string, character, number or comment. "
             "A decimal, hexadecimal, octal or binary integer has exactly its value or is rejected when it does not fit; a character or string literal denotes exactly the characters written, with its escapes replaced, and each literal has that very value in the compiled program.")
OVER = ["inputs"]
QTEXT = "every text up to the stated length, every character and every 64 bit literal"
WHY = "The tests use a few well formed literals and look at the printed tree, not at the values of a compiled program."
FILES = ["src/cxy/lang/frontend/lexer.c", "src/cxy/core/utils.c", "src/cxy/lang/frontend/parser.c", "src/cxy/lang/backend/c/generate.c", "src/cxy/core/format.c"]
MECH = [("advanceLexer and its helpers", "src/cxy/lang/frontend/lexer.c"), ("convertEscapeSeq, escapeString", "src/cxy/core/utils.c"), ("visitStringLit, visitCharLit, visitIntegerLit", "src/cxy/lang/backend/c/generate.c")]
OBSERVE = ["tokens and their positions, values of literals in compiled programs, errors reported"]
TECH = "contracts on the real lexer, escape and literal generation functions with independent oracles, discharged by CBMC for all texts up to the stated lengths"
NOTE = "Texts are bounded in length as stated for each function."
LEVEL = "other"
UNITS = [dict(name="lex", harness="lexer.c", stubs=["vf_stubs.c"], src=["src/cxy/core/hash.c"]),
         dict(name="esc", harness="escapes.c", stubs=["vf_stubs.c"], src=[]),
         dict(name="gen", harness="genlit.c", stubs=["vf_stubs.c"], src=["src/cxy/lang/frontend/types.c", "src/cxy/lang/frontend/ttable.c"]),
         dict(name="fmt", harness="fmtbuf.c", stubs=["vf_stubs.c"], src=[]),
         dict(name="lits", harness="lits.c", probe="lits.cxy", nflags=["-fwrapv"])]
ASSUMPTIONS = ["ctype functions in the C locale; strtoumax and strtod are those of the C library"]

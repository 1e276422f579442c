TITLE = "Operators, precedence and casts of compiled programs mean what the language says"
STATEMENT = ("For every value of every integer, float and bool type, each arithmetic, bitwise, shift, comparison, logical, increment and compound assignment operator of a compiled program yields "
             "the fixed-width (wrapping) result of its operand type, and a cast between numeric types converts the value as C does. Any two binary operators in one expression group by precedence "
             "(* / % over + - over shifts over order comparisons over equality over & over ^ over | over && over ||) and to the left among equals, unary operators bind tighter, the ternary "
             "looser, and parentheses, macro arguments and compile time values keep their own grouping.")
OVER = ["inputs", "programs"]
QTEXT = "all operand values of each type; all 18x18 pairs of binary operators that type-check, and a set of mixed expressions"
WHY = "The tests only print trees for a few expressions and never run them; a wrong tree, type or missing parenthesis shows only for particular operator pairs and values."
FILES = ["src/cxy/lang/frontend/parser.c", "src/cxy/lang/frontend/operator.h", "src/cxy/lang/middle/sema/binary.c", "src/cxy/lang/backend/c/generate.c"]
MECH = [("binary, prefix, postfix", "src/cxy/lang/frontend/parser.c"), ("operator tables", "src/cxy/lang/frontend/operator.h"),
        ("checkBinaryExpr, checkUnaryExpr, checkAssignExpr, checkCastExpr", "src/cxy/lang/middle/sema"), ("visitBinaryExpr, visitUnaryExpr, visitOperand", "src/cxy/lang/backend/c/generate.c")]
OBSERVE = ["value computed by the compiled program"]
TECH = "one contract per operator, type and operator pair on the C generated by the compiler under test, every obligation discharged by CBMC (SAT and z3) for all values"
NOTE = "Proved for all operand values. The compiler itself is exercised on the probe program (about 700 functions), it is not itself under contract here."
UNITS = [dict(name="ops", harness="ops.c", probe="ops.cxy", san="address", nflags=["-fwrapv"])]
ASSUMPTIONS = ["signed overflow and conversion to a narrower signed type wrap (two's complement, as the compilers used do)", "undefined operations (division by zero, out of range shifts and float conversions) are left out"]

TITLE = "Compile time evaluation computes exact values"
STATEMENT = ("Evaluating an expression over literals at compile time gives the exact mathematical value for every integer, character and bool operand (sums, differences, products, truncating quotients, remainders, "
             "shifts, bit operations, comparisons, logic, negation) whenever it fits in 64 bits, the IEEE double result for floats, and an error for a division by zero or a shift out of range, both in expressions and "
             "in preprocessor conditions. Casting a literal gives the value the cast has at run time; a compile time range loop runs once for each value of its range.")
OVER = ["inputs"]
QTEXT = "every pair of 64 bit integer, character, bool and float literals"
WHY = "Values near and above 2^53, unsigned values and negative operands do not occur in the tests."
FILES = ["src/cxy/lang/middle/eval/literal.c", "src/cxy/lang/middle/eval/binary.c", "src/cxy/lang/middle/eval/unary.c", "src/cxy/lang/middle/preprocess/evaluate.c", "src/cxy/lang/middle/sema/cast.c", "src/cxy/lang/middle/eval/for.c"]
MECH = [("evalBinaryExpr and its operations", "src/cxy/lang/middle/eval/binary.c"), ("evalUnaryExpr", "src/cxy/lang/middle/eval/unary.c"), ("preprocessorEvalBinaryExpr, preprocessorEvalUnaryExpr", "src/cxy/lang/middle/preprocess/evaluate.c"),
        ("castLiteral", "src/cxy/lang/middle/sema/cast.c"), ("evalForStmtWithRange", "src/cxy/lang/middle/eval/for.c")]
OBSERVE = ["values of compile time expressions, branches taken by #if, errors reported"]
TECH = "contracts on the real evaluator functions with a 128 bit oracle, discharged by CBMC for all operand values; products and quotients for all dividends by a table of divisors and for all small operands"
NOTE = "Products and quotients of two arbitrary 64 bit operands are bounded as stated."
LEVEL = "other"
UNITS = [dict(name="eval", harness="comptime.c", stubs=["vf_stubs.c"], src=["src/cxy/lang/frontend/operator.c", "src/cxy/lang/frontend/ast.c"]),
         dict(name="cast", harness="castlit.c", stubs=["vf_stubs.c"], src=["src/cxy/lang/frontend/types.c", "src/cxy/lang/frontend/ttable.c", "src/cxy/lang/frontend/ast.c"]),
         dict(name="loop", harness="ctloop.c", stubs=["vf_stubs.c"]),
         dict(name="pre", harness="comptime.c", stubs=["vf_stubs.c"], src=["src/cxy/lang/frontend/operator.c", "src/cxy/lang/frontend/ast.c"], defs=["-DPRE"])]
ASSUMPTIONS = ["operands of an operator have been evaluated to literals (recursion over the expression)"]

TITLE = "Control flow of compiled programs"
STATEMENT = ("In a compiled program if/else, the short-circuit operators and the ternary evaluate exactly the operands and branches the language prescribes, in order; for loops over ranges (ascending, "
             "stepped, descending, literal, compile time), arrays and strings and while loops visit exactly their values in order; break and continue act on the innermost enclosing loop, also from "
             "inside a switch or match; a switch runs exactly the body of the label, label list or (inclusive) range that matches or the default, and a match the case of the type the union holds; deferred statements "
             "run once, last first, on every way out of their scope; a raised exception leaves every function up to the nearest catch, which yields its value exactly when something was raised; "
             "optionals, closures, recursion, tuples, arrays, structs with operators, virtual calls, generic instances, default and variadic arguments deliver the values they stand for.")
OVER = ["inputs", "programs"]
QTEXT = "all argument values of each probe function (loops up to the stated number of rounds)"
WHY = "The tests only dump syntax trees for these statements and never run a program, so a wrong jump, label or condition in the generated code cannot fail them."
FILES = ["src/cxy/lang/middle/simplify/simplify.c", "src/cxy/lang/middle/defer.c", "src/cxy/lang/middle/sema/for.c", "src/cxy/lang/middle/sema/switch.c", "src/cxy/lang/middle/sema/match.c",
         "src/cxy/lang/middle/sema/check.c", "src/cxy/lang/backend/c/generate.c", "src/cxy/lang/frontend/parser.c"]
MECH = [("simplifyForRangeStmt, simplifyForArrayStmt, visitMatchStmt", "src/cxy/lang/middle/simplify/simplify.c"), ("simplifyDeferStatements", "src/cxy/lang/middle/defer.c"),
        ("checkYieldStmt, checkRaiseStmt", "src/cxy/lang/middle/sema/check.c"), ("visitSwitchStmt, visitBreakStmt, visitWhileStmt", "src/cxy/lang/backend/c/generate.c")]
OBSERVE = ["value returned and trace left by the compiled function"]
TECH = "a contract per statement kind on the C generated by the compiler under test, discharged by CBMC for all argument values; loops unrolled to a stated number of rounds"
NOTE = "Statements without loops are proved for all values; loops are bounded to the rounds stated per run. The compiler is exercised on one probe program that combines the statements; it is not itself under contract here."
LEVEL = "other"
UNITS = [dict(name="flow", harness="flow.c", probe="flow.cxy", nflags=["-fwrapv"])]
ASSUMPTIONS = ["a switch without a matching label and without default aborts (as the generator intends) and is left out", "a return value is not changed by deferred statements in the probe"]

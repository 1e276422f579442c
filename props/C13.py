TITLE = "User defined types, dispatch and calls of compiled programs"
STATEMENT = ("In a compiled program an object reached through its base class runs its own override of a virtual method and the inherited one otherwise (one level of overriding), every inherited member exists once, "
             "class variables share one object while structs, tuples and fixed arrays are values that assignment and passing copy with all nested members; omitted members and arguments take their declared defaults; "
             "an overloaded operator, index or call on a struct runs its function with the operands in order; an enum option has its given value or the one after its predecessor; a union reports and yields exactly the type "
             "and value assigned last; an optional holds nothing or its value; a call picks the overload of its argument types, each generic instance works on its own types, and function arguments, captured values, pointers, "
             "struct references and globals deliver and change what they denote.")
OVER = ["inputs", "programs"]
QTEXT = "all argument values of each probe function"
WHY = "The tests only dump syntax trees and never run a program with classes, structs, unions or generics, so wrong layout, dispatch, copies or overloads in the generated code cannot fail them."
FILES = ["src/cxy/lang/middle/sema/class.c", "src/cxy/lang/middle/sema/inheritance.c", "src/cxy/lang/middle/sema/struct.c", "src/cxy/lang/middle/sema/enum.c", "src/cxy/lang/middle/sema/generics.c",
         "src/cxy/lang/middle/sema/call.c", "src/cxy/lang/middle/simplify/simplify.c", "src/cxy/lang/backend/c/generate.c"]
MECH = [("inheritClassMembers, checkClassDecl", "src/cxy/lang/middle/sema/class.c"), ("inheritanceBuildVTable", "src/cxy/lang/middle/sema/inheritance.c"), ("virtualDispatch", "src/cxy/lang/middle/simplify/simplify.c"),
        ("checkEnumDecl", "src/cxy/lang/middle/sema/enum.c"), ("matchOverloadedFunction", "src/cxy/lang/middle/sema/function.c"), ("visitStructExpr, visitUnionValue, visitTupleExpr", "src/cxy/lang/backend/c/generate.c")]
OBSERVE = ["value returned by the compiled function"]
TECH = "a contract per language feature on the C generated by the compiler under test, discharged by CBMC for all argument values"
NOTE = "Proved for all argument values of each probe function (the one recursive pair is bounded). The compiler is exercised on one probe program; it is not itself under contract here."
LEVEL = "other"
UNITS = [dict(name="types", harness="types.c", probe="types.cxy", nflags=["-fwrapv"])]
ASSUMPTIONS = ["signed overflow wraps (two's complement)", "a class overrides the methods of its direct base only: two levels of virtual classes are not supported by the compiler (DESIGN.md section 5)"]

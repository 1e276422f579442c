TITLE = "Implicit conversions, promotions and ranges of the built-in types"
STATEMENT = ("For every pair of built-in types the compiler allows an implicit conversion only where the language says so: "
             "a signed integer target takes an unsigned source only if strictly wider and a signed source only if at least as wide, an unsigned "
             "target takes integers no wider than itself, floats take any number, characters only characters, bool only bool, and no built-in "
             "target takes a string, pointer, tuple, struct or other non-built-in. The common type of a mixed numeric expression is the wider "
             "integer, or the float if one operand is a float, and never narrower than an integer operand. An integer literal gets the smallest "
             "signed type that holds it, and a switch label is accepted exactly when the switched type can hold it.")
OVER = ["inputs", "programs"]
QTEXT = "all 13x13 pairs of built-in types, plain, const-qualified or aliased, every other kind of source type, and all 2^64 literal values"
WHY = "Tests assign a few literals to a few types; the rule has to hold for every ordered pair of types and every literal value, including boundary values."
FILES = ["src/cxy/lang/frontend/types.c", "src/cxy/lang/frontend/ttable.c", "src/cxy/lang/frontend/types.h"]
MECH = [("isTypeAssignableFrom", "src/cxy/lang/frontend/types.c"), ("promoteType", "src/cxy/lang/frontend/ttable.c"),
        ("getIntegerTypeForLiteral, isIntegerTypeInRange", "src/cxy/lang/frontend/ttable.c"),
        ("getIntegerTypeMinMax, type classification predicates", "src/cxy/lang/frontend/types.c")]
OBSERVE = ["type errors and inferred types reported by `cxy`, declared C types in the generated code"]
TECH = "contract harnesses on the real C functions, all obligations discharged by CBMC (SAT), loop-free full domain"
NOTE = ("Proof for all built-in type pairs and all i64 values: recursion and loops are fully unwound with unwinding assertions. "
        "Trusted: CBMC, and that the type table builds primitive types as the harness does.")
UNITS = [dict(name="primtypes", harness="primtypes.c", src=["src/cxy/lang/frontend/types.c", "src/cxy/lang/frontend/ttable.c"],
              stubs=["vf_stubs.c"])]
ASSUMPTIONS = ["types are built by the harness exactly as the type table builds them (tag, size, primitive id)",
               "type arguments are resolved (not aliases) where the checker resolves them first: literal, case range and min/max queries"]

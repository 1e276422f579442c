TITLE = "Memory managed by compiled programs: released once, never used after"
STATEMENT = ("A compiled program releases every class object exactly when its last owner goes: copying a variable, passing an argument, storing into a member, tuple, union or optional, capturing by assignment and "
             "returning share ownership, moving passes it on, and leaving a scope in any way (end of block, early return, break, continue, exception, deferred statement, assignment, null) gives it back. No object is "
             "used after its release or released twice, deinit and struct destructors run exactly once per value, structs are copied with their copy method, and the values read are those stored. At run time "
             "allocation starts with one owner, each share adds one, each drop removes one, and the last drop finalizes and releases.")
OVER = ["inputs", "programs"]
QTEXT = "all argument values of each probe function (loops up to the stated number of rounds)"
WHY = "The tests only dump syntax trees and never run a compiled program, so a missing or doubled copy or drop cannot fail them."
FILES = ["src/cxy/lang/middle/mem/manage.c", "src/cxy/lang/middle/mem/finalize.c", "src/cxy/lang/backend/c/generate.c", "src/cxy/runtime/builtins.cxy"]
MECH = [("visitVariableDecl, visitAssignExpr, visitReturnStmt, visitBlockStmt, visitSwitch", "src/cxy/lang/middle/mem/manage.c"), ("visitBackendCallExpr", "src/cxy/lang/middle/mem/finalize.c"),
        ("__smart_ptr_alloc, __smart_ptr_get, __smart_ptr_drop", "src/cxy/runtime/builtins.cxy")]
OBSERVE = ["value returned, objects live after the call, releases and accesses in between"]
TECH = "a contract per ownership pattern on the C generated by the compiler under test (value returned, no live block left, no access outside a live block, no second release), discharged by CBMC for all argument values; contracts on the reference counting runtime"
NOTE = "Loop-free patterns are proved for all values; loops are bounded to the rounds stated per run. The compiler is exercised on one probe program that combines the patterns; it is not itself under contract here. Objects owned only by an unnamed temporary leak: known findings."
LEVEL = "other"
UNITS = [dict(name="mm", harness="mm.c", probe="mm.cxy", nflags=["-fwrapv"], defs=["-Dmalloc=vf_malloc", "-Dfree=vf_free", "-Drealloc=vf_realloc"], alias=["Obj", "Pair"])]
ASSUMPTIONS = ["malloc succeeds", "fewer than 2^32 owners per object", "no cyclic references", "for the exception passed on through a function StackTrace.push and grow are replaced by stubs without effect (they are checked in the other exception run)"]

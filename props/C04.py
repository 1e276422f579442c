TITLE = "Growable arrays and string builders hold exactly what was put into them"
STATEMENT = ("A growable array holds exactly the elements pushed and not popped, in order and unchanged, through any growth, copy or resize, for every element size, and never writes outside its memory. "
             "A string builder holds exactly the concatenation of the texts, characters (as UTF-8), numbers and bools appended, terminated and within its memory, for every sequence of appends, also empty ones, "
             "and releasing it leaves an empty builder.")
OVER = ["inputs", "histories"]
QTEXT = "every array and builder state of the stated capacity, every element and text; every code point"
WHY = "Boundary states (exactly full, empty, zero capacity) and multi-byte characters do not occur in the tests."
FILES = ["src/cxy/core/array.c", "src/cxy/core/sb.c", "src/cxy/core/array.h", "src/cxy/core/sb.h"]
MECH = [("pushOnDynArrayExplicit, popDynArray, copyDynArray, resizeDynArrayExplicit", "src/cxy/core/array.c"), ("stringBuilderGrow, stringBuilderAppendCstr0, wcharToStr", "src/cxy/core/sb.c")]
STATE = [("builder invariant", "data[size] is NUL, size <= capacity, capacity + 1 bytes", "StringBuilder")]
OBSERVE = ["contents of the arrays and builders after each operation"]
TECH = "contracts with representation invariants on the real array.c and sb.c, discharged by CBMC with memory checks; UTF-8 encoding proved for all code points"
NOTE = "Inductive over operations from every state of a small capacity (bounded); numbers rely on sprintf and are sampled natively."
LEVEL = "other"
UNITS = [dict(name="containers", harness="containers.c", stubs=["vf_stubs.c"], nsrc=["src/cxy/core/utils.c"])]
ASSUMPTIONS = ["malloc and realloc succeed", "sprintf formats numbers correctly"]

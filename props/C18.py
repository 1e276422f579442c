TITLE = "Runtime strings: views, String, UTF-8 output and buffered streams"
STATEMENT = ("For every text, string views trim exactly the surrounding white space, compare equal exactly when their bytes are equal (including bytes after a NUL) and otherwise "
             "order by length and then bytes, and find, rfind, indexOf, rIndexOf, substr, startswith and endswith deliver exactly the positions and parts that are there. "
             "A String always holds the concatenation of what was appended to it, NUL terminated and within its buffer, through growing, trimming, reserving and resizing. "
             "Every Unicode code point is written as its UTF-8 encoding, integers and bools print as their decimal or true/false text, and a buffered stream delivers exactly the bytes written to it, in order.")
OVER = ["inputs", "histories"]
QTEXT = "all byte contents up to the stated length, every String state, every fill of the buffer, all code points"
WHY = "The tests print a few ASCII words; boundary sizes (exactly full buffers, matches at index 0), embedded NULs and 4-byte characters are not sampled."
FILES = ["src/cxy/runtime/builtins.cxy"]
MECH = [("__string", "src/cxy/runtime/builtins.cxy"), ("String", "src/cxy/runtime/builtins.cxy"),
        ("OutputStream.appendChar, BufferedOutputStream", "src/cxy/runtime/builtins.cxy")]
STATE = [("String invariant", "data[size] is NUL and size <= capacity, the buffer has capacity+1 bytes", "String")]
OBSERVE = ["results of the string operations and bytes written by a compiled program"]
TECH = "contracts on the C generated from builtins.cxy by the compiler under test, discharged by CBMC; same contracts run natively on longer inputs"
NOTE = "UTF-8 encoding is proved for every code point; operations over text are checked for all contents up to a stated length (bounded), each from every state, and sampled natively at lengths to 200. Number printing relies on sprintf and is sampled only."
LEVEL = "other"
UNITS = [dict(name="strings", harness="strings.c", probe="strings.cxy")]
ASSUMPTIONS = ["isspace of the C locale, memmove/memcpy/memcmp as the C standard defines them (stand-ins in the harness)", "sprintf formats integers correctly"]

TITLE = "Runtime hashing is FNV-1a over the whole value; byte swaps reverse bytes"
STATEMENT = ("The runtime's hash of an integer, string, counted string or byte buffer is the 32-bit FNV-1a hash over exactly its bytes, in order and of any length, so "
             "equal values hash equally whichever way they are presented, and the case-insensitive variants hash the upper-cased text. "
             "The byte-swap functions reverse the bytes of their argument and are their own inverse.")
OVER = ["inputs"]
QTEXT = "all seeds and integer values; all byte contents for each length explored"
WHY = "Tests hash a couple of short words; long, empty and non-ASCII inputs and the byte order are never checked."
FILES = ["src/cxy/runtime/builtins.cxy"]
MECH = [("hash_fnv1a_*, hash, __bswap16/32/64", "src/cxy/runtime/builtins.cxy")]
OBSERVE = ["value returned in a compiled program"]
TECH = "postconditions against a spec function on the C generated from builtins.cxy, discharged by CBMC with SAT (byte swaps) and z3 (hashes)"
NOTE = "Integers and byte swaps: complete. Strings and buffers: all contents for the listed lengths (both sides of the 8-bit index boundary), labelled bounded; lengths up to 700 sampled natively."
UNITS = [dict(name="rthash", harness="rthash.c", probe="rthash.cxy")]
ASSUMPTIONS = ["toupper is the C locale's (ASCII) in the proof"]

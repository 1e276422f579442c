TITLE = "Names are interned: equal texts are the same pointer, different texts are not"
STATEMENT = ("The compiler compares names by address. For every history of requests, two requests for equal texts return the same pointer and requests for different texts return different pointers, "
             "also when one text is the beginning of the other or their hashes are equal; the text returned is exactly the text asked for, terminated, and stays valid and unchanged. "
             "Concatenated, formatted, trimmed and path texts are complete whatever their length, and generated names are all different.")
OVER = ["inputs", "histories"]
QTEXT = "all texts up to the stated length, all contents of the pool, all hash collisions"
WHY = "Tests use a few dozen short names; two names with one hash, one the beginning of the other, never occur in them, and long generated names neither."
FILES = ["src/cxy/core/strpool.c", "src/cxy/core/hash.c"]
MECH = [("makeStringSized, compareStrFind, compareStrInsert, makeStringConcat_, makeAnonymousVariable, joinPath_", "src/cxy/core/strpool.c")]
OBSERVE = ["pointer and text returned by makeString and its variants"]
TECH = "contracts on the real strpool.c with the hash table replaced by its contract (C01), discharged by CBMC; the same contracts run natively on long texts and searched hash collisions"
NOTE = "Texts up to 3 characters and 2 pooled texts in the verified runs (bounded); the hash is abstracted, every pooled text is compared."
LEVEL = "other"
UNITS = [dict(name="strpool", harness="strpool.c", src=["src/cxy/core/hash.c", "src/cxy/core/mempool.c"], stubs=["vf_stubs.c"],
              nsrc=["src/cxy/core/utils.c", "src/cxy/core/htable.c", "src/cxy/core/hash.c", "src/cxy/core/mempool.c"])]
ASSUMPTIONS = ["texts hold no NUL", "the hash table meets its contract (C01)", "malloc succeeds"]

TITLE = "The compiler's hash tables are exact sets under any history of operations"
STATEMENT = ("After any sequence of insertions and removals a hash table (HashTable, Hmap) holds exactly the elements inserted and not yet removed: a lookup finds an element "
             "exactly when it is present and returns the stored payload, inserting an element that is present adds nothing and reports it, and a removal "
             "reports whether it removed something and disturbs no other element. Enumeration visits every element exactly once, and growing the table keeps "
             "every element. This holds for every pattern of hash collisions, including probe chains that wrap around the end of the table.")
OVER = ["histories", "inputs"]
QTEXT = "all well-formed table states (every occupancy and collision pattern), every operation and key"
WHY = "Tests never build collision chains that wrap around or remove from the middle of one; the table underlies string interning, types and symbols."
FILES = ["src/cxy/core/htable.c", "src/cxy/core/hmap.c", "src/cxy/core/htable.h", "src/cxy/core/utils.c", "src/cxy/core/utils.h"]
MECH = [("findInHashTable, insertInHashTable, removeFromHashTable, enumerateHashTable, growHashTable", "src/cxy/core/htable.c"),
        ("modPrime, nextPrime", "src/cxy/core/utils.h")]
MECH.append(("hmapPut, hmapGet, hmapRemove, hmapNext, hmapRehash", "src/cxy/core/hmap.c"))
STATE = [("representation invariant", "each occupied bucket is reachable from its home slot by linear probing, keys distinct, size exact", "HashTable")]
OBSERVE = ["findInHashTable / insertInHashTable / removeFromHashTable results on any history"]
TECH = "contracts with a representation invariant on the real htable.c, discharged by CBMC (SAT) per operation from an arbitrary well-formed state; SMT (z3) for the prime arithmetic"
NOTE = ("Inductive: each operation is checked from every well-formed state, so histories of any length are covered, but table capacity is bounded "
        "(HashTable: 7, growth 7 to 17; Hmap: 4, in thorough 5), so the table obligations are labelled bounded; modPrime/nextPrime are proved for all inputs.")
LEVEL = "other"
UNITS = [dict(name="htable", harness="htable.c", src=["src/cxy/core/htable.c"], stubs=["vf_stubs.c"], nsrc=["src/cxy/core/utils.c"]),
         dict(name="hmap", harness="hmap.c", stubs=["vf_stubs.c"], nsrc=["src/cxy/core/utils.c"]),
         dict(name="primes", harness="primes.c")]
ASSUMPTIONS = ["the comparison callback is an equivalence on keys and equal keys have equal hashes (caller contract)",
               "table capacity 7 (growth 7 to 17) stands for every capacity"]

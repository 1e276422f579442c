TITLE = "HashMap and HashSet behave as a finite map under any history"
STATEMENT = ("After any sequence of insertions, replacements, removals and clears a HashMap holds exactly the keys inserted and not removed, each with the "
             "value last stored for it: lookup finds a key exactly when it is present, insert reports whether the key is new and without replace leaves the old "
             "value, and removing a key disturbs no other key. The size is the number of keys, iteration visits every entry exactly once, and growing or shrinking "
             "loses nothing. This holds for every pattern of hash collisions, including chains that wrap around the end of the bucket array.")
OVER = ["histories", "inputs"]
QTEXT = "all well-formed map states and all operations, keys and values; every pattern of home buckets"
WHY = "The two existing tests insert two keys; displacement, wrap-around, backward shifting, growth and shrinking are never reached."
FILES = ["src/cxy/stdlib/hash.cxy"]
MECH = [("HashMap.insertInternal, getInternal, remove, probe, rehash, idealSize", "src/cxy/stdlib/hash.cxy")]
STATE = [("robin hood invariant", "no entry is farther from its home bucket than its predecessor's distance plus one; lookups stop early on it", "HashMap._data")]
OBSERVE = ["results of insert/get/contains/remove/size and iteration in a compiled program"]
TECH = "contracts with a representation invariant on the C generated from hash.cxy by the compiler under test, discharged by CBMC per operation"
NOTE = ("Inductive over histories: every operation is checked from every well-formed state of 5 buckets (11 in the thorough tier), so the table obligations are bounded in "
        "capacity; the capacity rule idealSize is proved for all sizes up to 2^26. Instance HashMap[u32,u32] with a hash that reaches every collision pattern.")
LEVEL = "other"
UNITS = [dict(name="hashmap", harness="hashmap.c", probe="hashmap.cxy", alias=["idealSize", "rehash"])]
ASSUMPTIONS = ["the instance HashMap[u32,u32,Slot,Same] stands for other key and value types (keys are only hashed and compared)",
               "in the remove/insert obligations one key per home bucket stands for all keys of that bucket (symmetry)",
               "insertInternal is replaced by its contract in the rehash obligation, idealSize by its contract in insert/remove"]

TITLE = "Type identity is structural and types are unique"
STATEMENT = ("Two types are the same type exactly when they are built alike: same kind, same qualifiers, the same pointed-to, referenced, optional, element, key, value, aliased or result type, the same array length, "
             "the same members, parameters or type arguments in the same number and order, the same return type and, for named types, the same name and namespace. Being the same is reflexive and symmetric, "
             "a type and its const variant differ, and asking the type table twice for the same type gives one object, for different types different ones.")
OVER = ["inputs"]
QTEXT = "all primitive parts, lengths, qualifiers and names of each shape"
WHY = "No test compares types; a part ignored by comparison or hashing merges or splits types only in programs that use two types differing in just that part."
FILES = ["src/cxy/lang/frontend/ttable.c", "src/cxy/lang/frontend/types.c", "src/cxy/lang/frontend/types.h"]
MECH = [("compareTypes, compareManyTypes, compareUnionMembers", "src/cxy/lang/frontend/ttable.c"), ("hashType, getOrInsertType", "src/cxy/lang/frontend/ttable.c"),
        ("make*Type, unwrapType, flattenWrappedType", "src/cxy/lang/frontend/ttable.c")]
OBSERVE = ["overload and generic instance chosen, type errors, C types emitted"]
TECH = "contracts on the real type table functions per shape of type with symbolic parts, discharged by CBMC"
NOTE = "All parts symbolic per shape; shapes nest at most two levels and lists of symbolic types hold at most three members, list comparison is also decided against its element contract for up to 16. The hash table stands for its contract."
UNITS = [dict(name="typetable", harness="typetable.c", src=["src/cxy/lang/frontend/types.c"], stubs=["vf_stubs.c"])]
ASSUMPTIONS = ["the hash table finds an inserted entry with equal hash that compares equal, and nothing else (C01)", "interned names: two names are one pointer when equal (C02)",
               "hashes are deterministic; the harness uses a simpler mixing function"]

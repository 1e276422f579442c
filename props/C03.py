TITLE = "The memory pool hands out disjoint memory"
STATEMENT = ("Every allocation from a memory pool, of any size and after any history, lies wholly inside one of the pool's blocks, is aligned for every type and overlaps no other live allocation; "
             "the node and type caches hand out memory given back to them once, and never memory still in use; tracked allocations keep their contents when they grow; resetting makes all memory "
             "available again without handing out any of it twice, and freeing the pool releases every block and every tracked allocation exactly once.")
OVER = ["inputs", "histories"]
QTEXT = "all sizes, all fill levels of up to three blocks, all cache fills up to three items"
WHY = "Overlap shows only as corrupted syntax trees after particular size sequences that the tests do not produce."
FILES = ["src/cxy/core/mempool.c"]
MECH = [("allocFromMemPool, allocFromCacheOrPool, freeMemToPoolCache, allocTrackedMem, reallocTrackedMem, resetMemPool, freeMemPool", "src/cxy/core/mempool.c")]
STATE = [("chain invariant", "size <= capacity in each block, blocks after the current one are empty", "MemPool")]
OBSERVE = ["addresses returned by the pool functions"]
TECH = "contracts with a representation invariant on the real mempool.c, discharged by CBMC with symbolic sizes and memory checks; the same contracts run natively under AddressSanitizer"
NOTE = "Inductive over operations; the chain has at most 3 blocks and the caches at most 3 items in the verified runs (bounded)."
LEVEL = "other"
UNITS = [dict(name="mempool", harness="mempool.c", stubs=["vf_stubs.c"], nsrc=["src/cxy/core/utils.c"])]
ASSUMPTIONS = ["malloc succeeds and returns 16 byte aligned memory", "memory is returned to the cache it came from, with one size per cache"]

/* C01: contracts of the capacity and slot functions, for all arguments. */
#include "vf.h"
#include "core/primes.h"

/*@ fn=modPrime nextPrime; unwind=8; solver=z3; ncount=2000 */
void h_modprime(void)
{
    size_t h = VF_U32(), p = VF_U32();
    REQUIRES(p > 0);
    ENSURES(modPrime(h, p) == h % p, "the slot is the remainder");
    size_t n = VF_U64(), q = nextPrime(n);
    ENSURES(q > n || q == MAX_PRIME, "capacities grow");
    ENSURES(q >= MIN_PRIME, "capacity is never zero");
    REACH("modprime");
}


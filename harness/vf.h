/* Verification harness vocabulary.
 *
 * A harness is a Hoare triple over real /repo functions:
 *   inputs      VF_U64("name") ...       unconstrained (full-domain) values
 *   REQUIRES(p) precondition             (CBMC: assume; native: skip the case)
 *   ENSURES(p, "text")  postcondition    (CBMC: obligation; native: check)
 *   REACH("text")       vacuity guard: this point must be reachable
 *
 * The same text runs natively (-DVF_NATIVE): inputs then come from a replay file
 * (the verifier's counterexample) or from a pseudo random generator.
 */
#ifndef VF_H
#define VF_H
#ifdef VF_GEN
/* the generated program comes first: it brings its own C types and declarations */
#define main cxy_main
#include "gen.c"
#undef main
#include "gen_types.h"
typedef uint64_t size_t;
#define true 1
#define false 0
#ifndef NULL
#define NULL ((void *)0)
#endif
#ifndef UINT64_MAX
#define UINT64_MAX 18446744073709551615ull
#endif
#else
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#endif

#ifdef VF_NATIVE
uint64_t vf_next(uint64_t bits);
void vf_skip(void);
void vf_fail(const char *text, const char *file, int line);
void vf_reach(const char *text);
#define REQUIRES(P)                                                            \
    do {                                                                       \
        if (!(P))                                                              \
            vf_skip();                                                         \
    } while (0)
#define ENSURES(P, TEXT)                                                       \
    do {                                                                       \
        if (!(P))                                                              \
            vf_fail(TEXT, __FILE__, __LINE__);                                 \
    } while (0)
#define REACH(TEXT) vf_reach(TEXT)
static inline uint64_t vf_in(uint64_t bits) { return vf_next(bits); }
/* lo..hi inclusive */
static inline uint64_t vf_range(uint64_t lo, uint64_t hi)
{
    uint64_t v = vf_next(64);
    if (v >= lo && v <= hi)
        return v;
    return (hi - lo == UINT64_MAX) ? v : lo + v % (hi - lo + 1);
}
#else
uint64_t nondet_vf_u64(void);
#define REQUIRES(P) __CPROVER_assume(P)
#define ENSURES(P, TEXT) __CPROVER_assert((P), "ENSURES " TEXT)
#define REACH(TEXT) __CPROVER_assert(0, "REACH " TEXT)
static inline uint64_t vf_in(uint64_t bits)
{
    uint64_t vf = nondet_vf_u64();
    if (bits < 64)
        __CPROVER_assume(vf < ((uint64_t)1 << bits));
    __CPROVER_input("vf", vf);
    return vf;
}
static inline uint64_t vf_range(uint64_t lo, uint64_t hi)
{
    uint64_t vf = nondet_vf_u64();
    __CPROVER_assume(vf >= lo && vf <= hi);
    __CPROVER_input("vf", vf);
    return vf;
}
#endif

#define VF_BOOL() ((bool)vf_in(1))
#define VF_U8() ((uint8_t)vf_in(8))
#define VF_I8() ((int8_t)vf_in(8))
#define VF_U16() ((uint16_t)vf_in(16))
#define VF_I16() ((int16_t)vf_in(16))
#define VF_U32() ((uint32_t)vf_in(32))
#define VF_I32() ((int32_t)vf_in(32))
#define VF_U64() (vf_in(64))
#define VF_I64() ((int64_t)vf_in(64))
static inline double vf_f64(void)
{
    union {
        uint64_t u;
        double d;
    } x;
    x.u = vf_in(64);
    return x.d;
}
#define VF_F64() vf_f64()
static inline void vf_bytes(void *p, size_t n)
{
    for (size_t i = 0; i < n; i++)
        ((uint8_t *)p)[i] = VF_U8();
}
#endif

/* C09, written by tools/mk_ops.py */
#include "vf.h"
#define IN_bool() VF_BOOL()
#define IN_i8() VF_I8()
#define IN_i16() VF_I16()
#define IN_i32() VF_I32()
#define IN_i64() VF_I64()
#define IN_u8() VF_U8()
#define IN_u16() VF_U16()
#define IN_u32() VF_U32()
#define IN_u64() VF_U64()
static float IN_f32(void) { union { uint32_t u; float f; } x; x.u = VF_U32(); return x.f; }
#define IN_f64() VF_F64()
#define MIN8 -128
#define MIN16 -32768
#define MIN32 (-2147483647 - 1)
#define MIN64 (-9223372036854775807ll - 1)
static _Bool samef(double a, double b) { return a == b || (a != a && b != b); }
#define SAMEF(A, B) samef(A, B)
/*@ fn=codegen.bin_muldiv; unwind=4; solver=z3; ncount=3000; timeout=200 */
void h_bin_muldiv(void)
{
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if (1) { ENSURES(b_mul_i8(a, b) == (((int8_t)(a * b))), "* on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if ((b) != 0 && !((b) == -1 && (a) == MIN8)) { ENSURES(b_div_i8(a, b) == (((int8_t)(a / b))), "/ on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if ((b) != 0 && !((b) == -1 && (a) == MIN8)) { ENSURES(b_mod_i8(a, b) == (((int8_t)(a % b))), "% on i8"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if (1) { ENSURES(b_mul_i16(a, b) == (((int16_t)(a * b))), "* on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if ((b) != 0 && !((b) == -1 && (a) == MIN16)) { ENSURES(b_div_i16(a, b) == (((int16_t)(a / b))), "/ on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if ((b) != 0 && !((b) == -1 && (a) == MIN16)) { ENSURES(b_mod_i16(a, b) == (((int16_t)(a % b))), "% on i16"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if (1) { ENSURES(b_mul_i32(a, b) == (((int32_t)(a * b))), "* on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if ((b) != 0 && !((b) == -1 && (a) == MIN32)) { ENSURES(b_div_i32(a, b) == (((int32_t)(a / b))), "/ on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if ((b) != 0 && !((b) == -1 && (a) == MIN32)) { ENSURES(b_mod_i32(a, b) == (((int32_t)(a % b))), "% on i32"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if (1) { ENSURES(b_mul_i64(a, b) == (((int64_t)(a * b))), "* on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(b_div_i64(a, b) == (((int64_t)(a / b))), "/ on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(b_mod_i64(a, b) == (((int64_t)(a % b))), "% on i64"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if (1) { ENSURES(b_mul_u8(a, b) == (((uint8_t)(a * b))), "* on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if ((b) != 0) { ENSURES(b_div_u8(a, b) == (((uint8_t)(a / b))), "/ on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if ((b) != 0) { ENSURES(b_mod_u8(a, b) == (((uint8_t)(a % b))), "% on u8"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if (1) { ENSURES(b_mul_u16(a, b) == (((uint16_t)(a * b))), "* on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if ((b) != 0) { ENSURES(b_div_u16(a, b) == (((uint16_t)(a / b))), "/ on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if ((b) != 0) { ENSURES(b_mod_u16(a, b) == (((uint16_t)(a % b))), "% on u16"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if (1) { ENSURES(b_mul_u32(a, b) == (((uint32_t)(a * b))), "* on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if ((b) != 0) { ENSURES(b_div_u32(a, b) == (((uint32_t)(a / b))), "/ on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if ((b) != 0) { ENSURES(b_mod_u32(a, b) == (((uint32_t)(a % b))), "% on u32"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if (1) { ENSURES(b_mul_u64(a, b) == (((uint64_t)(a * b))), "* on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if ((b) != 0) { ENSURES(b_div_u64(a, b) == (((uint64_t)(a / b))), "/ on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if ((b) != 0) { ENSURES(b_mod_u64(a, b) == (((uint64_t)(a % b))), "% on u64"); } }
    REACH("bin_muldiv");
}
/*@ fn=codegen.asg_muldiv; unwind=4; solver=z3; ncount=3000; timeout=200 */
void h_asg_muldiv(void)
{
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if (1) { ENSURES(s_mul_i8(a, b) == (((int8_t)(a * b))), "*= on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if ((b) != 0 && !((b) == -1 && (a) == MIN8)) { ENSURES(s_div_i8(a, b) == (((int8_t)(a / b))), "/= on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if ((b) != 0 && !((b) == -1 && (a) == MIN8)) { ENSURES(s_mod_i8(a, b) == (((int8_t)(a % b))), "%= on i8"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if (1) { ENSURES(s_mul_i16(a, b) == (((int16_t)(a * b))), "*= on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if ((b) != 0 && !((b) == -1 && (a) == MIN16)) { ENSURES(s_div_i16(a, b) == (((int16_t)(a / b))), "/= on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if ((b) != 0 && !((b) == -1 && (a) == MIN16)) { ENSURES(s_mod_i16(a, b) == (((int16_t)(a % b))), "%= on i16"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if (1) { ENSURES(s_mul_i32(a, b) == (((int32_t)(a * b))), "*= on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if ((b) != 0 && !((b) == -1 && (a) == MIN32)) { ENSURES(s_div_i32(a, b) == (((int32_t)(a / b))), "/= on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if ((b) != 0 && !((b) == -1 && (a) == MIN32)) { ENSURES(s_mod_i32(a, b) == (((int32_t)(a % b))), "%= on i32"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if (1) { ENSURES(s_mul_i64(a, b) == (((int64_t)(a * b))), "*= on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(s_div_i64(a, b) == (((int64_t)(a / b))), "/= on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(s_mod_i64(a, b) == (((int64_t)(a % b))), "%= on i64"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if (1) { ENSURES(s_mul_u8(a, b) == (((uint8_t)(a * b))), "*= on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if ((b) != 0) { ENSURES(s_div_u8(a, b) == (((uint8_t)(a / b))), "/= on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if ((b) != 0) { ENSURES(s_mod_u8(a, b) == (((uint8_t)(a % b))), "%= on u8"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if (1) { ENSURES(s_mul_u16(a, b) == (((uint16_t)(a * b))), "*= on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if ((b) != 0) { ENSURES(s_div_u16(a, b) == (((uint16_t)(a / b))), "/= on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if ((b) != 0) { ENSURES(s_mod_u16(a, b) == (((uint16_t)(a % b))), "%= on u16"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if (1) { ENSURES(s_mul_u32(a, b) == (((uint32_t)(a * b))), "*= on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if ((b) != 0) { ENSURES(s_div_u32(a, b) == (((uint32_t)(a / b))), "/= on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if ((b) != 0) { ENSURES(s_mod_u32(a, b) == (((uint32_t)(a % b))), "%= on u32"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if (1) { ENSURES(s_mul_u64(a, b) == (((uint64_t)(a * b))), "*= on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if ((b) != 0) { ENSURES(s_div_u64(a, b) == (((uint64_t)(a / b))), "/= on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if ((b) != 0) { ENSURES(s_mod_u64(a, b) == (((uint64_t)(a % b))), "%= on u64"); } }
    REACH("asg_muldiv");
}
/*@ fn=codegen.bin_int; unwind=4; solver=z3; ncount=3000; timeout=200 */
void h_bin_int(void)
{
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if (1) { ENSURES(b_add_i8(a, b) == (((int8_t)(a + b))), "+ on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if (1) { ENSURES(b_sub_i8(a, b) == (((int8_t)(a - b))), "- on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if ((b) >= 0 && (b) < 8) { ENSURES(b_shl_i8(a, b) == (((int8_t)(a << b))), "<< on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if ((b) >= 0 && (b) < 8) { ENSURES(b_shr_i8(a, b) == (((int8_t)(a >> b))), ">> on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if (1) { ENSURES(b_and_i8(a, b) == (((int8_t)(a & b))), "& on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if (1) { ENSURES(b_xor_i8(a, b) == (((int8_t)(a ^ b))), "^ on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if (1) { ENSURES(b_or_i8(a, b) == (((int8_t)(a | b))), "| on i8"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if (1) { ENSURES(b_add_i16(a, b) == (((int16_t)(a + b))), "+ on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if (1) { ENSURES(b_sub_i16(a, b) == (((int16_t)(a - b))), "- on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if ((b) >= 0 && (b) < 16) { ENSURES(b_shl_i16(a, b) == (((int16_t)(a << b))), "<< on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if ((b) >= 0 && (b) < 16) { ENSURES(b_shr_i16(a, b) == (((int16_t)(a >> b))), ">> on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if (1) { ENSURES(b_and_i16(a, b) == (((int16_t)(a & b))), "& on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if (1) { ENSURES(b_xor_i16(a, b) == (((int16_t)(a ^ b))), "^ on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if (1) { ENSURES(b_or_i16(a, b) == (((int16_t)(a | b))), "| on i16"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if (1) { ENSURES(b_add_i32(a, b) == (((int32_t)(a + b))), "+ on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if (1) { ENSURES(b_sub_i32(a, b) == (((int32_t)(a - b))), "- on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if ((b) >= 0 && (b) < 32) { ENSURES(b_shl_i32(a, b) == (((int32_t)(a << b))), "<< on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if ((b) >= 0 && (b) < 32) { ENSURES(b_shr_i32(a, b) == (((int32_t)(a >> b))), ">> on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if (1) { ENSURES(b_and_i32(a, b) == (((int32_t)(a & b))), "& on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if (1) { ENSURES(b_xor_i32(a, b) == (((int32_t)(a ^ b))), "^ on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if (1) { ENSURES(b_or_i32(a, b) == (((int32_t)(a | b))), "| on i32"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if (1) { ENSURES(b_add_i64(a, b) == (((int64_t)(a + b))), "+ on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if (1) { ENSURES(b_sub_i64(a, b) == (((int64_t)(a - b))), "- on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(b_shl_i64(a, b) == (((int64_t)(a << b))), "<< on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(b_shr_i64(a, b) == (((int64_t)(a >> b))), ">> on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if (1) { ENSURES(b_and_i64(a, b) == (((int64_t)(a & b))), "& on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if (1) { ENSURES(b_xor_i64(a, b) == (((int64_t)(a ^ b))), "^ on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if (1) { ENSURES(b_or_i64(a, b) == (((int64_t)(a | b))), "| on i64"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if (1) { ENSURES(b_add_u8(a, b) == (((uint8_t)(a + b))), "+ on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if (1) { ENSURES(b_sub_u8(a, b) == (((uint8_t)(a - b))), "- on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if ((b) >= 0 && (b) < 8) { ENSURES(b_shl_u8(a, b) == (((uint8_t)(a << b))), "<< on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if ((b) >= 0 && (b) < 8) { ENSURES(b_shr_u8(a, b) == (((uint8_t)(a >> b))), ">> on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if (1) { ENSURES(b_and_u8(a, b) == (((uint8_t)(a & b))), "& on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if (1) { ENSURES(b_xor_u8(a, b) == (((uint8_t)(a ^ b))), "^ on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if (1) { ENSURES(b_or_u8(a, b) == (((uint8_t)(a | b))), "| on u8"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if (1) { ENSURES(b_add_u16(a, b) == (((uint16_t)(a + b))), "+ on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if (1) { ENSURES(b_sub_u16(a, b) == (((uint16_t)(a - b))), "- on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if ((b) >= 0 && (b) < 16) { ENSURES(b_shl_u16(a, b) == (((uint16_t)(a << b))), "<< on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if ((b) >= 0 && (b) < 16) { ENSURES(b_shr_u16(a, b) == (((uint16_t)(a >> b))), ">> on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if (1) { ENSURES(b_and_u16(a, b) == (((uint16_t)(a & b))), "& on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if (1) { ENSURES(b_xor_u16(a, b) == (((uint16_t)(a ^ b))), "^ on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if (1) { ENSURES(b_or_u16(a, b) == (((uint16_t)(a | b))), "| on u16"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if (1) { ENSURES(b_add_u32(a, b) == (((uint32_t)(a + b))), "+ on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if (1) { ENSURES(b_sub_u32(a, b) == (((uint32_t)(a - b))), "- on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if ((b) >= 0 && (b) < 32) { ENSURES(b_shl_u32(a, b) == (((uint32_t)(a << b))), "<< on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if ((b) >= 0 && (b) < 32) { ENSURES(b_shr_u32(a, b) == (((uint32_t)(a >> b))), ">> on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if (1) { ENSURES(b_and_u32(a, b) == (((uint32_t)(a & b))), "& on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if (1) { ENSURES(b_xor_u32(a, b) == (((uint32_t)(a ^ b))), "^ on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if (1) { ENSURES(b_or_u32(a, b) == (((uint32_t)(a | b))), "| on u32"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if (1) { ENSURES(b_add_u64(a, b) == (((uint64_t)(a + b))), "+ on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if (1) { ENSURES(b_sub_u64(a, b) == (((uint64_t)(a - b))), "- on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if ((b) >= 0 && (b) < 64) { ENSURES(b_shl_u64(a, b) == (((uint64_t)(a << b))), "<< on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if ((b) >= 0 && (b) < 64) { ENSURES(b_shr_u64(a, b) == (((uint64_t)(a >> b))), ">> on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if (1) { ENSURES(b_and_u64(a, b) == (((uint64_t)(a & b))), "& on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if (1) { ENSURES(b_xor_u64(a, b) == (((uint64_t)(a ^ b))), "^ on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if (1) { ENSURES(b_or_u64(a, b) == (((uint64_t)(a | b))), "| on u64"); } }
    REACH("bin_int");
}
/*@ fn=codegen.asg_int; unwind=4; solver=z3; ncount=3000; timeout=200 */
void h_asg_int(void)
{
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if (1) { ENSURES(s_add_i8(a, b) == (((int8_t)(a + b))), "+= on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if (1) { ENSURES(s_sub_i8(a, b) == (((int8_t)(a - b))), "-= on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if ((b) >= 0 && (b) < 8) { ENSURES(s_shl_i8(a, b) == (((int8_t)(a << b))), "<<= on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if ((b) >= 0 && (b) < 8) { ENSURES(s_shr_i8(a, b) == (((int8_t)(a >> b))), ">>= on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if (1) { ENSURES(s_and_i8(a, b) == (((int8_t)(a & b))), "&= on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if (1) { ENSURES(s_xor_i8(a, b) == (((int8_t)(a ^ b))), "^= on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if (1) { ENSURES(s_or_i8(a, b) == (((int8_t)(a | b))), "|= on i8"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if (1) { ENSURES(s_add_i16(a, b) == (((int16_t)(a + b))), "+= on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if (1) { ENSURES(s_sub_i16(a, b) == (((int16_t)(a - b))), "-= on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if ((b) >= 0 && (b) < 16) { ENSURES(s_shl_i16(a, b) == (((int16_t)(a << b))), "<<= on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if ((b) >= 0 && (b) < 16) { ENSURES(s_shr_i16(a, b) == (((int16_t)(a >> b))), ">>= on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if (1) { ENSURES(s_and_i16(a, b) == (((int16_t)(a & b))), "&= on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if (1) { ENSURES(s_xor_i16(a, b) == (((int16_t)(a ^ b))), "^= on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if (1) { ENSURES(s_or_i16(a, b) == (((int16_t)(a | b))), "|= on i16"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if (1) { ENSURES(s_add_i32(a, b) == (((int32_t)(a + b))), "+= on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if (1) { ENSURES(s_sub_i32(a, b) == (((int32_t)(a - b))), "-= on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if ((b) >= 0 && (b) < 32) { ENSURES(s_shl_i32(a, b) == (((int32_t)(a << b))), "<<= on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if ((b) >= 0 && (b) < 32) { ENSURES(s_shr_i32(a, b) == (((int32_t)(a >> b))), ">>= on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if (1) { ENSURES(s_and_i32(a, b) == (((int32_t)(a & b))), "&= on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if (1) { ENSURES(s_xor_i32(a, b) == (((int32_t)(a ^ b))), "^= on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if (1) { ENSURES(s_or_i32(a, b) == (((int32_t)(a | b))), "|= on i32"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if (1) { ENSURES(s_add_i64(a, b) == (((int64_t)(a + b))), "+= on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if (1) { ENSURES(s_sub_i64(a, b) == (((int64_t)(a - b))), "-= on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(s_shl_i64(a, b) == (((int64_t)(a << b))), "<<= on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(s_shr_i64(a, b) == (((int64_t)(a >> b))), ">>= on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if (1) { ENSURES(s_and_i64(a, b) == (((int64_t)(a & b))), "&= on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if (1) { ENSURES(s_xor_i64(a, b) == (((int64_t)(a ^ b))), "^= on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if (1) { ENSURES(s_or_i64(a, b) == (((int64_t)(a | b))), "|= on i64"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if (1) { ENSURES(s_add_u8(a, b) == (((uint8_t)(a + b))), "+= on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if (1) { ENSURES(s_sub_u8(a, b) == (((uint8_t)(a - b))), "-= on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if ((b) >= 0 && (b) < 8) { ENSURES(s_shl_u8(a, b) == (((uint8_t)(a << b))), "<<= on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if ((b) >= 0 && (b) < 8) { ENSURES(s_shr_u8(a, b) == (((uint8_t)(a >> b))), ">>= on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if (1) { ENSURES(s_and_u8(a, b) == (((uint8_t)(a & b))), "&= on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if (1) { ENSURES(s_xor_u8(a, b) == (((uint8_t)(a ^ b))), "^= on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if (1) { ENSURES(s_or_u8(a, b) == (((uint8_t)(a | b))), "|= on u8"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if (1) { ENSURES(s_add_u16(a, b) == (((uint16_t)(a + b))), "+= on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if (1) { ENSURES(s_sub_u16(a, b) == (((uint16_t)(a - b))), "-= on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if ((b) >= 0 && (b) < 16) { ENSURES(s_shl_u16(a, b) == (((uint16_t)(a << b))), "<<= on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if ((b) >= 0 && (b) < 16) { ENSURES(s_shr_u16(a, b) == (((uint16_t)(a >> b))), ">>= on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if (1) { ENSURES(s_and_u16(a, b) == (((uint16_t)(a & b))), "&= on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if (1) { ENSURES(s_xor_u16(a, b) == (((uint16_t)(a ^ b))), "^= on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if (1) { ENSURES(s_or_u16(a, b) == (((uint16_t)(a | b))), "|= on u16"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if (1) { ENSURES(s_add_u32(a, b) == (((uint32_t)(a + b))), "+= on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if (1) { ENSURES(s_sub_u32(a, b) == (((uint32_t)(a - b))), "-= on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if ((b) >= 0 && (b) < 32) { ENSURES(s_shl_u32(a, b) == (((uint32_t)(a << b))), "<<= on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if ((b) >= 0 && (b) < 32) { ENSURES(s_shr_u32(a, b) == (((uint32_t)(a >> b))), ">>= on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if (1) { ENSURES(s_and_u32(a, b) == (((uint32_t)(a & b))), "&= on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if (1) { ENSURES(s_xor_u32(a, b) == (((uint32_t)(a ^ b))), "^= on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if (1) { ENSURES(s_or_u32(a, b) == (((uint32_t)(a | b))), "|= on u32"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if (1) { ENSURES(s_add_u64(a, b) == (((uint64_t)(a + b))), "+= on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if (1) { ENSURES(s_sub_u64(a, b) == (((uint64_t)(a - b))), "-= on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if ((b) >= 0 && (b) < 64) { ENSURES(s_shl_u64(a, b) == (((uint64_t)(a << b))), "<<= on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if ((b) >= 0 && (b) < 64) { ENSURES(s_shr_u64(a, b) == (((uint64_t)(a >> b))), ">>= on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if (1) { ENSURES(s_and_u64(a, b) == (((uint64_t)(a & b))), "&= on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if (1) { ENSURES(s_xor_u64(a, b) == (((uint64_t)(a ^ b))), "^= on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if (1) { ENSURES(s_or_u64(a, b) == (((uint64_t)(a | b))), "|= on u64"); } }
    REACH("asg_int");
}
/*@ fn=codegen.cmp; unwind=4; solver=z3; ncount=3000; timeout=200 */
void h_cmp(void)
{
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if (1) { ENSURES(b_lt_i8(a, b) == (a < b), "< on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if (1) { ENSURES(b_le_i8(a, b) == (a <= b), "<= on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if (1) { ENSURES(b_gt_i8(a, b) == (a > b), "> on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if (1) { ENSURES(b_ge_i8(a, b) == (a >= b), ">= on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if (1) { ENSURES(b_eq_i8(a, b) == (a == b), "== on i8"); } }
    { int8_t a = IN_i8(); int8_t b = IN_i8(); if (1) { ENSURES(b_ne_i8(a, b) == (a != b), "!= on i8"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if (1) { ENSURES(b_lt_i16(a, b) == (a < b), "< on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if (1) { ENSURES(b_le_i16(a, b) == (a <= b), "<= on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if (1) { ENSURES(b_gt_i16(a, b) == (a > b), "> on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if (1) { ENSURES(b_ge_i16(a, b) == (a >= b), ">= on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if (1) { ENSURES(b_eq_i16(a, b) == (a == b), "== on i16"); } }
    { int16_t a = IN_i16(); int16_t b = IN_i16(); if (1) { ENSURES(b_ne_i16(a, b) == (a != b), "!= on i16"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if (1) { ENSURES(b_lt_i32(a, b) == (a < b), "< on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if (1) { ENSURES(b_le_i32(a, b) == (a <= b), "<= on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if (1) { ENSURES(b_gt_i32(a, b) == (a > b), "> on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if (1) { ENSURES(b_ge_i32(a, b) == (a >= b), ">= on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if (1) { ENSURES(b_eq_i32(a, b) == (a == b), "== on i32"); } }
    { int32_t a = IN_i32(); int32_t b = IN_i32(); if (1) { ENSURES(b_ne_i32(a, b) == (a != b), "!= on i32"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if (1) { ENSURES(b_lt_i64(a, b) == (a < b), "< on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if (1) { ENSURES(b_le_i64(a, b) == (a <= b), "<= on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if (1) { ENSURES(b_gt_i64(a, b) == (a > b), "> on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if (1) { ENSURES(b_ge_i64(a, b) == (a >= b), ">= on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if (1) { ENSURES(b_eq_i64(a, b) == (a == b), "== on i64"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); if (1) { ENSURES(b_ne_i64(a, b) == (a != b), "!= on i64"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if (1) { ENSURES(b_lt_u8(a, b) == (a < b), "< on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if (1) { ENSURES(b_le_u8(a, b) == (a <= b), "<= on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if (1) { ENSURES(b_gt_u8(a, b) == (a > b), "> on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if (1) { ENSURES(b_ge_u8(a, b) == (a >= b), ">= on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if (1) { ENSURES(b_eq_u8(a, b) == (a == b), "== on u8"); } }
    { uint8_t a = IN_u8(); uint8_t b = IN_u8(); if (1) { ENSURES(b_ne_u8(a, b) == (a != b), "!= on u8"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if (1) { ENSURES(b_lt_u16(a, b) == (a < b), "< on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if (1) { ENSURES(b_le_u16(a, b) == (a <= b), "<= on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if (1) { ENSURES(b_gt_u16(a, b) == (a > b), "> on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if (1) { ENSURES(b_ge_u16(a, b) == (a >= b), ">= on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if (1) { ENSURES(b_eq_u16(a, b) == (a == b), "== on u16"); } }
    { uint16_t a = IN_u16(); uint16_t b = IN_u16(); if (1) { ENSURES(b_ne_u16(a, b) == (a != b), "!= on u16"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if (1) { ENSURES(b_lt_u32(a, b) == (a < b), "< on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if (1) { ENSURES(b_le_u32(a, b) == (a <= b), "<= on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if (1) { ENSURES(b_gt_u32(a, b) == (a > b), "> on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if (1) { ENSURES(b_ge_u32(a, b) == (a >= b), ">= on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if (1) { ENSURES(b_eq_u32(a, b) == (a == b), "== on u32"); } }
    { uint32_t a = IN_u32(); uint32_t b = IN_u32(); if (1) { ENSURES(b_ne_u32(a, b) == (a != b), "!= on u32"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if (1) { ENSURES(b_lt_u64(a, b) == (a < b), "< on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if (1) { ENSURES(b_le_u64(a, b) == (a <= b), "<= on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if (1) { ENSURES(b_gt_u64(a, b) == (a > b), "> on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if (1) { ENSURES(b_ge_u64(a, b) == (a >= b), ">= on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if (1) { ENSURES(b_eq_u64(a, b) == (a == b), "== on u64"); } }
    { uint64_t a = IN_u64(); uint64_t b = IN_u64(); if (1) { ENSURES(b_ne_u64(a, b) == (a != b), "!= on u64"); } }
    { float a = IN_f32(); float b = IN_f32(); if (1) { ENSURES(b_lt_f32(a, b) == (a < b), "< on f32"); } }
    { float a = IN_f32(); float b = IN_f32(); if (1) { ENSURES(b_le_f32(a, b) == (a <= b), "<= on f32"); } }
    { float a = IN_f32(); float b = IN_f32(); if (1) { ENSURES(b_gt_f32(a, b) == (a > b), "> on f32"); } }
    { float a = IN_f32(); float b = IN_f32(); if (1) { ENSURES(b_ge_f32(a, b) == (a >= b), ">= on f32"); } }
    { float a = IN_f32(); float b = IN_f32(); if (1) { ENSURES(b_eq_f32(a, b) == (a == b), "== on f32"); } }
    { float a = IN_f32(); float b = IN_f32(); if (1) { ENSURES(b_ne_f32(a, b) == (a != b), "!= on f32"); } }
    { double a = IN_f64(); double b = IN_f64(); if (1) { ENSURES(b_lt_f64(a, b) == (a < b), "< on f64"); } }
    { double a = IN_f64(); double b = IN_f64(); if (1) { ENSURES(b_le_f64(a, b) == (a <= b), "<= on f64"); } }
    { double a = IN_f64(); double b = IN_f64(); if (1) { ENSURES(b_gt_f64(a, b) == (a > b), "> on f64"); } }
    { double a = IN_f64(); double b = IN_f64(); if (1) { ENSURES(b_ge_f64(a, b) == (a >= b), ">= on f64"); } }
    { double a = IN_f64(); double b = IN_f64(); if (1) { ENSURES(b_eq_f64(a, b) == (a == b), "== on f64"); } }
    { double a = IN_f64(); double b = IN_f64(); if (1) { ENSURES(b_ne_f64(a, b) == (a != b), "!= on f64"); } }
    { _Bool a = IN_bool(); _Bool b = IN_bool(); if (1) { ENSURES(b_land_bool(a, b) == (a && b), "&& on bool"); } }
    { _Bool a = IN_bool(); _Bool b = IN_bool(); if (1) { ENSURES(b_lor_bool(a, b) == (a || b), "|| on bool"); } }
    { _Bool a = IN_bool(); _Bool b = IN_bool(); if (1) { ENSURES(b_eq_bool(a, b) == (a == b), "== on bool"); } }
    { _Bool a = IN_bool(); _Bool b = IN_bool(); if (1) { ENSURES(b_ne_bool(a, b) == (a != b), "!= on bool"); } }
    { _Bool a = IN_bool(); if (1) { ENSURES(u_not_bool(a) == (!a), "! on bool"); } }
    REACH("cmp");
}
/*@ fn=codegen.unary; unwind=4; solver=z3; ncount=3000; timeout=200 */
void h_unary(void)
{
    { int8_t a = IN_i8(); if (1) { ENSURES(u_neg_i8(a) == (((int8_t)(-a))), "unary - on i8"); } }
    { int8_t a = IN_i8(); if (1) { ENSURES(u_plus_i8(a) == (a), "unary + on i8"); } }
    { int8_t a = IN_i8(); if (1) { ENSURES(u_com_i8(a) == (((int8_t)(~a))), "~ on i8"); } }
    { int8_t a = IN_i8(); if (1) { ENSURES(u_postinc_i8(a) == (((int8_t)(((int8_t)(a)) ^ ((int8_t)(a + 1))))), "postinc on i8"); } }
    { int8_t a = IN_i8(); if (1) { ENSURES(u_postinc1_i8(a) == (((int8_t)(a))), "value of postinc on i8"); } }
    { int8_t a = IN_i8(); if (1) { ENSURES(u_postdec_i8(a) == (((int8_t)(((int8_t)(a)) ^ ((int8_t)(a - 1))))), "postdec on i8"); } }
    { int8_t a = IN_i8(); if (1) { ENSURES(u_postdec1_i8(a) == (((int8_t)(a))), "value of postdec on i8"); } }
    { int8_t a = IN_i8(); if (1) { ENSURES(u_preinc_i8(a) == (((int8_t)(((int8_t)(a + 1)) ^ ((int8_t)(a + 1))))), "preinc on i8"); } }
    { int8_t a = IN_i8(); if (1) { ENSURES(u_preinc1_i8(a) == (((int8_t)(a + 1))), "value of preinc on i8"); } }
    { int8_t a = IN_i8(); if (1) { ENSURES(u_predec_i8(a) == (((int8_t)(((int8_t)(a - 1)) ^ ((int8_t)(a - 1))))), "predec on i8"); } }
    { int8_t a = IN_i8(); if (1) { ENSURES(u_predec1_i8(a) == (((int8_t)(a - 1))), "value of predec on i8"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(u_neg_i16(a) == (((int16_t)(-a))), "unary - on i16"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(u_plus_i16(a) == (a), "unary + on i16"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(u_com_i16(a) == (((int16_t)(~a))), "~ on i16"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(u_postinc_i16(a) == (((int16_t)(((int16_t)(a)) ^ ((int16_t)(a + 1))))), "postinc on i16"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(u_postinc1_i16(a) == (((int16_t)(a))), "value of postinc on i16"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(u_postdec_i16(a) == (((int16_t)(((int16_t)(a)) ^ ((int16_t)(a - 1))))), "postdec on i16"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(u_postdec1_i16(a) == (((int16_t)(a))), "value of postdec on i16"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(u_preinc_i16(a) == (((int16_t)(((int16_t)(a + 1)) ^ ((int16_t)(a + 1))))), "preinc on i16"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(u_preinc1_i16(a) == (((int16_t)(a + 1))), "value of preinc on i16"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(u_predec_i16(a) == (((int16_t)(((int16_t)(a - 1)) ^ ((int16_t)(a - 1))))), "predec on i16"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(u_predec1_i16(a) == (((int16_t)(a - 1))), "value of predec on i16"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(u_neg_i32(a) == (((int32_t)(-a))), "unary - on i32"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(u_plus_i32(a) == (a), "unary + on i32"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(u_com_i32(a) == (((int32_t)(~a))), "~ on i32"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(u_postinc_i32(a) == (((int32_t)(((int32_t)(a)) ^ ((int32_t)(a + 1))))), "postinc on i32"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(u_postinc1_i32(a) == (((int32_t)(a))), "value of postinc on i32"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(u_postdec_i32(a) == (((int32_t)(((int32_t)(a)) ^ ((int32_t)(a - 1))))), "postdec on i32"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(u_postdec1_i32(a) == (((int32_t)(a))), "value of postdec on i32"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(u_preinc_i32(a) == (((int32_t)(((int32_t)(a + 1)) ^ ((int32_t)(a + 1))))), "preinc on i32"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(u_preinc1_i32(a) == (((int32_t)(a + 1))), "value of preinc on i32"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(u_predec_i32(a) == (((int32_t)(((int32_t)(a - 1)) ^ ((int32_t)(a - 1))))), "predec on i32"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(u_predec1_i32(a) == (((int32_t)(a - 1))), "value of predec on i32"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(u_neg_i64(a) == (((int64_t)(-a))), "unary - on i64"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(u_plus_i64(a) == (a), "unary + on i64"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(u_com_i64(a) == (((int64_t)(~a))), "~ on i64"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(u_postinc_i64(a) == (((int64_t)(((int64_t)(a)) ^ ((int64_t)(a + 1))))), "postinc on i64"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(u_postinc1_i64(a) == (((int64_t)(a))), "value of postinc on i64"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(u_postdec_i64(a) == (((int64_t)(((int64_t)(a)) ^ ((int64_t)(a - 1))))), "postdec on i64"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(u_postdec1_i64(a) == (((int64_t)(a))), "value of postdec on i64"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(u_preinc_i64(a) == (((int64_t)(((int64_t)(a + 1)) ^ ((int64_t)(a + 1))))), "preinc on i64"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(u_preinc1_i64(a) == (((int64_t)(a + 1))), "value of preinc on i64"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(u_predec_i64(a) == (((int64_t)(((int64_t)(a - 1)) ^ ((int64_t)(a - 1))))), "predec on i64"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(u_predec1_i64(a) == (((int64_t)(a - 1))), "value of predec on i64"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(u_neg_u8(a) == (((uint8_t)(-a))), "unary - on u8"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(u_plus_u8(a) == (a), "unary + on u8"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(u_com_u8(a) == (((uint8_t)(~a))), "~ on u8"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(u_postinc_u8(a) == (((uint8_t)(((uint8_t)(a)) ^ ((uint8_t)(a + 1))))), "postinc on u8"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(u_postinc1_u8(a) == (((uint8_t)(a))), "value of postinc on u8"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(u_postdec_u8(a) == (((uint8_t)(((uint8_t)(a)) ^ ((uint8_t)(a - 1))))), "postdec on u8"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(u_postdec1_u8(a) == (((uint8_t)(a))), "value of postdec on u8"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(u_preinc_u8(a) == (((uint8_t)(((uint8_t)(a + 1)) ^ ((uint8_t)(a + 1))))), "preinc on u8"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(u_preinc1_u8(a) == (((uint8_t)(a + 1))), "value of preinc on u8"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(u_predec_u8(a) == (((uint8_t)(((uint8_t)(a - 1)) ^ ((uint8_t)(a - 1))))), "predec on u8"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(u_predec1_u8(a) == (((uint8_t)(a - 1))), "value of predec on u8"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(u_neg_u16(a) == (((uint16_t)(-a))), "unary - on u16"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(u_plus_u16(a) == (a), "unary + on u16"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(u_com_u16(a) == (((uint16_t)(~a))), "~ on u16"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(u_postinc_u16(a) == (((uint16_t)(((uint16_t)(a)) ^ ((uint16_t)(a + 1))))), "postinc on u16"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(u_postinc1_u16(a) == (((uint16_t)(a))), "value of postinc on u16"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(u_postdec_u16(a) == (((uint16_t)(((uint16_t)(a)) ^ ((uint16_t)(a - 1))))), "postdec on u16"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(u_postdec1_u16(a) == (((uint16_t)(a))), "value of postdec on u16"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(u_preinc_u16(a) == (((uint16_t)(((uint16_t)(a + 1)) ^ ((uint16_t)(a + 1))))), "preinc on u16"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(u_preinc1_u16(a) == (((uint16_t)(a + 1))), "value of preinc on u16"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(u_predec_u16(a) == (((uint16_t)(((uint16_t)(a - 1)) ^ ((uint16_t)(a - 1))))), "predec on u16"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(u_predec1_u16(a) == (((uint16_t)(a - 1))), "value of predec on u16"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(u_neg_u32(a) == (((uint32_t)(-a))), "unary - on u32"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(u_plus_u32(a) == (a), "unary + on u32"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(u_com_u32(a) == (((uint32_t)(~a))), "~ on u32"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(u_postinc_u32(a) == (((uint32_t)(((uint32_t)(a)) ^ ((uint32_t)(a + 1))))), "postinc on u32"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(u_postinc1_u32(a) == (((uint32_t)(a))), "value of postinc on u32"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(u_postdec_u32(a) == (((uint32_t)(((uint32_t)(a)) ^ ((uint32_t)(a - 1))))), "postdec on u32"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(u_postdec1_u32(a) == (((uint32_t)(a))), "value of postdec on u32"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(u_preinc_u32(a) == (((uint32_t)(((uint32_t)(a + 1)) ^ ((uint32_t)(a + 1))))), "preinc on u32"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(u_preinc1_u32(a) == (((uint32_t)(a + 1))), "value of preinc on u32"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(u_predec_u32(a) == (((uint32_t)(((uint32_t)(a - 1)) ^ ((uint32_t)(a - 1))))), "predec on u32"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(u_predec1_u32(a) == (((uint32_t)(a - 1))), "value of predec on u32"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(u_neg_u64(a) == (((uint64_t)(-a))), "unary - on u64"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(u_plus_u64(a) == (a), "unary + on u64"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(u_com_u64(a) == (((uint64_t)(~a))), "~ on u64"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(u_postinc_u64(a) == (((uint64_t)(((uint64_t)(a)) ^ ((uint64_t)(a + 1))))), "postinc on u64"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(u_postinc1_u64(a) == (((uint64_t)(a))), "value of postinc on u64"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(u_postdec_u64(a) == (((uint64_t)(((uint64_t)(a)) ^ ((uint64_t)(a - 1))))), "postdec on u64"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(u_postdec1_u64(a) == (((uint64_t)(a))), "value of postdec on u64"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(u_preinc_u64(a) == (((uint64_t)(((uint64_t)(a + 1)) ^ ((uint64_t)(a + 1))))), "preinc on u64"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(u_preinc1_u64(a) == (((uint64_t)(a + 1))), "value of preinc on u64"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(u_predec_u64(a) == (((uint64_t)(((uint64_t)(a - 1)) ^ ((uint64_t)(a - 1))))), "predec on u64"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(u_predec1_u64(a) == (((uint64_t)(a - 1))), "value of predec on u64"); } }
    { float a = IN_f32(); if (1) { ENSURES(SAMEF(u_neg_f32(a), -a), "unary - on f32"); } }
    { double a = IN_f64(); if (1) { ENSURES(SAMEF(u_neg_f64(a), -a), "unary - on f64"); } }
    REACH("unary");
}
/*@ fn=codegen.flt1; unwind=4; solver=z3; ncount=3000; timeout=200 */
void h_flt1(void)
{
    { float a = IN_f32(); float b = IN_f32(); if (1) { ENSURES(SAMEF(b_add_f32(a, b), ((float)(a + b))), "+ on f32"); } }
    { double a = IN_f64(); double b = IN_f64(); if (1) { ENSURES(SAMEF(b_add_f64(a, b), ((double)(a + b))), "+ on f64"); } }
    REACH("flt1");
}
/*@ fn=codegen.flt2; unwind=4; solver=z3; ncount=3000; timeout=200 */
void h_flt2(void)
{
    { float a = IN_f32(); float b = IN_f32(); if (1) { ENSURES(SAMEF(b_sub_f32(a, b), ((float)(a - b))), "- on f32"); } }
    { double a = IN_f64(); double b = IN_f64(); if (1) { ENSURES(SAMEF(b_sub_f64(a, b), ((double)(a - b))), "- on f64"); } }
    REACH("flt2");
}
/*@ fn=codegen.flt3; unwind=4; solver=z3; ncount=3000; timeout=200 */
void h_flt3(void)
{
    { float a = IN_f32(); float b = IN_f32(); if (1) { ENSURES(SAMEF(b_mul_f32(a, b), ((float)(a * b))), "* on f32"); } }
    { double a = IN_f64(); double b = IN_f64(); if (1) { ENSURES(SAMEF(b_mul_f64(a, b), ((double)(a * b))), "* on f64"); } }
    REACH("flt3");
}
/*@ fn=codegen.flt4; unwind=4; solver=z3; ncount=3000; timeout=200 */
void h_flt4(void)
{
    { float a = IN_f32(); float b = IN_f32(); if (1) { ENSURES(SAMEF(b_div_f32(a, b), ((float)(a / b))), "/ on f32"); } }
    { double a = IN_f64(); double b = IN_f64(); if (1) { ENSURES(SAMEF(b_div_f64(a, b), ((double)(a / b))), "/ on f64"); } }
    REACH("flt4");
}
/*@ fn=codegen.cast; unwind=4; solver=z3; ncount=3000; timeout=200 */
void h_cast(void)
{
    { int8_t a = IN_i8(); if (1) { ENSURES(c_i8_i8(a) == (((int8_t)(a))), "cast of i8 to i8"); } }
    { int8_t a = IN_i8(); if (1) { ENSURES(c_i8_i16(a) == (((int16_t)(a))), "cast of i8 to i16"); } }
    { int8_t a = IN_i8(); if (1) { ENSURES(c_i8_i32(a) == (((int32_t)(a))), "cast of i8 to i32"); } }
    { int8_t a = IN_i8(); if (1) { ENSURES(c_i8_i64(a) == (((int64_t)(a))), "cast of i8 to i64"); } }
    { int8_t a = IN_i8(); if (1) { ENSURES(c_i8_u8(a) == (((uint8_t)(a))), "cast of i8 to u8"); } }
    { int8_t a = IN_i8(); if (1) { ENSURES(c_i8_u16(a) == (((uint16_t)(a))), "cast of i8 to u16"); } }
    { int8_t a = IN_i8(); if (1) { ENSURES(c_i8_u32(a) == (((uint32_t)(a))), "cast of i8 to u32"); } }
    { int8_t a = IN_i8(); if (1) { ENSURES(c_i8_u64(a) == (((uint64_t)(a))), "cast of i8 to u64"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(c_i16_i8(a) == (((int8_t)(a))), "cast of i16 to i8"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(c_i16_i16(a) == (((int16_t)(a))), "cast of i16 to i16"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(c_i16_i32(a) == (((int32_t)(a))), "cast of i16 to i32"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(c_i16_i64(a) == (((int64_t)(a))), "cast of i16 to i64"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(c_i16_u8(a) == (((uint8_t)(a))), "cast of i16 to u8"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(c_i16_u16(a) == (((uint16_t)(a))), "cast of i16 to u16"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(c_i16_u32(a) == (((uint32_t)(a))), "cast of i16 to u32"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(c_i16_u64(a) == (((uint64_t)(a))), "cast of i16 to u64"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(c_i32_i8(a) == (((int8_t)(a))), "cast of i32 to i8"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(c_i32_i16(a) == (((int16_t)(a))), "cast of i32 to i16"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(c_i32_i32(a) == (((int32_t)(a))), "cast of i32 to i32"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(c_i32_i64(a) == (((int64_t)(a))), "cast of i32 to i64"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(c_i32_u8(a) == (((uint8_t)(a))), "cast of i32 to u8"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(c_i32_u16(a) == (((uint16_t)(a))), "cast of i32 to u16"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(c_i32_u32(a) == (((uint32_t)(a))), "cast of i32 to u32"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(c_i32_u64(a) == (((uint64_t)(a))), "cast of i32 to u64"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(c_i64_i8(a) == (((int8_t)(a))), "cast of i64 to i8"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(c_i64_i16(a) == (((int16_t)(a))), "cast of i64 to i16"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(c_i64_i32(a) == (((int32_t)(a))), "cast of i64 to i32"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(c_i64_i64(a) == (((int64_t)(a))), "cast of i64 to i64"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(c_i64_u8(a) == (((uint8_t)(a))), "cast of i64 to u8"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(c_i64_u16(a) == (((uint16_t)(a))), "cast of i64 to u16"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(c_i64_u32(a) == (((uint32_t)(a))), "cast of i64 to u32"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(c_i64_u64(a) == (((uint64_t)(a))), "cast of i64 to u64"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(c_u8_i8(a) == (((int8_t)(a))), "cast of u8 to i8"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(c_u8_i16(a) == (((int16_t)(a))), "cast of u8 to i16"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(c_u8_i32(a) == (((int32_t)(a))), "cast of u8 to i32"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(c_u8_i64(a) == (((int64_t)(a))), "cast of u8 to i64"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(c_u8_u8(a) == (((uint8_t)(a))), "cast of u8 to u8"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(c_u8_u16(a) == (((uint16_t)(a))), "cast of u8 to u16"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(c_u8_u32(a) == (((uint32_t)(a))), "cast of u8 to u32"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(c_u8_u64(a) == (((uint64_t)(a))), "cast of u8 to u64"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(c_u16_i8(a) == (((int8_t)(a))), "cast of u16 to i8"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(c_u16_i16(a) == (((int16_t)(a))), "cast of u16 to i16"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(c_u16_i32(a) == (((int32_t)(a))), "cast of u16 to i32"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(c_u16_i64(a) == (((int64_t)(a))), "cast of u16 to i64"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(c_u16_u8(a) == (((uint8_t)(a))), "cast of u16 to u8"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(c_u16_u16(a) == (((uint16_t)(a))), "cast of u16 to u16"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(c_u16_u32(a) == (((uint32_t)(a))), "cast of u16 to u32"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(c_u16_u64(a) == (((uint64_t)(a))), "cast of u16 to u64"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(c_u32_i8(a) == (((int8_t)(a))), "cast of u32 to i8"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(c_u32_i16(a) == (((int16_t)(a))), "cast of u32 to i16"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(c_u32_i32(a) == (((int32_t)(a))), "cast of u32 to i32"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(c_u32_i64(a) == (((int64_t)(a))), "cast of u32 to i64"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(c_u32_u8(a) == (((uint8_t)(a))), "cast of u32 to u8"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(c_u32_u16(a) == (((uint16_t)(a))), "cast of u32 to u16"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(c_u32_u32(a) == (((uint32_t)(a))), "cast of u32 to u32"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(c_u32_u64(a) == (((uint64_t)(a))), "cast of u32 to u64"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(c_u64_i8(a) == (((int8_t)(a))), "cast of u64 to i8"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(c_u64_i16(a) == (((int16_t)(a))), "cast of u64 to i16"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(c_u64_i32(a) == (((int32_t)(a))), "cast of u64 to i32"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(c_u64_i64(a) == (((int64_t)(a))), "cast of u64 to i64"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(c_u64_u8(a) == (((uint8_t)(a))), "cast of u64 to u8"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(c_u64_u16(a) == (((uint16_t)(a))), "cast of u64 to u16"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(c_u64_u32(a) == (((uint32_t)(a))), "cast of u64 to u32"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(c_u64_u64(a) == (((uint64_t)(a))), "cast of u64 to u64"); } }
    REACH("cast");
}
/*@ fn=codegen.castf; unwind=4; solver=cadical; ncount=3000; timeout=200 */
void h_castf(void)
{
    { int8_t a = IN_i8(); if (1) { ENSURES(SAMEF(c_i8_f32(a), ((float)(a))), "cast of i8 to f32"); } }
    { float a = IN_f32(); if (a > -100 && a < 100) { ENSURES(c_f32_i8(a) == (((int8_t)(a))), "cast of f32 to i8"); } }
    { int8_t a = IN_i8(); if (1) { ENSURES(SAMEF(c_i8_f64(a), ((double)(a))), "cast of i8 to f64"); } }
    { double a = IN_f64(); if (a > -100 && a < 100) { ENSURES(c_f64_i8(a) == (((int8_t)(a))), "cast of f64 to i8"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(SAMEF(c_i16_f32(a), ((float)(a))), "cast of i16 to f32"); } }
    { float a = IN_f32(); if (a > -30000 && a < 30000) { ENSURES(c_f32_i16(a) == (((int16_t)(a))), "cast of f32 to i16"); } }
    { int16_t a = IN_i16(); if (1) { ENSURES(SAMEF(c_i16_f64(a), ((double)(a))), "cast of i16 to f64"); } }
    { double a = IN_f64(); if (a > -30000 && a < 30000) { ENSURES(c_f64_i16(a) == (((int16_t)(a))), "cast of f64 to i16"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(SAMEF(c_i32_f32(a), ((float)(a))), "cast of i32 to f32"); } }
    { float a = IN_f32(); if (a > -2000000000.0 && a < 2000000000.0) { ENSURES(c_f32_i32(a) == (((int32_t)(a))), "cast of f32 to i32"); } }
    { int32_t a = IN_i32(); if (1) { ENSURES(SAMEF(c_i32_f64(a), ((double)(a))), "cast of i32 to f64"); } }
    { double a = IN_f64(); if (a > -2000000000.0 && a < 2000000000.0) { ENSURES(c_f64_i32(a) == (((int32_t)(a))), "cast of f64 to i32"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(SAMEF(c_i64_f32(a), ((float)(a))), "cast of i64 to f32"); } }
    { float a = IN_f32(); if (a > -9e+18 && a < 9e+18) { ENSURES(c_f32_i64(a) == (((int64_t)(a))), "cast of f32 to i64"); } }
    { int64_t a = IN_i64(); if (1) { ENSURES(SAMEF(c_i64_f64(a), ((double)(a))), "cast of i64 to f64"); } }
    { double a = IN_f64(); if (a > -9e+18 && a < 9e+18) { ENSURES(c_f64_i64(a) == (((int64_t)(a))), "cast of f64 to i64"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(SAMEF(c_u8_f32(a), ((float)(a))), "cast of u8 to f32"); } }
    { float a = IN_f32(); if (a > 0 && a < 100) { ENSURES(c_f32_u8(a) == (((uint8_t)(a))), "cast of f32 to u8"); } }
    { uint8_t a = IN_u8(); if (1) { ENSURES(SAMEF(c_u8_f64(a), ((double)(a))), "cast of u8 to f64"); } }
    { double a = IN_f64(); if (a > 0 && a < 100) { ENSURES(c_f64_u8(a) == (((uint8_t)(a))), "cast of f64 to u8"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(SAMEF(c_u16_f32(a), ((float)(a))), "cast of u16 to f32"); } }
    { float a = IN_f32(); if (a > 0 && a < 30000) { ENSURES(c_f32_u16(a) == (((uint16_t)(a))), "cast of f32 to u16"); } }
    { uint16_t a = IN_u16(); if (1) { ENSURES(SAMEF(c_u16_f64(a), ((double)(a))), "cast of u16 to f64"); } }
    { double a = IN_f64(); if (a > 0 && a < 30000) { ENSURES(c_f64_u16(a) == (((uint16_t)(a))), "cast of f64 to u16"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(SAMEF(c_u32_f32(a), ((float)(a))), "cast of u32 to f32"); } }
    { float a = IN_f32(); if (a > 0 && a < 2000000000.0) { ENSURES(c_f32_u32(a) == (((uint32_t)(a))), "cast of f32 to u32"); } }
    { uint32_t a = IN_u32(); if (1) { ENSURES(SAMEF(c_u32_f64(a), ((double)(a))), "cast of u32 to f64"); } }
    { double a = IN_f64(); if (a > 0 && a < 2000000000.0) { ENSURES(c_f64_u32(a) == (((uint32_t)(a))), "cast of f64 to u32"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(SAMEF(c_u64_f32(a), ((float)(a))), "cast of u64 to f32"); } }
    { float a = IN_f32(); if (a > 0 && a < 9e+18) { ENSURES(c_f32_u64(a) == (((uint64_t)(a))), "cast of f32 to u64"); } }
    { uint64_t a = IN_u64(); if (1) { ENSURES(SAMEF(c_u64_f64(a), ((double)(a))), "cast of u64 to f64"); } }
    { double a = IN_f64(); if (a > 0 && a < 9e+18) { ENSURES(c_f64_u64(a) == (((uint64_t)(a))), "cast of f64 to u64"); } }
    { double a = IN_f64(); if (1) { ENSURES(SAMEF(c_f64_f32(a), (float)a), "cast of f64 to f32"); } }
    { float a = IN_f32(); if (1) { ENSURES(SAMEF(c_f32_f64(a), (double)a), "cast of f32 to f64"); } }
    REACH("castf");
}
/*@ fn=codegen.pair_slow0; unwind=4; solver=z3; ncount=3000; timeout=200 */
void h_pair_slow0(void)
{
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_mul_mul(a, b, c) == (((a * b) * c)), "a * b * c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && ((a * b)) == MIN64)) { ENSURES(p_mul_div(a, b, c) == (((a * b) / c)), "a * b / c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && ((a * b)) == MIN64)) { ENSURES(p_mul_mod(a, b, c) == (((a * b) % c)), "a * b % c"); } }
    REACH("pair_slow0");
}
/*@ fn=codegen.pair_m; unwind=4; solver=z3; ncount=3000; timeout=200 */
void h_pair_m(void)
{
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_mul_add(a, b, c) == (((a * b) + c)), "a * b + c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_mul_sub(a, b, c) == (((a * b) - c)), "a * b - c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_mul_shl(a, b, c) == (((a * b) << c)), "a * b << c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_mul_shr(a, b, c) == (((a * b) >> c)), "a * b >> c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_mul_lt(a, b, c) == (((a * b) < c)), "a * b < c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_mul_le(a, b, c) == (((a * b) <= c)), "a * b <= c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_mul_gt(a, b, c) == (((a * b) > c)), "a * b > c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_mul_ge(a, b, c) == (((a * b) >= c)), "a * b >= c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_mul_eq(a, b, c) == (((a * b) == c)), "a * b == c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_mul_ne(a, b, c) == (((a * b) != c)), "a * b != c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_mul_and(a, b, c) == (((a * b) & c)), "a * b & c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_mul_xor(a, b, c) == (((a * b) ^ c)), "a * b ^ c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_mul_or(a, b, c) == (((a * b) | c)), "a * b | c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_div_add(a, b, c) == (((a / b) + c)), "a / b + c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_div_sub(a, b, c) == (((a / b) - c)), "a / b - c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64) && (c) >= 0 && (c) < 64) { ENSURES(p_div_shl(a, b, c) == (((a / b) << c)), "a / b << c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64) && (c) >= 0 && (c) < 64) { ENSURES(p_div_shr(a, b, c) == (((a / b) >> c)), "a / b >> c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_div_lt(a, b, c) == (((a / b) < c)), "a / b < c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_div_le(a, b, c) == (((a / b) <= c)), "a / b <= c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_div_gt(a, b, c) == (((a / b) > c)), "a / b > c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_div_ge(a, b, c) == (((a / b) >= c)), "a / b >= c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_div_eq(a, b, c) == (((a / b) == c)), "a / b == c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_div_ne(a, b, c) == (((a / b) != c)), "a / b != c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_div_and(a, b, c) == (((a / b) & c)), "a / b & c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_div_xor(a, b, c) == (((a / b) ^ c)), "a / b ^ c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_div_or(a, b, c) == (((a / b) | c)), "a / b | c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_mod_add(a, b, c) == (((a % b) + c)), "a % b + c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_mod_sub(a, b, c) == (((a % b) - c)), "a % b - c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64) && (c) >= 0 && (c) < 64) { ENSURES(p_mod_shl(a, b, c) == (((a % b) << c)), "a % b << c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64) && (c) >= 0 && (c) < 64) { ENSURES(p_mod_shr(a, b, c) == (((a % b) >> c)), "a % b >> c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_mod_lt(a, b, c) == (((a % b) < c)), "a % b < c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_mod_le(a, b, c) == (((a % b) <= c)), "a % b <= c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_mod_gt(a, b, c) == (((a % b) > c)), "a % b > c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_mod_ge(a, b, c) == (((a % b) >= c)), "a % b >= c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_mod_eq(a, b, c) == (((a % b) == c)), "a % b == c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_mod_ne(a, b, c) == (((a % b) != c)), "a % b != c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_mod_and(a, b, c) == (((a % b) & c)), "a % b & c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_mod_xor(a, b, c) == (((a % b) ^ c)), "a % b ^ c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_mod_or(a, b, c) == (((a % b) | c)), "a % b | c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_add_mul(a, b, c) == ((a + (b * c))), "a + b * c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_add_div(a, b, c) == ((a + (b / c))), "a + b / c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_add_mod(a, b, c) == ((a + (b % c))), "a + b % c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_sub_mul(a, b, c) == ((a - (b * c))), "a - b * c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_sub_div(a, b, c) == ((a - (b / c))), "a - b / c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_sub_mod(a, b, c) == ((a - (b % c))), "a - b % c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (((b * c)) >= 0 && ((b * c)) < 64) { ENSURES(p_shl_mul(a, b, c) == ((a << (b * c))), "a << b * c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64) && ((b / c)) >= 0 && ((b / c)) < 64) { ENSURES(p_shl_div(a, b, c) == ((a << (b / c))), "a << b / c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64) && ((b % c)) >= 0 && ((b % c)) < 64) { ENSURES(p_shl_mod(a, b, c) == ((a << (b % c))), "a << b % c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (((b * c)) >= 0 && ((b * c)) < 64) { ENSURES(p_shr_mul(a, b, c) == ((a >> (b * c))), "a >> b * c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64) && ((b / c)) >= 0 && ((b / c)) < 64) { ENSURES(p_shr_div(a, b, c) == ((a >> (b / c))), "a >> b / c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64) && ((b % c)) >= 0 && ((b % c)) < 64) { ENSURES(p_shr_mod(a, b, c) == ((a >> (b % c))), "a >> b % c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_lt_mul(a, b, c) == ((a < (b * c))), "a < b * c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_lt_div(a, b, c) == ((a < (b / c))), "a < b / c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_lt_mod(a, b, c) == ((a < (b % c))), "a < b % c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_le_mul(a, b, c) == ((a <= (b * c))), "a <= b * c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_le_div(a, b, c) == ((a <= (b / c))), "a <= b / c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_le_mod(a, b, c) == ((a <= (b % c))), "a <= b % c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_gt_mul(a, b, c) == ((a > (b * c))), "a > b * c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_gt_div(a, b, c) == ((a > (b / c))), "a > b / c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_gt_mod(a, b, c) == ((a > (b % c))), "a > b % c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_ge_mul(a, b, c) == ((a >= (b * c))), "a >= b * c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_ge_div(a, b, c) == ((a >= (b / c))), "a >= b / c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_ge_mod(a, b, c) == ((a >= (b % c))), "a >= b % c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_eq_mul(a, b, c) == ((a == (b * c))), "a == b * c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_eq_div(a, b, c) == ((a == (b / c))), "a == b / c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_eq_mod(a, b, c) == ((a == (b % c))), "a == b % c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_ne_mul(a, b, c) == ((a != (b * c))), "a != b * c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_ne_div(a, b, c) == ((a != (b / c))), "a != b / c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_ne_mod(a, b, c) == ((a != (b % c))), "a != b % c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_and_mul(a, b, c) == ((a & (b * c))), "a & b * c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_and_div(a, b, c) == ((a & (b / c))), "a & b / c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_and_mod(a, b, c) == ((a & (b % c))), "a & b % c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_xor_mul(a, b, c) == ((a ^ (b * c))), "a ^ b * c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_xor_div(a, b, c) == ((a ^ (b / c))), "a ^ b / c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_xor_mod(a, b, c) == ((a ^ (b % c))), "a ^ b % c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_or_mul(a, b, c) == ((a | (b * c))), "a | b * c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_or_div(a, b, c) == ((a | (b / c))), "a | b / c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) != 0 && !((c) == -1 && (b) == MIN64)) { ENSURES(p_or_mod(a, b, c) == ((a | (b % c))), "a | b % c"); } }
    REACH("pair_m");
}
/*@ fn=codegen.pair_slow1; unwind=4; solver=z3; ncount=3000; timeout=200 */
void h_pair_slow1(void)
{
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_div_mul(a, b, c) == (((a / b) * c)), "a / b * c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64) && (c) != 0 && !((c) == -1 && ((a / b)) == MIN64)) { ENSURES(p_div_div(a, b, c) == (((a / b) / c)), "a / b / c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64) && (c) != 0 && !((c) == -1 && ((a / b)) == MIN64)) { ENSURES(p_div_mod(a, b, c) == (((a / b) % c)), "a / b % c"); } }
    REACH("pair_slow1");
}
/*@ fn=codegen.pair_slow2; unwind=4; solver=z3; ncount=3000; timeout=200 */
void h_pair_slow2(void)
{
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64)) { ENSURES(p_mod_mul(a, b, c) == (((a % b) * c)), "a % b * c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64) && (c) != 0 && !((c) == -1 && ((a % b)) == MIN64)) { ENSURES(p_mod_div(a, b, c) == (((a % b) / c)), "a % b / c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) != 0 && !((b) == -1 && (a) == MIN64) && (c) != 0 && !((c) == -1 && ((a % b)) == MIN64)) { ENSURES(p_mod_mod(a, b, c) == (((a % b) % c)), "a % b % c"); } }
    REACH("pair_slow2");
}
/*@ fn=codegen.pair_q; unwind=4; solver=z3; ncount=3000; timeout=200 */
void h_pair_q(void)
{
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_add_add(a, b, c) == (((a + b) + c)), "a + b + c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_add_sub(a, b, c) == (((a + b) - c)), "a + b - c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_add_shl(a, b, c) == (((a + b) << c)), "a + b << c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_add_shr(a, b, c) == (((a + b) >> c)), "a + b >> c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_add_lt(a, b, c) == (((a + b) < c)), "a + b < c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_add_le(a, b, c) == (((a + b) <= c)), "a + b <= c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_add_gt(a, b, c) == (((a + b) > c)), "a + b > c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_add_ge(a, b, c) == (((a + b) >= c)), "a + b >= c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_add_eq(a, b, c) == (((a + b) == c)), "a + b == c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_add_ne(a, b, c) == (((a + b) != c)), "a + b != c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_add_and(a, b, c) == (((a + b) & c)), "a + b & c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_add_xor(a, b, c) == (((a + b) ^ c)), "a + b ^ c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_add_or(a, b, c) == (((a + b) | c)), "a + b | c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_sub_add(a, b, c) == (((a - b) + c)), "a - b + c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_sub_sub(a, b, c) == (((a - b) - c)), "a - b - c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_sub_shl(a, b, c) == (((a - b) << c)), "a - b << c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_sub_shr(a, b, c) == (((a - b) >> c)), "a - b >> c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_sub_lt(a, b, c) == (((a - b) < c)), "a - b < c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_sub_le(a, b, c) == (((a - b) <= c)), "a - b <= c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_sub_gt(a, b, c) == (((a - b) > c)), "a - b > c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_sub_ge(a, b, c) == (((a - b) >= c)), "a - b >= c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_sub_eq(a, b, c) == (((a - b) == c)), "a - b == c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_sub_ne(a, b, c) == (((a - b) != c)), "a - b != c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_sub_and(a, b, c) == (((a - b) & c)), "a - b & c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_sub_xor(a, b, c) == (((a - b) ^ c)), "a - b ^ c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_sub_or(a, b, c) == (((a - b) | c)), "a - b | c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (((b + c)) >= 0 && ((b + c)) < 64) { ENSURES(p_shl_add(a, b, c) == ((a << (b + c))), "a << b + c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (((b - c)) >= 0 && ((b - c)) < 64) { ENSURES(p_shl_sub(a, b, c) == ((a << (b - c))), "a << b - c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64 && (c) >= 0 && (c) < 64) { ENSURES(p_shl_shl(a, b, c) == (((a << b) << c)), "a << b << c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64 && (c) >= 0 && (c) < 64) { ENSURES(p_shl_shr(a, b, c) == (((a << b) >> c)), "a << b >> c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(p_shl_lt(a, b, c) == (((a << b) < c)), "a << b < c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(p_shl_le(a, b, c) == (((a << b) <= c)), "a << b <= c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(p_shl_gt(a, b, c) == (((a << b) > c)), "a << b > c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(p_shl_ge(a, b, c) == (((a << b) >= c)), "a << b >= c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(p_shl_eq(a, b, c) == (((a << b) == c)), "a << b == c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(p_shl_ne(a, b, c) == (((a << b) != c)), "a << b != c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(p_shl_and(a, b, c) == (((a << b) & c)), "a << b & c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(p_shl_xor(a, b, c) == (((a << b) ^ c)), "a << b ^ c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(p_shl_or(a, b, c) == (((a << b) | c)), "a << b | c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (((b + c)) >= 0 && ((b + c)) < 64) { ENSURES(p_shr_add(a, b, c) == ((a >> (b + c))), "a >> b + c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (((b - c)) >= 0 && ((b - c)) < 64) { ENSURES(p_shr_sub(a, b, c) == ((a >> (b - c))), "a >> b - c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64 && (c) >= 0 && (c) < 64) { ENSURES(p_shr_shl(a, b, c) == (((a >> b) << c)), "a >> b << c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64 && (c) >= 0 && (c) < 64) { ENSURES(p_shr_shr(a, b, c) == (((a >> b) >> c)), "a >> b >> c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(p_shr_lt(a, b, c) == (((a >> b) < c)), "a >> b < c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(p_shr_le(a, b, c) == (((a >> b) <= c)), "a >> b <= c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(p_shr_gt(a, b, c) == (((a >> b) > c)), "a >> b > c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(p_shr_ge(a, b, c) == (((a >> b) >= c)), "a >> b >= c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(p_shr_eq(a, b, c) == (((a >> b) == c)), "a >> b == c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(p_shr_ne(a, b, c) == (((a >> b) != c)), "a >> b != c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(p_shr_and(a, b, c) == (((a >> b) & c)), "a >> b & c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(p_shr_xor(a, b, c) == (((a >> b) ^ c)), "a >> b ^ c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((b) >= 0 && (b) < 64) { ENSURES(p_shr_or(a, b, c) == (((a >> b) | c)), "a >> b | c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_lt_add(a, b, c) == ((a < (b + c))), "a < b + c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_lt_sub(a, b, c) == ((a < (b - c))), "a < b - c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_lt_shl(a, b, c) == ((a < (b << c))), "a < b << c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_lt_shr(a, b, c) == ((a < (b >> c))), "a < b >> c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_lt_eq(a, b, c) == (((a < b) == c)), "a < b == c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_lt_ne(a, b, c) == (((a < b) != c)), "a < b != c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_lt_land(a, b, c) == (((a < b) && c)), "a < b && c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_lt_lor(a, b, c) == (((a < b) || c)), "a < b || c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_le_add(a, b, c) == ((a <= (b + c))), "a <= b + c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_le_sub(a, b, c) == ((a <= (b - c))), "a <= b - c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_le_shl(a, b, c) == ((a <= (b << c))), "a <= b << c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_le_shr(a, b, c) == ((a <= (b >> c))), "a <= b >> c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_le_eq(a, b, c) == (((a <= b) == c)), "a <= b == c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_le_ne(a, b, c) == (((a <= b) != c)), "a <= b != c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_le_land(a, b, c) == (((a <= b) && c)), "a <= b && c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_le_lor(a, b, c) == (((a <= b) || c)), "a <= b || c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_gt_add(a, b, c) == ((a > (b + c))), "a > b + c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_gt_sub(a, b, c) == ((a > (b - c))), "a > b - c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_gt_shl(a, b, c) == ((a > (b << c))), "a > b << c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_gt_shr(a, b, c) == ((a > (b >> c))), "a > b >> c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_gt_eq(a, b, c) == (((a > b) == c)), "a > b == c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_gt_ne(a, b, c) == (((a > b) != c)), "a > b != c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_gt_land(a, b, c) == (((a > b) && c)), "a > b && c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_gt_lor(a, b, c) == (((a > b) || c)), "a > b || c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_ge_add(a, b, c) == ((a >= (b + c))), "a >= b + c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_ge_sub(a, b, c) == ((a >= (b - c))), "a >= b - c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_ge_shl(a, b, c) == ((a >= (b << c))), "a >= b << c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_ge_shr(a, b, c) == ((a >= (b >> c))), "a >= b >> c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_ge_eq(a, b, c) == (((a >= b) == c)), "a >= b == c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_ge_ne(a, b, c) == (((a >= b) != c)), "a >= b != c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_ge_land(a, b, c) == (((a >= b) && c)), "a >= b && c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_ge_lor(a, b, c) == (((a >= b) || c)), "a >= b || c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_eq_add(a, b, c) == ((a == (b + c))), "a == b + c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_eq_sub(a, b, c) == ((a == (b - c))), "a == b - c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_eq_shl(a, b, c) == ((a == (b << c))), "a == b << c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_eq_shr(a, b, c) == ((a == (b >> c))), "a == b >> c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_eq_lt(a, b, c) == ((a == (b < c))), "a == b < c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_eq_le(a, b, c) == ((a == (b <= c))), "a == b <= c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_eq_gt(a, b, c) == ((a == (b > c))), "a == b > c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_eq_ge(a, b, c) == ((a == (b >= c))), "a == b >= c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_eq_eq(a, b, c) == (((a == b) == c)), "a == b == c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_eq_ne(a, b, c) == (((a == b) != c)), "a == b != c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_eq_land(a, b, c) == (((a == b) && c)), "a == b && c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_eq_lor(a, b, c) == (((a == b) || c)), "a == b || c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_ne_add(a, b, c) == ((a != (b + c))), "a != b + c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_ne_sub(a, b, c) == ((a != (b - c))), "a != b - c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_ne_shl(a, b, c) == ((a != (b << c))), "a != b << c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_ne_shr(a, b, c) == ((a != (b >> c))), "a != b >> c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_ne_lt(a, b, c) == ((a != (b < c))), "a != b < c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_ne_le(a, b, c) == ((a != (b <= c))), "a != b <= c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_ne_gt(a, b, c) == ((a != (b > c))), "a != b > c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_ne_ge(a, b, c) == ((a != (b >= c))), "a != b >= c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_ne_eq(a, b, c) == (((a != b) == c)), "a != b == c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_ne_ne(a, b, c) == (((a != b) != c)), "a != b != c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_ne_land(a, b, c) == (((a != b) && c)), "a != b && c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); _Bool c = IN_bool(); if (1) { ENSURES(p_ne_lor(a, b, c) == (((a != b) || c)), "a != b || c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_and_add(a, b, c) == ((a & (b + c))), "a & b + c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_and_sub(a, b, c) == ((a & (b - c))), "a & b - c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_and_shl(a, b, c) == ((a & (b << c))), "a & b << c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_and_shr(a, b, c) == ((a & (b >> c))), "a & b >> c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_and_and(a, b, c) == (((a & b) & c)), "a & b & c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_and_xor(a, b, c) == (((a & b) ^ c)), "a & b ^ c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_and_or(a, b, c) == (((a & b) | c)), "a & b | c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_xor_add(a, b, c) == ((a ^ (b + c))), "a ^ b + c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_xor_sub(a, b, c) == ((a ^ (b - c))), "a ^ b - c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_xor_shl(a, b, c) == ((a ^ (b << c))), "a ^ b << c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_xor_shr(a, b, c) == ((a ^ (b >> c))), "a ^ b >> c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_xor_and(a, b, c) == ((a ^ (b & c))), "a ^ b & c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_xor_xor(a, b, c) == (((a ^ b) ^ c)), "a ^ b ^ c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_xor_or(a, b, c) == (((a ^ b) | c)), "a ^ b | c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_or_add(a, b, c) == ((a | (b + c))), "a | b + c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_or_sub(a, b, c) == ((a | (b - c))), "a | b - c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_or_shl(a, b, c) == ((a | (b << c))), "a | b << c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if ((c) >= 0 && (c) < 64) { ENSURES(p_or_shr(a, b, c) == ((a | (b >> c))), "a | b >> c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_or_and(a, b, c) == ((a | (b & c))), "a | b & c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_or_xor(a, b, c) == ((a | (b ^ c))), "a | b ^ c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_or_or(a, b, c) == (((a | b) | c)), "a | b | c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_land_lt(a, b, c) == ((a && (b < c))), "a && b < c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_land_le(a, b, c) == ((a && (b <= c))), "a && b <= c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_land_gt(a, b, c) == ((a && (b > c))), "a && b > c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_land_ge(a, b, c) == ((a && (b >= c))), "a && b >= c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_land_eq(a, b, c) == ((a && (b == c))), "a && b == c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_land_ne(a, b, c) == ((a && (b != c))), "a && b != c"); } }
    { _Bool a = IN_bool(); _Bool b = IN_bool(); _Bool c = IN_bool(); if (1) { ENSURES(p_land_land(a, b, c) == (((a && b) && c)), "a && b && c"); } }
    { _Bool a = IN_bool(); _Bool b = IN_bool(); _Bool c = IN_bool(); if (1) { ENSURES(p_land_lor(a, b, c) == (((a && b) || c)), "a && b || c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_lor_lt(a, b, c) == ((a || (b < c))), "a || b < c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_lor_le(a, b, c) == ((a || (b <= c))), "a || b <= c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_lor_gt(a, b, c) == ((a || (b > c))), "a || b > c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_lor_ge(a, b, c) == ((a || (b >= c))), "a || b >= c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_lor_eq(a, b, c) == ((a || (b == c))), "a || b == c"); } }
    { _Bool a = IN_bool(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(p_lor_ne(a, b, c) == ((a || (b != c))), "a || b != c"); } }
    { _Bool a = IN_bool(); _Bool b = IN_bool(); _Bool c = IN_bool(); if (1) { ENSURES(p_lor_land(a, b, c) == ((a || (b && c))), "a || b && c"); } }
    { _Bool a = IN_bool(); _Bool b = IN_bool(); _Bool c = IN_bool(); if (1) { ENSURES(p_lor_lor(a, b, c) == (((a || b) || c)), "a || b || c"); } }
    REACH("pair_q");
}
/*@ fn=codegen.mixed; unwind=4; solver=z3; ncount=3000; timeout=200 */
void h_mixed(void)
{
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_0(a, b, c) == ((a + b) * c), "(a + b) * c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_1(a, b, c) == (a - (b - c)), "a - (b - c)"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_2(a, b, c) == (a & (b | c)), "a & (b | c)"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_3(a, b, c) == ((a << (b & 7)) >> 1), "a << (b & 7) >> 1"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_4(a, b, c) == ((-a) + b), "-a + b"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_5(a, b, c) == ((~a) & b), "~a & b"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_6(a, b, c) == ((-a) * (-b)), "-a * -b"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_7(a, b, c) == (a), "- -a"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_8(a, b, c) == (a), "-(-a)"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_9(a, b, c) == (a + b), "a - -b"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_10(a, b, c) == (a + 1), "a - -1"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_11(a, b, c) == (a), "~~a"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_12(a, b, c) == (a + 1), "-~a"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_13(a, b, c) == ((a - (~b)) - c), "a - ~b - c"); } }
    { _Bool a = IN_bool(); _Bool b = IN_bool(); _Bool c = IN_bool(); if (1) { ENSURES(m_14(a, b, c) == ((!a) == b), "!a == b"); } }
    { _Bool a = IN_bool(); _Bool b = IN_bool(); _Bool c = IN_bool(); if (1) { ENSURES(m_15(a, b, c) == (a != b), "!(a == b)"); } }
    { _Bool a = IN_bool(); _Bool b = IN_bool(); _Bool c = IN_bool(); if (1) { ENSURES(m_16(a, b, c) == (((!a) && b) || c), "!a && b || c"); } }
    { _Bool a = IN_bool(); _Bool b = IN_bool(); _Bool c = IN_bool(); if (1) { ENSURES(m_17(a, b, c) == (a && (b || c)), "a && (b || c)"); } }
    { _Bool a = IN_bool(); _Bool b = IN_bool(); _Bool c = IN_bool(); if (1) { ENSURES(m_18(a, b, c) == (a), "!!a"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_19(a, b, c) == ((a < b) == (b < c)), "a < b == b < c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_21(a, b, c) == (a < b ? a : b), "a < b ? a : b"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_22(a, b, c) == (a < b ? a : (b < c ? b : c)), "a < b ? a : b < c ? b : c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_23(a, b, c) == ((a < b ? a : b) + c), "(a < b ? a : b) + c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_24(a, b, c) == (a < b ? a + 1 : b - c), "a < b ? a + 1 : b - c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_25(a, b, c) == ((a + b) * 2), "dbl!(a + b)"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_26(a, b, c) == (-(a - b)), "neg!(a - b)"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_27(a, b, c) == (a), "neg!(-a)"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_28(a, b, c) == (a - (b + c)), "sub!(a, b + c)"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_29(a, b, c) == ((a - b) + c), "sub!(a - b, neg!(c))"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_30(a, b, c) == ((a + b) * (b - c)), "mix!(a, b, c)"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_31(a, b, c) == (((a | b) + (b ^ c)) * ((b ^ c) - (c & 3))), "mix!(a | b, b ^ c, c & 3)"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_32(a, b, c) == (a + 5), "a - #{K}"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_33(a, b, c) == (a * 5), "a * #{2 + 3}"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_34(a, b, c) == ((a + b) * c), "<i64>(a + b) * c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_35(a, b, c) == (b), "(a, b, c).1"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_36(a, b, c) == (c), "[a, b, c].[2]"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_37(a, b, c) == ((a + (b * c)) - (a / 3)), "a + b * c - a / 3"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_38(a, b, c) == ((a ^ (b & c)) | a), "a ^ b & c | a"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_39(a, b, c) == (((a < b) && (b < c)) || (a == c)), "a < b && b < c || a == c"); } }
    { int64_t a = IN_i64(); int64_t b = IN_i64(); int64_t c = IN_i64(); if (1) { ENSURES(m_40(a, b, c) == (((a + 1) < (b * 2)) == (c > a)), "a + 1 < b * 2 == c > a"); } }
    REACH("mixed");
}

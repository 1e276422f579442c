/* C06: literals of a compiled program have the value they spell. */
#include "vf.h"
static int same(const char *a, const char *b, unsigned n) { for (unsigned i = 0; i <= n; i++) if (a[i] != b[i]) return 0; return 1; }
#define x_wrap(a, b) ((uint64_t)(a) + (uint64_t)(b))
/*@ fn=integer literals; kind=bounded; bound=41 literals; unwind=4 */
void h_ints(void)
{
    ENSURES(i_0() == 0ull, "0");
    ENSURES(i_1() == 1ull, "1");
    ENSURES(i_2() == 7ull, "7");
    ENSURES(i_3() == 127ull, "127");
    ENSURES(i_4() == 128ull, "128");
    ENSURES(i_5() == 255ull, "255");
    ENSURES(i_6() == 256ull, "256");
    ENSURES(i_7() == 32767ull, "32767");
    ENSURES(i_8() == 65535ull, "65535");
    ENSURES(i_9() == 65536ull, "65536");
    ENSURES(i_10() == 2147483647ull, "2147483647");
    ENSURES(i_11() == 2147483648ull, "2147483648");
    ENSURES(i_12() == 4294967295ull, "4294967295");
    ENSURES(i_13() == 4294967296ull, "4294967296");
    ENSURES(i_14() == 9223372036854775807ull, "9223372036854775807");
    ENSURES(i_15() == 9223372036854775808ull, "9223372036854775808");
    ENSURES(i_16() == 18446744073709551615ull, "18446744073709551615");
    ENSURES(i_17() == 0ull, "0x0");
    ENSURES(i_18() == 255ull, "0xff");
    ENSURES(i_19() == 18446744073709551615ull, "0xFFFFFFFFFFFFFFFF");
    ENSURES(i_20() == 3735928559ull, "0xdeadBEEF");
    ENSURES(i_21() == 1ull, "0b1");
    ENSURES(i_22() == 45ull, "0b101101");
    ENSURES(i_23() == 18446744073709551615ull, "0b1111111111111111111111111111111111111111111111111111111111111111");
    ENSURES(i_24() == 15ull, "0o17");
    ENSURES(i_25() == 511ull, "0o777");
    ENSURES(i_26() == 18446744073709551615ull, "0o1777777777777777777777");
    ENSURES(i_27() == 7ull, "007");
    ENSURES(i_28() == 12ull, "00012");
    ENSURES(n_0() == (-1ll), "-1");
    ENSURES(n_1() == (0ll), "-0");
    ENSURES(n_2() == (-128ll), "-128");
    ENSURES(n_3() == (-129ll), "-129");
    ENSURES(n_4() == (-32768ll), "-32768");
    ENSURES(n_5() == (-2147483648ll), "-2147483648");
    ENSURES(n_6() == (-2147483649ll), "-2147483649");
    ENSURES(n_7() == (-9223372036854775807ll), "-9223372036854775807");
    ENSURES(n_8() == (-9223372036854775807ll - 1), "-9223372036854775808");
    ENSURES(n_9() == (-16ll), "-0x10");
    ENSURES(n_10() == (-3ll), "-0b11");
    ENSURES(n_11() == (-5ll), "- 5");
    REACH("ints");
}
/*@ fn=typed integer literals and signs; kind=bounded; bound=5 expressions of any operand; unwind=4 */
void h_signs(void)
{
    int64_t x = VF_I64();
    uint8_t y = VF_U8();
    ENSURES(g_0(x) == (int64_t)(x_wrap(x, -1)), "x -1");
    ENSURES(g_1(x) == (int64_t)(x_wrap(x, 1)), "x - -1");
    ENSURES(g_2(x) == (int64_t)(x_wrap(x, 1)), "x+1");
    ENSURES(g_3(x) == (int64_t)(x_wrap(-1, -(uint64_t)x)), "-1 - x");
    (void)y;
    REACH("signs");
}
/*@ fn=character literals; kind=bounded; bound=27 literals; unwind=4 */
void h_chars(void)
{
    ENSURES(c_0() == 97u, "character 97");
    ENSURES(c_1() == 90u, "character 90");
    ENSURES(c_2() == 32u, "character 32");
    ENSURES(c_3() == 10u, "character 10");
    ENSURES(c_4() == 9u, "character 9");
    ENSURES(c_5() == 11u, "character 11");
    ENSURES(c_6() == 13u, "character 13");
    ENSURES(c_7() == 7u, "character 7");
    ENSURES(c_8() == 8u, "character 8");
    ENSURES(c_9() == 0u, "character 0");
    ENSURES(c_10() == 92u, "character 92");
    ENSURES(c_11() == 39u, "character 39");
    ENSURES(c_12() == 34u, "character 34");
    ENSURES(c_13() == 34u, "character 34");
    ENSURES(c_14() == 36u, "character 36");
    ENSURES(c_15() == 36u, "character 36");
    ENSURES(c_16() == 65u, "character 65");
    ENSURES(c_17() == 127u, "character 127");
    ENSURES(c_18() == 255u, "character 255");
    ENSURES(c_19() == 65u, "character 65");
    ENSURES(c_20() == 7u, "character 7");
    ENSURES(c_21() == 255u, "character 255");
    ENSURES(c_22() == 233u, "character 233");
    ENSURES(c_23() == 30028u, "character 30028");
    ENSURES(c_24() == 128522u, "character 128522");
    ENSURES(c_25() == 126u, "character 126");
    ENSURES(c_26() == 63u, "character 63");
    REACH("chars");
}
/*@ fn=string literals; kind=bounded; bound=15 literals; unwind=40 */
void h_strings(void)
{
    ENSURES(same(s_0(), "", 0), "string 0");
    ENSURES(same(s_1(), "a", 1), "string 1");
    ENSURES(same(s_2(), "a\042b", 3), "string 2");
    ENSURES(same(s_3(), "a\134b", 3), "string 3");
    ENSURES(same(s_4(), "\134n\134t\134x41\134", 9), "string 4");
    ENSURES(same(s_5(), "\012\011\013\015\007\010$", 7), "string 5");
    ENSURES(same(s_6(), "AbA42\177", 6), "string 6");
    ENSURES(same(s_7(), "AA8\007", 4), "string 7");
    ENSURES(same(s_8(), "\303\251\347\225\214\360\237\230\212", 9), "string 8");
    ENSURES(same(s_9(), "it's \077\077 %d", 10), "string 9");
    ENSURES(same(s_10(), "say \042hi\042 now", 12), "string 10");
    ENSURES(same(s_11(), "tab\011here", 8), "string 11");
    ENSURES(same(s_12(), "\303\251", 2), "string 12");
    ENSURES(same(s_13(), "// no /* comment */", 19), "string 13");
    ENSURES(same(s_14(), "${x}", 4), "string 14");
    REACH("strings");
}
/*@ fn=float literals; kind=bounded; bound=17 literals; unwind=4 */
void h_floats(void)
{
    ENSURES(d_0() == 0x0.0p+0 && d_0() == 0.0, "0.0");
    ENSURES(d_1() == 0x1.0000000000000p+0 && d_1() == 1.0, "1.0");
    ENSURES(d_2() == 0x1.999999999999ap-4 && d_2() == 0.1, "0.1");
    ENSURES(d_3() == 0x1.0000000000000p-1 && d_3() == 0.5, "0.5");
    ENSURES(d_4() == 0x1.921fb54442d11p+1 && d_4() == 3.14159265358979, "3.14159265358979");
    ENSURES(d_5() == 0x1.7700000000000p+10 && d_5() == 1.5e3, "1.5e3");
    ENSURES(d_6() == 0x1.7700000000000p+10 && d_6() == 1.5e+3, "1.5e+3");
    ENSURES(d_7() == 0x1.89374bc6a7efap-10 && d_7() == 1.5e-3, "1.5e-3");
    ENSURES(d_8() == 0x1.fffffffffffffp+1023 && d_8() == 1.7976931348623157e308, "1.7976931348623157e308");
    ENSURES(d_9() == 0x1.0000000000000p-1022 && d_9() == 2.2250738585072014e-308, "2.2250738585072014e-308");
    ENSURES(d_10() == 0x0.0000000000001p-1022 && d_10() == 5.0e-324, "5.0e-324");
    ENSURES(d_11() == 0x1.d6f34547e6b75p+26 && d_11() == 123456789.123456789, "123456789.123456789");
    ENSURES(d_12() == 0x1.3333333333334p-2 && d_12() == 0.30000000000000004, "0.30000000000000004");
    ENSURES(d_13() == 0x1.5af1d78b58c40p+66 && d_13() == 100000000000000000000.0, "100000000000000000000.0");
    ENSURES(d_14() == 0x1.0000000000000p+53 && d_14() == 9007199254740993.0, "9007199254740993.0");
    ENSURES(d_15() == 0x1.0f0cf064dd592p+73 && d_15() == 1.0e22, "1.0e22");
    ENSURES(d_16() == 0x1.52d02c7e14af6p+76 && d_16() == 1.0e23, "1.0e23");
    REACH("floats");
}

/*
 * P22, the fast approximations of mathematical functions.
 */
#include "vc.h"
#include <stdlib.h>
#include "src/fastmath.h"

static uint32_t bits(float x) { union { float f; uint32_t u; } v = { .f = x }; return v.u; }
static float flt(uint32_t u) { union { uint32_t u; float f; } v = { .u = u }; return v.f; }

/*
 * lc3_ldexpf, all finite values and exponents which do not overflow
 */
void h_ldexpf(void)
{
    IN_FLOAT(x); IN_RANGE(exp, -140, 140);
    int e = (bits(x) >> 23) & 0xff;
    REQUIRES(e < 255 && e + exp < 255);

    float y = lc3_ldexpf(x, exp);
    int f = (bits(y) >> 23) & 0xff;

    if (e == 0) {
        ENSURES(bits(y) == bits(x), "null and subnormal numbers unchanged");
        REACHED("subnormal");
    } else if (e + exp > 0) {
        ENSURES(f == e + exp, "exponent");
        ENSURES(((bits(x) ^ bits(y)) & 0x807fffff) == 0, "sign and fraction");
        REACHED("normal");
    } else {
        ENSURES(bits(y) == 0, "null when too small");
        REACHED("underflow");
    }
}

/*
 * lc3_frexpf, then lc3_ldexpf: all normal values
 */
void h_frexpf(void)
{
    IN_FLOAT(x);
    int e = (bits(x) >> 23) & 0xff, exp = -1000;
    REQUIRES(e > 0 && e < 255);

    float y = lc3_frexpf(x, &exp);

    ENSURES((y >= 0.5f && y < 1.f) || (y <= -0.5f && y > -1.f), "fraction in range");
    ENSURES((bits(y) >> 31) == (bits(x) >> 31), "sign");
    ENSURES(exp == e - 126, "exponent");
    if (exp < 128) {
        ENSURES(bits(lc3_ldexpf(y, exp)) == bits(x), "the value is the fraction scaled by the exponent");
        REACHED("scaled");
    }
}

#if defined(FLOATS)

/* 2^(n/16), computed by repeated square roots */
static const double R16[] = { 1.0000000000000000, 1.0442737824274138, 1.0905077326652577, 1.1387886347566916,
    1.1892071150027210, 1.2418578120734840, 1.2968395546510096, 1.3542555469368927, 1.4142135623730951, 1.4768261459394993,
    1.5422108254079408, 1.6104903319492543, 1.6817928305074290, 1.7562521603732995, 1.8340080864093424, 1.9152065613971474 };

static double pow2i(int n) { double y = 1; for (; n > 0; n--) y *= 2; for (; n < 0; n++) y *= 0.5; return y; }

/*
 * lc3_exp2f, on the whole documented range
 */
void h_exp2f(void)
{
    for (int i = -16 * 100; i <= 16 * 100; i += STEP) {
        int n = i >= 0 ? i / 16 : -((15 - i) / 16);
        double ref = pow2i(n) * R16[i - 16 * n];
        float y = lc3_exp2f(i / 16.f);
        double err = y / ref - 1;
        ENSURES(err < 5e-7 && err > -5e-7, "2^x at the documented accuracy");
    }
    REACHED("exp2f");
}

/*
 * lc3_log2f and lc3_log10f, on all exponents
 */
void h_log2f(void)
{
    for (int n = -126; n <= 127; n += 1 + (n > -125 && n < 125) * STEP) for (int k = 0; k < 16; k++) {
        float y = lc3_log2f((float)(pow2i(n) * R16[k]));
        double err = y - (n + k / 16.);
        ENSURES(err < 3e-4 && err > -3e-4, "log2(x) at the documented accuracy");
    }
    REACHED("log2f");
}
#endif

/*
 * lc3_db_q16, on all powers of two, and some values between them
 */
void h_db_q16(void)
{
    /* 10 log10(2) = 3.0103000 dB, 197283 in Q16 */
    for (int e = -62; e <= 62; e++) {
        int64_t err = lc3_db_q16(flt((uint32_t)(127 + e) << 23)) - (int64_t)e * 197283;
        ENSURES(err <= 65536 / 100 && err >= -65536 / 100, "decibels of the powers of two");
    }
    /* 10 log10(1.5) = 1.7609126, 10 log10(1.25) = 0.9691001, 10 log10(1.75) = 2.4303805 */
    static const int q[] = { 63511, 115403, 159277 };
    for (int e = -60; e <= 60; e += 20) for (int k = 0; k < 3; k++) {
        int64_t err = lc3_db_q16(flt(((uint32_t)(127 + e) << 23) | ((uint32_t)(k + 1) << 21))) - (int64_t)e * 197283 - q[k];
        ENSURES(err <= 65536 / 100 && err >= -65536 / 100, "decibels between the powers of two");
    }
    ENSURES(lc3_db_q16(0) < -190 * 65536 && lc3_db_q16(0) > -192 * 65536, "the null value gives the minimum");
    REACHED("db");
}

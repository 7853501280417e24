/* Packet loss concealment */
#include "vc.h"
#include "config.h"
#include "src/tables.c"
#include "src/plc.c"

static struct { float x[NE]; } px, py;
static struct lc3_plc_state st;

void h_reset(void)
{
    VC_SET(float, st.alpha); VC_SET(int, st.count); VC_SET(u16, st.seed);
    uint16_t seed = st.seed;
    lc3_plc_suspend(&st);
    ENSURES(st.count == 1 && st.alpha == 1.0f && st.seed == seed, "a good frame restores the level");
    lc3_plc_reset(&st);
    ENSURES(st.count == 1 && st.alpha == 1.0f && st.seed == 24607, "initial state");
    REACHED("end");
}
/* One more lost frame, from any count and level */
#ifndef SEED
#define SEED 24607
#endif
void h_synthesize(void)
{
    static const int counts[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 1000, INT_MAX };
    static const float alphas[] = { 1, 0.9f, 0.531441f, 1e-3f, 1e-40f, 0 };
    IN_RANGE(k, 0, 65);
    for (int c = 0; c < 66; c++) if (k == c) {
        const int count = counts[c % 11]; const float alpha = alphas[c / 11];
        for (int i = 0; i < NE; i++) { px.x[i] = i & 1 ? 2 : 1; py.x[i] = 0; }
        st.count = count, st.alpha = alpha, st.seed = SEED;
        lc3_plc_synthesize(DT_ID, SR_ID, &st, px.x, py.x);
        const float f = count < 4 ? 1.0f : count < 8 ? 0.9f : 0.85f;
        ENSURES(st.alpha == alpha * f, "attenuation of the lost frames");
        ENSURES(st.count > count || (count >= 8 && st.count >= 8), "count of lost frames");
        uint16_t seed = SEED;
        for (int i = 0; i < NE; i++) {
            seed = seed * 12821u + 16831u;
            ENSURES(py.x[i] == st.alpha * (seed & 0x8000 ? -px.x[i] : px.x[i]), "last good spectrum, attenuated, with pseudo-random signs");
            ENSURES(px.x[i] == (i & 1 ? 2 : 1), "last good spectrum unchanged");
        }
        ENSURES(st.seed == seed, "state of the generator");
        REACHED("end");
        END_CASE();
    }
}
/* Any spectrum */
void h_level(void)
{
    IN_FLOAT(x); IN_RANGE(k, 0, NE - 1); IN_BOOL(first);
    REQUIRES(!isnan(x) && fabsf(x) <= 0x1p60f);
    VC_SET(u16, st.seed); st.alpha = first ? 1 : 0.5f; st.count = 1;
    for (int i = 0; i < NE; i++) px.x[i] = 0;
    for (int i = 0; i < NE; i++) if (i == k) {
        px.x[i] = x;
        lc3_plc_synthesize(DT_ID, SR_ID, &st, px.x, py.x);
        for (int j = 0; j < NE; j++)
            ENSURES(fabsf(py.x[j]) == (j == i ? fabsf(x) * st.alpha : 0), "level of the last good spectrum");
        REACHED("end");
        END_CASE();
    }
}
/* The sequence of the attenuations */
void h_schedule(void)
{
    lc3_plc_reset(&st);
    double ref = 1;
    for (int i = 0; i < NE; i++) px.x[i] = 1024;
    for (int n = 1; n <= 24; n++) {
        lc3_plc_synthesize(DT_ID, SR_ID, &st, px.x, py.x);
        ref *= n < 4 ? 1 : n < 8 ? 0.9 : 0.85;
        ENSURES(fabsf(py.x[NE-1]) > 1024 * ref * 0.9999f && fabsf(py.x[NE-1]) < 1024 * ref * 1.0001f, "level of the lost frames");
    }
    lc3_plc_suspend(&st);
    lc3_plc_synthesize(DT_ID, SR_ID, &st, px.x, py.x);
    ENSURES(fabsf(py.x[0]) == 1024, "full level after a good frame");
    REACHED("end");
}

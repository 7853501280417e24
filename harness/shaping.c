/* Temporal and spectral noise shaping */
#include "vc.h"
#include "config.h"
#include "src/tables.c"

#ifdef VC_CBMC
/* Square root by a sequence of multiplications: a constant stays a constant */
static float vc_sqrtf(float x)
{
    double y = x > 1 ? x : 1;
    for (int i = 0; i < 60; i++) y = 0.5 * (y + x / y);
    return y;
}
#ifdef CONSTANTS
#define sqrtf vc_sqrtf
#endif
#endif

#ifdef SNS
#include "src/sns.c"
#else
#include "src/tns.c"
#endif

static struct { float x[NE]; } ax, ay, az;
static unsigned seed = 1;
static float noise(void) { seed = seed * 1103515245u + 12345u; return (int)(seed >> 16 & 2047) - 1024; }

#ifndef SNS
#define NFILT (1 + (DT_US >= 5000 && SR_HZ >= 32000))
#define MAXORDER (DT_US <= 5000 ? 4 : 8)
#ifdef VC_CBMC
#define R_OK(p, n) __CPROVER_r_ok(p, n)
#else
#define R_OK(p, n) 1
#endif
#ifndef NBYTES
#define NBYTES 100
#endif
#ifndef BW
#define BW (SR_ID > 4 ? 4 : SR_ID)
#endif
float stub_dot(const float *a, const float *b, int n)
{
    ENSURES(n > 0 && R_OK(a, n * sizeof(*a)) && R_OK(b, n * sizeof(*b)), "samples of the correlations");
    ENSURES(a >= ax.x && b + n <= ax.x + NE, "samples of the correlations in the spectrum");
    IN_FLOAT(v);
    return v;
}
/* Any data read from a frame */
void h_tns_synthesize(void)
{
    static const int orders[][2] = { { 0, 0 }, { MAXORDER, 0 }, { 0, MAXORDER }, { 1, MAXORDER }, { MAXORDER, 2 } };
    lc3_tns_data_t data;
    VC_SET(bool, data.lpc_weighting);
    data.nfilters = NFILT;
    IN_RANGE(k, 0, 4);
    for (int c = 0; c < 5; c++) if (k == c) {
        for (int f = 0; f < 2; f++) {
            data.rc_order[f] = orders[c][f];
            for (int i = 0; i < 8; i++) VC_SETR(data.rc[f][i], -8, 8);
        }
        IN_OBJ(ax);
        float x0 = ax.x[0], xl = ax.x[3 * (DT_US / 2500) - 1];
        lc3_tns_synthesize(DT_ID, BW, &data, ax.x);
        ENSURES((isnan(x0) || ax.x[0] == x0) && (isnan(xl) || ax.x[3 * (DT_US / 2500) - 1] == xl), "first lines not filtered");
        REACHED("end");
        END_CASE();
    }
}
/* Lines used by the correlations */
void h_tns_lpc(void)
{
    lc3_tns_data_t data;
    IN_RANGE(nbytes, NB_MIN, NB_MAX);
    lc3_tns_analyze(DT_ID, BW, true, nbytes, &data, ax.x);
    ENSURES(data.rc_order[0] == 0 && (NFILT < 2 || data.rc_order[1] == 0), "disabled near the Nyquist frequency");
    REACHED("end");
}
/* Any result of the linear prediction */
void stub_lpc(enum lc3_dt dt, enum lc3_bandwidth bw, int maxorder, const float *x, float *gain, float (*a)[9])
{
    ENSURES(dt == DT_ID && bw == BW && maxorder == MAXORDER && x == ax.x, "linear prediction of the spectrum");
    for (int f = 0; f < NFILT; f++) VC_SET(float, gain[f]);
}
void stub_weighting(float gain, float *a) { }
void stub_reflection(const float *a, int maxorder, float *rc)
{
    ENSURES(maxorder == MAXORDER, "order of the reflection");
    for (int i = 0; i < MAXORDER; i++) VC_SET(float, rc[i]);
}
void stub_forward(enum lc3_dt dt, enum lc3_bandwidth bw, const int rc_order[2], float (* const rc)[8], float *x)
{
    ENSURES(dt == DT_ID && bw == BW && x == ax.x, "filter of the spectrum");
}
void h_tns_analyze(void)
{
    lc3_tns_data_t data;
    IN_BOOL(nn); IN_RANGE(nbytes, NB_MIN, NB_MAX);
    lc3_tns_analyze(DT_ID, BW, nn, nbytes, &data, ax.x);
    ENSURES(data.nfilters == NFILT, "number of filters");
    ENSURES(data.lpc_weighting == (nbytes * 8 < 48 * DT_US / 1000), "weighting at low bitrates only");
    for (int f = 0; f < NFILT; f++) {
        ENSURES(data.rc_order[f] >= 0 && data.rc_order[f] <= MAXORDER, "order of the filter");
        ENSURES(!nn || data.rc_order[f] == 0, "disabled near the Nyquist frequency");
        for (int i = 0; i < MAXORDER; i++) {
            ENSURES(i >= data.rc_order[f] || (data.rc[f][i] >= -8 && data.rc[f][i] <= 8), "quantized coefficients");
            ENSURES(i != data.rc_order[f] - 1 || data.rc[f][i] != 0, "last coefficient of the order");
        }
    }
    REACHED("end");
}
/* The synthesis is the inverse of the analysis */
void h_tns_inverse(void)
{
    IN_BOOL(go); if (!go) return;
    lc3_tns_data_t data;
    for (int i = 0; i < NE; i++)
        ay.x[i] = ax.x[i] = i < 2 ? 100 : CORR(i);
    lc3_tns_analyze(DT_ID, BW, false, NBYTES, &data, ax.x);
    bool same = true, ok = true;
    for (int i = 0; i < NE; i++) same = same && ax.x[i] == ay.x[i];
    ENSURES(data.rc_order[0] > 0 && !same, "temporal shape is detected");
    lc3_tns_synthesize(DT_ID, BW, &data, ax.x);
    for (int i = 0; i < NE; i++) ok = ok && fabsf(ax.x[i] - ay.x[i]) < 0.05f;
    ENSURES(ok, "synthesis is the inverse of the analysis");
    REACHED("end");
}
#else
void stub_deenumerate(int shape, int ia, bool la, int ib, bool lb, int *c)
{
    for (int i = 0; i < 16; i++) { IN_RANGE(v, -10, 10); c[i] = v; }
    REQUIRES(c[0] != 0);
}
float stub_exp2f(float x) { IN_FLOAT(v); return v; }
float stub_sqrtf(float x) { IN_FLOAT(v); return v; }
/* Any data read from a frame */
void h_sns_synthesize(void)
{
    lc3_sns_data_t data;
    VC_SETR(data.lfcb, 0, 31); VC_SETR(data.hfcb, 0, 31); VC_SETR(data.shape, 0, 3); VC_SETR(data.gain, 0, 7);
    REQUIRES(data.gain < (data.shape == 0 ? 2 : data.shape == 2 ? 4 : data.shape == 1 ? 4 : 8));
    VC_SET(int, data.idx_a); VC_SET(int, data.idx_b); VC_SET(bool, data.ls_a); VC_SET(bool, data.ls_b);
    IN_OBJ(ax);
    for (int i = 0; i < NE; i++) ay.x[i] = -1;
    lc3_sns_synthesize(DT_ID, SR_ID, &data, ax.x, ay.x);
    REACHED("end");
}
#ifndef NB_BANDS
#define NB_BANDS 64
#endif
static struct { float e[64]; } eb;
/* The synthesis is the inverse of the analysis */
void h_sns_inverse(void)
{
    IN_BOOL(go); if (!go) return;
    for (int att = 0; att < 2; att++) {
        lc3_sns_data_t data;
        for (int i = 0; i < 64; i++) eb.e[i] = 1e6f / (1 + i * i) + (noise() + 1024);
        for (int i = 0; i < NE; i++) ax.x[i] = noise(), ay.x[i] = az.x[i] = 0;
        lc3_sns_analyze(DT_ID, SR_ID, NB_MAX, eb.e, att, &data, ax.x, ay.x);
        ENSURES(data.lfcb >= 0 && data.lfcb < 32 && data.hfcb >= 0 && data.hfcb < 32 && data.shape >= 0 && data.shape < 4 &&
            data.gain >= 0 && data.gain < (1 << (data.shape == 0 ? 1 : data.shape == 3 ? 3 : 2)), "indexes of the scale factors");
        lc3_sns_synthesize(DT_ID, SR_ID, &data, ay.x, az.x);
        bool ok = true, shaped = false;
        for (int i = 0; i < NE; i++) ok = ok && fabsf(az.x[i] - ax.x[i]) < 0.05f, shaped = shaped || fabsf(ay.x[i] - ax.x[i]) > 1;
        ENSURES(ok, "synthesis is the inverse of the analysis");
        ENSURES(shaped, "shaped");
    }
    REACHED("end");
}
#endif

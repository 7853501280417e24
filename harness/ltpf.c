/* Long term post filter */
#include "vc.h"
#include "config.h"
#include "src/tables.c"

#ifdef VC_CBMC
#define R_OK(p, n) __CPROVER_r_ok(p, n)
#define W_OK(p, n) __CPROVER_rw_ok(p, n)
#else
#define R_OK(p, n) ((p) != NULL)
#define W_OK(p, n) ((p) != NULL)
#endif

/* The leaf functions are replaced by their contracts, with the facility of
 * the source to give alternative implementations */
#ifdef LEAF_CONTRACTS
struct lc3_ltpf_hp50_state;
static int n_resample;
static void spec_resample(int sr, const int16_t *x, int16_t *y, int n);
#define resample_8k_12k8(s, x, y, n)
#undef resample_8k_12k8
#define RS(name, sr) static void name(struct lc3_ltpf_hp50_state *hp50, const int16_t *x, int16_t *y, int n) { spec_resample(sr, x, y, n); }
RS(spec_8k, LC3_SRATE_8K) RS(spec_16k, LC3_SRATE_16K) RS(spec_24k, LC3_SRATE_24K) RS(spec_32k, LC3_SRATE_32K)
RS(spec_48k, LC3_SRATE_48K) RS(spec_96k, LC3_SRATE_96K_HR)
static void spec_6k4(const int16_t *x, int16_t *y, int n)
{
    ENSURES(R_OK(x - 3, (3 + 2*n) * sizeof(*x)) && W_OK(y, n * sizeof(*y)), "6.4 KHz resampling in its buffers");
}
static float nondet_corr(void) { IN_FLOAT(corr); REQUIRES(!isnan(corr) && fabsf(corr) <= 0x1p31f); return corr; }
static float spec_dot(const int16_t *a, const int16_t *b, int n)
{
    ENSURES(n > 0 && n <= 128 && n % 16 == 0, "length of the scalar product");
    ENSURES(R_OK(a, n * sizeof(*a)) && R_OK(b, n * sizeof(*b)), "scalar product in its buffers");
    return nondet_corr();
}
static void spec_correlate(const int16_t *a, const int16_t *b, int n, float *y, int nc)
{
    ENSURES(n > 0 && n <= 128 && n % 16 == 0 && nc > 0, "length of the correlation");
    ENSURES(R_OK(a, n * sizeof(*a)) && R_OK(b - (nc-1), (n + nc-1) * sizeof(*b)) && W_OK(y, nc * sizeof(*y)), "correlation in its buffers");
    for (int i = 0; i < nc; i++) y[i] = nondet_corr();
}
#define resample_8k_12k8 spec_8k
#define resample_16k_12k8 spec_16k
#define resample_24k_12k8 spec_24k
#define resample_32k_12k8 spec_32k
#define resample_48k_12k8 spec_48k
#define resample_96k_12k8 spec_96k
#define resample_6k4 spec_6k4
#define dot spec_dot
#define correlate spec_correlate
#endif

#ifdef LEAF_CONTRACTS
static float spec_sqrtf(float x) { IN_FLOAT(root); REQUIRES(root >= 0); return root; }
#define sqrtf spec_sqrtf
#endif
#include "src/ltpf.c"

#define N12K8 (32 * (DT_US / 2500))
#define D_OF(sr) ((sr) == LC3_SRATE_8K ? 10 : (sr) == LC3_SRATE_16K ? 20 : (sr) == LC3_SRATE_24K ? 30 : \
    (sr) == LC3_SRATE_32K ? 40 : (sr) == LC3_SRATE_96K_HR ? 120 : 60)

#ifdef LEAF_CONTRACTS
static const int16_t *g_x;
static void spec_resample(int sr, const int16_t *x, int16_t *y, int n)
{
    n_resample++;
    ENSURES((sr == SR_ID || (sr == LC3_SRATE_48K && SR_ID == LC3_SRATE_48K_HR)) && x == g_x, "resampling of the samplerate");
    ENSURES(n == N12K8 && W_OK(y, n * sizeof(*y)), "12.8 KHz resampling in its buffers");
}

/* Contracts of the search of maximum */
int spec_argmax(const float *x, int n, float *x_max)
{
    ENSURES(n > 0 && R_OK(x, n * sizeof(*x)) && W_OK(x_max, sizeof(*x_max)), "search in the vector");
    IN_RANGE(arg, 0, 97); REQUIRES(arg < n); *x_max = nondet_corr(); return arg;
}
int spec_argmax_weighted(const float *x, int n, float w_incr, float *x_max)
{
    return spec_argmax(x, n, x_max);
}

/* Contract of the refinement (proved by h_pitch) */
float spec_interpolate_corr(const float *x, int d)
{
    ENSURES(d >= -3 && d <= 3 && R_OK(x - (d < 0 ? 4 : 3), 8 * sizeof(*x)) && (d == 0 || R_OK(x - 3, (d > 0 ? 8 : 7) * sizeof(*x))), "interpolation in the vector");
    IN_FLOAT(icorr); REQUIRES(!isnan(icorr)); return icorr;
}
int spec_refine_pitch(const int16_t *x, int n, int tc, int *pitch)
{
    ENSURES(tc >= 17 && tc <= 114 && n == (DT_US == 2500 ? 64 : N12K8), "estimation of the lag");
    ENSURES(R_OK(x - 232, (232 + n) * sizeof(*x)) && W_OK(pitch, sizeof(*pitch)), "12.8 KHz samples available");
    IN_RANGE(lag, 128, 4*228 + 3); REQUIRES(lag/4 >= 2*tc - 5 && lag/4 <= 2*tc + 4);
    *pitch = lag;
    IN_RANGE(ridx, 0, 511);
    return ridx;
}

/* Analysis: from any state, buffers accessed and state kept in their domain */
static struct { int16_t h[NT], x[NS]; } in;
static lc3_ltpf_analysis_t st;
void h_analyse(void)
{
    lc3_ltpf_data_t data = { .active = true, .pitch_index = -1 };
    IN_BOOL(was); IN_RANGE(old, 0, 915); VC_SETR(st.tc, 0, 97);
    IN_FLOAT(nc0); IN_FLOAT(nc1);
    st.active = was, st.pitch = old, st.nc[0] = nc0, st.nc[1] = nc1;
    n_resample = 0, g_x = in.x;
    bool pitch = lc3_ltpf_analyse(DT_ID, SR_ID, &st, in.x, &data);
    ENSURES(n_resample == 1, "resampled once");
    ENSURES(st.tc >= 0 && st.tc <= 97 && st.pitch >= 0 && st.pitch <= 915, "state in its domain");
    ENSURES(!pitch || (data.pitch_index >= 0 && data.pitch_index < 512), "pitch index in range");
    ENSURES(pitch || (!data.active && st.pitch == 0), "not active without pitch");
    ENSURES(st.active == data.active, "activation kept");
    ENSURES(!(st.nc[1] < nc0) && !(st.nc[1] > nc0), "correlation of the previous frame kept");
    /* Activation, by the specification */
    float nc = st.nc[0];
    int diff = st.pitch > old ? st.pitch - old : old - st.pitch;
    bool act = pitch && !HR && (was ?
        nc > 0.9f || (nc > 0.84f && diff < 8 && nc - nc0 > -0.1f) :
        (DT_US == 10000 || nc1 > 0.94f) && nc0 > 0.94f && nc > 0.94f);
    ENSURES(data.active == act, "activation decision");
    REACHED("end");
}

/* Refinement: the decoder gets the lag of the encoder */
static int16_t x12k8[384];
void h_pitch(void)
{
    IN_RANGE(tc, 17, 114);
    int pitch = -1;
    const int n = DT_US == 2500 ? 64 : N12K8;
    int idx = refine_pitch(x12k8 + 384 - n - (DT_US == 7500 ? 44 : 24), n, tc, &pitch);
    ENSURES(idx >= 0 && idx < 512, "pitch index in range");
    ENSURES(pitch >= 4*32 && pitch < 4*229, "pitch lag in range");
    ENSURES((pitch >> 2) >= 2*tc - 5 && (pitch >> 2) <= 2*tc + 4, "pitch lag next to the estimation");
    /* Value of the index, by the specification: resolution of 1/4, 1/2 then 1 */
    int v = idx < 380 ? idx + 128 : idx < 440 ? 4*157 - 2*(440 - idx) : 4*(idx - 283);
    ENSURES(v == pitch, "the index tells the lag");
    REACHED("end");
}
#else

/* Leaf functions */
static struct { int16_t x[120 + 960]; } rx;
static struct { int16_t y[128 + 1]; } ry;
void h_resample(void)
{
    struct lc3_ltpf_hp50_state hp50 = { 0 };
    /* Objects of exactly the announced size, up to the end of memory */
    static int16_t x[D_OF(SR_ID) - 1 + NS + ((D_OF(SR_ID) - 1) & 1)], y[N12K8];
    resample_12k8[SR_ID](&hp50, x + (D_OF(SR_ID) - 1) + ((D_OF(SR_ID) - 1) & 1), y, N12K8);
    ENSURES(hp50.s1 == 0 && hp50.s2 == 0 && y[N12K8-1] == 0, "null output of null input");
    REACHED("end");
}
void h_resample_6k4(void)
{
    static int16_t x[4 + N12K8], y[N12K8 / 2];
    resample_6k4(x + 4, y, N12K8 / 2);
    REACHED("end");
}

/* Scalar product: the length is followed, term by term */
#ifndef N
#define N 128
#endif
void h_dot(void)
{
    static int16_t a[N], b[N];
    for (int j = 0; j < N; j += N-1) {
        VC_IN(int16_t, i16, va); const int vb = j % 2 ? 32767 : -32768;
        a[j] = va, b[j] = vb;
        ENSURES(dot(a, b, N) == (float)((va * vb + 32) >> 6), "term of the scalar product");
        a[j] = b[j] = 0;
    }
    REACHED("end");
}
void h_argmax(void)
{
    static float x[98];
    IN_RANGE(i, 0, 4);
    for (int n = 1; n <= 5; n += 2) {
        for (int k = 0; k < 5; k++) { VC_SET(float, x[k]); REQUIRES(!isnan(x[k])); }
        float m = 0;
        int arg = argmax(x, n, &m);
        ENSURES(arg >= 0 && arg < n && m == x[arg], "argument of the maximum");
        ENSURES(i >= n || x[i] <= m, "maximum");
        ENSURES(i >= arg || i >= n || x[i] < m, "first maximum");
    }
    REACHED("end");
}
void h_argmax_weighted(void)
{
    static float x[98];
    IN_RANGE(n, 1, 98);
    float m = -1;
    int arg = argmax_weighted(x, n, -.5f / 97, &m);
    ENSURES(arg >= 0 && arg < n && m == x[arg], "argument of the maximum");
    REACHED("end");
}
void h_interpolate(void)
{
    IN_RANGE(d, 0, 3);
    static int16_t x[2 + 128 + 1], y[128];
    for (int i = 0; i <= 3; i++) if (d == i) {
        interpolate(x + 2, 128, i, y);
        ENSURES(y[0] == 0 && y[127] == 0, "null output of null input");
        REACHED("end");
        END_CASE();
    }
}

/* Synthesis: accesses are in the ring, transitions */
static struct { float x[NH + NS]; } ring;
static lc3_ltpf_synthesis_t sy;
#define W (SR_HZ <= 16000 ? 4 : SR_HZ / 4000)
#define MAXPITCH (4 * 228 * (SR_HZ / 100) / 128 + 4)
#ifndef POS
#define POS 0
#endif
#ifndef TRANS
#define TRANS 0     /* 0: inactive, 1: start, 2: stop, 3: same pitch, 4: change */
#endif
#define WF ((W) < 4 ? 4 : (W))
static int spec_pitch(int idx)      /* Index to lag in 1/4 of sample, by the specification */
{
    int p = idx < 380 ? idx + 128 : idx < 440 ? 4*157 - 2*(440 - idx) : 4*(idx - 283);
    return (p * (SR_HZ / 100) + 64) / 128;
}
static int spec_gain(int nbytes)    /* Index of the gain, 4: disabled */
{
    int nbits = nbytes * 8 * 10000 / DT_US;
    if (DT_US == 2500) nbits = (nbits * 6 + 5) / 10;
    if (DT_US == 5000) nbits -= 160;
    int k = SR_HZ / 8000 - (SR_HZ == 48000 ? 2 : 1);
    for (int i = 0; i < 4; i++) if (nbits < 320 + 80 * (i + k)) return i;
    return 4;
}
void h_synthesize(void)
{
    IN_RANGE(nbytes, 20, 400); IN_RANGE(idx, 0, 511); IN_BOOL(act); IN_BOOL(pres);
    VC_SETR(sy.pitch, 0, MAXPITCH);
    sy.active = TRANS >= 2;
    if (TRANS == 1 || TRANS >= 3) act = pres = true;
    else REQUIRES(!act || !pres);
    lc3_ltpf_data_t data = { .active = act, .pitch_index = idx };
    lc3_ltpf_synthesize(DT_ID, SR_ID, nbytes, &sy, pres ? &data : NULL, ring.x, ring.x + POS * NS);
    ENSURES(sy.active == (act && pres && spec_gain(nbytes) < 4), "active with the data and the bitrate");
    ENSURES(sy.pitch >= 0 && sy.pitch <= MAXPITCH, "pitch in its domain");
    ENSURES(!pres || sy.pitch == spec_pitch(idx), "lag of the index");
    REACHED("end");
}

#ifndef MODE
#define MODE 0
#endif
/* Inactive: samples are unchanged, and the last inputs kept */
void h_inactive(void)
{
    IN_RANGE(nbytes, 20, 400); IN_RANGE(idx, 0, 511); IN_RANGE(k, 0, NH + NS - 1); IN_RANGE(i, 0, WF - 2);
    const bool pres = MODE > 0, act = MODE > 1;     /* No data, not active, bitrate too high */
    if (MODE == 2) { nbytes = 400; REQUIRES(spec_gain(400) == 4); }
    VC_SETR(sy.pitch, 0, MAXPITCH);
    sy.active = false;
    for (int j = 0; j < NH + NS; j++) ring.x[j] = 1 + j;
    lc3_ltpf_data_t data = { .active = act, .pitch_index = idx };
    lc3_ltpf_synthesize(DT_ID, SR_ID, nbytes, &sy, pres ? &data : NULL, ring.x, ring.x + POS * NS);
    ENSURES(ring.x[k] == 1 + k, "samples are not modified when inactive");
    ENSURES(sy.x[i] == 1 + POS * NS + NS - (WF-1) + i, "last input samples kept");
    ENSURES(!sy.active, "inactive");
    REACHED("end");
}

/* Selection of the filter */
void h_filter(void)
{
    IN_RANGE(nbytes, 20, 400); IN_RANGE(idx, 0, 511); IN_RANGE(i, 0, WF - 1); IN_RANGE(kp, 0, 3); IN_RANGE(kg, 0, 4);
    REQUIRES((spec_pitch(idx) & 3) == kp && spec_gain(nbytes) == kg);
    sy.active = false;
    lc3_ltpf_data_t data = { .active = true, .pitch_index = idx };
    lc3_ltpf_synthesize(DT_ID, SR_ID, nbytes, &sy, &data, ring.x, ring.x);
    const float gain[] = { .4f, .35f, .3f, .25f, 0 };
    for (int p = 0; p < 4; p++) for (int g = 0; g <= 4; g++) for (int j = 0; j < WF; j++) if (p == kp && g == kg && i == j) {
        float d = sy.c[j] - gain[g] * lc3_ltpf_cden[SR_ID][p][WF-1-j];
        float n = sy.c[WF+j] - .85f * gain[g] * lc3_ltpf_cnum[SR_ID][g < 4 ? g : 3][WF-1-j];
        ENSURES(d >= -1e-5f && d <= 1e-5f && n >= -1e-5f && n <= 1e-5f, "coefficients of the filter");
        REACHED("end");
        END_CASE();
    }
}

/* Position of the filter in the history: response to an impulse */
#ifndef IDX
#define IDX 200
#endif
void h_lag(void)
{
    const int idx = IDX;
    IN_RANGE(k, 0, NH + NS - 1);
    int pitch = spec_pitch(idx), lag = pitch / 4;
    REQUIRES(lag >= NS + WF && !(k >= POS * NS && k < (POS + 1) * NS));
    sy.active = true, sy.pitch = pitch;
    for (int j = 0; j < NH + NS; j++) ring.x[j] = k == j;
    lc3_ltpf_data_t data = { .active = true, .pitch_index = idx };
    lc3_ltpf_synthesize(DT_ID, SR_ID, 20, &sy, &data, ring.x, ring.x + POS * NS);
    for (int i = 0; i < NS; i++) {
    /* Tap of the impulse */
    int m = k - (POS * NS + i - lag - WF / 2);
    m = (m + 2 * (NH + NS)) % (NH + NS);
        ENSURES(ring.x[POS * NS + i] == (m < WF ? sy.c[m] : 0), "response of the filter at the lag");
    }
    REACHED("end");
}
#endif

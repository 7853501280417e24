/* Spectral coefficients: quantization, coding, bit budget */
#include "vc.h"
/* Models of the spectrum by their index: all the symbols have a probability
 * ("symbols of the models") */
#define MODEL_T int
#ifdef VC_CBMC
#define MODEL_ID(m) ((int)__CPROVER_POINTER_OFFSET(m))
#else
#define MODEL_ID(m) ((int)((const char *)(m) - (const char *)lc3_spectrum_models))
#endif
#define MODEL_HAS(m, i) true
#include "src/tables.h"
#include "bitfifo.h"
#include "config.h"
#include "cost.h"
#ifndef HIGH
#define HIGH 0
#endif
static int bits_left;
static int spec_bits_left(const lc3_bits_t *bits) { return bits_left; }
#define lc3_get_bits_left spec_bits_left
#include "src/tables.c"
#ifdef VC_CBMC
/* Copy of the lookup table of the models, as flat objects: the verifier does not
 * resolve pointers in arrays of arrays */
static uint8_t flat0[1024], flat1[1024];
static const uint8_t (*flat[2][2])[4];
static void spec_lookup(bool high)
{
    for (int i = 0; i < 256; i++) for (int k = 0; k < 4; k++) {
        flat0[4*i+k] = lc3_spectrum_lookup[high][0][i][k];
        flat1[4*i+k] = lc3_spectrum_lookup[high][1][i][k];
    }
    flat[high][0] = (const uint8_t (*)[4])flat0, flat[high][1] = (const uint8_t (*)[4])flat1;
}
#define lc3_spectrum_lookup flat
#else
#define spec_lookup(high) do { } while (0)
#endif
#include "src/spec.c"
#undef lc3_spectrum_lookup

#ifdef VC_CBMC
#define R_OK(p, n) __CPROVER_r_ok(p, n)
#define W_OK(p, n) __CPROVER_rw_ok(p, n)
#else
#define R_OK(p, n) ((p) != NULL)
#define W_OK(p, n) ((p) != NULL)
#endif

static lc3_bits_t b;
/* Objects of exactly the number of coded lines */
static struct { float x[NE]; } sx, sr_;
static int iabs_(int v) { return v < 0 ? -v : v; }

void h_models(void)
{
    /* Width of the intervals, and total */
    IN_RANGE(m, 0, 63);
    int low = 0; bool ok = true;
    for (int i = 0; i < 17; i++) {
        ok = ok && lc3_spectrum_models[m].s[i].low == low && lc3_spectrum_models[m].s[i].range > 0;
        low += lc3_spectrum_models[m].s[i].range;
    }
    ENSURES(ok && low == 1024, "symbols of the models");
    REACHED("end");
}
void h_lookup(void)
{
    spec_lookup(HIGH);
    IN_RANGE(i, 0, 1023); IN_RANGE(m, 0, 63); IN_RANGE(s, 0, 16);
#ifdef VC_CBMC
    ENSURES(flat0[i] < 64 && flat1[i] < 64, "index of a model");
#endif
    ENSURES(lc3_spectrum_bits[m][s] == range_cost[lc3_spectrum_models[m].s[s].range & 1023], "cost of a symbol of the spectrum");
    REACHED("end");
}

/* --- A pair of the spectrum: written then read, and counted ----------------------
 * The coding of a pair depends on the two previous ones, by the state, and of the
 * half of the spectrum : {P2A, P2B} {P1A, P1B} {any values up to QMAX} */
#ifndef NQ
#define NQ NE
#endif
#ifndef QMAX
#define QMAX 7
#endif
#ifndef P1
#define P1 0, 0
#endif
#ifndef P2
#define P2 0, 0
#endif
#ifndef LSB
#define LSB 0
#endif
#define NBYTES (HIGH ? NB_MAX : 20)
static struct { int v[NE]; bool neg[NE]; } q;
static void values(void)
{
    static const int prev[] = { P2, P1 };
    for (int i = 0; i < NQ; i++) {
        q.v[i] = i < NQ - 2 && i >= NQ - 6 ? prev[i - NQ + 6] : 0, q.neg[i] = false;
        if (i >= NQ - 2) { VC_SETR(q.v[i], 0, QMAX); VC_SET(bool, q.neg[i]); }
        sx.x[i] = q.neg[i] ? -q.v[i] : q.v[i];
    }
}
void h_quantized(void)
{
    spec_lookup(HIGH);
    values();
    fifo_start(false);
    uint16_t seed, s = 0;
    put_quantized(&b, DT_ID, SR_ID, NBYTES, sx.x, NQ, LSB);
    int ret = get_quantized(&b, DT_ID, SR_ID, NBYTES, NQ, LSB, sr_.x, &seed);
    ENSURES(ret == 0 && FIFO_EMPTY, "valid spectrum");
    for (int i = 0; i < NQ; i++) {
        /* The LSB mode drops the first bit of the pairs of values over 3 */
        int v = LSB && (q.v[i & ~1] | q.v[i | 1]) > 3 ? q.v[i] & ~1 : q.v[i];
        ENSURES(sr_.x[i] == (q.neg[i] ? -v : v), "quantized spectrum written is read");
        s += (v & 0x7fff) * i;
    }
    ENSURES(seed == s, "seed of the noise");
    REACHED("end");
}
void h_lsb(void)
{
    values(); IN_RANGE(k, 0, NQ - 1);
    for (int i = 0; i < NQ; i++) {
        int v = (q.v[i & ~1] | q.v[i | 1]) > 3 ? q.v[i] & ~1 : q.v[i];
        sr_.x[i] = q.neg[i] ? -v : v;
    }
    fifo_start(false);
    uint16_t seed = 0;
    put_lsb(&b, 1000, HR, sx.x, NQ); get_lsb(&b, 1000, sr_.x, NQ, &seed);
    ENSURES(fifo_r == fifo_w, "LSB written are read");
    ENSURES(sr_.x[k] == sx.x[k], "values are complete with the LSB");
    REACHED("end");
}

/* --- Residual bits: the reconstruction is refined ------------------------------- */
void h_residual(void)
{
    IN_FLOAT(v); IN_BOOL(more);
    REQUIRES(!isnan(v) && fabsf(v) <= 32766);
    for (int i = 0; i < NE; i++) sx.x[i] = 0;
    const int k = 2 * (NE / 4);
    int q = fabsf(v) + 6.f/16;
    fifo_start(false);
    sx.x[k] = v;
    put_residual(&b, more ? 5 : 1, false, sx.x, NE);
    ENSURES(fifo_w == (q != 0), "a bit for each non null value");
    float y[NE] = { 0 };
    y[k] = v < 0 ? -q : q;
    get_residual(&b, more ? 5 : 1, false, y, NE);
    ENSURES(fifo_r == fifo_w, "residual bits written are read");
    ENSURES(q == 0 || fabsf(y[k] - v) <= 5.f/16, "the value is refined");
    REACHED("end");
}
void h_residual_none(void)
{
    IN_FLOAT(v);
    REQUIRES(!isnan(v) && fabsf(v) <= 32766);
    for (int i = 0; i < NE; i++) sx.x[i] = 0;
    sx.x[0] = sr_.x[0] = v; fifo_start(false);
    put_residual(&b, 0, HR, sx.x, NE); get_residual(&b, 0, HR, sr_.x, NE);
    put_lsb(&b, 0, HR, sx.x, NE); uint16_t seed = 1; get_lsb(&b, 0, sr_.x, NE, &seed);
    ENSURES(fifo_w == 0 && fifo_r == 0 && sx.x[0] == v && sr_.x[0] == v && seed == 1, "nothing when there is no bit left");
    REACHED("end");
}

/* --- Read from any frame: values in range, confined to the coded lines ---------- */
void h_any(void)
{
    IN_BOOL(lsb); uint16_t seed; IN_RANGE(k, 0, NE - 1);
    const int n = NQ;
    spec_lookup(HIGH);
    fifo_start(true);
    for (int i = 0; i < NE; i++) sx.x[i] = 0x1p100f;
    int ret = get_quantized(&b, DT_ID, SR_ID, NBYTES, n, lsb, sx.x, &seed);
    ENSURES(ret == 0 || ret == -1, "return value");
    ENSURES(sx.x[k] == 0x1p100f || (k < n && fabsf(sx.x[k]) < (HR ? 0x1p24f : 0x1p16f)), "value in range, among the coded ones");
    ENSURES(ret < 0 || k >= n || sx.x[k] != 0x1p100f, "all the coded values are set");
    REACHED("end");
}

/* --- Noise --------------------------------------------------------------------- */
#ifndef BW
#define BW 0
#endif
void h_noise(void)
{
    IN_RANGE(nf, 0, 7); IN_U16(seed); IN_RANGE(k, 0, NE - 1);
    const int w = DT_US <= 5000 ? 1 : DT_US == 7500 ? 2 : 3, stop = DT_US / 2500 * (BW < 4 ? 20 * (BW + 1) : 100);
    struct { bool z[NE]; } zero;
    for (int i = 0; i < NE; i++) { VC_SET(bool, zero.z[i]); sx.x[i] = i >= NQ || zero.z[i] ? 0 : 77777; }
    fill_noise(DT_ID, BW, nf, seed, 1.f, sx.x, NQ);
    float s = (8 - nf) / 16.f;
    int lo = 6 * (DT_US / 2500);
    for (int i = 0; i < NE; i++) if (k == i) {
        /* Noise where all is null around, in the bandwidth */
        bool fill = i >= lo && i < stop;
        for (int j = i - w; j <= i + w; j++)
            if (j >= lo - w && j < NQ && j < stop && !zero.z[j]) fill = false;
        ENSURES(fill ? sx.x[i] == s || sx.x[i] == -s : sx.x[i] == (i >= NQ || zero.z[i] ? 0 : 77777), "noise is added to the null lines of the bandwidth only");
        REACHED("end");
        END_CASE();
    }
}
void h_estimate_noise(void)
{
    for (int i = 0; i < NE; i++) { VC_SET(float, sx.x[i]); REQUIRES(!isnan(sx.x[i]) && fabsf(sx.x[i]) <= 32768); }
    int nf = estimate_noise(DT_ID, BW, HR, sx.x, NQ);
    ENSURES(nf >= 0 && nf <= 7, "noise factor in range");
    REACHED("end");
}

/* --- Bit budget ---------------------------------------------------------------- */

/* Cost of what has been written */
static int cost(void)
{
    int c = 0;
    for (int i = 0; i < sym_w; i++)
        c += lc3_spectrum_bits[sym.m[i] / (int)sizeof(struct lc3_ac_model)][sym.v[i]];
    return c + 2048 * fifo_nbits;
}
void h_nbits_count(void)
{
    /* the count of bits is the one of the coding */
    spec_lookup(HIGH);
    values();
    REQUIRES(q.v[NQ-1] || q.v[NQ-2]);
    fifo_start(false); bool lsb; int n = NQ;
    put_quantized(&b, DT_ID, SR_ID, NBYTES, sx.x, n, false);
    int nbits = compute_nbits(DT_ID, SR_ID, NBYTES, sx.x, &n, 0, &lsb);
    ENSURES(n == NQ && !lsb, "nothing truncated without budget");
    int c = (cost() + 2047) / 2048;
    /* The sign of the LSBs, when allowed, is counted in addition */
    ENSURES(HIGH ? nbits >= c && nbits <= c + NQ : nbits == c, "count of the bits of the coding");
    REACHED("end");
}
void h_nbits(void)
{
    spec_lookup(HIGH);
    values();
    IN_RANGE(budget, 1, 4000);
    bool lsb; int n = NQ;
    int nbits = compute_nbits(DT_ID, SR_ID, NBYTES, sx.x, &n, budget, &lsb);
    ENSURES(nbits <= budget && nbits >= 0, "number of bits in the budget");
    ENSURES(n >= 0 && n <= NQ && n % 2 == 0, "count of significants");
    for (int i = 0; i < NQ; i += 2) if (n == i + 2)
        ENSURES(q.v[i] || q.v[i+1], "the last pair is significant");
    ENSURES(!lsb || HIGH, "LSB mode when allowed");
    REACHED("end");
}

/* --- Gain ---------------------------------------------------------------------- */
int32_t stub_db(float x) { IN_INT(db); REQUIRES(db >= -100 * 65536 && db <= 150 * 65536); return db; }
float stub_gain(int g_int) { IN_FLOAT(gain); REQUIRES(gain > 0); ENSURES(g_int >= -255 && g_int <= 255, "gain index to convert"); return gain; }
static int goff(int nbytes)
{
    int s = HR ? (SR_HZ == 48000 ? 5 : 6) : SR_HZ == 48000 ? 5 : SR_HZ / 8000;
    int g = nbytes * 8 / (10 * s); if (g > 115) g = 115;
    g += 105 + 5 * s;
    int lim = SR_HZ == 96000 ? 181 : 255;
    return g < lim ? g : lim;
}
void h_gain_offset(void)
{
    IN_RANGE(nbytes, 20, 625);
    ENSURES(resolve_gain_offset(SR_ID, nbytes) == goff(nbytes), "gain offset of the frame");
    REACHED("end");
}
void h_estimate(void)
{
    IN_RANGE(nbytes, NB_MIN, NB_MAX); IN_RANGE(budget, -200, 8 * 625); IN_FLOAT(off); IN_RANGE(g_off, 110, 255);
    REQUIRES(off >= -40 && off <= 40);
    for (int i = 0; i < NE; i++) { sx.x[i] = 0; if (i > 1) continue;  VC_SET(float, sx.x[i]); REQUIRES(!isnan(sx.x[i]) && fabsf(sx.x[i]) <= 0x1p40f); }
    REQUIRES(fabsf(sx.x[1]) >= 1e-6f * fabsf(sx.x[0]));
    bool reset = false; int g_min = 1000;
    int g = estimate_gain(DT_ID, SR_ID, sx.x, nbytes, budget, off, g_off, &reset, &g_min);
    ENSURES(g_min >= -g_off && g_min <= 255 - g_off, "lower bound of the gain in range");
    ENSURES(g >= g_min && g <= 255 - g_off, "gain in range");
    ENSURES(!reset || g == g_min, "reset at the lower bound");
    REACHED("end");
}
void h_adjust(void)
{
    IN_RANGE(g_min, 0, 255); IN_RANGE(g, 0, 255); IN_RANGE(nbits, 0, 100000); IN_RANGE(budget, -200, 8*625);
    REQUIRES(g >= g_min);
    int adj = adjust_gain(DT_ID, SR_ID, g, nbits, budget, g_min);
    ENSURES(g + adj >= g_min && g + adj <= 255, "adjusted gain in range");
    ENSURES(HR ? adj >= 0 : adj >= -1 && adj <= 2, "gain adjustment in range");
    ENSURES(nbits <= budget ? adj <= 0 : adj >= 0 && (adj > 0 || g == 255), "gain increased when over the budget, and only then");
    REACHED("end");
}

static int n_quant, n_nbits, v_budget, v_nbits0, v_gint, v_gmin, v_adj; static bool v_reset, v_lsb;
int stub_estimate(enum lc3_dt dt, enum lc3_srate sr, const float *x, int nbytes, int nbits_budget, float nbits_off, int g_off, bool *reset_off, int *g_min)
{
    ENSURES(dt == DT_ID && sr == SR_ID && x == sx.x && g_off == goff(nbytes), "estimation of the gain of the frame");
    ENSURES(nbits_off >= -40 && nbits_off <= 40, "offset of the number of bits");
    v_budget = nbits_budget;
    VC_SETR(v_gmin, -g_off, 255 - g_off); VC_SETR(v_gint, -g_off, 255 - g_off); VC_SET(bool, v_reset);
    REQUIRES(v_gint >= v_gmin);
    *g_min = v_gmin; *reset_off = v_reset;
    return v_gint;
}
void stub_quantize(enum lc3_dt dt, enum lc3_srate sr, int g_int, float *x, int *n)
{
    ENSURES(dt == DT_ID && sr == SR_ID && x == sx.x, "quantization of the frame");
    ENSURES(n_quant == 0 ? g_int == v_gint : n_quant == 1 && g_int == v_adj && v_adj, "quantization by the gain, then the adjustment");
    n_quant++;
    VC_SETR(*n, 0, NE);
}
int stub_nbits(enum lc3_dt dt, enum lc3_srate sr, int nbytes, const float *x, int *n, int nbits_budget, bool *p_lsb_mode)
{
    ENSURES(dt == DT_ID && sr == SR_ID && x == sx.x, "bits of the frame");
    ENSURES(n_nbits == 0 ? nbits_budget == 0 : nbits_budget == v_budget && p_lsb_mode, "budget of the frame");
    IN_RANGE(nb, 0, 100000);
    if (n_nbits++ == 0) v_nbits0 = nb;
    IN_RANGE(nn, 0, NE); REQUIRES(nn <= *n); *n = nn;
    if (p_lsb_mode) { VC_SET(bool, v_lsb); *p_lsb_mode = v_lsb; }
    return nb;
}
int stub_adjust(enum lc3_dt dt, enum lc3_srate sr, int g_idx, int nbits, int nbits_budget, int g_idx_min)
{
    ENSURES(dt == DT_ID && sr == SR_ID && nbits == v_nbits0 && nbits_budget == v_budget, "adjustment of the frame");
    ENSURES(g_idx >= g_idx_min && g_idx_min >= 0 && g_idx <= 255 && g_idx - v_gint == g_idx_min - v_gmin, "gain indexes");
    IN_RANGE(adj, -1, 255); REQUIRES(g_idx + adj <= 255 && g_idx + adj >= g_idx_min);
    return v_adj = adj;
}
int stub_tns_nbits(const struct lc3_tns_data *d) { IN_RANGE(tns_n, 1, 60); return d != NULL ? tns_n : 0; }
void h_analyze(void)
{
    static struct lc3_spec_analysis st; static lc3_tns_data_t tns; lc3_spec_side_t side;
    IN_RANGE(nbytes, NB_MIN, NB_MAX); IN_BOOL(pitch);
    VC_SET(float, st.nbits_off); REQUIRES(st.nbits_off >= -40 && st.nbits_off <= 40); VC_SETR(st.nbits_spare, -100000, 5000);
    lc3_spec_analyze(DT_ID, SR_ID, nbytes, pitch, &tns, &st, sx.x, &side);
    ENSURES(side.g_idx >= 0 && side.g_idx <= 255, "gain index in range");
    ENSURES(side.nq >= 0 && side.nq <= NE && side.lsb_mode == v_lsb, "side data in range");
    ENSURES(n_nbits == 2 && n_quant == 1 + (v_adj != 0), "quantized again when adjusted");
    ENSURES(st.nbits_off >= -40 && st.nbits_off <= 40 && st.nbits_spare <= 5000 && st.nbits_spare >= -101000, "state in its domain");
    ENSURES(!v_reset || (st.nbits_off == 0 && st.nbits_spare == 0), "state reset");
    ENSURES(v_reset || st.nbits_spare == v_budget - v_nbits0, "spare bits kept");
    ENSURES(v_budget < 8 * nbytes, "budget below the frame size");
    REACHED("end");
}

/* --- Encoding and decoding of a frame : order, arguments and bits left ----------- */
static int n_seq, v_nf, v_ret; static bool called_noise;
static uint16_t v_seed; static float v_g;
static lc3_spec_side_t side;
#define SEQ(n, name) do { ENSURES(n_seq == (n), name " in order"); n_seq++; } while (0)
int stub_noise(enum lc3_dt dt, enum lc3_bandwidth bw, bool hr, const float *x, int n)
{
    SEQ(0, "noise estimated");
    ENSURES(dt == DT_ID && (int)bw == BW && hr == HR && x == sx.x && n == side.nq, "noise estimation of the frame");
    return v_nf;
}
void stub_putq(lc3_bits_t *bits, enum lc3_dt dt, enum lc3_srate sr, int nbytes, const float *x, int nq, bool lsb_mode)
{
    SEQ(1, "spectrum written");
    ENSURES(fifo_w == 1 && fifo.n[0] == 3 && fifo.v[0] == v_nf, "noise factor written before");
    ENSURES(bits == &b && dt == DT_ID && sr == SR_ID && nbytes == NBYTES && x == sx.x && nq == side.nq && lsb_mode == side.lsb_mode, "spectrum of the frame");
    VC_SETR(bits_left, 0, 5000);
}
void stub_putres(lc3_bits_t *bits, int nbits, bool hr, float *x, int n)
{
    SEQ(2, "residual written");
    ENSURES(!side.lsb_mode && bits == &b && nbits == bits_left && hr == HR && x == sx.x && n == side.nq, "residual of the frame, in the bits left");
}
void stub_putlsb(lc3_bits_t *bits, int nbits, bool hr, const float *x, int n)
{
    SEQ(2, "LSB written");
    ENSURES(side.lsb_mode && bits == &b && nbits == bits_left && hr == HR && x == sx.x && n == side.nq, "LSB of the frame, in the bits left");
}
void h_encode(void)
{
    VC_SETR(side.nq, 0, NE); VC_SETR(side.g_idx, 0, 255); VC_SET(bool, side.lsb_mode); VC_SETR(v_nf, 0, 7);
    fifo_start(false); bits_left = -1;
    lc3_spec_encode(&b, DT_ID, SR_ID, BW, NBYTES, &side, sx.x);
    ENSURES(n_seq == 3 && fifo_w == 1, "noise factor, spectrum, then residual or LSB");
    REACHED("end");
}
int stub_getq(lc3_bits_t *bits, enum lc3_dt dt, enum lc3_srate sr, int nbytes, int nq, bool lsb_mode, float *x, uint16_t *seed)
{
    SEQ(0, "spectrum read");
    ENSURES(fifo_r == 1, "noise factor read before");
    ENSURES(bits == &b && dt == DT_ID && sr == SR_ID && nbytes == NBYTES && x == sx.x && nq == side.nq && lsb_mode == side.lsb_mode, "spectrum of the frame");
    VC_SET(u16, v_seed); *seed = v_seed; VC_SETR(bits_left, 0, 5000);
    VC_SETR(v_ret, -1, 0); return v_ret;
}
void stub_getres(lc3_bits_t *bits, int nbits, bool hr, float *x, int n)
{
    SEQ(1, "residual read");
    ENSURES(!side.lsb_mode && bits == &b && nbits == bits_left && hr == HR && x == sx.x && n == side.nq, "residual of the frame, in the bits left");
}
void stub_getlsb(lc3_bits_t *bits, int nbits, float *x, int n, uint16_t *seed)
{
    SEQ(1, "LSB read");
    ENSURES(side.lsb_mode && bits == &b && nbits == bits_left && x == sx.x && n == side.nq && *seed == v_seed, "LSB of the frame, in the bits left");
    VC_SET(u16, v_seed); *seed = v_seed;
}
float stub_unq(enum lc3_dt dt, enum lc3_srate sr, int g_int, float *x, int nq)
{
    SEQ(2, "gain applied");
    ENSURES(dt == DT_ID && sr == SR_ID && x == sx.x && nq == side.nq && g_int == side.g_idx - goff(NBYTES), "gain of the frame");
    return v_g;
}
void stub_fill(enum lc3_dt dt, enum lc3_bandwidth bw, int nf, uint16_t seed, float g, float *x, int nq)
{
    SEQ(3, "noise filled");
    ENSURES(dt == DT_ID && (int)bw == BW && nf == v_nf && seed == v_seed && x == sx.x && nq == side.nq && g == v_g, "noise of the frame");
    called_noise = true;
}
void h_decode(void)
{
    VC_SETR(side.nq, 2, NE); VC_SETR(side.g_idx, 0, 255); VC_SET(bool, side.lsb_mode); VC_SETR(v_nf, 0, 7);
    IN_FLOAT(x0); IN_FLOAT(x1); IN_FLOAT(g); REQUIRES(!isnan(x0) && !isnan(x1) && !isnan(g));
    sx.x[0] = x0; sx.x[1] = x1; v_g = g;
    fifo_start(false); spec_put_bits(&b, v_nf, 3);
    int ret = lc3_spec_decode(&b, DT_ID, SR_ID, BW, NBYTES, &side, sx.x);
    ENSURES(ret == v_ret, "validity of the frame");
    ENSURES(ret < 0 ? n_seq == 1 : n_seq == 3 + called_noise, "spectrum, residual or LSB, gain then noise");
    ENSURES(ret < 0 || called_noise == !(side.nq == 2 && x0 == 0 && x1 == 0 && side.g_idx == 0 && v_nf == 7), "no noise on a null frame only");
    REACHED("end");
}
float stub_g2(int g_int) { IN_BOOL(half); v_g = half ? 0.5f : 4.f; v_gint = g_int; return v_g; }
void h_unquantize(void)
{
    IN_RANGE(nq, 0, NE); IN_RANGE(g, -255, 255); REQUIRES(nq % 2 == 0); IN_RANGE(k, 0, NE - 1);
    for (int i = 0; i < NE; i++) { VC_SET(float, sx.x[i]); sr_.x[i] = sx.x[i]; REQUIRES(fabsf(sx.x[i]) <= 0x1p17f); }
    float ret = unquantize(DT_ID, SR_ID, g, sx.x, nq);
    ENSURES(ret == v_g && v_gint == g, "gain of the frame");
    ENSURES(sx.x[k] == (k < nq ? sr_.x[k] * v_g : 0), "values by the gain, null elsewhere");
    REACHED("end");
}
void h_quantize(void)
{
    IN_RANGE(g, -255, 255); IN_RANGE(k, 0, NE - 1);
    for (int i = 0; i < NE; i++) { VC_SET(float, sx.x[i]); sr_.x[i] = sx.x[i]; REQUIRES(fabsf(sx.x[i]) <= 0x1p40f); }
    int n = -1; const float lim = HR ? 0.5f : 0.625f;
    quantize(DT_ID, SR_ID, g, sx.x, &n);
    ENSURES(v_gint == -g, "inverse of the gain");
    ENSURES(sx.x[k] == sr_.x[k] * v_g, "values by the inverse of the gain");
    ENSURES(n >= 0 && n <= NE && n % 2 == 0, "count of significants");
    ENSURES(k < n || fabsf(sx.x[k]) < lim, "null values over the count");
    for (int i = 0; i < NE; i += 2)
        if (n == i + 2) ENSURES(fabsf(sx.x[i]) >= lim || fabsf(sx.x[i+1]) >= lim, "last significant pair");
    REACHED("end");
}

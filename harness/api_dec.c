/* Contract of lc3_decode(), its callees replaced by their contracts */
#include "vc.h"
#include "src/lc3.c"
#include "config.h"

#ifndef STRIDE_MAX
#define STRIDE_MAX 4
#endif

/* Memory of the decoder */
static LC3_DECODER_MEM_T(DT_US, PCM_HZ) mem;
#define DEC (&mem.__d)
#define XCOUNT (NH + NS + ND + NS)

/* Abstract frame: what each callee returns */
static bool t_bw, t_spec, t_tns, t_sns, t_coef, t_bits;  /* Error indications */
static unsigned t_pitch;
static struct { float s[NS]; } smp;                      /* Decoded samples */

/* Trace of the calls */
static int n_setup, n_plc, n_suspend, n_tns, n_sns, n_imdct, n_ltpf;
static bool ltpf_data, plc_first;
static const void *g_in; static int g_nbytes;
static int off0;

#ifdef VC_CBMC
#define R_OK(p, n) __CPROVER_r_ok(p, n)
#define W_OK(p, n) __CPROVER_rw_ok(p, n)
#else
#define R_OK(p, n) ((p) != NULL)
#define W_OK(p, n) ((p) != NULL)
#endif
#define IS_CFG(d, s, sid) ((d) == (enum lc3_dt)DT_ID && (s) == (sid))

void stub_setup_bits(lc3_bits_t *bits, enum lc3_bits_mode mode, void *buffer, int len)
{
    n_setup++;
    ENSURES(mode == LC3_BITS_MODE_READ && buffer == g_in && len == g_nbytes, "the bitstream is the input frame");
    memset(bits, 0, sizeof(*bits));
    bits->accu.v = t_pitch & 1;
}
int stub_bwdet_get_bw(lc3_bits_t *bits, enum lc3_srate sr, enum lc3_bandwidth *bw)
{
    ENSURES(n_setup == 1 && sr == SR_ID, "bandwidth of the configuration");
    *bw = LC3_BANDWIDTH_NB; return t_bw ? -1 : 0;
}
int stub_spec_get_side(lc3_bits_t *bits, enum lc3_dt dt, enum lc3_srate sr, lc3_spec_side_t *side)
{
    ENSURES(IS_CFG(dt, sr, SR_ID), "spectral side data of the configuration");
    side->g_idx = 0, side->nq = 2, side->lsb_mode = false;
    return t_spec ? -1 : 0;
}
int stub_tns_get_data(lc3_bits_t *bits, enum lc3_dt dt, enum lc3_bandwidth bw, int nbytes, lc3_tns_data_t *data)
{
    ENSURES(dt == (enum lc3_dt)DT_ID && bw == LC3_BANDWIDTH_NB && nbytes == g_nbytes, "TNS data of the configuration");
    memset(data, 0, sizeof(*data));
    return t_tns ? -1 : 0;
}
int stub_sns_get_data(lc3_bits_t *bits, lc3_sns_data_t *data)
{
    memset(data, 0, sizeof(*data));
    return t_sns ? -1 : 0;
}
static const lc3_ltpf_data_t *g_ltpf;
void stub_ltpf_get_data(lc3_bits_t *bits, lc3_ltpf_data_t *data)
{
    ENSURES(t_pitch & 1, "LTPF data when the pitch is present only");
    data->active = true, data->pitch_index = 1, g_ltpf = data;
}
int stub_spec_decode(lc3_bits_t *bits, enum lc3_dt dt, enum lc3_srate sr, enum lc3_bandwidth bw,
    int nbytes, const lc3_spec_side_t *side, float *x)
{
    ENSURES(IS_CFG(dt, sr, SR_ID) && bw == LC3_BANDWIDTH_NB && nbytes == g_nbytes, "spectrum of the configuration");
    ENSURES(x == DEC->x + off0 && W_OK(x, NE * sizeof(*x)), "spectral coefficients at the position of the frame");
    return t_coef ? -1 : 0;
}
int stub_check_bits(const lc3_bits_t *bits) { return t_bits ? -1 : 0; }

void stub_plc_suspend(lc3_plc_state_t *plc) { ENSURES(plc == &DEC->plc, "PLC state"); n_suspend++; }
void stub_plc_synthesize(enum lc3_dt dt, enum lc3_srate sr, lc3_plc_state_t *plc, const float *x, float *y)
{
    n_plc++;
    ENSURES(IS_CFG(dt, sr, SR_ID) && plc == &DEC->plc, "concealment of the configuration");
    ENSURES(x == DEC->x + NH + NS + ND && y == DEC->x + off0 && R_OK(x, NE * sizeof(*x)) && W_OK(y, NE * sizeof(*y)),
        "concealment from the last good spectrum");
    y[0] = 2, y[NE - 1] = 2;
}
void stub_tns_synthesize(enum lc3_dt dt, enum lc3_bandwidth bw, const lc3_tns_data_t *data, float *x)
{
    n_tns++;
    ENSURES(dt == (enum lc3_dt)DT_ID && bw == LC3_BANDWIDTH_NB && x == DEC->x + off0 && n_sns == 0, "TNS synthesis");
}
void stub_sns_synthesize(enum lc3_dt dt, enum lc3_srate sr, const lc3_sns_data_t *data, const float *x, float *y)
{
    n_sns++;
    ENSURES(IS_CFG(dt, sr, SR_ID) && n_tns == 1 && x == DEC->x + off0, "SNS synthesis");
    ENSURES(y == DEC->x + NH + NS + ND && W_OK(y, NE * sizeof(*y)), "the good spectrum is kept for the concealment");
    y[0] = 2, y[NE - 1] = 2;
}
static bool no_samples;
static void samples(float *x) { if (no_samples) return; for (int i = 0; i < NS; i++) x[i] = smp.s[i]; }
void stub_mdct_inverse(enum lc3_dt dt, enum lc3_srate sr, enum lc3_srate sr_src, const float *x, float *d, float *y)
{
    n_imdct++;
    ENSURES(IS_CFG(dt, sr, PCM_ID) && sr_src == SR_ID, "inverse transform of the configuration");
    ENSURES(x == (n_plc ? DEC->x + off0 : DEC->x + NH + NS + ND) && R_OK(x, NS * sizeof(*x)), "input of the inverse transform");
    ENSURES(y == DEC->x + off0 && W_OK(y, NS * sizeof(*y)), "output of the inverse transform");
    ENSURES(d == DEC->x + NH + NS && W_OK(d, ND * sizeof(*d)), "delayed samples of the inverse transform");
    bool null = true;
    for (int i = NE; i < NS; i++) null = null && x[i] == 0;
    ENSURES(null, "lines of the spectrum above the coded ones are null");
    ENSURES(x[0] == 2 && x[NE - 1] == 2, "lines of the spectrum are those synthesized");
    ENSURES(!n_plc || *(DEC->x + NH + NS + ND) == 1, "the last good spectrum is kept in concealment");
    if (HR) samples(y);
}
void stub_ltpf_synthesize(enum lc3_dt dt, enum lc3_srate sr, int nbytes, lc3_ltpf_synthesis_t *ltpf,
    const lc3_ltpf_data_t *data, const float *xr, float *x)
{
    n_ltpf++;
    ENSURES(IS_CFG(dt, sr, PCM_ID) && nbytes == g_nbytes && n_imdct == 1 && !HR, "post filter of the configuration");
    ENSURES(xr == DEC->x && x == DEC->x + off0 && W_OK(xr, (NH + NS) * sizeof(*xr)), "ring buffer of the post filter");
    ENSURES(ltpf == &DEC->ltpf, "state of the post filter");
    ltpf_data = data != NULL;
    ENSURES(!data || data == g_ltpf, "data of the post filter");
    samples(x);
}

static void setup_decoder(void)
{
    /* Any state of the decoder, `h_setup_decoder` and `h_decode` establish it */
    struct lc3_decoder *d = DEC;
    d->dt = DT_ID, d->sr = SR_ID, d->sr_pcm = PCM_ID;
    d->xh_off = 0, d->xd_off = NH + NS, d->xg_off = NH + NS + ND;
    d->xs_off = off0;
}

/* PCM buffer, with stride */
#define PCM_BYTES (8 + (NS * STRIDE_MAX + 1) * 4)
static uint8_t pcm_mem[PCM_BYTES] __attribute__((aligned(8)));

static void inputs(void)
{
    VC_SET(bool, t_bw); VC_SET(bool, t_spec); VC_SET(bool, t_tns); VC_SET(bool, t_sns);
    VC_SET(bool, t_coef); VC_SET(bool, t_bits); VC_SET(uint, t_pitch);
    t_pitch &= 1;
    n_setup = n_plc = n_suspend = n_tns = n_sns = n_imdct = n_ltpf = 0, ltpf_data = false, g_ltpf = NULL;
    memset(&mem, 0, sizeof(mem));
}

static uint8_t frame[NB_MAX];

/* Orchestration: concealment decision, state, samples position */
static void decode_at(bool lost, int nbytes, bool null)
{
    setup_decoder();
    /* Previous samples, and last good spectrum, not null */
    float *px = DEC->x;
    for (int i = NE; i < NS; i++) px[off0 + i] = 1;
    px[NH + NS + ND] = 1;
    g_in = frame, g_nbytes = nbytes;
    int ret = lc3_decode(null ? NULL : DEC, lost ? NULL : frame, nbytes, LC3_PCM_FORMAT_FLOAT, pcm_mem, 1);
    bool bad_param = null || (!lost && (nbytes < 20 || nbytes > NB_MAX));
    ENSURES(DEC->dt == (enum lc3_dt)DT_ID && DEC->sr == SR_ID && DEC->sr_pcm == PCM_ID && DEC->xh_off == 0
         && DEC->xd_off == NH + NS && DEC->xg_off == NH + NS + ND, "the configuration is constant");
    if (bad_param) {
        ENSURES(ret == -1, "bad parameters are rejected");
        ENSURES(DEC->xs_off == off0, "the rejection keeps the state");
        ENSURES(!n_setup && !n_plc && !n_imdct && !n_suspend && !n_ltpf, "nothing is done on rejection");
        return;
    }
    bool bad_frame = lost || t_bw || t_spec || t_tns || t_sns || t_coef || t_bits;
    ENSURES(ret == bad_frame, "returns 1 when and only when the frame is concealed");
    ENSURES(n_plc == bad_frame && n_suspend == !bad_frame && n_tns == !bad_frame && n_sns == !bad_frame,
        "concealment when and only when the frame is lost or invalid");
    ENSURES(n_imdct == 1 && n_ltpf == !HR, "one synthesis by frame");
    ENSURES(ltpf_data == (!HR && !bad_frame && (t_pitch & 1)), "post filter data of a good frame with pitch only");
    ENSURES(DEC->xs_off == (off0 == NH ? 0 : off0 + NS), "next position in the history");
    ENSURES(DEC->xs_off % NS == 0 && DEC->xs_off >= 0 && DEC->xs_off <= NH, "position invariant");
    REACHED("end");
}

void h_decode(void)
{
    IN_BOOL(lost); IN_INT(nbytes); IN_BOOL(null); IN_RANGE(pos, 0, NH / NS);
    inputs(); no_samples = true;
    for (int p = 0; p <= NH / NS; p++)
        if (pos == p) {
            off0 = p * NS;
            decode_at(lost, nbytes, null);
            END_CASE();
        }
}

/* Rejected calls modify nothing, accepted ones write the samples only */
void h_pcm_frame(void)
{
    IN_BOOL(reject); IN_RANGE(stride, 1, STRIDE_MAX);
    IN_RANGE(k, 0, PCM_BYTES - 1); IN_RANGE(fmt, 0, 3);
    inputs();
    no_samples = true, off0 = NH;
    setup_decoder();
    *(DEC->x + NH + NS + ND) = 1;
    g_in = frame, g_nbytes = reject ? 0 : NB_MAX;
    const int size = fmt == LC3_PCM_FORMAT_S16 ? 2 : fmt == LC3_PCM_FORMAT_S24_3LE ? 3 : 4;
    float *xs = DEC->x + off0;
    for (int i = 0; i < NS; i++)
        xs[i] = 1.f;                /* never the value set before */
    memset(pcm_mem, 0xa5, sizeof(pcm_mem));
    uint8_t *pcm = pcm_mem + 4;
    int ret = lc3_decode(DEC, frame, g_nbytes, fmt, pcm, stride), p = k - 4;
    ENSURES(ret == (reject ? -1 : t_bw || t_spec || t_tns || t_sns || t_coef || t_bits), "return value");
    bool sample = p >= 0 && p < (NS - 1) * stride * size + size && p % (stride * size) < size;
    if (reject || !sample)
        ENSURES(pcm_mem[k] == 0xa5, "memory between and around the samples is unchanged");
    else
        ENSURES(pcm_mem[k] != 0xa5, "all the bytes of the samples are written");
    REACHED("end");
}

/* Value of the sample `i`, the others being null */
static void pcm_value(int fmt, int i, int stride, float x)
{
    const int size = fmt == LC3_PCM_FORMAT_S16 ? 2 : fmt == LC3_PCM_FORMAT_S24_3LE ? 3 : 4;
    smp.s[i] = x;
    g_in = frame, g_nbytes = NB_MAX;
    lc3_decode(DEC, frame, g_nbytes, fmt, pcm_mem + 4, stride);
    uint8_t *o = pcm_mem + 4 + i * stride * size;
    if (fmt == LC3_PCM_FORMAT_FLOAT) {
        float y; memcpy(&y, o, 4);
        float s = fabsf(x) < 0x1p-100f ? 0 : x * 0x1p-15f;
        ENSURES(y == (s > 1 ? 1 : s < -1 ? -1 : s) || (fabsf(x) < 0x1p-100f && fabsf(y) <= 0x1p-110f),
            "float samples are scaled and clipped to [-1, 1]");
    } else {
        int bits = fmt == LC3_PCM_FORMAT_S16 ? 16 : 24, y;
        if (fmt == LC3_PCM_FORMAT_S16) { int16_t t; memcpy(&t, o, 2); y = t; }
        else if (fmt == LC3_PCM_FORMAT_S24) { memcpy(&y, o, 4); }
        else y = (int32_t)((uint32_t)o[0] << 8 | (uint32_t)o[1] << 16 | (uint32_t)o[2] << 24) >> 8;
        float s = bits == 16 ? x : fabsf(x) < 0x1p-100f ? 0 : x * 256;
        int max = (1 << (bits - 1)) - 1, min = -max - 1;
        if (s >= max)
            ENSURES(y == max, "positive saturation");
        else if (s <= min)
            ENSURES(y == min, "negative saturation");
        else
            ENSURES(y >= min && y <= max && fabsf(s - (float)y) <= 0.50000003f, "samples are rounded to the nearest");
    }
    REACHED("end");
}

#ifndef FMT
#define FMT LC3_PCM_FORMAT_S16
#endif
#ifndef SAMPLE
#define SAMPLE 0
#endif
void h_pcm_value(void)
{
    IN_FLOAT(x);
    REQUIRES(!isnan(x) && !isinf(x));
    inputs();
    no_samples = false, off0 = NH;
    memset(&smp, 0, sizeof(smp));
    setup_decoder();
    *(DEC->x + NH + NS + ND) = 1;
    pcm_value(FMT, SAMPLE, 1 + 2 * (SAMPLE & 1), x);
}

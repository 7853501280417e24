/* Contract of lc3_encode(), its callees replaced by their contracts */
#include "vc.h"
#include "src/lc3.c"
#include "config.h"

#ifndef STRIDE_MAX
#define STRIDE_MAX 3
#endif

/* Memory of the encoder */
static LC3_ENCODER_MEM_T(DT_US, PCM_HZ) mem;
#define ENC (&mem.__e)
#define XT_OFF NT
#define XS_OFF ((NT + NS) / 2)
#define XD_OFF (XS_OFF + NS)

/* Abstract frame: what each callee returns */
static bool t_att, t_pitch, t_nn, t_bypass;
static int t_bw, t_lag, t_gidx, t_nq, t_sns, t_tns;
static bool t_lsb, t_act;

/* Trace of the calls */
static int n_att, n_ltpf, n_dis, n_mdct, n_energy, n_bwdet, n_sns, n_tns, n_spec;
static int n_setup, n_bw, n_side, n_ptns, n_psns, n_pltpf, n_enc, n_flush, n_put, order;
static const void *g_out; static int g_nbytes;
static const float *g_x;        /* Last spectrum */

#ifdef VC_CBMC
#define R_OK(p, n) __CPROVER_r_ok(p, n)
#define W_OK(p, n) __CPROVER_rw_ok(p, n)
#else
#define R_OK(p, n) ((p) != NULL)
#define W_OK(p, n) ((p) != NULL)
#endif
#define IS_CFG(d, s, sid) ((d) == (enum lc3_dt)DT_ID && (s) == (sid))
#define XT ((int16_t *)ENC->x + XT_OFF)
#define XS (ENC->x + XS_OFF)
#define XD (ENC->x + XD_OFF)

/* Observed sample, and expected value */
static int see = -1; static int16_t see_xt; static float see_xs;
static bool seen_xt, seen_xs;

bool stub_attdet_run(enum lc3_dt dt, enum lc3_srate sr, int nbytes, lc3_attdet_analysis_t *attdet, const int16_t *x)
{
    n_att++;
    ENSURES(IS_CFG(dt, sr, PCM_ID) && nbytes == g_nbytes && attdet == &ENC->attdet, "attack detection of the configuration");
    ENSURES(x == XT && R_OK(x - 6, (6 + NS) * sizeof(*x)), "temporal samples of the attack detector");
    if (see >= 0) see_xt = x[see], seen_xt = true;
    return t_att;
}
bool stub_ltpf_analyse(enum lc3_dt dt, enum lc3_srate sr, lc3_ltpf_analysis_t *ltpf, const int16_t *x, lc3_ltpf_data_t *data)
{
    n_ltpf++;
    ENSURES(IS_CFG(dt, sr, PCM_ID) && ltpf == &ENC->ltpf, "pitch analysis of the configuration");
    ENSURES(x == XT && R_OK(x - NT, (NT + NS) * sizeof(*x)), "temporal samples of the pitch analysis");
    data->active = t_act, data->pitch_index = t_lag;
    return t_pitch;
}
void stub_ltpf_disable(lc3_ltpf_data_t *data) { data->active = false; n_dis++; }
void stub_mdct_forward(enum lc3_dt dt, enum lc3_srate sr, enum lc3_srate sr_dst, const float *x, float *d, float *y)
{
    n_mdct++;
    ENSURES(IS_CFG(dt, sr, PCM_ID) && sr_dst == SR_ID, "transform of the configuration");
    ENSURES(x == XS && R_OK(x, NS * sizeof(*x)) && W_OK(y, NS * sizeof(*y)), "samples of the transform");
    ENSURES(d == XD && W_OK(d, ND * sizeof(*d)), "delayed samples of the transform");
    if (see >= 0) see_xs = x[see], seen_xs = true;
    g_x = y;
}
bool stub_energy_compute(enum lc3_dt dt, enum lc3_srate sr, const float *x, float *e)
{
    n_energy++;
    ENSURES(IS_CFG(dt, sr, SR_ID) && x == g_x && n_mdct == 1 && W_OK(e, 64 * sizeof(*e)), "energy of the spectrum");
    return t_nn;
}
enum lc3_bandwidth stub_bwdet_run(enum lc3_dt dt, enum lc3_srate sr, const float *e)
{
    n_bwdet++;
    ENSURES(IS_CFG(dt, sr, SR_ID) && n_energy == 1 && R_OK(e, 64 * sizeof(*e)), "bandwidth detection");
    return t_bw;
}
void stub_sns_analyze(enum lc3_dt dt, enum lc3_srate sr, int nbytes, const float *eb, bool att, lc3_sns_data_t *data,
    const float *x, float *y)
{
    n_sns++;
    ENSURES(IS_CFG(dt, sr, SR_ID) && nbytes == g_nbytes && n_energy == 1 && att == t_att && n_att == 1, "SNS analysis");
    ENSURES(x == g_x && W_OK(y, NE * sizeof(*y)), "spectrum of the SNS analysis");
    memset(data, 0, sizeof(*data));
    data->idx_a = t_sns;
    g_x = y;
}
void stub_tns_analyze(enum lc3_dt dt, enum lc3_bandwidth bw, bool nn_flag, int nbytes, lc3_tns_data_t *data, float *x)
{
    n_tns++;
    ENSURES(dt == (enum lc3_dt)DT_ID && bw == t_bw && nn_flag == t_nn && nbytes == g_nbytes && n_sns == 1 && x == g_x, "TNS analysis");
    memset(data, 0, sizeof(*data));
    data->rc_order[0] = t_tns;
}
void stub_spec_analyze(enum lc3_dt dt, enum lc3_srate sr, int nbytes, bool pitch, const lc3_tns_data_t *tns,
    lc3_spec_analysis_t *spec, float *x, lc3_spec_side_t *side)
{
    n_spec++;
    ENSURES(IS_CFG(dt, sr, SR_ID) && nbytes == g_nbytes && pitch == (t_pitch && !t_bypass) && tns->rc_order[0] == t_tns
         && spec == &ENC->spec && n_tns == 1 && x == g_x, "spectrum analysis");
    side->g_idx = t_gidx, side->nq = t_nq, side->lsb_mode = t_lsb;
}
void stub_setup_bits(lc3_bits_t *bits, enum lc3_bits_mode mode, void *buffer, int len)
{
    n_setup++;
    ENSURES(mode == LC3_BITS_MODE_WRITE && buffer == g_out && len == g_nbytes, "the bitstream is the output frame");
    memset(bits, 0, sizeof(*bits));
    bits->accu.n = LC3_ACCU_BITS;   /* Any following bit goes to the generic path */
}
void stub_bwdet_put_bw(lc3_bits_t *bits, enum lc3_srate sr, enum lc3_bandwidth bw)
{
    n_bw++;
    ENSURES(sr == SR_ID && bw == t_bw && n_setup == 1 && order++ == 0, "bandwidth first in the frame");
}
void stub_spec_put_side(lc3_bits_t *bits, enum lc3_dt dt, enum lc3_srate sr, const lc3_spec_side_t *side)
{
    n_side++;
    ENSURES(IS_CFG(dt, sr, SR_ID) && side->g_idx == t_gidx && side->nq == t_nq && side->lsb_mode == t_lsb && order++ == 1,
        "spectral side data");
}
void stub_tns_put_data(lc3_bits_t *bits, const lc3_tns_data_t *data)
{
    n_ptns++;
    ENSURES(data->rc_order[0] == t_tns && order++ == 2, "TNS data");
}
void stub_put_bits_generic(lc3_bits_t *bits, unsigned v, int n)
{
    n_put++;
    ENSURES(v == (t_pitch && !t_bypass) && n == 1 && order++ == 3, "pitch present flag");
}
void stub_sns_put_data(lc3_bits_t *bits, const lc3_sns_data_t *data)
{
    n_psns++;
    ENSURES(data->idx_a == t_sns && order++ == 4, "SNS data");
}
void stub_ltpf_put_data(lc3_bits_t *bits, const lc3_ltpf_data_t *data)
{
    n_pltpf++;
    ENSURES(t_pitch && !t_bypass && order == 5, "LTPF data when the pitch is present only");
    ENSURES(data->pitch_index == t_lag && data->active == (t_act && !t_nn), "LTPF data");
}
void stub_spec_encode(lc3_bits_t *bits, enum lc3_dt dt, enum lc3_srate sr, enum lc3_bandwidth bw, int nbytes,
    const lc3_spec_side_t *side, float *x)
{
    n_enc++;
    ENSURES(IS_CFG(dt, sr, SR_ID) && bw == t_bw && nbytes == g_nbytes && side->g_idx == t_gidx && side->nq == t_nq
        && side->lsb_mode == t_lsb && order++ == 5 && x == g_x, "coded spectrum");
}
void stub_flush_bits(lc3_bits_t *bits) { ENSURES(order++ == 6, "flush at last"); n_flush++; }

static void setup_encoder(void)
{
    struct lc3_encoder *e = ENC;
    memset(&mem, 0, sizeof(mem));
    e->dt = DT_ID, e->sr = SR_ID, e->sr_pcm = PCM_ID;
    e->xt_off = XT_OFF, e->xs_off = XS_OFF, e->xd_off = XD_OFF;
    e->ltpf_bypass = t_bypass;
}

static void inputs(void)
{
    VC_SET(bool, t_att); VC_SET(bool, t_pitch); VC_SET(bool, t_nn); VC_SET(bool, t_bypass); VC_SET(bool, t_lsb);
    VC_SET(bool, t_act);
    VC_SET(int, t_lag); VC_SET(int, t_gidx); VC_SET(int, t_nq); VC_SET(int, t_sns); VC_SET(int, t_tns);
    VC_SETR(t_bw, 0, 4);
    n_att = n_ltpf = n_dis = n_mdct = n_energy = n_bwdet = n_sns = n_tns = n_spec = 0;
    n_setup = n_bw = n_side = n_ptns = n_psns = n_pltpf = n_enc = n_flush = n_put = order = 0;
    g_x = NULL, seen_xs = seen_xt = false;
}

static uint8_t frame[NB_MAX];
static struct { int16_t s[NS]; } pcm16;

#define CONFIG_KEPT (ENC->dt == (enum lc3_dt)DT_ID && ENC->sr == SR_ID && ENC->sr_pcm == PCM_ID && ENC->xt_off == XT_OFF \
        && ENC->xs_off == XS_OFF && ENC->xd_off == XD_OFF && ENC->ltpf_bypass == t_bypass)

/* Orchestration, from any state */
static void encode_case(int nbytes, bool null, bool bad)
{
    setup_encoder();
    see = -1, g_out = frame, g_nbytes = nbytes;
    int ret = lc3_encode(null ? NULL : ENC, LC3_PCM_FORMAT_S16, pcm16.s, 1, nbytes, frame);
    ENSURES(CONFIG_KEPT, "the configuration is constant");
    ENSURES(ret == (bad ? -1 : 0), "bad parameters, and only them, are rejected");
    if (bad) {
        ENSURES(!n_att && !n_ltpf && !n_mdct && !n_spec && !n_setup && !n_flush, "nothing is done on rejection");
        int16_t *t = XT; float *s = XS;
        ENSURES(t[-1] == 0 && t[0] == 0 && t[NS-1] == 0 && s[0] == 0 && s[NS-1] == 0, "no sample is loaded on rejection");
    } else {
        ENSURES(n_att == 1 && n_ltpf == !t_bypass && n_mdct == 1 && n_energy == 1 && n_bwdet == 1 && n_sns == 1
            && n_tns == 1 && n_spec == 1, "one analysis by frame");
        ENSURES(n_setup == 1 && n_bw == 1 && n_side == 1 && n_ptns == 1 && n_put == 1 && n_psns == 1 && n_enc == 1
            && n_flush == 1 && n_pltpf == (t_pitch && !t_bypass), "one frame written");
    }
    REACHED("end");
}

void h_encode(void)
{
    IN_INT(nbytes); IN_BOOL(null);
    bool bad = null || nbytes < NB_MIN || nbytes > NB_MAX;
    inputs();
    for (int i = 0; i < NS; i++)
        pcm16.s[i] = 1;
    if (null) { encode_case(nbytes, true, true); END_CASE(); }
    else if (bad) { encode_case(nbytes, false, true); END_CASE(); }
    else { encode_case(nbytes, false, false); END_CASE(); }
}

#ifndef HIST_STEP
#define HIST_STEP 1
#endif

/* The last samples are kept for the next frame */
void h_history(void)
{
    IN_INT(v);
    REQUIRES(v >= INT16_MIN && v <= INT16_MAX);
    inputs();
    memset(&pcm16, 0, sizeof(pcm16));
    IN_RANGE(k, 0, NT - 1);
    REQUIRES(k % HIST_STEP == 0 || k == NT - 1);
    for (int j = 0; j < NT; j++)
        if ((j % HIST_STEP == 0 || j == NT - 1) && k == j) {
            pcm16.s[NS - NT + j] = v;
            setup_encoder();
            see = -1, g_out = frame, g_nbytes = NB_MAX;
            lc3_encode(ENC, LC3_PCM_FORMAT_S16, pcm16.s, 1, NB_MAX, frame);
            const int16_t *h = XT - NT;
            ENSURES(h[j] == v, "the last samples are kept for the next frame");
            REACHED("end");
            END_CASE();
        }
}

/* Value of the sample SAMPLE, with the stride */
#ifndef FMT
#define FMT LC3_PCM_FORMAT_S16
#endif
#ifndef SAMPLE
#define SAMPLE 0
#endif
#define SIZE (FMT == LC3_PCM_FORMAT_S16 ? 2 : FMT == LC3_PCM_FORMAT_S24_3LE ? 3 : 4)
static struct { uint8_t b[((NS - 1) * STRIDE_MAX + 1) * 4 + 8]; } pcmb;

static void pcm_value(int stride, int32_t v, float f)
{
    /* The memory ends with the last sample, which is the end of the object */
    uint8_t *base = pcmb.b + sizeof(pcmb.b) - ((NS - 1) * stride + 1) * SIZE;
    uint8_t *p = base + SAMPLE * stride * SIZE;
    if (FMT == LC3_PCM_FORMAT_S16) { int16_t t = v; memcpy(p, &t, 2); }
    else if (FMT == LC3_PCM_FORMAT_S24) memcpy(p, &v, 4);
    else if (FMT == LC3_PCM_FORMAT_S24_3LE) p[0] = v, p[1] = v >> 8, p[2] = v >> 16;
    else memcpy(p, &f, 4);
    int ret = lc3_encode(ENC, FMT, base, stride, g_nbytes, frame);
    ENSURES(ret == 0, "accepted");
    ENSURES(seen_xt && seen_xs, "the samples are analysed");
    if (FMT == LC3_PCM_FORMAT_S16)
        ENSURES(see_xt == v && see_xs == (float)v, "16 bits samples are taken as they are");
    else if (FMT != LC3_PCM_FORMAT_FLOAT)
        ENSURES(see_xt == v >> 8 && see_xs == v / 256.f, "24 bits samples are taken with 8 bits of fractional part");
    else {
        float s = fabsf(f) < 0x1p-100f ? 0 : f * 32768;
        ENSURES(see_xs == s || fabsf(see_xs) <= 0x1p-80f && s == 0, "float samples are scaled to 16 bits");
        ENSURES(see_xt == (s > 32767 ? 32767 : s < -32768 ? -32768 : (int)s), "float samples are saturated to 16 bits");
    }
    REACHED("end");
}

void h_pcm_value(void)
{
    IN_RANGE(stride, 1, STRIDE_MAX);
    IN_INT(v); IN_FLOAT(f);
    if (FMT == LC3_PCM_FORMAT_S16) REQUIRES(v >= INT16_MIN && v <= INT16_MAX);
    else if (FMT == LC3_PCM_FORMAT_FLOAT) REQUIRES(!isnan(f) && fabsf(f) <= 65535);
    else REQUIRES(v >= -(1 << 23) && v < 1 << 23);
    inputs();
    IN_OBJ(pcmb);
    if (FMT == LC3_PCM_FORMAT_FLOAT)    /* The other samples, in the domain */
        memset(&pcmb, 0, sizeof(pcmb));
    setup_encoder();
    see = SAMPLE, g_out = frame, g_nbytes = NB_MAX;
    for (int s = 1; s <= STRIDE_MAX; s++)
        if (stride == s) { pcm_value(s, v, f); END_CASE(); }
}

/* Contracts of the sizes and of the setup of the encoder and decoder */
#include "vc.h"
#include <stdlib.h>
#include "src/lc3.c"
#include "config.h"

static bool dt_ok(int hr, int dt_us) { return dt_us == 2500 || dt_us == 5000 || dt_us == 10000 || (!hr && dt_us == 7500); }
static bool sr_ok(int hr, int hz) {
    return hr ? hz == 48000 || hz == 96000 : hz == 8000 || hz == 16000 || hz == 24000 || hz == 32000 || hz == 48000; }

/* Sizes, for all the arguments */
void h_sizes(void)
{
    IN_BOOL(hr); IN_INT(dt_us); IN_INT(sr_hz);
    unsigned e = lc3_hr_encoder_size(hr, dt_us, sr_hz), d = lc3_hr_decoder_size(hr, dt_us, sr_hz);
    bool ok = dt_ok(hr, dt_us) && sr_ok(hr, sr_hz);
    ENSURES((e != 0) == ok && (d != 0) == ok, "null size when and only when the parameters are not supported");
    if (!hr)
        ENSURES(lc3_encoder_size(dt_us, sr_hz) == e && lc3_decoder_size(dt_us, sr_hz) == d, "default mode");
    if (!ok) {
        REACHED("bad");
        return;
    }
    ENSURES(e >= offsetof(struct lc3_encoder, x) && d >= offsetof(struct lc3_decoder, x), "state");
    unsigned se = (sr_hz <= 16000 ? sizeof(lc3_encoder_mem_16k_t) : sizeof(lc3_encoder_mem_48k_t));
    unsigned sd = (sr_hz <= 16000 ? sizeof(lc3_decoder_mem_16k_t) : sizeof(lc3_decoder_mem_48k_t));
    if (sr_hz <= 48000)
        ENSURES(e <= se && d <= sd, "static memory types are big enough for all the durations");
    REACHED("end");
}

/* Unsupported parameters: NULL returned and the memory is not accessed */
void h_setup_bad(void)
{
    IN_BOOL(hr); IN_INT(dt_us); IN_INT(sr_hz); IN_INT(pcm_hz); IN_BOOL(def); IN_BOOL(null); IN_U8(c);
    REQUIRES(!def || !hr);
    int pcm = pcm_hz > 0 ? pcm_hz : sr_hz;
    bool ok = dt_ok(hr, dt_us) && sr_ok(hr, sr_hz) && sr_ok(hr, pcm) && sr_hz <= pcm;
    REQUIRES(!ok || null);
    static uint8_t one; one = c;
    void *m = null ? NULL : &one;
    ENSURES((def ? lc3_setup_encoder(dt_us, sr_hz, pcm_hz, m) : lc3_hr_setup_encoder(hr, dt_us, sr_hz, pcm_hz, m)) == NULL,
        "encoder rejected");
    ENSURES((def ? lc3_setup_decoder(dt_us, sr_hz, pcm_hz, m) : lc3_hr_setup_decoder(hr, dt_us, sr_hz, pcm_hz, m)) == NULL,
        "decoder rejected");
    ENSURES(one == c, "memory untouched");
    REACHED("end");
}

/* Supported ones: state in a memory of the size announced, for the configuration */
#define ENC_COUNT ((NT + NS) / 2 + NS + ND)
#define DEC_COUNT (NH + NS + ND + NS)

#define FILL(m) memset(&m, 0xa5, sizeof(m))

static void setup_encoder(int pcm_hz, int k)
{
    unsigned size = lc3_hr_encoder_size(HR, DT_US, PCM_HZ);
    static struct { struct lc3_encoder s; float x[ENC_COUNT - 1]; } mem;
    void *m = &mem;
    FILL(mem);
    struct lc3_encoder *e = lc3_hr_setup_encoder(HR, DT_US, SR_HZ, pcm_hz, m);
    ENSURES((void *)e == m, "returns the handle");
    ENSURES(e->dt == (enum lc3_dt)DT_ID && e->sr == SR_ID && e->sr_pcm == PCM_ID, "configuration");
    ENSURES(e->xt_off == NT && e->xs_off == (NT + NS) / 2 && e->xd_off == (NT + NS) / 2 + NS, "position of the buffers");
    ENSURES(!e->ltpf_bypass, "LTPF enabled");
    ENSURES(e->attdet.en1 == 0 && e->attdet.an1 == 0 && e->attdet.p_att == 0, "attack detector state");
    ENSURES(!e->ltpf.active && e->ltpf.pitch == 0 && e->ltpf.nc[0] == 0 && e->ltpf.nc[1] == 0 && e->ltpf.tc == 0
        && e->ltpf.hp50.s1 == 0 && e->ltpf.hp50.s2 == 0, "LTPF state");
    for (int i = 0; i < 384; i++) ENSURES(e->ltpf.x_12k8[i] == 0, "LTPF 12.8 KHz history");
    for (int i = 0; i < 178; i++) ENSURES(e->ltpf.x_6k4[i] == 0, "LTPF 6.4 KHz history");
    ENSURES(e->spec.nbits_off == 0 && e->spec.nbits_spare == 0, "rate control state");
    ENSURES(size >= offsetof(struct lc3_encoder, x) + ENC_COUNT * sizeof(float), "size of the buffers");
    float *x = e->x;
    uint32_t v; memcpy(&v, x + k, 4);
    ENSURES(v == 0, "null samples");
    lc3_encoder_disable_ltpf(e);
    ENSURES(e->ltpf_bypass, "LTPF disabled");
    REACHED("end");
}

static void setup_decoder(int pcm_hz, int k)
{
    unsigned size = lc3_hr_decoder_size(HR, DT_US, PCM_HZ);
    static struct { struct lc3_decoder s; float x[DEC_COUNT - 1]; } mem;
    void *m = &mem;
    FILL(mem);
    struct lc3_decoder *d = lc3_hr_setup_decoder(HR, DT_US, SR_HZ, pcm_hz, m);
    ENSURES((void *)d == m, "returns the handle");
    ENSURES(d->dt == (enum lc3_dt)DT_ID && d->sr == SR_ID && d->sr_pcm == PCM_ID, "configuration");
    ENSURES(d->xh_off == 0 && d->xs_off == NH && d->xd_off == NH + NS && d->xg_off == NH + NS + ND, "position of the buffers");
    ENSURES(!d->ltpf.active && d->ltpf.pitch == 0, "LTPF state");
    for (int i = 0; i < 24; i++) ENSURES(d->ltpf.c[i] == 0, "LTPF coefficients");
    for (int i = 0; i < 12; i++) ENSURES(d->ltpf.x[i] == 0, "LTPF samples");
    ENSURES(d->plc.seed == 24607 && d->plc.count == 1 && d->plc.alpha == 1.0f, "concealment state");
    ENSURES(size >= offsetof(struct lc3_decoder, x) + DEC_COUNT * sizeof(float), "size of the buffers");
    float *x = d->x;
    uint32_t v; memcpy(&v, x + k, 4);
    ENSURES(v == 0, "null samples");
    REACHED("end");
}

#define CASES(f, n) do { \
    IN_RANGE(z, 0, 3); IN_RANGE(k, 0, (n) - 1); \
    if (z == 0) { f(PCM_HZ, k); END_CASE(); } \
    REQUIRES(SR_HZ == PCM_HZ);  /* the default of the PCM samplerate */ \
    if (z == 1) { f(0, 0); END_CASE(); } \
    if (z == 2) { f(-1, (n) - 1); END_CASE(); } \
    f(INT_MIN, 0); \
} while (0)
void h_setup_encoder(void) { CASES(setup_encoder, ENC_COUNT); }
void h_setup_decoder(void) { CASES(setup_decoder, DEC_COUNT); }

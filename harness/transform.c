/* Transforms of the spectrum: MDCT */
#include "vc.h"
#include "config.h"
#include "src/tables.c"
#include "src/mdct.c"

/* Objects of exactly the announced number of samples */
static struct { float x[NS]; } fx, fy, gy, s0;
static struct { float d[ND]; } fd, gd;
#define DLY (2*ND - NS)
#define TOL 0.02f

static unsigned seed = 1;
static float noise(void) { seed = seed * 1103515245u + 12345u; return (int)(seed >> 16 & 2047) - 1024; }

/* The windows and orders of operations do not depend on the samples: what is
 * accessed, and the linear combinations done, are decided by one signal */
void h_mdct(void)
{
    IN_BOOL(go); if (!go) return;
    for (int i = 0; i < NS; i++) s0.x[i] = fx.x[i] = noise();
    for (int i = 0; i < ND; i++) fd.d[i] = gd.d[i] = 0;
    bool kept = true, ok = true, end = true;
    for (int f = 0; f < 2; f++) {
        lc3_mdct_forward(DT_ID, PCM_ID, PCM_ID, fx.x, fd.d, fy.x);
        lc3_mdct_inverse(DT_ID, PCM_ID, PCM_ID, fy.x, gd.d, gy.x);
        for (int i = 0; i < NS; i++) {
            int k = f * NS + i - DLY;
            ok = ok && fabsf(gy.x[i] - (k >= 0 && k < NS ? s0.x[k] : 0)) < TOL;
            kept = kept && fx.x[i] == (f ? 0 : s0.x[i]), fx.x[i] = 0;
        }
    }
    for (int i = 0; i < ND; i++) end = end && fabsf(gd.d[i]) < TOL && fd.d[i] == 0;
    ENSURES(ok, "inverse of the transform, at the delay of the configuration");
    ENSURES(kept, "input samples unchanged");
    ENSURES(end, "memory of the transforms limited to a frame");
    REACHED("end");
}
/* From, or to another samplerate */
static struct { float x[NS]; } hy;
static struct { float d[ND]; } hd;
void h_mdct_resample(void)
{
    IN_BOOL(go); if (!go) return;
    const int ns = SR_HZ / 400 * (DT_US / 2500);
    const float f = sqrtf((float)ns / NS), g = sqrtf((float)NS / ns);
    for (int i = 0; i < NS; i++) fx.x[i] = noise();
    for (int i = 0; i < ND; i++) fd.d[i] = hd.d[i] = noise();
    lc3_mdct_forward(DT_ID, PCM_ID, PCM_ID, fx.x, fd.d, fy.x);
    lc3_mdct_forward(DT_ID, PCM_ID, SR_ID, fx.x, hd.d, hy.x);
    bool ok = true;
    for (int i = 0; i < ns; i++) ok = ok && fabsf(hy.x[i] - fy.x[i] * f) < TOL;
    for (int i = 0; i < ND; i++) ok = ok && fd.d[i] == hd.d[i];
    ENSURES(ok, "energy kept by the change of samplerate");
    for (int i = 0; i < NS; i++) fy.x[i] = i < ns ? noise() : 0;
    for (int i = 0; i < ND; i++) fd.d[i] = hd.d[i] = 0;
    lc3_mdct_inverse(DT_ID, PCM_ID, PCM_ID, fy.x, fd.d, gy.x);
    lc3_mdct_inverse(DT_ID, PCM_ID, SR_ID, fy.x, hd.d, hy.x);
    ok = true;
    for (int i = 0; i < NS; i++) ok = ok && fabsf(hy.x[i] - gy.x[i] * g) < TOL * g;
    for (int i = 0; i < ND; i++) ok = ok && fabsf(hd.d[i] - fd.d[i] * g) < TOL * g;
    ENSURES(ok, "energy kept by the inverse change of samplerate");
    REACHED("end");
}

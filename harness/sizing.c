/* Contracts of the frame sizing interface, over all the `int` arguments */
#include "vc.h"
#include "src/lc3.c"

/* --- Specification, from the documentation of lc3.h --- */

static bool spec_dt(bool hr, int us, int *k)   /* k: in units of 2.5 ms */
{
    *k = us == 2500 ? 1 : us == 5000 ? 2 : us == 7500 ? 3 : us == 10000 ? 4 : 0;
    return *k && !(hr && us == 7500);
}
static bool spec_sr(bool hr, int hz)
{
    return hr ? hz == 48000 || hz == 96000
              : hz == 8000 || hz == 16000 || hz == 24000 || hz == 32000 || hz == 48000;
}
static void spec_lim(bool hr, int k, int hz, int *min, int *max)
{
    *min = 20, *max = 400;
    if (hr) {
        /* documented limits, halved for the fallback operation */
        int lo = k == 1 ? (hz == 48000 ? 54 : 62) :
                 k == 2 ? (hz == 48000 ? 93 : 109) : (hz == 48000 ? 156 : 187);
        *min = lo / 2;
        *max = k == 1 ? 210 : k == 2 ? 375 : 625;
    }
}

/* Case split on the frame duration, K * 2.5 ms, or K = 0 for all the others */
#ifdef K
static bool in_case(int us)
{
    return K ? us == 2500 * K : us != 2500 && us != 5000 && us != 7500 && us != 10000;
}
#endif

void h_frame_samples(void)
{
    IN_BOOL(hr); IN_INT(us); IN_INT(hz);
    int k, r = lc3_hr_frame_samples(hr, us, hz);
    bool ok = spec_dt(hr, us, &k) && spec_sr(hr, hz);
    ENSURES(r == (ok ? (hz / 400) * k : -1), "frame samples");
    int kk; bool ok2 = spec_dt(false, us, &kk) && spec_sr(false, hz);
    ENSURES(lc3_frame_samples(us, hz) == (ok2 ? (hz / 400) * kk : -1), "frame samples, normal mode");
    if (ok) REACHED("valid");
}

void h_delay_samples(void)
{
    IN_BOOL(hr); IN_INT(us); IN_INT(hz);
    int k, r = lc3_hr_delay_samples(hr, us, hz);
    bool ok = spec_dt(hr, us, &k) && spec_sr(hr, hz);
    /* 2.5 ms of delay, 4 ms with frames of 7.5 ms */
    int d = k == 3 ? hz / 250 : hz / 400;
    ENSURES(r == (ok ? d : -1), "algorithmic delay");
    int r2 = lc3_delay_samples(us, hz);
    ENSURES(r2 == lc3_hr_delay_samples(false, us, hz), "algorithmic delay, normal mode");
    if (ok) REACHED("valid");
}

#ifdef K
void h_block_bytes(void)
{
    IN_BOOL(hr); IN_INT(us); IN_INT(hz); IN_INT(nch); IN_INT(bitrate);
    REQUIRES(in_case(us));
    int k, min, max, r = lc3_hr_frame_block_bytes(hr, us, hz, nch, bitrate);
    bool ok = spec_dt(hr, us, &k) && spec_sr(hr, hz)
        && nch >= 1 && nch <= 8 && bitrate >= 0;
    if (!ok) {
        ENSURES(r == -1, "rejected");
    } else {
        spec_lim(hr, k, hz, &min, &max);
        /* r = floor( bitrate * frame duration / 8 ), clipped */
        int64_t num = (int64_t)bitrate * k;
        ENSURES(r >= nch * min && r <= nch * max, "block size in limits");
        ENSURES(r == nch * min || (int64_t)r * 3200 <= num, "block size, not more than the bitrate");
        ENSURES(r == nch * max || num < (int64_t)r * 3200 + 3200, "block size, floored");
    }
    ENSURES(lc3_frame_block_bytes(us, nch, bitrate) ==
        lc3_hr_frame_block_bytes(false, us, 8000, nch, bitrate), "normal mode");
    ENSURES(lc3_hr_frame_bytes(hr, us, hz, bitrate) ==
        lc3_hr_frame_block_bytes(hr, us, hz, 1, bitrate), "one channel");
    ENSURES(lc3_frame_bytes(us, bitrate) ==
        lc3_hr_frame_block_bytes(false, us, 8000, 1, bitrate), "normal mode, one channel");
    REACHED("end");
}

void h_resolve_bitrate(void)
{
    IN_BOOL(hr); IN_INT(us); IN_INT(hz); IN_INT(nbytes);
    REQUIRES(in_case(us));
    int k, r = lc3_hr_resolve_bitrate(hr, us, hz, nbytes);
    bool ok = spec_dt(hr, us, &k) && spec_sr(hr, hz) && nbytes >= 0;
    int64_t den = k ? k : 1, num = (int64_t)nbytes * 3200;
    /* r = min( ceil( 8 * nbytes / duration ), INT_MAX ) */
    if (!ok)
        ENSURES(r == -1, "rejected");
    else {
        ENSURES(r == INT_MAX ? num > (int64_t)(INT_MAX-1) * den :
            r >= 0 && r * den >= num && r * den < num + den, "ceiled bitrate");
    }
    ENSURES(lc3_resolve_bitrate(us, nbytes) ==
        lc3_hr_resolve_bitrate(false, us, 8000, nbytes), "normal mode");
    REACHED("end");
}

#endif

void h_roundtrip(void)
{
    IN_BOOL(hr); IN_INT(us); IN_INT(hz); IN_INT(nch); IN_INT(nbytes);
    int k, min, max;
    REQUIRES(spec_dt(hr, us, &k) && spec_sr(hr, hz) && nch >= 1 && nch <= 8);
    spec_lim(hr, k, hz, &min, &max);
    REQUIRES(nbytes >= nch * min && nbytes <= nch * max);
    int r = lc3_hr_resolve_bitrate(hr, us, hz, nbytes);
    ENSURES(lc3_hr_frame_block_bytes(hr, us, hz, nch, r) == nbytes, "size -> bitrate -> size");
    REACHED("valid");
}

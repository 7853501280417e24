/* Side data of the frames: written then read, and read from any frame */
#include "bitfifo.h"
#include "config.h"
#include "src/tables.c"
static lc3_bits_t b;
static int ne_of(int dt, int sr)    /* Number of coded lines, from the specification */
{
    return (1 + dt) * (sr == LC3_SRATE_8K ? 20 : sr == LC3_SRATE_16K ? 40 : sr == LC3_SRATE_24K ? 60 : sr == LC3_SRATE_32K ? 80 :
        sr == LC3_SRATE_48K ? 100 : sr == LC3_SRATE_48K_HR ? 120 : 240);
}

#ifdef MOD_BW
#include "src/bwdet.c"
/* Bandwidth */
static int bw_nbits(int sr) { return sr == 0 || sr >= LC3_SRATE_48K_HR ? 0 : sr == 1 ? 1 : sr <= 3 ? 2 : 3; }
void h_bw(void)
{
    IN_RANGE(sr, 0, LC3_NUM_SRATE - 1); IN_RANGE(bw, 0, LC3_NUM_SRATE - 1); IN_BOOL(any);
    fifo_start(any);
    enum lc3_bandwidth r = -1;
    if (!any) {
        REQUIRES(bw <= sr && (sr <= LC3_SRATE_48K || bw == sr));
        lc3_bwdet_put_bw(&b, sr, bw);
        ENSURES(fifo_nbits == bw_nbits(sr) && lc3_bwdet_get_nbits(sr) == bw_nbits(sr), "size of the bandwidth");
        ENSURES(lc3_bwdet_get_bw(&b, sr, &r) == 0 && r == (enum lc3_bandwidth)bw && FIFO_EMPTY, "bandwidth written is read");
        REACHED("written");
    } else {
        int ret = lc3_bwdet_get_bw(&b, sr, &r);
        ENSURES(r <= (enum lc3_bandwidth)sr && (ret == 0 || ret == -1), "valid bandwidth");
        ENSURES(sr > LC3_SRATE_8K && sr <= LC3_SRATE_48K || (ret == 0 && r == (enum lc3_bandwidth)sr), "single bandwidth");
        ENSURES(fifo_nbits == bw_nbits(sr), "size of the bandwidth");
        REACHED("any");
    }
}
void h_bw_reject(void)      /* Rejection of the reserved codes exactly */
{
    IN_RANGE(sr, 1, LC3_SRATE_48K); IN_RANGE(code, 0, 7);
    REQUIRES(code < 1 << bw_nbits(sr));
    fifo_start(false);
    spec_put_bits(&b, code, bw_nbits(sr));
    enum lc3_bandwidth r;
    ENSURES(lc3_bwdet_get_bw(&b, sr, &r) == (code > sr ? -1 : 0), "invalid bandwidth detected");
    REACHED("end");
}
#endif

#ifdef MOD_SPEC
#include "src/spec.c"
/* Spectral side data */
void h_spec(void)
{
    IN_RANGE(dt, 0, 3); IN_RANGE(sr, 0, LC3_NUM_SRATE - 1); IN_BOOL(any);
    REQUIRES(!(dt == LC3_DT_7M5 && sr >= LC3_SRATE_48K_HR));
    fifo_start(any);
    lc3_spec_side_t s, r;
    VC_SETR(s.g_idx, 0, 255); VC_SETR(s.nq, 0, 960); VC_SET(bool, s.lsb_mode);
    int ne = ne_of(dt, sr);
    if (!any) {
        REQUIRES(s.nq <= ne && s.nq % 2 == 0);
        lc3_spec_put_side(&b, dt, sr, &s);
        ENSURES(lc3_spec_get_side(&b, dt, sr, &r) == 0 && FIFO_EMPTY, "valid side data");
        ENSURES(r.g_idx == s.g_idx && r.lsb_mode == s.lsb_mode && r.nq == (s.nq < 2 ? 2 : s.nq), "side data written is read");
        REACHED("written");
    } else {
        int ret = lc3_spec_get_side(&b, dt, sr, &r);
        ENSURES(r.nq >= 2 && r.nq <= ne && r.nq % 2 == 0 && r.g_idx >= 0 && r.g_idx < 256, "number of lines and gain in range");
        ENSURES(ret == 0 || (ret == -1 && r.nq == ne), "return of invalid number of lines");
        REACHED("any");
    }
    int n = 0; while (1 << n < ne / 2) n++;
    ENSURES(fifo_nbits == n + 9, "size of the side data");
}
void h_spec_reject(void)
{
    IN_RANGE(dt, 0, 3); IN_RANGE(sr, 0, LC3_NUM_SRATE - 1); IN_INT(code);
    REQUIRES(!(dt == LC3_DT_7M5 && sr >= LC3_SRATE_48K_HR));
    int n = 0, ne = ne_of(dt, sr); while (1 << n < ne / 2) n++;
    REQUIRES(code >= 0 && code < 1 << n);
    fifo_start(false);
    spec_put_bits(&b, code, n); spec_put_bits(&b, 0, 1); spec_put_bits(&b, 0, 8);
    lc3_spec_side_t r;
    ENSURES(lc3_spec_get_side(&b, dt, sr, &r) == (2 * (code + 1) > ne ? -1 : 0), "invalid number of lines detected");
    REACHED("end");
}
#endif

#ifdef MOD_LTPF
#include "src/ltpf.c"
/* Pitch */
void h_ltpf(void)
{
    lc3_ltpf_data_t d, r;
    VC_SET(bool, d.active); VC_SETR(d.pitch_index, 0, 511); IN_BOOL(any); IN_BOOL(pitch);
    fifo_start(any);
    if (!any) {
        lc3_ltpf_put_data(&b, &d); lc3_ltpf_get_data(&b, &r);
        ENSURES(r.active == d.active && r.pitch_index == d.pitch_index && FIFO_EMPTY, "LTPF data written is read");
        REACHED("written");
    } else {
        lc3_ltpf_get_data(&b, &r);
        ENSURES(r.pitch_index >= 0 && r.pitch_index < 512, "pitch index in range");
        REACHED("any");
    }
    ENSURES(fifo_nbits == 10 && lc3_ltpf_get_nbits(pitch) == (pitch ? 11 : 1), "size of LTPF data");
}
#endif

#ifdef MOD_TNS
#include "src/tns.c"
/* TNS */
#ifndef BW
#define BW 0
#endif
static lc3_tns_data_t d;
static int dt_ = DT_US / 2500 - 1;
static void tns_data(void)
{
    for (int f = 0; f < 2; f++)
        for (int i = 0; i < 8; i++) { VC_SETR(d.rc[f][i], -8, 8); }
}
static void tns_written(int nf, int o0, int o1, int bw, int nbytes)
{
    lc3_tns_data_t r;
    fifo_start(false);
    d.nfilters = nf, d.rc_order[0] = o0, d.rc_order[1] = o1;
    lc3_tns_put_data(&b, &d);
    ENSURES(lc3_tns_get_data(&b, dt_, bw, nbytes, &r) == 0 && FIFO_EMPTY, "valid TNS data");
    ENSURES(r.nfilters == nf && r.lpc_weighting == d.lpc_weighting, "TNS configuration");
    for (int f = 0; f < nf; f++) {
        int o = f ? o1 : o0;
        ENSURES(r.rc_order[f] == o, "TNS order written is read");
        for (int i = 0; i < o; i++)
            ENSURES(r.rc[f][i] == d.rc[f][i], "TNS coefficients written are read");
    }
    REACHED("written");
}
static int tns_filters(int bw) { return dt_ >= LC3_DT_5M && bw >= LC3_BANDWIDTH_SWB ? 2 : 1; }

/* Written and read, order of the filters given */
void h_tns(void)
{
    const int bw = BW; IN_RANGE(nbytes, 20, 625);
    IN_RANGE(o0, 0, dt_ <= LC3_DT_5M ? 4 : 8); IN_RANGE(o1, 0, dt_ <= LC3_DT_5M ? 4 : 8);
    tns_data();
    d.lpc_weighting = nbytes * 8 < 120 * (1 + dt_);
    for (int i = 0; i <= (dt_ <= LC3_DT_5M ? 4 : 8); i++)
        for (int j = 0; j <= (dt_ <= LC3_DT_5M ? 4 : 8); j++)
            if (o0 == i && o1 == j) {
                if (DT_US >= 5000 && bw >= LC3_BANDWIDTH_SWB)
                    tns_written(2, i, j, bw, nbytes);
                else {
                    REQUIRES(j == 0);
                    tns_written(1, i, j, bw, nbytes);
                }
                END_CASE();
            }
}
/* Read from any frame */
void h_tns_any(void)
{
    IN_RANGE(bw, 0, LC3_NUM_BANDWIDTH - 1); IN_RANGE(nbytes, 20, 625); IN_RANGE(kf, 0, 1); IN_RANGE(ki, 0, 7);
    lc3_tns_data_t r;
    fifo_start(true);
    int maxorder = dt_ <= LC3_DT_5M ? 4 : 8, nf = tns_filters(bw);
    int ret = lc3_tns_get_data(&b, dt_, bw, nbytes, &r);
    ENSURES(ret == 0 || (ret == -1 && dt_ <= LC3_DT_5M), "return value");
    ENSURES(r.nfilters == nf && r.lpc_weighting == (nbytes * 8 < 120 * (1 + dt_)), "TNS configuration");
    ENSURES(fifo_nbits <= nf, "size of TNS data");
    if (ret == 0 && kf < nf) {
        ENSURES(r.rc_order[kf] >= 0 && r.rc_order[kf] <= maxorder, "TNS order in range");
        if (ki < r.rc_order[kf])
            ENSURES(r.rc[kf][ki] >= -8 && r.rc[kf][ki] <= 8, "TNS coefficients in range");
    }
    REACHED("any");
}
/* Bit consumption of TNS data, from the one of the symbols */
void h_tns_nbits(void)
{
    tns_data();
    VC_SET(bool, d.lpc_weighting); IN_RANGE(o, 0, 8); IN_RANGE(f, 0, 1); IN_RANGE(o0, 0, 1);
    for (int i = 0; i <= 8; i++) for (int k = 0; k <= 1; k++) for (int i0 = 0; i0 <= k; i0++) if (i == o && f == k && i0 == o0) {
        d.rc_order[k] = i, d.nfilters = 1 + k;
        if (k) d.rc_order[0] = i0;
        int s = 0;
        for (int c = 0; c <= k; c++) {
            int t = 2048;
            if (d.rc_order[c] > 0) t += lc3_tns_order_bits[d.lpc_weighting][d.rc_order[c] - 1];
            for (int n = 0; n < d.rc_order[c]; n++) t += lc3_tns_coeffs_bits[n][8 + d.rc[c][n]];
            s += (t + 2047) / 2048;
        }
        ENSURES(lc3_tns_get_nbits(&d) == s, "bit consumption of TNS data");
        REACHED("end");
        END_CASE();
    }
}
#endif

#ifdef MOD_SNS
#include "src/sns.c"
/* SNS */
static bool sns_ok(const lc3_sns_data_t *d)
{
    return d->lfcb >= 0 && d->lfcb < 32 && d->hfcb >= 0 && d->hfcb < 32 && d->shape >= 0 && d->shape < 4 && d->gain >= 0 && d->idx_a >= 0
        && (d->shape == 0 ? d->gain < 2 && d->idx_a < 2390004 && d->idx_b >= 0 && d->idx_b < 6 :
            d->shape == 1 ? d->gain < 4 && d->idx_a < 2390004 :
            d->shape == 2 ? d->gain < 4 && d->idx_a < 15158272 : d->gain < 8 && d->idx_a < 774912);
}
void h_sns(void)
{
    IN_BOOL(any);
    lc3_sns_data_t d, r;
    VC_SETR(d.lfcb, 0, 31); VC_SETR(d.hfcb, 0, 31); VC_SETR(d.shape, 0, 3); VC_SETR(d.gain, 0, 7);
    VC_SETR(d.idx_a, 0, 15158271); VC_SETR(d.idx_b, 0, 5); VC_SET(bool, d.ls_a); VC_SET(bool, d.ls_b);
    fifo_start(any);
    if (!any) {
        REQUIRES(sns_ok(&d));
        lc3_sns_put_data(&b, &d);
        ENSURES(lc3_sns_get_data(&b, &r) == 0 && FIFO_EMPTY, "valid SNS data");
        ENSURES(r.lfcb == d.lfcb && r.hfcb == d.hfcb && r.shape == d.shape && r.gain == d.gain && r.idx_a == d.idx_a && r.ls_a == d.ls_a,
            "SNS data written is read");
        ENSURES(d.shape != 0 || (r.idx_b == d.idx_b && r.ls_b == d.ls_b), "second SNS vector written is read");
        REACHED("written");
    } else {
        int ret = lc3_sns_get_data(&b, &r);
        ENSURES(ret == 0 || ret == -1, "return value");
        ENSURES(ret < 0 || sns_ok(&r), "SNS data in range");
        REACHED("any");
    }
    ENSURES(fifo_nbits == 38 && lc3_sns_get_nbits() == 38, "size of SNS data");
}
void h_sns_reject(void)
{
    IN_BOOL(msb); IN_UINT(code);
    REQUIRES(code < 1u << (25 - msb));
    fifo_start(false);
    spec_put_bits(&b, 0, 5); spec_put_bits(&b, 0, 5); spec_put_bits(&b, msb, 1); spec_put_bits(&b, 0, 1 + msb);
    spec_put_bits(&b, 0, 1); spec_put_bits(&b, code, 25 - msb);
    lc3_sns_data_t r;
    ENSURES(lc3_sns_get_data(&b, &r) == (code >= (msb ? 15158272 + 1549824u : 2390004 * 14u) ? -1 : 0), "reserved SNS codes are detected");
    REACHED("end");
}
#endif


/* Bands of energy, bandwidth detector and attack detector */
#include "vc.h"
#include "config.h"
#include "src/tables.c"
#include "src/energy.c"
#include "src/bits.h"
#include "src/bwdet.c"
#include "src/attdet.c"

/* Number of bands, from the specification */
#define NB_BANDS (DT_US == 2500 ? (HR ? (SR_HZ == 96000 ? 49 : 45) : SR_HZ == 8000 ? 20 : SR_HZ == 16000 ? 35 : SR_HZ == 24000 ? 40 : SR_HZ == 32000 ? 43 : 44) : \
                  DT_US == 5000 ? (HR ? (SR_HZ == 96000 ? 58 : 55) : SR_HZ == 8000 ? 39 : SR_HZ == 16000 ? 50 : SR_HZ == 24000 ? 52 : SR_HZ == 32000 ? 54 : 55) : \
                  DT_US == 7500 ? (SR_HZ == 8000 ? 60 : 64) : (!HR && SR_HZ == 8000 ? 64 : 64))

/* Objects of exactly the number of lines and bands */
static struct { float x[NE]; } ax;
static struct { float e[NB_BANDS]; } ae;

void h_bands(void)
{
    const int *lim = lc3_band_lim[DT_ID][SR_ID], nb = lc3_num_bands[DT_ID][SR_ID];
    ENSURES(nb == NB_BANDS && nb <= LC3_MAX_BANDS && nb > 4, "number of bands");
    ENSURES(lim[0] == 0 && lim[nb] == NE, "the bands are the coded spectrum");
    bool ok = true;
    for (int i = 0; i < NB_BANDS; i++) ok = ok && lim[i] < lim[i+1];
    for (int i = 1; i < NB_BANDS; i++) ok = ok && (lim[i+1] - lim[i]) * 10 + 10 >= (lim[i] - lim[i-1]) * 7;
    ENSURES(ok, "bands in order, of growing width");
    ENSURES(lc3_ne(DT_ID, SR_ID) == NE, "number of coded lines");
    REACHED("end");
}

/* A line in any band */
#ifndef KSTEP
#define KSTEP 1
#endif
void h_energy(void)
{
    const int v = -32767;
    IN_RANGE(k, 0, NE - 1);
    for (int i = 0; i < NE; i++) ax.x[i] = 0;
    const int *lim = lc3_band_lim[DT_ID][SR_ID];
    int band = 0;
    for (int i = 0; i < NE; i++) {
        if (i >= lim[band+1]) band++;
        if (i % KSTEP || k != i) continue;
        ax.x[i] = v;
        bool nn = lc3_energy_compute(DT_ID, SR_ID, ax.x, ae.e);
        for (int j = 0; j < NB_BANDS; j++)
            ENSURES(ae.e[j] == (j == band ? ((float)v * (float)v) / (lim[band+1] - lim[band]) : 0), "mean energy of the band");
        const int high = DT_US == 5000 ? 3 : DT_US == 7500 ? 4 : 2;
        ENSURES(nn == (v != 0 && band >= NB_BANDS - high), "near Nyquist energy");
        REACHED("end");
        END_CASE();
    }
}

/* --- Bandwidth detector --------------------------------------------------------- */
/* Bands over the cut-off of each lower bandwidth, from the specification */
static const int bw_first[4][5][4] = {
    { { 0 }, { 24 }, { 24, 35 }, { 24, 33, 39 }, { 22, 31, 37, 41 } },
    { { 0 }, { 39 }, { 35, 47 }, { 34, 44, 50 }, { 32, 42, 48, 52 } },
    { { 0 }, { 51 }, { 45, 58 }, { 42, 53, 60 }, { 40, 51, 57, 61 } },
    { { 0 }, { 53 }, { 47, 59 }, { 44, 54, 60 }, { 41, 51, 57, 61 } } };
static const int bw_last[4][5][4] = {
    { { 0 }, { 34 }, { 32, 39 }, { 31, 38, 42 }, { 29, 35, 40, 43 } },
    { { 0 }, { 49 }, { 44, 51 }, { 42, 49, 53 }, { 40, 46, 51, 54 } },
    { { 0 }, { 63 }, { 55, 63 }, { 51, 58, 63 }, { 48, 55, 60, 63 } },
    { { 0 }, { 63 }, { 56, 63 }, { 52, 59, 63 }, { 49, 55, 60, 63 } } };
void h_bwdet(void)
{
    for (int i = 0; i < NB_BANDS; i++) { IN_BOOL(high); ae.e[i] = high ? 40 : 1; }
    enum lc3_bandwidth bw = lc3_bwdet_run(DT_ID, SR_ID, ae.e);
    if (HR) ENSURES((int)bw == SR_ID, "full bandwidth");
    else {
        ENSURES((int)bw >= 0 && (int)bw <= SR_ID, "bandwidth within the samplerate");
        /* No significant content is cut */
        for (int r = 0; r < SR_ID; r++) {
            bool active = true;
            for (int i = bw_first[DT_ID][HR ? 0 : SR_ID][r]; i <= bw_last[DT_ID][HR ? 0 : SR_ID][r]; i++)
                active = active && ae.e[i] >= (r == 0 ? 20 : 10);
            ENSURES(!active || (int)bw > r, "bandwidth including the significant energy");
        }
    }
    REACHED("end");
}
/* Cut at the frequency of a lower samplerate */
void h_bwdet_cut(void)
{
    IN_RANGE(r, 0, 3); REQUIRES(r < SR_ID);
    for (int b = 0; b < SR_ID; b++) if (r == b) {
        /* Full energy up to the cut-off, none over: the lower bandwidth is detected */
        for (int i = 0; i < NB_BANDS; i++) ae.e[i] = i < bw_first[DT_ID][HR ? 0 : SR_ID][b] ? 1e6f : 1;
        ENSURES((int)lc3_bwdet_run(DT_ID, SR_ID, ae.e) == b, "bandwidth of the content");
        /* Smooth decrease: not a lower bandwidth */
        for (int i = 0; i < NB_BANDS; i++) ae.e[i] = i < bw_first[DT_ID][HR ? 0 : SR_ID][b] ? 10 : 5;
        ENSURES((int)lc3_bwdet_run(DT_ID, SR_ID, ae.e) == SR_ID, "full bandwidth when not cut");
        REACHED("end");
        END_CASE();
    }
}

/* --- Attack detector ------------------------------------------------------------- */
#if DT_US >= 7500 && SR_HZ >= 32000 && !HR
#define ATT 1
#else
#define ATT 0
#endif
#define NX (6 + NS)
static struct { int16_t x[NX]; } at;
static struct lc3_attdet_analysis as;
#define E_MAX (40 << 25)
static int att_on(int nbytes)
{
    return ATT && (DT_US == 7500 ? nbytes >= (SR_HZ == 32000 ? 61 : 75) && nbytes < 150 : nbytes >= (SR_HZ == 32000 ? 81 : 100));
}
static void att_state(void)
{
    VC_SET(int, as.en1); VC_SET(int, as.an1); VC_SET(int, as.p_att);
    REQUIRES(as.en1 >= 0 && as.en1 <= E_MAX && as.an1 >= 0 && as.an1 <= E_MAX && as.p_att >= 0 && as.p_att <= 4);
}
#ifndef SIGNAL
#define SIGNAL(i) 0
#endif
void h_attdet(void)
{
    const int nblk = DT_US == 7500 ? 3 : 4;
    IN_RANGE(nbytes, NB_MIN, NB_MAX); att_state();
    for (int i = 0; i < NX; i++) at.x[i] = SIGNAL(i);
    struct lc3_attdet_analysis s0 = as;
    bool att = lc3_attdet_run(DT_ID, SR_ID, nbytes, &as, at.x + 6);
    if (!att_on(nbytes))
        ENSURES(!att && as.en1 == s0.en1 && as.an1 == s0.an1 && as.p_att == s0.p_att, "no detection, nothing changed when disabled");
    else {
        ENSURES(as.p_att >= 0 && as.p_att <= nblk, "position of the attack");
        ENSURES(att == (as.p_att > 0 || s0.p_att >= 1 + nblk / 2), "attack in this frame, or in the end of the previous one");
    }
    REACHED("end");
}
/* Null signal, then an impulse in a block */
void h_attack(void)
{
    const int nblk = DT_US == 7500 ? 3 : 4, step = SR_HZ == 32000 ? 2 : 3;
    IN_RANGE(k, 0, 3); att_state(); REQUIRES(k < nblk);
    struct lc3_attdet_analysis s0 = as;
    for (int b = 0; b < nblk; b++) if (k == b) {
        for (int i = 0; i < NX; i++) at.x[i] = 0;
        bool att = lc3_attdet_run(DT_ID, SR_ID, 140, &as, at.x + 6);
        ENSURES(as.p_att == 0 && as.en1 == 0, "no attack in the silence");
        ENSURES(att == (s0.p_att >= 1 + nblk / 2), "end of attack");
        ENSURES(as.an1 <= E_MAX && as.an1 >= 0, "state in its domain");
        as.an1 = 0;
        for (int i = 0; i < step; i++) at.x[6 + (40 * b + 20) * step + i] = 16000;
        ENSURES(lc3_attdet_run(DT_ID, SR_ID, 140, &as, at.x + 6) && as.p_att == b + 1, "attack detected, with its position");
        for (int i = 0; i < NX; i++) at.x[i] = 0;
        ENSURES(lc3_attdet_run(DT_ID, SR_ID, 140, &as, at.x + 6) == (b + 1 >= 1 + nblk / 2), "attack at the end kept for a frame");
        ENSURES(!lc3_attdet_run(DT_ID, SR_ID, 140, &as, at.x + 6), "then released");
        REACHED("end");
        END_CASE();
    }
}

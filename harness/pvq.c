/* SNS: enumeration of the pulse vectors */
#include "vc.h"
#include "src/tables.c"
#include "src/sns.c"

#ifndef SHAPE
#define SHAPE 0
#endif
#define NA (SHAPE < 2 ? 10 : 16)
#define KA (SHAPE < 2 ? 10 : SHAPE == 2 ? 8 : 6)
#define SIZE_A (SHAPE < 2 ? 2390004 : SHAPE == 2 ? 15158272 : 774912)

static struct { int guard0[4]; int v[16]; int guard1[4]; } c;
static int iabs(int x) { return x < 0 ? -x : x; }

/* Index to vector, and back */
void h_deenum(void)
{
    IN_RANGE(idx_a, 0, SIZE_A - 1); IN_BOOL(ls_a); IN_RANGE(idx_b, 0, 5); IN_BOOL(ls_b);
    for (int i = 0; i < 4; i++) c.guard0[i] = c.guard1[i] = 0x5a5a;
    for (int i = 0; i < 16; i++) c.v[i] = 0x5a5a;
    deenumerate(SHAPE, idx_a, ls_a, idx_b, ls_b, c.v);
    for (int i = 0; i < 4; i++) ENSURES(c.guard0[i] == 0x5a5a && c.guard1[i] == 0x5a5a, "only the vector is written");
    int ka = 0, kb = 0;
    for (int i = 0; i < 16; i++) {
        ENSURES(c.v[i] >= -KA && c.v[i] <= KA, "amplitude of a pulse");
        if (i < NA) ka += iabs(c.v[i]); else kb += iabs(c.v[i]);
    }
    ENSURES(ka == KA, "number of pulses");
    ENSURES(kb == (SHAPE == 0), "number of pulses of the second vector");
    REACHED("end");
}

void h_roundtrip(void)
{
    IN_RANGE(idx_a, 0, SIZE_A - 1); IN_BOOL(ls_a); IN_RANGE(idx_b, 0, 5); IN_BOOL(ls_b);
    deenumerate(SHAPE, idx_a, ls_a, idx_b, ls_b, c.v);
    int ra, rb; bool sa, sb;
    enumerate(SHAPE, c.v, &ra, &sa, &rb, &sb);
    ENSURES(ra == idx_a && sa == ls_a, "enumeration of the vector gives back the index");
    ENSURES(SHAPE != 0 || (rb == idx_b && sb == ls_b), "enumeration of the second vector gives back the index");
    REACHED("end");
}

/* Vector to index */
void h_enum(void)
{
    int k = 0;
    for (int i = 0; i < 16; i++) { VC_SETR(c.v[i], -KA, KA); }
    for (int i = 0; i < NA; i++) k += iabs(c.v[i]);
    REQUIRES(k == KA);
    if (SHAPE < 2) { k = 0; for (int i = 10; i < 16; i++) k += iabs(c.v[i]); REQUIRES(k == (SHAPE == 0)); }
    int ra, rb = 0; bool sa, sb;
    enumerate(SHAPE, c.v, &ra, &sa, &rb, &sb);
    ENSURES(ra >= 0 && ra < SIZE_A && rb >= 0 && rb < 6, "index in range");
    REACHED("end");
}

/* Vector to index, and back, first coefficients given */
#ifndef C0
#define C0 0
#endif
#ifndef C1
#define C1 0
#endif
void h_vec_roundtrip(void)
{
    static struct { int v[16]; } r;
    int k = 0;
    for (int i = 0; i < 16; i++) { VC_SETR(c.v[i], -KA, KA); }
    IN_BOOL(s0); IN_BOOL(s1);
    c.v[0] = s0 ? -C0 : C0;
    c.v[1] = s1 ? -C1 : C1;
    for (int i = 0; i < NA; i++) k += iabs(c.v[i]);
    REQUIRES(k == KA);
    if (SHAPE < 2) { k = 0; for (int i = 10; i < 16; i++) k += iabs(c.v[i]); REQUIRES(k == (SHAPE == 0)); }
    int ra, rb = 0; bool sa, sb;
    enumerate(SHAPE, c.v, &ra, &sa, &rb, &sb);
    REQUIRES(ra >= 0 && ra < SIZE_A);
    deenumerate(SHAPE, ra, sa, rb, sb, r.v);
    for (int i = 0; i < 16; i++)
        ENSURES(SHAPE == 1 && i >= 10 ? r.v[i] == 0 : r.v[i] == c.v[i], "the vector is found back from its index");
    REACHED("end");
}

/* The table is the one of the enumeration */
void h_table(void)
{
    for (int k = 0; k <= 10; k++) ENSURES(lc3_sns_mpvq_offsets[0][k] == (k > 0), "first row");
    for (int n = 1; n < 16; n++) {
        ENSURES(lc3_sns_mpvq_offsets[n][0] == 0, "first column");
        for (int k = 1; k <= 10; k++)
            ENSURES(lc3_sns_mpvq_offsets[n][k] == lc3_sns_mpvq_offsets[n-1][k-1] + lc3_sns_mpvq_offsets[n][k-1] + lc3_sns_mpvq_offsets[n-1][k],
                "recurrence of the offsets");
    }
    REACHED("end");
}

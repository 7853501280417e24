/* Content of the two streams of the frame: what is written is what is read */
#include "vc.h"
#ifdef SYMBOLS
/* The renormalization, at the calls by the functions of symbols, is taken apart */
#define lc3_ac_write_renorm spec_renorm
#define lc3_ac_read_renorm spec_renorm
#include "src/bits.h"
#else
#include "src/bits.c"
#endif
#include "src/tables.c"
#include "bits_inv.h"

#ifndef CC_MAX
#define CC_MAX 3
#endif
typedef unsigned __int128 u128;

static uint8_t fr[FRAMEMEM];
static lc3_bits_t b, b0;

#ifndef SYMBOLS
/* --- Plain bits -----------------------------------------------------------------
 * Stream of the writer: bits in memory from the end of the frame, low order
 * first, then the `accu.n` bits of the accumulator */

static int memlen;
static bool membit(int i) { return (fr[memlen - 1 - (i >> 3)] >> (i & 7)) & 1; }
static int nwritten(const lc3_bits_t *p) { return 8 * (fr + memlen - p->buffer.p_bw) + p->accu.n; }
static bool wbit(const lc3_bits_t *p, int i)
{
    int m = 8 * (fr + memlen - p->buffer.p_bw);
    return i < m ? membit(i) : (p->accu.v >> ((i - m) & 31)) & 1;
}

static void setup_plain(bool write)
{
    IN_RANGE(len, 20, MAXLEN); IN_RANGE(bw, 0, len);
    memlen = len;
    b.mode = write ? LC3_BITS_MODE_WRITE : LC3_BITS_MODE_READ;
    b.buffer.start = fr, b.buffer.end = fr + len;
    b.buffer.p_bw = fr + bw, b.buffer.p_fw = fr + (write ? 0 : 3);
    VC_SET(uint, b.accu.v); VC_SETR(b.accu.n, 0, 32); VC_SETR(b.accu.nover, 0, 32);
    b.ac.range = 0xffffff, b.ac.cache = -1;
    if (write) {
        b.accu.nover = 0;
        if (b.accu.n < 32) b.accu.v &= (1u << b.accu.n) - 1;
    }
}

void h_put_content(void)
{
    IN_MEM(fr);
    setup_plain(true);
    IN_RANGE(n, 1, 32); IN_UINT(v); IN_RANGE(fw, 0, MAXLEN);
    if (n < 32) v &= (1u << n) - 1;
    REQUIRES(inv_w_buf(&b, fr, memlen));
    /* There is room */
    REQUIRES(fw <= memlen && b.buffer.p_bw - (fr + fw) >= (b.accu.n + n) / 8);
    b.buffer.p_fw = fr + fw;
    int n0 = nwritten(&b);
    IN_RANGE(i, 0, 8 * MAXLEN + 63);
    REQUIRES(i < n0 + n);
    bool bit0 = i < n0 ? wbit(&b, i) : (v >> ((i - n0) & 31)) & 1;
    lc3_put_bits(&b, v, n);
    ENSURES(nwritten(&b) == n0 + n, "number of bits written");
    ENSURES(wbit(&b, i) == bit0, "the stream of bits is extended by the value");
    REACHED("end");
}

/* Stream of the reader: the accumulator is the window of the frame */
static uint32_t window(const uint8_t *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static bool inv_content(const lc3_bits_t *p)
{
    /* Four bytes have been loaded since the setup */
    if (p->buffer.end - p->buffer.p_bw < 4) return false;
    if (p->accu.nover && p->buffer.p_bw != p->buffer.start) return false;
    uint32_t w = p->accu.nover < 32 ? window(p->buffer.p_bw) >> p->accu.nover : 0;
    return p->accu.n >= 32 || (p->accu.v >> p->accu.n) == (w >> p->accu.n);
}

void h_get_content(void)
{
    IN_MEM(fr);
    setup_plain(false);
    IN_RANGE(n, 1, 31); IN_RANGE(j, 0, 30);
    REQUIRES(inv_r(&b, fr, memlen) && inv_content(&b) && j < n);
    int pos = nplain_r(&b);
    REQUIRES(pos + n <= 8 * memlen);
    bool bit = membit(pos + j);
    unsigned v = lc3_get_bits(&b, n);
    ENSURES(((v >> j) & 1) == bit, "the value read is the content of the frame");
    ENSURES(nplain_r(&b) == pos + n, "position in the frame");
    ENSURES(inv_content(&b), "the accumulator is the window of the frame");
    REACHED("end");
}

#endif
/* --- Arithmetic coder -----------------------------------------------------------
 * Value of the writer: pending bytes (cache, then 0xff bytes), carry, and
 * the 24 bits of low. The interval is [value, value + range[ */

static int npend(const struct lc3_bits_ac *ac) { return (ac->cache >= 0) + ac->carry_count; }
static u128 value(const struct lc3_bits_ac *ac)
{
    u128 v = ac->cache >= 0 ? ac->cache : 0;
    for (int i = 0; i < CC_MAX + 2; i++) if (i < ac->carry_count) v = (v << 8) | 0xff;
    return ((v + ac->carry) << 24) + ac->low;
}
static u128 shl8(u128 v, int n)
{
    for (int i = 0; i < CC_MAX + 4; i++) if (i < n) v <<= 8;
    return v;
}
static void setup_ac_w(unsigned rmin)
{
    VC_SETR(b.ac.low, 0, 0xffffff); VC_SETR(b.ac.range, rmin, 0xffffff);
    VC_SETR(b.ac.cache, -1, 255); VC_SETR(b.ac.carry, 0, 1); VC_SETR(b.ac.carry_count, 0, CC_MAX);
    b.ac.error = false;
    REQUIRES(inv_w_ac(&b.ac, rmin));
}

#ifndef SYMBOLS
void h_renorm_content(void)
{
    IN_OBJ(fr);
    setup_ac_w(64);
    b.mode = LC3_BITS_MODE_WRITE;
    b.buffer.start = b.buffer.p_fw = fr, b.buffer.end = b.buffer.p_bw = fr + sizeof(fr);
    b0 = b;
    lc3_ac_write_renorm(&b);
    int ns = b0.ac.range < 0x100 ? 2 : b0.ac.range < 0x10000 ? 1 : 0, m = b.buffer.p_fw - fr;
    ENSURES(b.ac.range == b0.ac.range << 8*ns, "range of the renormalization");
    ENSURES(m >= 0 && m <= CC_MAX + 3 && m + npend(&b.ac) == npend(&b0.ac) + ns, "number of bytes of the renormalization");
    u128 w = 0;
    for (int i = 0; i < CC_MAX + 3; i++) if (i < m) w = (w << 8) | fr[i];
    ENSURES(shl8(w, npend(&b.ac) + 3) + value(&b.ac) == shl8(value(&b0.ac), ns), "the value is kept by the renormalization");
    REACHED("end");
}

#endif
#ifdef SYMBOLS
static int n_renorm;
static struct lc3_bits_ac ac_renorm;
void spec_renorm(lc3_bits_t *bits)
{
    n_renorm++;
    ac_renorm = bits->ac;
}

static bool lemma_bound(unsigned r, unsigned freq)
{
    return r * freq <= (r << 10) && (freq == 0 ? r * freq == 0 : r * freq >= r);
}

static struct lc3_ac_model model;
void h_put_symbol_content(void)
{
    IN_RANGE(s, 0, 16); IN_RANGE(slow, 0, 1023); IN_RANGE(srange, 1, 1024);
    REQUIRES(slow + srange <= 1024);
    model.s[s].low = slow, model.s[s].range = srange;
    setup_ac_w(0x10000);
    unsigned r = b.ac.range >> 10, add = r * slow;
    REQUIRES(lemma_bound(r, slow) && lemma_bound(r, srange) && add + r * srange == r * (slow + srange) && lemma_bound(r, slow + srange));
    b0 = b; n_renorm = 0;
    lc3_put_symbol(&b, &model, s);
    struct lc3_bits_ac ac = n_renorm ? ac_renorm : b.ac;
    ENSURES(ac.range == r * srange, "range of the symbol");
    ENSURES(n_renorm == (ac.range < 0x10000), "renormalization when needed");
    ENSURES(ac.cache == b0.ac.cache && ac.carry_count == b0.ac.carry_count, "pending bytes kept");
    ENSURES(((uint64_t)ac.carry << 24) + ac.low == ((uint64_t)b0.ac.carry << 24) + b0.ac.low + add, "the value is moved to the interval of the symbol");
    REACHED("end");
}

/* Reader: the value relative to the interval */
#ifndef M_TAB
#define M_TAB lc3_tns_order_models
#define M_IDX 0
#endif
#ifndef M_S0
#define M_S0 0
#define M_S1 17
#endif
void h_get_symbol_content(void)
{
    const struct lc3_ac_model *m = &M_TAB[M_IDX];
    b.mode = LC3_BITS_MODE_READ;
    b.buffer.start = b.buffer.p_fw = fr, b.buffer.end = b.buffer.p_bw = fr + sizeof(fr);
    b.ac.cache = -1;
    VC_SETR(b.ac.range, 0x10000, 0xffffff); VC_SETR(b.ac.low, 0, 0xffffff);
    IN_RANGE(s, 0, 16); n_renorm = 0;
    unsigned r = b.ac.range >> 10, low = b.ac.low;
    REACHED("start");
    for (int k = M_S0; k < M_S1; k++) if (s == k && m->s[k].range > 0) {
        REQUIRES(low >= r * m->s[k].low && low < r * (m->s[k].low + m->s[k].range));
        unsigned v = lc3_get_symbol(&b, m);
        struct lc3_bits_ac ac = n_renorm ? ac_renorm : b.ac;
        ENSURES(v == (unsigned)k && !ac.error, "the symbol of the interval is read");
        ENSURES(ac.range == r * m->s[k].range && ac.low == low - r * m->s[k].low, "interval of the symbol");
        ENSURES(n_renorm == (ac.range < 0x10000), "renormalization when needed");
        END_CASE();
    }
}
/* The models of the codec are partitions of the range */
#define MODELS(tab, n) for (int i = 0; i < n; i++) ENSURES(inv_model(&tab[i]), "model is a partition of the range")
void h_models(void)
{
    MODELS(lc3_tns_order_models, 2); MODELS(lc3_tns_coeffs_models, 8); MODELS(lc3_spectrum_models, 64);
    for (int o = 0; o < 8; o++) for (int i = 0; i < 2; i++)
        ENSURES(lc3_tns_order_models[i].s[o].range > 0, "all the orders can be coded");
    for (int i = 0; i < 8; i++) for (int c = 0; c < 17; c++)
        ENSURES(lc3_tns_coeffs_models[i].s[c].range > 0, "all the coefficients can be coded");
    for (int i = 0; i < 64; i++) for (int c = 0; c < 17; c++)
        ENSURES(lc3_spectrum_models[i].s[c].range > 0, "all the spectral symbols can be coded");
    REACHED("end");
}
#else
void h_read_renorm_content(void)
{
    IN_MEM(fr);
    IN_RANGE(len, 20, MAXLEN); IN_RANGE(fw, 3, len);
    b.mode = LC3_BITS_MODE_READ;
    b.buffer.start = fr, b.buffer.p_fw = fr + fw, b.buffer.end = b.buffer.p_bw = fr + len;
    VC_SETR(b.ac.range, 64, 0xffffff); VC_SETR(b.ac.low, 0, 0xffffff);
    REQUIRES(b.ac.low < b.ac.range && fw + 2 <= len);
    b0 = b;
    lc3_ac_read_renorm(&b);
    int ns = b0.ac.range < 0x100 ? 2 : b0.ac.range < 0x10000 ? 1 : 0;
    unsigned low = b0.ac.low;
    if (ns > 0) low = low << 8 | fr[fw];
    if (ns > 1) low = low << 8 | fr[fw + 1];
    ENSURES(b.ac.range == b0.ac.range << 8*ns && b.ac.low == low && b.buffer.p_fw == fr + fw + ns, "next bytes of the value are read");
    REACHED("end");
}
void h_setup_content(void)
{
    IN_MEM(fr);
    IN_RANGE(len, 20, MAXLEN);
    memlen = len;
    lc3_setup_bits(&b, LC3_BITS_MODE_READ, fr, len);
    ENSURES(b.ac.low == (unsigned)(fr[0] << 16 | fr[1] << 8 | fr[2]) && b.ac.range == 0xffffff && b.buffer.p_fw == fr + 3, "first value");
    ENSURES(inv_content(&b) && nplain_r(&b) == 0 && inv_r(&b, fr, len), "start of the plain bits");
    lc3_setup_bits(&b, LC3_BITS_MODE_WRITE, fr, len);
    ENSURES(nwritten(&b) == 0 && value(&b.ac) == 0 && npend(&b.ac) == 0 && b.ac.range == 0xffffff && b.buffer.p_fw == fr, "empty streams");
    REACHED("end");
}

/* Termination: when it fits, the arithmetic code is in the final interval,
 * whatever follows, and the plain bits are all there */
#ifndef FREE_MAX
#define FREE_MAX 4
#endif
static struct { uint8_t m[16]; } sm;
void h_flush_content(void)
{
    IN_OBJ(sm);
    IN_RANGE(bw, 0, FREE_MAX); IN_RANGE(k, 0, 31);
    setup_ac_w(0x10000);
    b.mode = LC3_BITS_MODE_WRITE;
    b.buffer.start = b.buffer.p_fw = sm.m; b.buffer.end = sm.m + 8;
    b.buffer.p_bw = sm.m + bw;
    VC_SET(uint, b.accu.v); VC_SETR(b.accu.n, 0, 32);
    b.accu.nover = 0;
    if (b.accu.n < 32) b.accu.v &= (1u << b.accu.n) - 1;
    b0 = b;
    REQUIRES(lc3_check_bits(&b) == 0);
    uint64_t v = value(&b.ac);
    int nb = npend(&b.ac) + 3;
    sm.m[8] = sm.m[9] = sm.m[10] = 0;
    struct { uint8_t m[16]; } s0; memcpy(&s0, &sm, sizeof(s0));
    lc3_flush_bits(&b);
    /* First bytes of the code, as the reader gets them: more than of the value */
    uint64_t code = 0;
    for (int i = 0; i < 7; i++) code = code << 8 | sm.m[i];
    uint64_t vlo = v, vhi = v + b0.ac.range;
    for (int i = 0; i < 7; i++) if (i >= nb) vlo <<= 8, vhi <<= 8;
    ENSURES(nb <= 7 && code >= vlo && code < vhi, "the code is in the last interval");
    if (k < b0.accu.n)
        ENSURES(((sm.m[bw - 1 - (k >> 3)] >> (k & 7)) & 1) == ((b0.accu.v >> k) & 1), "the last plain bits are in the frame");
    if (k < 8 - bw)
        ENSURES(sm.m[bw + k] == s0.m[bw + k], "plain bits already written are kept");
    REACHED("end");
}
#endif

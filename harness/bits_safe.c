/* Confinement and invariants of the bitstream writer and reader */
#include "vc.h"
#include "src/bits.c"
#include "src/tables.c"
#include "bits_inv.h"

#ifndef FLUSHLEN
#define FLUSHLEN MAXLEN
#endif

#ifndef CC_MAX
#define CC_MAX 4
#endif

static uint8_t fr[FRAMEMEM];
static int wk; static uint8_t wv;
static lc3_bits_t b, b0;

static void setup_ac(bool write)
{
    VC_SETR(b.ac.low, 0, 0xffffff); VC_SETR(b.ac.range, 0x10000, 0xffffff);
    if (write) {
        VC_SETR(b.ac.cache, -1, 255); VC_SETR(b.ac.carry, 0, 1);
        VC_SETR(b.ac.carry_count, 0, CC_MAX);
        b.ac.error = false;
    } else {
        VC_SET(bool, b.ac.error);
        b.ac.cache = -1, b.ac.carry = b.ac.carry_count = 0;
    }
}

static void setup(int len, bool write)
{
    uint8_t *buf = fr + GUARD;
    IN_MEM(fr);
    IN_RANGE(fw, 0, len); IN_RANGE(bw, 0, len);
    b.mode = write ? LC3_BITS_MODE_WRITE : LC3_BITS_MODE_READ;
    b.buffer.start = buf, b.buffer.end = buf + len;
    b.buffer.p_fw = buf + fw, b.buffer.p_bw = buf + bw;
    VC_SET(uint, b.accu.v); VC_SETR(b.accu.n, 0, 32); VC_SETR(b.accu.nover, 0, 32);
    setup_ac(write);
    if (write) {
        if (b.accu.n < 32) b.accu.v &= (1u << b.accu.n) - 1;
        b.accu.nover = 0;
    }
    REQUIRES(write ? inv_w(&b, buf, len) : inv_r(&b, buf, len));
    b0 = b;
}

/* A byte of the memory, anywhere around or in the frame */

static void witness(void) { IN_RANGE(k, 0, (int)GUARD + MAXLEN + GUARD - 1); wk = k; wv = fr[k]; }

void h_put_bits(void)
{
    IN_RANGE(len, 20, MAXLEN); IN_RANGE(n, 1, 32); IN_UINT(v);
    setup(len, true); witness();
    if (n < 32) v &= (1u << n) - 1;
    uint8_t *buf = fr + GUARD;
    lc3_put_bits(&b, v, n);
    ENSURES(inv_w(&b, buf, len), "put_bits keeps the invariant");
    ENSURES(b.buffer.p_fw == b0.buffer.p_fw, "put_bits does not move the arithmetic coder");
    ENSURES(b.buffer.p_bw <= b0.buffer.p_bw, "put_bits goes backward");
    ENSURES(b.ac.low == b0.ac.low && b.ac.range == b0.ac.range && b.ac.cache == b0.ac.cache
         && b.ac.carry == b0.ac.carry && b.ac.carry_count == b0.ac.carry_count, "put_bits keeps the arithmetic coder");
    if (fr[wk] != wv)
        ENSURES(fr + wk >= b.buffer.p_bw && fr + wk < b0.buffer.p_bw
             && fr + wk >= b.buffer.p_fw, "put_bits writes between the two streams only");
    if (b.buffer.p_bw < b0.buffer.p_bw)
        REACHED("write");
}

/* Contract of the renormalization, at the calls */
void stub_write_renorm(lc3_bits_t *bits)
{
#ifdef VC_CBMC
    ENSURES(bits == &b && inv_w_ac(&bits->ac, 64), "precondition of the renormalization");
    if (bits->ac.range >= 0x10000)
        return;
    /* What it writes is the forward stream, after `p_fw` (h_write_renorm) */
    bits->ac.low = nondet_uint(), bits->ac.range = nondet_uint();
    bits->ac.cache = nondet_int(), bits->ac.carry = nondet_int(), bits->ac.carry_count = nondet_int();
    REQUIRES(inv_w_ac(&bits->ac, 0x10000));
#else
    lc3_ac_write_renorm(bits);
#endif
}

void h_write_renorm(void)
{
    IN_RANGE(len, 20, MAXLEN);
    setup(len, true); witness();
    uint8_t *buf = fr + GUARD;
    VC_SETR(b.ac.range, 64, 0xffffff); VC_SETR(b.ac.low, 0, 0xffffff);
    REQUIRES(inv_w_buf(&b, buf, len) && inv_w_ac(&b.ac, 64));
    b0 = b;
    lc3_ac_write_renorm(&b);
    ENSURES(inv_w(&b, buf, len), "renormalization establishes the invariant");
    ENSURES(b.buffer.p_bw == b0.buffer.p_bw && b.accu.v == b0.accu.v && b.accu.n == b0.accu.n, "renormalization keeps the plain bits");
    ENSURES(b.buffer.p_fw >= b0.buffer.p_fw, "renormalization goes forward");
    if (b0.ac.range >= 0x10000)
        ENSURES(b.ac.range == b0.ac.range && b.ac.low == b0.ac.low && b.ac.carry == b0.ac.carry
             && b.ac.cache == b0.ac.cache && b.buffer.p_fw == b0.buffer.p_fw, "no renormalization is needed");
    if (fr[wk] != wv)
        ENSURES(fr + wk >= b0.buffer.p_fw && fr + wk < b.buffer.p_fw, "renormalization writes the arithmetic coder stream only");
    if (b.buffer.p_fw > b0.buffer.p_fw)
        REACHED("write");
}

/* Lemmas on the interval of a symbol, with `r` the width of one frequency:
 * discharged on their own, for all the values, used as facts of arithmetic */
static bool lemma_add(unsigned r, unsigned low, unsigned freq)
{
    return r * low + r * freq == r * (low + freq);
}
static bool lemma_bound(unsigned r, unsigned freq)
{
    return r * freq <= (r << 10) && (freq == 0 ? r * freq == 0 : r * freq >= r);
}
#define LEMMA_INTERVAL(range_, low_, freq_) do { \
    unsigned r_ = (range_) >> 10; \
    REQUIRES(lemma_add(r_, low_, freq_)); \
    REQUIRES(lemma_bound(r_, low_) && lemma_bound(r_, freq_) && lemma_bound(r_, low_ + freq_)); \
} while (0)

void h_lemma_add(void)
{
    IN_UINT(r); IN_UINT(low); IN_UINT(freq);
    ENSURES(lemma_add(r, low, freq), "distributivity");
    REACHED("end");
}
void h_lemma_bound(void)
{
    IN_RANGE(r, 64, 16383); IN_RANGE(freq, 0, 1024);
    ENSURES(lemma_bound(r, freq), "bounds of the product");
    REACHED("end");
}

/* Any model and any possible symbol of the model.
 * The memory is accessed by the renormalization only */
static struct lc3_ac_model model;

void h_put_symbol(void)
{
    IN_RANGE(s, 0, 16); IN_RANGE(slow, 0, 1023); IN_RANGE(srange, 1, 1024);
    REQUIRES(slow + srange <= 1024);
    model.s[s].low = slow, model.s[s].range = srange;
    setup_ac(true);
    b.mode = LC3_BITS_MODE_WRITE;
    b.buffer.start = b.buffer.p_fw = fr, b.buffer.end = b.buffer.p_bw = fr + sizeof(fr);
    VC_SET(uint, b.accu.v); VC_SETR(b.accu.n, 0, 32);
    REQUIRES(inv_w_ac(&b.ac, 0x10000));
    LEMMA_INTERVAL(b.ac.range, model.s[s].low, model.s[s].range);
    b0 = b;
    lc3_put_symbol(&b, &model, s);
    ENSURES(inv_w_ac(&b.ac, 0x10000), "put_symbol keeps the invariant");
    ENSURES(b.accu.v == b0.accu.v && b.accu.n == b0.accu.n
         && b.buffer.p_bw == b0.buffer.p_bw && b.buffer.p_fw >= b0.buffer.p_fw
         && b.buffer.start == b0.buffer.start && b.buffer.end == b0.buffer.end, "put_symbol keeps the plain bits");
    REACHED("end");
}

/* Contract of lc3_put_bits_generic, at the calls of the flush: what it
 * writes is the backward stream, between the two pointers (h_put_bits) */
static bool stub_allowed;
void stub_put_bits_generic(lc3_bits_t *bits, unsigned v, int n)
{
#ifdef VC_CBMC
    ENSURES(bits == &b && n >= 1 && n <= 32 && (n == 32 || (v >> n) == 0)
        && bits->accu.n + n > 32 && bits->accu.n <= 32, "precondition of put bits");
    ENSURES(stub_allowed, "no plain bits behind the arithmetic coder stream");
    int moved = nondet_int();
    REQUIRES(moved >= 0 && moved <= bits->buffer.p_bw - bits->buffer.p_fw);
    bits->buffer.p_bw -= moved;
    bits->accu.n = nondet_int(); bits->accu.v = nondet_uint();
    REQUIRES(bits->accu.n >= 0 && bits->accu.n <= 32 && (bits->accu.n == 32 || (bits->accu.v >> (bits->accu.n & 31)) == 0));
#else
    (void)bits; (void)v; (void)n;
#endif
}

#ifdef VC_CBMC
#include <stdlib.h>
#else
extern void *malloc(size_t); extern void free(void *);
#endif

/* The two streams have not crossed: the memory which can be written is an
 * object of its own, any other access is out of bounds */
void h_flush(void)
{
    IN_RANGE(n, 0, FLUSHLEN); IN_RANGE(bw, 0, FLUSHLEN);
    REQUIRES(bw <= n);
    setup(20, true);
    uint8_t *mem = malloc(n);
    REQUIRES(mem != NULL);
    b.buffer.start = b.buffer.p_fw = mem;
    b.buffer.end = mem + n, b.buffer.p_bw = mem + bw;
    stub_allowed = true;
    lc3_flush_bits(&b);
    ENSURES(b.buffer.end == mem + n, "flush keeps the limits of the buffer");
    REACHED("end");
#ifndef VC_CBMC
    free(mem);
#endif
}

/* They have crossed: the plain bits are dropped */
void h_flush_crossed(void)
{
    IN_RANGE(len, 20, MAXLEN);
    setup(len, true); witness();
    uint8_t *buf = fr + GUARD;
    REQUIRES(b.buffer.p_bw <= b.buffer.p_fw);
    stub_allowed = false;
    lc3_flush_bits(&b);
    if (fr[wk] != wv)
        ENSURES(fr + wk >= b0.buffer.p_fw && fr + wk < buf + len, "flush writes in the buffer, after the arithmetic coder stream");
    ENSURES(b.buffer.end == buf + len, "flush keeps the limits of the buffer");
    REACHED("end");
}

void h_setup(void)
{
    IN_RANGE(len, 20, MAXLEN); IN_BOOL(write);
    uint8_t *buf = fr + GUARD;
    IN_MEM(fr); witness();
    lc3_setup_bits(&b, write ? LC3_BITS_MODE_WRITE : LC3_BITS_MODE_READ, buf, len);
    ENSURES(write ? inv_w(&b, buf, len) : inv_r(&b, buf, len), "setup establishes the invariant");
    ENSURES(fr[wk] == wv, "setup writes nothing");
    ENSURES(lc3_get_bits_left(&b) <= 8*len, "no more bits than the buffer");
    REACHED("end");
}

void h_get_bits(void)
{
    IN_RANGE(len, 20, MAXLEN); IN_RANGE(n, 1, 31);
    setup(len, false); witness();
    uint8_t *buf = fr + GUARD;
    int left0 = lc3_get_bits_left(&b), chk0 = lc3_check_bits(&b);
    unsigned v = lc3_get_bits(&b, n);
    ENSURES(inv_r(&b, buf, len), "get_bits keeps the invariant");
    ENSURES(fr[wk] == wv, "get_bits writes nothing");
    ENSURES((v >> n) == 0, "get_bits returns n bits");
    ENSURES(b.buffer.p_fw == b0.buffer.p_fw && b.ac.low == b0.ac.low
         && b.ac.range == b0.ac.range && b.ac.error == b0.ac.error, "get_bits keeps the arithmetic coder");
    if (n > left0 && chk0 == 0)
        ENSURES(lc3_check_bits(&b) < 0, "over-read is detected");
    if (chk0 < 0)
        ENSURES(lc3_check_bits(&b) < 0, "error is sticky");
    REACHED("end");
}

/* Contract of the renormalization, reading, at the calls */
void stub_read_renorm(lc3_bits_t *bits)
{
#ifdef VC_CBMC
    ENSURES(bits == &b && bits->ac.range >= 64 && bits->ac.range <= 0xffffff
        && bits->ac.low <= 0xffffff, "precondition of the renormalization");
    if (bits->ac.range < 0x10000) {
        bits->ac.range <<= (bits->ac.range < 0x100 ? 16 : 8);
        bits->ac.low = nondet_uint();
        REQUIRES(bits->ac.low <= 0xffffff);
    }
#else
    lc3_ac_read_renorm(bits);
#endif
}

void h_read_renorm(void)
{
    IN_RANGE(len, 20, MAXLEN); IN_RANGE(range, 64, 0xffffff);
    setup(len, false); witness();
    uint8_t *buf = fr + GUARD;
    b.ac.range = range;
    int chk0 = lc3_check_bits(&b), nplain = nplain_r(&b);
    b0 = b;
    lc3_ac_read_renorm(&b);
    ENSURES(inv_r(&b, buf, len), "renormalization establishes the invariant");
    ENSURES(b.ac.range == (unsigned)range << (range < 0x100 ? 16 : range < 0x10000 ? 8 : 0), "range of the renormalization");
    ENSURES(fr[wk] == wv, "renormalization writes nothing");
    ENSURES(b.buffer.p_bw == b0.buffer.p_bw && b.accu.v == b0.accu.v && b.accu.n == b0.accu.n
         && b.accu.nover == b0.accu.nover && b.ac.error == b0.ac.error, "renormalization keeps the plain bits");
    ENSURES(b.buffer.p_fw >= b0.buffer.p_fw && b.buffer.p_fw <= b0.buffer.p_fw + 2, "renormalization goes forward");
    if (chk0 < 0 && nplain >= 24)
        ENSURES(lc3_check_bits(&b) < 0, "error is sticky");
    REACHED("end");
}

/* Case split on the models of the codec: M_TAB[M_LO .. M_HI-1] */
#ifndef M_TAB
#define M_TAB lc3_tns_order_models
#define M_LO 0
#define M_HI 1
#endif

static void get_symbol(const struct lc3_ac_model *model)
{
    unsigned s = lc3_get_symbol(&b, model);
    ENSURES(s <= 16, "symbol in the alphabet");
    ENSURES(s <= 16 && model->s[s].range > 0, "symbol has a non null probability");
    ENSURES(b.ac.range >= 0x10000 && b.ac.range <= 0xffffff && b.ac.low <= 0xffffff
         && b.ac.cache == -1 && b.ac.carry == 0 && b.ac.carry_count == 0, "get_symbol keeps the invariant");
    ENSURES(b.accu.v == b0.accu.v && b.accu.n == b0.accu.n && b.accu.nover == b0.accu.nover
         && b.buffer.p_bw == b0.buffer.p_bw && b.buffer.p_fw >= b0.buffer.p_fw
         && b.buffer.start == b0.buffer.start && b.buffer.end == b0.buffer.end, "get_symbol keeps the plain bits");
    ENSURES(!b0.ac.error || b.ac.error, "arithmetic decoding error is sticky");
    if (b0.ac.low >= (b0.ac.range >> 10 << 10))
        ENSURES(b.ac.error, "value out of the interval is detected");
    REACHED("end");
}
void h_get_symbol(void)
{
    setup_ac(false);
    b.mode = LC3_BITS_MODE_READ;
    b.buffer.start = b.buffer.p_fw = fr, b.buffer.end = b.buffer.p_bw = fr + sizeof(fr);
    VC_SET(uint, b.accu.v); VC_SETR(b.accu.n, 0, 32); VC_SETR(b.accu.nover, 0, 32);
    b0 = b;
    IN_RANGE(m, M_LO, M_HI-1);
    for (int i = M_LO; i < M_HI; i++)
        if (m == i) { get_symbol(&M_TAB[i]); END_CASE(); }
}

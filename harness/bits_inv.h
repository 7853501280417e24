/* Invariants of the bitstream context, and abstract view of its content */
#ifndef BITS_INV_H
#define BITS_INV_H

#include "src/bits.h"

#define MAXLEN 640      /* above the largest frame, 625 bytes */
#define GUARD  8

/* The buffer of the frame lies between two guard areas
 * (above 1000 bytes, the verifier takes it as an array, and not as bits) */
#define FRAMEMEM 1024

/* Representation invariant, writing, arithmetic coder; the interval has at
 * least `rmin` values (less than 2^16 only before a renormalization) */
static bool inv_w_ac(const struct lc3_bits_ac *ac, unsigned rmin)
{
    return ac->range >= rmin && ac->range <= 0xffffff
        && ac->low <= 0xffffff
        && ac->cache >= -1 && ac->cache <= 255
        && ac->carry >= 0 && ac->carry <= 1 && ac->carry_count >= 0
        /* no carry can come from an interval which is below 2^24, or when
         * there is no cached byte to get it */
        && ac->low + ac->range + (ac->carry << 24) <= 0x1ffffff
        && ((ac->cache >= 0 && ac->cache < 255) ||
            (!ac->carry && ac->low + ac->range <= 0x1000000))
        /* before the first byte, the interval is below the initial one */
        && (ac->cache >= 0 || (ac->carry_count == 0 ?
                ac->low + ac->range <= 0xfffc00 || (ac->low == 0 && ac->range == 0xffffff) :
                ac->carry_count == 1 && ac->low + ac->range <= 0xfc0000))
        && !ac->error;
}

/* Representation invariant, writing */
static bool inv_w_buf(const lc3_bits_t *b, const uint8_t *buf, int len)
{
    return b->mode == LC3_BITS_MODE_WRITE
        && b->buffer.start == buf && b->buffer.end == buf + len
        && b->buffer.p_fw >= buf && b->buffer.p_fw <= buf + len
        && b->buffer.p_bw >= buf && b->buffer.p_bw <= buf + len
        && b->accu.n >= 0 && b->accu.n <= 32 && b->accu.nover == 0
        && (b->accu.n == 32 || (b->accu.v >> (b->accu.n & 31)) == 0);
}

static bool inv_w(const lc3_bits_t *b, const uint8_t *buf, int len)
{
    return inv_w_buf(b, buf, len) && inv_w_ac(&b->ac, 0x10000);
}

/* Representation invariant, reading */
static bool inv_r(const lc3_bits_t *b, const uint8_t *buf, int len)
{
    return b->mode == LC3_BITS_MODE_READ
        && b->buffer.start == buf && b->buffer.end == buf + len
        && b->buffer.p_fw >= buf + 3 && b->buffer.p_fw <= buf + len
        && b->buffer.p_bw >= buf && b->buffer.p_bw <= buf + len
        && b->accu.n >= 0 && b->accu.n <= 32
        && (b->accu.nover == 0 || b->buffer.p_bw == buf)
        && b->accu.nover >= 0 && b->accu.nover <= 32
        && b->ac.range >= 0x10000 && b->ac.range <= 0xffffff
        && b->ac.low <= 0xffffff
        && b->ac.cache == -1 && b->ac.carry == 0 && b->ac.carry_count == 0;
}

/* Number of plain bits read */
static int nplain_r(const lc3_bits_t *b)
{
    return 8 * (b->buffer.end - b->buffer.p_bw) - (32 - b->accu.n) + b->accu.nover;
}

/* Valid model: the cumulative frequencies are increasing, up to 1024 */
static bool inv_model(const struct lc3_ac_model *m)
{
    if (m->s[0].low != 0)
        return false;
    for (int i = 0; i < 16; i++)
        if (m->s[i].low + m->s[i].range != m->s[i+1].low)
            return false;
    return m->s[16].low + m->s[16].range == 1024;
}

#endif

/* Contract of the bitstream, as seen by the modules: a FIFO of fields.
 * Include it before the source of the module. */
#ifndef BITFIFO_H
#define BITFIFO_H
#include "vc.h"
#include "src/bits.h"

#ifndef FIFO_MAX
#define FIFO_MAX 40
#endif
/* Identity of the model of a symbol */
#ifndef MODEL_ID
#define MODEL_T const struct lc3_ac_model *
#define MODEL_ID(m) (m)
#define MODEL_HAS(m, i) ((m)->s[i].range > 0)
#endif
/* The bits and the symbols are two streams: the order between them is free */
static struct { unsigned v[FIFO_MAX]; int n[FIFO_MAX]; } fifo;
static struct { unsigned v[FIFO_MAX]; MODEL_T m[FIFO_MAX]; } sym;
static int fifo_w, fifo_r, sym_w, sym_r, fifo_nbits;
#define FIFO_WRITTEN (fifo_w + sym_w)
#define FIFO_EMPTY   (fifo_r == fifo_w && sym_r == sym_w)
static bool fifo_free;          /* Read of an arbitrary frame */

static void spec_put_bits(lc3_bits_t *bits, unsigned v, int n)
{
    ENSURES(n >= 1 && n <= 25, "width of a written field");
    ENSURES(v < 1u << n, "written value fits in the field");
    ENSURES(fifo_w < FIFO_MAX, "number of fields");
    fifo.v[fifo_w] = v, fifo.n[fifo_w] = n;
    fifo_w++, fifo_nbits += n;
}
static void spec_put_symbol(lc3_bits_t *bits, const struct lc3_ac_model *model, unsigned s)
{
    ENSURES(s < 17, "symbol of the alphabet");
    ENSURES(MODEL_HAS(model, s), "symbol with probability");
    ENSURES(sym_w < FIFO_MAX, "number of symbols");
    sym.v[sym_w] = s, sym.m[sym_w] = MODEL_ID(model);
    sym_w++;
}
static unsigned spec_get_bits(lc3_bits_t *bits, int n)
{
    ENSURES(n >= 1 && n <= 25, "width of a read field");
    if (fifo_free) {
        IN_UINT(get_v);
#ifndef VC_CBMC
        get_v &= (1u << n) - 1;
#endif
        REQUIRES(get_v < 1u << n); fifo_nbits += n; return get_v;
    }
    ENSURES(fifo_r < fifo_w && fifo.n[fifo_r] == n, "the field read is the one written");
    return fifo.v[fifo_r++];
}
static unsigned spec_get_symbol(lc3_bits_t *bits, const struct lc3_ac_model *model)
{
    if (fifo_free) {
        IN_UINT(get_s);
#ifndef VC_CBMC
        get_s %= 17;
#endif
        REQUIRES(get_s < 17 && MODEL_HAS(model, get_s)); return get_s;
    }
    ENSURES(sym_r < sym_w && sym.m[sym_r] == MODEL_ID(model), "the symbol read is the one written");
    return sym.v[sym_r++];
}
static void fifo_start(bool arbitrary) { fifo_w = fifo_r = sym_w = sym_r = fifo_nbits = 0; fifo_free = arbitrary; }

#define lc3_put_bits spec_put_bits
#define lc3_put_bit(b, v) spec_put_bits(b, v, 1)
#define lc3_get_bits spec_get_bits
#define lc3_get_bit(b) spec_get_bits(b, 1)
#define lc3_put_symbol spec_put_symbol
#define lc3_get_symbol spec_get_symbol
#endif

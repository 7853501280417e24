/*
 * Specification layer shared by all the contract harnesses.
 *
 * The same harness text has two readings:
 *
 *  - compiled by goto-cc (VC_CBMC defined), the inputs are unconstrained
 *    values, REQUIRES() restricts them to the precondition of the contract,
 *    ENSURES() is an obligation the verifier has to discharge;
 *
 *  - compiled by gcc with the sanitizers (VC_NATIVE), the inputs are read
 *    from a counterexample of the verifier (replay) or drawn at random, and
 *    an obligation which fails aborts with its name.
 */
#ifndef VC_H
#define VC_H

#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <string.h>
#include <limits.h>
#include <math.h>

/* End of one case of a case split: the cases are not merged */
#define END_CASE()       REQUIRES(0)

#ifdef VC_CBMC

#define VC_DECL(T, N) T nondet_##N(void);
VC_DECL(_Bool, bool) VC_DECL(int, int) VC_DECL(unsigned, uint)
VC_DECL(int8_t, i8) VC_DECL(uint8_t, u8)
VC_DECL(int16_t, i16) VC_DECL(uint16_t, u16)
VC_DECL(int64_t, i64) VC_DECL(uint64_t, u64)
VC_DECL(float, float)

#define VC_IN(T, N, x)  T x = nondet_##N(); __CPROVER_input(#x, x)
#define VC_SET(N, lv)   do { lv = nondet_##N(); __CPROVER_input(#lv, lv); } while (0)
/* Unconstrained content of an object (use a structure to hold arrays) */
#define IN_OBJ(o)       do { __CPROVER_havoc_object(&(o)); \
                             __CPROVER_input(#o, o); } while (0)
/* Unconstrained content of an array, not recorded in the counterexamples */
#define IN_MEM(a)       __CPROVER_havoc_object(a)

#define REQUIRES(c)      __CPROVER_assume(c)
#define ENSURES(c, name) __CPROVER_assert(c, "ensures: " name)
/* Must be reachable: the runner requires that this one FAILS */
#define REACHED(name)    __CPROVER_assert(0, "reach: " name)

#else /* native */

#include <stdio.h>
#include <stdlib.h>

extern uint64_t vc_input(const char *name, int nbits);
extern void vc_fail(const char *name) __attribute__((noreturn));
extern void vc_skip(void) __attribute__((noreturn));
extern void vc_reached(const char *name);
extern void vc_noise(void *p, size_t n);
extern void vc_bytes(const char *name, void *p, size_t n);

static inline bool     nondet_bool(const char *n) { return vc_input(n, 1) & 1; }
static inline int      nondet_int(const char *n)  { return (int)vc_input(n, 32); }
static inline unsigned nondet_uint(const char *n) { return (unsigned)vc_input(n, 32); }
static inline int8_t   nondet_i8(const char *n)   { return (int8_t)vc_input(n, 8); }
static inline uint8_t  nondet_u8(const char *n)   { return (uint8_t)vc_input(n, 8); }
static inline int16_t  nondet_i16(const char *n)  { return (int16_t)vc_input(n, 16); }
static inline uint16_t nondet_u16(const char *n)  { return (uint16_t)vc_input(n, 16); }
static inline int64_t  nondet_i64(const char *n)  { return (int64_t)vc_input(n, 64); }
static inline uint64_t nondet_u64(const char *n)  { return (uint64_t)vc_input(n, 64); }
static inline float    nondet_float(const char *n) {
    union { uint32_t u; float f; } v = { (uint32_t)vc_input(n, 32) }; return v.f; }

#define VC_IN(T, N, x)  T x = nondet_##N(#x)
#define VC_SET(N, lv)   do { lv = nondet_##N(#lv); } while (0)
#define IN_OBJ(o)       vc_bytes(#o, &(o), sizeof(o))
#define IN_MEM(a)       vc_noise(a, sizeof(a))

#define REQUIRES(c)      do { if (!(c)) vc_skip(); } while (0)
#define ENSURES(c, name) do { if (!(c)) vc_fail(name); } while (0)
#define REACHED(name)    vc_reached(name)

#endif

#define IN_BOOL(x)  VC_IN(bool, bool, x)
#define IN_INT(x)   VC_IN(int, int, x)
#define IN_UINT(x)  VC_IN(unsigned, uint, x)
#define IN_U8(x)    VC_IN(uint8_t, u8, x)
#define IN_U16(x)   VC_IN(uint16_t, u16, x)
#define IN_I16(x)   VC_IN(int16_t, i16, x)
#define IN_I64(x)   VC_IN(int64_t, i64, x)
#define IN_FLOAT(x) VC_IN(float, float, x)
/* Integer in [lo, hi]; native random mode draws inside the range */
#ifdef VC_CBMC
#define IN_RANGE(x, lo, hi) IN_INT(x); REQUIRES(x >= (lo) && x <= (hi))
#define VC_SETR(lv, lo, hi) do { VC_IN(int, int, vc_v); REQUIRES(vc_v >= (lo) && vc_v <= (hi)); lv = vc_v; } while (0)
#else
extern int vc_range(const char *name, int lo, int hi);
#define IN_RANGE(x, lo, hi) int x = vc_range(#x, (lo), (hi)); REQUIRES(x >= (lo) && x <= (hi))
#define VC_SETR(lv, lo, hi) do { int vc_v = vc_range("vc_v", (lo), (hi)); REQUIRES(vc_v >= (lo) && vc_v <= (hi)); lv = vc_v; } while (0)
#endif

#endif /* VC_H */

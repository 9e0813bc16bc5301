/* Harness vocabulary shared by the verifier build (CBMC, PTV_CBMC defined by the
 * runner) and the native replay/search build (gcc + address sanitizer).
 *
 *   PTV_ND_*        an unconstrained input (logged, so that it can be replayed)
 *   PTV_ASSUME(c)   precondition: restrict the inputs
 *   PTV_CHECK(c,m)  obligation
 *   PTV_REACH()     must be reachable (vacuity guard)
 *   PTV_REQUIRES/ENSURES/ASSIGNS/LOOP...   contract clauses, empty natively
 */
#ifndef PTV_H
#define PTV_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <stdio.h>
#include <math.h>

#ifdef PTV_CBMC

uint64_t nondet_ptv_u64(void);
uint64_t ptv_log;
static inline uint64_t ptv_nd(int bits)
{
	uint64_t v = nondet_ptv_u64();
	if (bits < 64)
		v &= (((uint64_t)1 << bits) - 1);
	ptv_log = v;
	return v;
}
static inline uint64_t ptv_range(uint64_t lo, uint64_t hi)
{
	uint64_t v = nondet_ptv_u64();
	__CPROVER_assume(lo <= v && v <= hi);
	ptv_log = v;
	return v;
}
#define PTV_ASSUME(c) __CPROVER_assume(c)
#define PTV_CHECK(c, m) __CPROVER_assert(c, "PTV " m)
#define PTV_REACH() __CPROVER_assert(0, "ptv_reach")
#define PTV_REQUIRES(c) __CPROVER_requires(c)
#define PTV_ENSURES(c) __CPROVER_ensures(c)
#define PTV_ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define PTV_RET __CPROVER_return_value
#define PTV_OLD(x) __CPROVER_old(x)
static inline void* ptv_malloc(size_t n)
{
	void* p = malloc(n);
	__CPROVER_assume(p != 0);
	return p;
}
#define PTV_CBMC_ONLY(...) __VA_ARGS__
#define PTV_NATIVE_ONLY(...)

#else /* native */

uint64_t ptv_nd(int bits);
uint64_t ptv_range(uint64_t lo, uint64_t hi);
void ptv_skip(void) __attribute__((noreturn));
void ptv_fail(const char* msg, const char* file, int line) __attribute__((noreturn));
void ptv_reached(void);
void* ptv_malloc(size_t n);
#define PTV_ASSUME(c) do { if (!(c)) ptv_skip(); } while (0)
#define PTV_CHECK(c, m) do { if (!(c)) ptv_fail(m, __FILE__, __LINE__); } while (0)
#define PTV_REACH() ptv_reached()
#define PTV_CBMC_ONLY(...)
#define PTV_NATIVE_ONLY(...) __VA_ARGS__

#endif

#define PTV_U8()  ((uint8_t)ptv_nd(8))
#define PTV_U16() ((uint16_t)ptv_nd(16))
#define PTV_U32() ((uint32_t)ptv_nd(32))
#define PTV_U64() ((uint64_t)ptv_nd(64))
#define PTV_I8()  ((int8_t)ptv_nd(8))
#define PTV_I16() ((int16_t)ptv_nd(16))
#define PTV_I32() ((int32_t)ptv_nd(32))
#define PTV_I64() ((int64_t)ptv_nd(64))
#define PTV_BOOL() ((int)ptv_nd(1))
static inline float ptv_float_bits(uint32_t b) { union { uint32_t u; float f; } x; x.u = b; return x.f; }
#define PTV_FLOAT() ptv_float_bits(PTV_U32())

#define PTV_SGN(x) (((x) > 0) - ((x) < 0))

#endif

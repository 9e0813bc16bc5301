/*PTV
{
 "functions": ["pointless_bitvector_is_set_bits", "pointless_bitvector_is_set", "pointless_bitvector_n_bits", "pointless_bitvector_is_any_set", "pointless_bitvector_hash_32_priv", "pointless_bitvector_hash_64_priv", "pointless_bitvector_hash_32", "pointless_bitvector_hash_64", "pointless_bitvector_hash_buffer_32", "pointless_bitvector_hash_buffer_64", "pointless_bitvector_hash_n_bits_bits_32", "pointless_bitvector_hash_n_bits_bits_64", "pointless_bitvector_cmp_buffer_buffer", "pointless_bitvector_cmp_bits_buffer", "pointless_bitvector_cmp_buffer_bits", "pointless_bitvector_cmp_buffer", "bm_is_set_"],
 "assumptions": ["a heap buffer is as long as its length word says, a packed value has at most 27 bits (what validation establishes: P12)", "the comparison is specified by the first differing position gd (prophecy): below it the two sequences agree", "the hash is specified as the fold of the bits taken in order: the fold is a function of the bits alone, hence independent of the storage form"],
 "contracts": [
  {"id": "bit", "harness": "h_bit", "enforce": "pointless_bitvector_is_set_bits", "solver": "cadical", "unwind": 2, "defs": ["KIND=1"], "variants": ["T=POINTLESS_BITVECTOR", "T=POINTLESS_BITVECTOR_0", "T=POINTLESS_BITVECTOR_1", "T=POINTLESS_BITVECTOR_01", "T=POINTLESS_BITVECTOR_10", "T=POINTLESS_BITVECTOR_PACKED"]},
  {"id": "is_set", "harness": "h_is_set", "enforce": "pointless_bitvector_is_set", "replace": ["pointless_bitvector_is_set_bits"], "solver": "cadical", "unwind": 2, "defs": ["KIND=2"]},
  {"id": "nbits", "harness": "h_nbits", "enforce": "pointless_bitvector_n_bits", "solver": "cadical", "unwind": 2, "defs": ["KIND=3"]},
  {"id": "any", "harness": "h_any", "enforce": "pointless_bitvector_is_any_set", "replace": ["pointless_bitvector_is_set", "pointless_bitvector_n_bits"], "loops": true, "solver": "cadical", "unwind": 2, "defs": ["KIND=4"]},
  {"id": "hash", "harness": "h_hash", "enforce": "pointless_bitvector_hash_{W}_priv", "replace": ["pointless_bitvector_is_set_bits"], "loops": true, "solver": "cadical", "unwind": 2, "defs": ["KIND=5"], "variants": ["W=32", "W=64"]},
  {"id": "hashw", "harness": "h_hashw", "enforce": "{F}", "replace": ["pointless_bitvector_hash_{W}_priv", "pointless_bitvector_n_bits"], "solver": "cadical", "unwind": 2, "defs": ["KIND=6"], "variants": ["W=32 F=pointless_bitvector_hash_32", "W=64 F=pointless_bitvector_hash_64"]},
  {"id": "hashb", "harness": "h_hashb", "enforce": "{F}", "replace": ["pointless_bitvector_hash_{W}_priv", "pointless_bitvector_n_bits"], "solver": "cadical", "unwind": 2, "defs": ["KIND=7"], "variants": ["W=32 F=pointless_bitvector_hash_buffer_32", "W=64 F=pointless_bitvector_hash_buffer_64"]},
  {"id": "hashn", "harness": "h_hashn", "enforce": "{F}", "replace": ["pointless_bitvector_hash_{W}_priv"], "solver": "cadical", "unwind": 2, "defs": ["KIND=8"], "variants": ["W=32 F=pointless_bitvector_hash_n_bits_bits_32", "W=64 F=pointless_bitvector_hash_n_bits_bits_64"]},
  {"id": "cmp", "harness": "h_cmp", "enforce": "pointless_bitvector_cmp_buffer_buffer", "replace": ["pointless_bitvector_is_set", "pointless_bitvector_n_bits"], "loops": true, "solver": "cadical", "unwind": 2, "defs": ["KIND=9", "SHAPE=0"]},
  {"id": "cmp", "harness": "h_cmp", "enforce": "{F}", "replace": ["pointless_bitvector_is_set", "pointless_bitvector_n_bits", "bm_is_set_"], "loops": true, "solver": "cadical", "unwind": 2, "defs": ["KIND=9"], "variants": ["SHAPE=1 F=pointless_bitvector_cmp_bits_buffer", "SHAPE=2 F=pointless_bitvector_cmp_buffer_bits"]},
  {"id": "cmpb", "harness": "h_cmpb", "enforce": "pointless_bitvector_cmp_buffer", "replace": ["pointless_bitvector_cmp_buffer_buffer"], "solver": "cadical", "unwind": 2, "defs": ["KIND=10"]}
 ],
 "native": [{"harness": "h_native_bits", "secs": 1.5}, {"harness": "h_native_cmp", "secs": 3}, {"harness": "h_native_hash", "secs": 3}],
 "src": ["src/bitutils.c"]
}
PTV*/
#include "ptv.h"
#include <pointless/pointless_defs.h>
#include <pointless/bitutils.h>
#include "bv.h"
#ifndef KIND
#define KIND 0
#endif
#ifndef T
#define T POINTLESS_BITVECTOR
#endif
#ifndef W
#define W 32
#endif
#define CAT_(a, b, c) a##b##c
#define CAT(a, b, c) CAT_(a, b, c)
#define TH CAT(uint, W, _t)

/* ---------------------------------------------------------------- ghosts */
pointless_value_data_t ga, gb;      /* operands */
uint32_t gta, gtb; uint8_t *gbufa, *gbufb; uint32_t gna, gnb;
uint32_t gd, gda;                   /* first differing position, and the left operand's bit there */
uint64_t gidx; uint32_t gval;       /* the last position asked for, and its (common) bit */
uint64_t gnext; TH gh, gfold, gacc; /* the fold of the bits */
pointless_value_t gva, gvb;
uint64_t gk; uint32_t gkb;          /* an arbitrary position, and its bit */

#ifdef PTV_CBMC
#define ISBV(t) ((t) == POINTLESS_BITVECTOR || (t) == POINTLESS_BITVECTOR_0 || (t) == POINTLESS_BITVECTOR_1 || (t) == POINTLESS_BITVECTOR_01 || (t) == POINTLESS_BITVECTOR_10 || (t) == POINTLESS_BITVECTOR_PACKED)
#if KIND == 1
static uint32_t pointless_bitvector_is_set_bits(uint32_t t, pointless_value_data_t* v, void* bits, uint32_t bit)
PTV_REQUIRES(t == gta && v == &ga && (t != POINTLESS_BITVECTOR || bits == gbufa + 4) && bit < gna)
PTV_ASSIGNS()
PTV_ENSURES(PTV_RET == spec_bit(t, v, gbufa, bit));
#elif KIND == 2
static uint32_t pointless_bitvector_is_set_bits(uint32_t t, pointless_value_data_t* v, void* bits, uint32_t bit)
PTV_REQUIRES(t == gta && v == &ga && (t != POINTLESS_BITVECTOR || bits == gbufa + 4) && bit < gna)
PTV_ASSIGNS()
PTV_ENSURES(PTV_RET == (bit == gk ? gkb : !gkb));
uint32_t pointless_bitvector_is_set(uint32_t t, pointless_value_data_t* v, void* buffer, uint32_t bit)
PTV_REQUIRES(t == gta && v == &ga && (t != POINTLESS_BITVECTOR || buffer == gbufa) && bit < gna && bit == gk)
PTV_ASSIGNS()
PTV_ENSURES(PTV_RET == gkb);
#elif KIND == 3
uint32_t pointless_bitvector_n_bits(uint32_t t, pointless_value_data_t* v, void* buffer)
PTV_REQUIRES(t == gta && v == &ga && (t != POINTLESS_BITVECTOR || buffer == gbufa))
PTV_ASSIGNS()
PTV_ENSURES(PTV_RET == spec_n(t, v, gbufa));
#elif KIND == 4
/* gd: the first set bit (gd >= gna: there is none) */
uint32_t pointless_bitvector_n_bits(uint32_t t, pointless_value_data_t* v, void* buffer)
PTV_REQUIRES(t == gta && v == &ga && (t != POINTLESS_BITVECTOR || buffer == gbufa))
PTV_ASSIGNS()
PTV_ENSURES(PTV_RET == gna);
uint32_t pointless_bitvector_is_set(uint32_t t, pointless_value_data_t* v, void* buffer, uint32_t bit)
PTV_REQUIRES(t == gta && v == &ga && (t != POINTLESS_BITVECTOR || buffer == gbufa) && bit < gna)
PTV_ASSIGNS()
PTV_ENSURES(PTV_RET <= 1 && (bit > gd || PTV_RET == (bit == gd)));
uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, void* buffer)
PTV_REQUIRES(t == gta && v == &ga && (t != POINTLESS_BITVECTOR || buffer == gbufa))
PTV_ASSIGNS()
PTV_ENSURES(PTV_RET == (gd < gna));
#define PTV_LOOP_bitvector_any(i, n) __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= n && i <= gd && n == gna) __CPROVER_decreases(n - i)
#elif KIND == 5
#define SEED 1000000001L
static uint32_t pointless_bitvector_is_set_bits(uint32_t t, pointless_value_data_t* v, void* bits, uint32_t bit)
PTV_REQUIRES(t == gta && v == &ga && bits == gbufa && bit == gnext && gnext < gna)
PTV_ASSIGNS(gnext, gacc, gfold)
PTV_ENSURES(PTV_RET <= 1 && gnext == (uint64_t)bit + 1)
PTV_ENSURES((gnext % 8 == 0 || gnext == gna) ?
  (gacc == 0 && gfold == (TH)(PTV_OLD(gfold) * SEED + (PTV_OLD(gacc) | ((TH)PTV_RET << (bit % 8))))) :
  (gfold == PTV_OLD(gfold) && gacc == (PTV_OLD(gacc) | ((TH)PTV_RET << (bit % 8)))));
#define PTV_LOOP_bitvector_hash(i, n, h, b, j) __CPROVER_assigns(i, h, b, j, gnext, gacc, gfold) __CPROVER_loop_invariant(n == gna && i <= n && gnext == i && h == gfold && gacc == 0 && (i % 8 == 0 || i == n)) __CPROVER_decreases(n - i)
#define PTV_LOOP_bitvector_hash_byte(i, n, h, b, j) __CPROVER_assigns(i, b, j, gnext, gacc, gfold) __CPROVER_loop_invariant(n == gna && i <= n && j <= 8 && j <= i && i - j == __CPROVER_loop_entry(i) && (j > 0 || i < n) && gnext == i && \
  ((j > 0 && (j == 8 || i == n)) ? (gacc == 0 && gfold == (TH)(h * SEED + b)) : (gacc == b && gfold == h))) __CPROVER_decreases(n - i)
TH CAT(pointless_bitvector_hash_, W, _priv)(uint32_t t, pointless_value_data_t* v, uint32_t n_bits, void* bits)
PTV_REQUIRES(t == gta && v == &ga && bits == gbufa && n_bits == gna && gnext == 0 && gacc == 0 && gfold == 1)
PTV_ASSIGNS(gnext, gacc, gfold)
PTV_ENSURES(PTV_RET == gfold && gnext == gna);
#elif KIND >= 6 && KIND <= 8
/* the fold is a function of the bits; gh stands for its value */
uint32_t pointless_bitvector_n_bits(uint32_t t, pointless_value_data_t* v, void* buffer)
PTV_REQUIRES(t == gta && (KIND != 6 || v == &ga) && (t != POINTLESS_BITVECTOR || buffer == gbufa))
PTV_ASSIGNS()
PTV_ENSURES(PTV_RET == gna);
TH CAT(pointless_bitvector_hash_, W, _priv)(uint32_t t, pointless_value_data_t* v, uint32_t n_bits, void* bits)
PTV_REQUIRES(t == gta && (KIND != 6 || v == &ga) && n_bits == gna && (t != POINTLESS_BITVECTOR || bits == gbufa + 4))
PTV_ASSIGNS()
PTV_ENSURES(PTV_RET == gh);
#if KIND == 6
TH F(uint32_t t, pointless_value_data_t* v, void* buffer)
PTV_REQUIRES(t == gta && v == &ga && buffer == gbufa)
PTV_ASSIGNS() PTV_ENSURES(PTV_RET == gh);
#elif KIND == 7
TH F(void* buffer)
PTV_REQUIRES(buffer == gbufa) PTV_ASSIGNS() PTV_ENSURES(PTV_RET == gh);
#else
TH F(uint32_t n_bits, void* bits)
PTV_REQUIRES(n_bits == gna && bits == gbufa + 4) PTV_ASSIGNS() PTV_ENSURES(PTV_RET == gh);
#endif
#elif KIND == 9
#define MINN (gna < gnb ? gna : gnb)
#define SPECCMP (gd < MINN ? (gda ? 1 : -1) : gna == gnb ? 0 : gna < gnb ? -1 : 1)
#if SHAPE == 0
#define PA (&ga)
#define PB (&gb)
#else
#define PA (&gva.data)
#define PB (&gvb.data)
#endif
uint32_t pointless_bitvector_n_bits(uint32_t t, pointless_value_data_t* v, void* buffer)
PTV_REQUIRES((SHAPE != 1 && v == PA && t == gta && buffer == gbufa) || (SHAPE != 2 && v == PB && t == gtb && buffer == gbufb))
PTV_ASSIGNS()
PTV_ENSURES(PTV_RET == (v == PA ? gna : gnb));
/* agreement below gd: asking for the same position again gives the same bit */
#define ANSWER(r, bit, left) ((r) <= 1 && (bit) == gidx && ((bit) >= gd || (r) == gval) && ((bit) >= gd || (bit) != PTV_OLD(gidx) || gval == PTV_OLD(gval)) && ((bit) != gd || (r) == ((left) ? gda : !gda)))
uint32_t pointless_bitvector_is_set(uint32_t t, pointless_value_data_t* v, void* buffer, uint32_t bit)
PTV_REQUIRES((SHAPE != 1 && v == PA && t == gta && buffer == gbufa && bit < gna) || (SHAPE != 2 && v == PB && t == gtb && buffer == gbufb && bit < gnb))
PTV_ASSIGNS(gidx, gval)
PTV_ENSURES(ANSWER(PTV_RET, bit, v == PA));
#if SHAPE
unsigned char bm_is_set_(void* bitmask, uint64_t bit)
PTV_REQUIRES(bitmask == (SHAPE == 1 ? gbufa : gbufb) && bit < (SHAPE == 1 ? gna : gnb))
PTV_ASSIGNS(gidx, gval)
PTV_ENSURES(ANSWER((uint32_t)(PTV_RET != 0), bit, SHAPE == 1));
#endif
#define PTV_LOOP_bitvector_cmp(i, n, ba, bb) __CPROVER_assigns(i, ba, bb, gidx, gval) __CPROVER_loop_invariant(i <= n && i <= gd) __CPROVER_decreases(n - i)
#if SHAPE == 0
int32_t pointless_bitvector_cmp_buffer_buffer(uint32_t t_a, pointless_value_data_t* v_a, void* buffer_a, uint32_t t_b, pointless_value_data_t* v_b, void* buffer_b)
PTV_REQUIRES(t_a == gta && v_a == &ga && buffer_a == gbufa && t_b == gtb && v_b == &gb && buffer_b == gbufb)
#elif SHAPE == 1
int32_t F(uint32_t n_bits_a, void* bits_a, pointless_value_t* v_b, void* buffer_b)
PTV_REQUIRES(n_bits_a == gna && bits_a == gbufa && v_b == &gvb && gvb.type == gtb && buffer_b == gbufb)
#else
int32_t F(pointless_value_t* v_a, void* buffer_a, uint32_t n_bits_b, void* bits_b)
PTV_REQUIRES(v_a == &gva && gva.type == gta && buffer_a == gbufa && n_bits_b == gnb && bits_b == gbufb)
#endif
PTV_ASSIGNS(gidx, gval)
PTV_ENSURES(PTV_RET == SPECCMP);
#elif KIND == 10
int32_t pointless_bitvector_cmp_buffer_buffer(uint32_t t_a, pointless_value_data_t* v_a, void* buffer_a, uint32_t t_b, pointless_value_data_t* v_b, void* buffer_b)
PTV_REQUIRES(t_a == POINTLESS_BITVECTOR && t_b == POINTLESS_BITVECTOR && ((buffer_a == gbufa && buffer_b == gbufb) || (buffer_a == gbufb && buffer_b == gbufa)))
PTV_ASSIGNS()
PTV_ENSURES(PTV_RET == (buffer_a == gbufa ? (int32_t)gval : -(int32_t)gval));
int32_t pointless_bitvector_cmp_buffer(void* a, void* b)
PTV_REQUIRES(a == gbufa && b == gbufb && (gval + 1 <= 2)) PTV_ASSIGNS() PTV_ENSURES(PTV_RET == (int32_t)gval);
#endif
#ifdef POINTLESS_PTV
#ifndef PTV_LOOP_bitvector_any
#define PTV_LOOP_bitvector_any(i, n)
#endif
#ifndef PTV_LOOP_bitvector_hash
#define PTV_LOOP_bitvector_hash(i, n, h, b, j)
#define PTV_LOOP_bitvector_hash_byte(i, n, h, b, j)
#endif
#ifndef PTV_LOOP_bitvector_cmp
#define PTV_LOOP_bitvector_cmp(i, n, ba, bb)
#endif
#endif
#endif
#include "/repo/src/pointless_bitvector.c"

#ifdef PTV_CBMC
/* one operand: any type and payload; a heap buffer as long as its length word says */
static void operand(uint32_t* t, pointless_value_data_t* d, uint8_t** buf, uint32_t* n)
{
	*t = PTV_U8(); PTV_ASSUME(ISBV(*t));
	d->data_u32 = PTV_U32();
	*n = PTV_U32();
	*buf = malloc(sizeof(uint8_t) * (4 + ((uint64_t)*n + 7) / 8));
	PTV_ASSUME(*buf != 0);
}
static void size_is(uint32_t t, pointless_value_data_t* d, uint8_t* buf, uint32_t n) { PTV_ASSUME(spec_n(t, d, buf) == n); }
#endif
void h_bit(void)
{
#if KIND == 1
	uint32_t i = PTV_U32();
	operand(&gta, &ga, &gbufa, &gna); PTV_ASSUME(gta == T); PTV_ASSUME(gta != POINTLESS_BITVECTOR_PACKED || gna <= 27); size_is(gta, &ga, gbufa, gna);
	PTV_ASSUME(i < gna);
	pointless_bitvector_is_set_bits(gta, &ga, gta == POINTLESS_BITVECTOR ? gbufa + 4 : 0, i);
	PTV_REACH();
#endif
}
void h_is_set(void)
{
#if KIND == 2
	operand(&gta, &ga, &gbufa, &gna); gk = PTV_U32(); gkb = PTV_BOOL(); PTV_ASSUME(gk < gna);
	pointless_bitvector_is_set(gta, &ga, gta == POINTLESS_BITVECTOR ? gbufa : 0, (uint32_t)gk);
	PTV_REACH();
#endif
}
void h_nbits(void)
{
#if KIND == 3
	operand(&gta, &ga, &gbufa, &gna);
	pointless_bitvector_n_bits(gta, &ga, gbufa);
	PTV_REACH();
#endif
}
void h_any(void)
{
#if KIND == 4
	operand(&gta, &ga, &gbufa, &gna);
	gd = PTV_U32();
	/* the specification of the compressed forms, and gd the first set bit */
	PTV_ASSUME(gta == POINTLESS_BITVECTOR || spec_n(gta, &ga, gbufa) == gna);
	gk = PTV_U32(); PTV_ASSUME(gk < gna || gna == 0);
	if (gta == POINTLESS_BITVECTOR_0) PTV_ASSUME(gd >= gna);
	if (gta == POINTLESS_BITVECTOR_1) PTV_ASSUME(gd == 0);
	if (gta == POINTLESS_BITVECTOR_01) PTV_ASSUME(gd == (ga.data_u32 & 0xffff));
	if (gta == POINTLESS_BITVECTOR_10) PTV_ASSUME((ga.data_u32 & 0xffff) ? gd == 0 : gd >= gna);
	pointless_bitvector_is_any_set(gta, &ga, gbufa);
	PTV_REACH();
#endif
}
void h_hash(void)
{
#if KIND == 5
	operand(&gta, &ga, &gbufa, &gna);
	gnext = 0; gacc = 0; gfold = 1;
	CAT(pointless_bitvector_hash_, W, _priv)(gta, &ga, gna, gbufa);
	PTV_REACH();
#endif
}
void h_hashw(void)
{
#if KIND == 6
	operand(&gta, &ga, &gbufa, &gna); gh = (TH)PTV_U64();
	F(gta, &ga, gbufa);
	PTV_REACH();
#endif
}
void h_hashb(void)
{
#if KIND == 7
	operand(&gta, &ga, &gbufa, &gna); gh = (TH)PTV_U64(); gta = POINTLESS_BITVECTOR;
	F(gbufa);
	PTV_REACH();
#endif
}
void h_hashn(void)
{
#if KIND == 8
	operand(&gta, &ga, &gbufa, &gna); gh = (TH)PTV_U64(); gta = POINTLESS_BITVECTOR;
	F(gna, gbufa + 4);
	PTV_REACH();
#endif
}
void h_cmp(void)
{
#if KIND == 9
	operand(&gta, &ga, &gbufa, &gna); operand(&gtb, &gb, &gbufb, &gnb);
	gva.type = gta; gvb.type = gtb; gva.data = ga; gvb.data = gb;
	gd = PTV_U32(); gda = PTV_BOOL(); gidx = UINT64_MAX;
#if SHAPE == 0
	pointless_bitvector_cmp_buffer_buffer(gta, &ga, gbufa, gtb, &gb, gbufb);
#elif SHAPE == 1
	F(gna, gbufa, &gvb, gbufb);
#else
	F(&gva, gbufa, gnb, gbufb);
#endif
	PTV_REACH();
#endif
}
void h_cmpb(void)
{
#if KIND == 10
	operand(&gta, &ga, &gbufa, &gna); operand(&gtb, &gb, &gbufb, &gnb);
	gval = PTV_U32(); PTV_ASSUME(gval + 1 <= 2);
	pointless_bitvector_cmp_buffer(gbufa, gbufb);
	PTV_REACH();
#endif
}

#ifndef PTV_CBMC
void h_native_bits(void)
{
	uint32_t i, any = 0;
	bv_random();
	gta = bv_pick(); bv_encode(gta, &ga, &gbufa);
	PTV_CHECK(pointless_bitvector_n_bits(gta, &ga, gbufa) == bv_n, "number of bits");
	for (i = 0; i < bv_n; i++) {
		any |= bv_bits[i];
		PTV_CHECK(pointless_bitvector_is_set(gta, &ga, gbufa, i) == bv_bits[i], "bit");
	}
	PTV_CHECK(pointless_bitvector_is_any_set(gta, &ga, gbufa) == any, "any set");
	PTV_REACH();
}
static uint8_t sa[5000]; static uint32_t sn;
void h_native_cmp(void)
{
	uint32_t i, j; int want; uint8_t *ra, *rb;
	bv_random();
	memcpy(sa, bv_bits, sizeof(sa)); sn = bv_n;
	gta = bv_pick(); bv_encode(gta, &ga, &gbufa); ra = bv_raw();
	if (ptv_range(0, 2)) {
		/* close to the first: a few bits changed, or cut, or extended */
		if (PTV_BOOL() && bv_n) bv_bits[ptv_range(0, bv_n - 1)] ^= 1;
		if (PTV_BOOL()) bv_n = (uint32_t)ptv_range(0, bv_n);
		if (!ptv_range(0, 3)) for (i = bv_n, bv_n += (uint32_t)ptv_range(0, 9); i < bv_n; i++) bv_bits[i] = PTV_BOOL();
	} else
		bv_random();
	gtb = bv_pick(); bv_encode(gtb, &gb, &gbufb); rb = bv_raw();
	for (i = 0; i < sn && i < bv_n && sa[i] == bv_bits[i]; i++) ;
	j = sn < bv_n ? sn : bv_n;
	want = i < j ? (sa[i] ? 1 : -1) : sn == bv_n ? 0 : sn < bv_n ? -1 : 1;
	gva.type = gta; gva.data = ga; gvb.type = gtb; gvb.data = gb;
	PTV_CHECK(pointless_bitvector_cmp_buffer_buffer(gta, &ga, gbufa, gtb, &gb, gbufb) == want, "order");
	PTV_CHECK(pointless_bitvector_cmp_buffer_buffer(gtb, &gb, gbufb, gta, &ga, gbufa) == -want, "opposite order");
	PTV_CHECK(pointless_bitvector_cmp_bits_buffer(sn, ra, &gvb, gbufb) == want, "order, bits and stored");
	PTV_CHECK(pointless_bitvector_cmp_buffer_bits(&gva, gbufa, bv_n, rb) == want, "order, stored and bits");
	if (gbufa && gbufb) PTV_CHECK(pointless_bitvector_cmp_buffer(gbufa, gbufb) == want, "order, buffers");
	PTV_REACH();
}
void h_native_hash(void)
{
	uint32_t i, h32; uint64_t h64; uint8_t* r;
	bv_random();
	r = bv_raw();
	h32 = pointless_bitvector_hash_n_bits_bits_32(bv_n, r);
	h64 = pointless_bitvector_hash_n_bits_bits_64(bv_n, r);
	for (i = 0; i < 6; i++) if (bv_fits(bv_types[i])) {
		bv_encode(bv_types[i], &ga, &gbufa);
		PTV_CHECK(pointless_bitvector_hash_32(bv_types[i], &ga, gbufa) == h32, "32-bit hash, every storage form");
		PTV_CHECK(pointless_bitvector_hash_64(bv_types[i], &ga, gbufa) == h64, "64-bit hash, every storage form");
		if (gbufa) {
			PTV_CHECK(pointless_bitvector_hash_buffer_32(gbufa) == h32, "32-bit hash of the buffer");
			PTV_CHECK(pointless_bitvector_hash_buffer_64(gbufa) == h64, "64-bit hash of the buffer");
		}
	}
	PTV_REACH();
}
#endif

/*PTV
{
 "functions": ["pointless_is_ucs4_ascii", "pointless_is_ucs2_ascii", "pointless_ucs4_len", "pointless_ucs2_len", "pointless_ascii_len", "pointless_ucs1_len", "pointless_ucs4_cpy", "pointless_ucs2_cpy", "pointless_ascii_cpy", "pointless_ucs4_to_ascii", "pointless_ucs2_to_ucs4", "pointless_ucs2_to_ascii", "pointless_ascii_to_ucs4"],
 "assumptions": ["strings shorter than 2^40 characters", "the specification names the length n of a string by its defining property (a terminator at n, none before); the universally quantified part is instantiated at the loop index by a ghost assumption", "the contents of results are specified at one arbitrary position", "'8-bit' means code points up to 0xff"],
 "contracts": [
  {"id": "range", "harness": "h_range", "enforce": "{F}", "loops": true, "solver": "cadical", "variants": ["KIND=1 F=pointless_is_ucs4_ascii I=32 O=32", "KIND=1 F=pointless_is_ucs2_ascii I=16 O=16"]},
  {"id": "len", "harness": "h_len", "enforce": "{F}", "loops": true, "solver": "cadical", "variants": ["KIND=2 F=pointless_ucs4_len I=32 O=32", "KIND=2 F=pointless_ucs2_len I=16 O=16", "KIND=2 F=pointless_ascii_len I=8 O=8", "KIND=2 F=pointless_ucs1_len I=8 O=8"]},
  {"id": "cpy", "harness": "h_cpy", "enforce": "{F}", "loops": true, "solver": "cadical", "variants": ["KIND=3 F=pointless_ucs4_cpy I=32 O=32", "KIND=3 F=pointless_ucs2_cpy I=16 O=16", "KIND=3 F=pointless_ascii_cpy I=8 O=8"]},
  {"id": "conv", "harness": "h_conv", "enforce": "{F}", "replace": ["pointless_ucs4_len"], "loops": true, "solver": "cadical", "variants": ["KIND=4 F=pointless_ucs4_to_ascii I=32 O=8 NARROW LENFN=pointless_ucs4_len"]},
  {"id": "conv", "harness": "h_conv", "enforce": "{F}", "replace": ["pointless_ucs2_len"], "loops": true, "solver": "cadical", "variants": ["KIND=4 F=pointless_ucs2_to_ucs4 I=16 O=32 LENFN=pointless_ucs2_len", "KIND=4 F=pointless_ucs2_to_ascii I=16 O=8 NARROW LENFN=pointless_ucs2_len"]},
  {"id": "conv", "harness": "h_conv", "enforce": "{F}", "replace": ["pointless_ascii_len"], "loops": true, "solver": "cadical", "variants": ["KIND=4 F=pointless_ascii_to_ucs4 I=8 O=32 LENFN=pointless_ascii_len"]}
 ],
 "native": [
  {"harness": "h_range", "secs": 1, "tag": "4", "defs": ["KIND=1", "F=pointless_is_ucs4_ascii", "I=32", "O=32"]}, {"harness": "h_range", "secs": 1, "tag": "2", "defs": ["KIND=1", "F=pointless_is_ucs2_ascii", "I=16", "O=16"]},
  {"harness": "h_len", "secs": 1, "tag": "4", "defs": ["KIND=2", "F=pointless_ucs4_len", "I=32", "O=32"]}, {"harness": "h_len", "secs": 1, "tag": "2", "defs": ["KIND=2", "F=pointless_ucs2_len", "I=16", "O=16"]}, {"harness": "h_len", "secs": 1, "tag": "a", "defs": ["KIND=2", "F=pointless_ascii_len", "I=8", "O=8"]}, {"harness": "h_len", "secs": 1, "tag": "1", "defs": ["KIND=2", "F=pointless_ucs1_len", "I=8", "O=8"]},
  {"harness": "h_cpy", "secs": 1, "tag": "4", "defs": ["KIND=3", "F=pointless_ucs4_cpy", "I=32", "O=32"]}, {"harness": "h_cpy", "secs": 1, "tag": "2", "defs": ["KIND=3", "F=pointless_ucs2_cpy", "I=16", "O=16"]}, {"harness": "h_cpy", "secs": 1, "tag": "a", "defs": ["KIND=3", "F=pointless_ascii_cpy", "I=8", "O=8"]},
  {"harness": "h_conv", "secs": 1, "tag": "4a", "defs": ["KIND=4", "F=pointless_ucs4_to_ascii", "I=32", "O=8", "NARROW"]}, {"harness": "h_conv", "secs": 1, "tag": "24", "defs": ["KIND=4", "F=pointless_ucs2_to_ucs4", "I=16", "O=32"]}, {"harness": "h_conv", "secs": 1, "tag": "2a", "defs": ["KIND=4", "F=pointless_ucs2_to_ascii", "I=16", "O=8", "NARROW"]}, {"harness": "h_conv", "secs": 1, "tag": "a4", "defs": ["KIND=4", "F=pointless_ascii_to_ucs4", "I=8", "O=32"]}
 ],
 "src": ["src/pointless_int_ops.c"]
}
PTV*/
#include "ptv.h"
#include <pointless/pointless_unicode_utils.h>
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define TI CAT(CAT(uint, I), _t)
#define TO CAT(CAT(uint, O), _t)

/* ---------------------------------------------------------------- spec
 * gS: the string, gn: its length, gk: an arbitrary position, gD: the destination of a copy, gfail: the allocation fails */
TI* gS; size_t gn, gk; TO* gD; int gfail; void* gmem; size_t gmem_n;

#ifdef PTV_CBMC
void* pointless_malloc(size_t n)
{
	if (gfail) return 0;
	PTV_CHECK(n >= (gn + 1) * sizeof(TO), "room for every character and the terminator");
	return gD;
}
#define IDX(a) (__CPROVER_POINTER_OFFSET(a) / sizeof(*(a)))
#if KIND == 1
int gsmall;      /* hypothesis: no character is above 0xff */
#define INST(i) (!((i) < gn) || (gS[i] != 0 && (!gsmall || gS[i] <= 0xff)))
#else
#define INST(i) (!((i) < gn) || gS[i] != 0)
#endif
#define AT(s) (__CPROVER_same_object(s, gS) && IDX(s) <= gn && (s) == (__typeof__(s))gS + IDX(s) && INST(IDX(s)))
#define DONE(o, j) (!(gk < (j)) || (o)[gk] == (__typeof__(*(o)))gS[gk])
#ifdef POINTLESS_PTV
/* the same address, written so that the verifier knows the object (asserted to be an identity) */
#define PIN(p, base) { size_t ptv_i = IDX(p); __CPROVER_assert((p) == (__typeof__(p))(base) + ptv_i, "pinned"); (p) = (__typeof__(p))(base) + ptv_i; }
#define PTV_GHOST_unicode_pin(src, dst) PIN(src, gS) PIN(dst, gD)
#define PTV_GHOST_unicode_begin(s) __CPROVER_assume(INST(0));
#define PTV_GHOST_unicode(s) __CPROVER_assume(INST(IDX(s)));
#if KIND == 1
#define PTV_LOOP_unicode_range(s) __CPROVER_assigns(s) __CPROVER_loop_invariant(AT(s) && (!(gk < IDX(s)) || gS[gk] <= 0xff)) __CPROVER_decreases(gn - IDX(s))
#elif KIND == 2
#define PTV_LOOP_unicode_len(s, i) __CPROVER_assigns(s, i) __CPROVER_loop_invariant(AT(s) && i == IDX(s)) __CPROVER_decreases(gn - IDX(s))
#elif KIND == 3
#define PTV_LOOP_unicode_cpy(dst, src) __CPROVER_assigns(dst, src, __CPROVER_object_whole(gD)) __CPROVER_loop_invariant(AT(src) && (dst) == (__typeof__(dst))gD + IDX(src) && DONE(gD, IDX(src))) __CPROVER_decreases(gn - IDX(src))
#else
#define PTV_LOOP_unicode_conv(in, out, out_) __CPROVER_assigns(in, out, __CPROVER_object_whole(gD)) __CPROVER_loop_invariant(AT(in) && (out) == (__typeof__(out))gD + IDX(in) && DONE(gD, IDX(in))) __CPROVER_decreases(gn - IDX(in))
#endif
#endif

#if KIND == 1
/* yes: no character is above 0xff (gk: any position); if there is none (gsmall) the answer is yes */
int F(TI* s)
	PTV_REQUIRES(s == gS)
	PTV_ASSIGNS()
	PTV_ENSURES(PTV_RET == 0 || PTV_RET == 1)
	PTV_ENSURES(!PTV_RET || gk >= gn || gS[gk] <= 0xff)
	PTV_ENSURES(!gsmall || PTV_RET);
#elif KIND == 2
size_t F(TI* s)
	PTV_REQUIRES(s == gS) PTV_ASSIGNS() PTV_ENSURES(PTV_RET == gn);
#elif KIND == 3
void F(TO* dst, const TI* src)
	PTV_REQUIRES(dst == gD && src == gS)
	PTV_ASSIGNS(__CPROVER_object_whole(gD))
	PTV_ENSURES(gk > gn || gD[gk] == gS[gk]);
#else
size_t LENFN(TI* s)
	PTV_REQUIRES(s == gS) PTV_ASSIGNS() PTV_ENSURES(PTV_RET == gn);
TO* F(TI* s)
	PTV_REQUIRES(s == gS)
	PTV_ASSIGNS(__CPROVER_object_whole(gD))
	PTV_ENSURES((PTV_RET == 0) == (gfail != 0))
	PTV_ENSURES(PTV_RET == 0 || gk > gn || (PTV_RET == gD && gD[gk] == gS[gk]));
#endif
#else
/* natively: allocations are tracked, and of exactly the size asked for (the address sanitizer guards the edges) */
void* pointless_malloc(size_t n) { gmem_n = n; return gmem = gfail ? 0 : malloc(n); }
#endif

#include "/repo/src/pointless_unicode_utils.c"

static void make(void)
{
	size_t i;
#ifdef PTV_CBMC
	gn = PTV_U64(); gk = PTV_U64();
	PTV_ASSUME(gn < ((size_t)1 << 40));
	gS = malloc(sizeof(TI) * (gn + 1));
	PTV_ASSUME(gS != 0);
	gD = malloc(sizeof(TO) * (gn + 1));
	PTV_ASSUME(gD != 0);
	PTV_ASSUME(gS[gn] == 0 && INST(0) && INST(gk));
	(void)i;
#else
	gn = ptv_range(0, ptv_range(0, 3) ? 6 : 70);
	gS = ptv_malloc((gn + 1) * sizeof(TI));
	for (i = 0; i < gn; i++) { gS[i] = (TI)(PTV_BOOL() ? PTV_U8() : PTV_U32()); PTV_ASSUME(gS[i]); }
	gS[gn] = 0;
#endif
}
#define ALL(c) for (gk = 0; gk <= gn; gk++) PTV_CHECK(c, "contents")
void h_range(void)
{
#if KIND == 1
	PTV_CBMC_ONLY(gsmall = PTV_BOOL();)
	make();
	{ int r = F(gS); size_t i, small = 1; (void)r; (void)i; (void)small;
	  PTV_NATIVE_ONLY(for (i = 0; i < gn; i++) if (gS[i] > 0xff) small = 0; PTV_CHECK((r != 0) == (small != 0), "all characters fit in 8 bits");) }
#endif
	PTV_REACH();
}
void h_len(void)
{
#if KIND == 2
	make();
	PTV_CHECK(F(gS) == gn, "length");
#endif
	PTV_REACH();
}
void h_cpy(void)
{
#if KIND == 3
	make();
	PTV_NATIVE_ONLY(gD = ptv_malloc((gn + 1) * sizeof(TO));)
	F(gD, gS);
	PTV_NATIVE_ONLY(ALL(gD[gk] == gS[gk]);)
#endif
	PTV_REACH();
}
void h_conv(void)
{
#if KIND == 4
	TO* r; size_t i;
	make(); (void)i;
	gfail = PTV_BOOL();
#ifdef NARROW
	PTV_CBMC_ONLY(PTV_ASSUME(gk > gn || gS[gk] <= 0xff);)
	PTV_NATIVE_ONLY(for (i = 0; i < gn; i++) PTV_ASSUME(gS[i] <= 0xff);)
#endif
	r = F(gS);
	PTV_NATIVE_ONLY(PTV_CHECK((r == 0) == (gfail != 0), "fails only without memory"); if (r) { PTV_CHECK((void*)r == gmem && gmem_n == (gn + 1) * sizeof(TO), "memory of its own"); ALL(r[gk] == gS[gk]); })
#endif
	PTV_REACH();
}

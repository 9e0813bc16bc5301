/*PTV
{
 "functions": ["pointless_cmp_string_8_8", "pointless_cmp_string_8_16", "pointless_cmp_string_8_32", "pointless_cmp_string_16_8", "pointless_cmp_string_16_16", "pointless_cmp_string_16_32", "pointless_cmp_string_32_8", "pointless_cmp_string_32_16", "pointless_cmp_string_32_32", "pointless_cmp_string_8_8_n", "pointless_cmp_string_32_8_n"],
 "assumptions": ["strings shorter than 2^28 characters", "the specification names the position k of the first difference by its defining property (every earlier position is equal and not a terminator); the universally quantified part is instantiated at the loop index by a ghost assumption"],
 "contracts": [
  {"id": "cmp", "harness": "h_cmp", "enforce": "pointless_cmp_string_{A}_{B}", "loops": true, "timeout": 300, "variants": ["A=8 B=8", "A=8 B=16", "A=8 B=32", "A=16 B=8", "A=16 B=16", "A=16 B=32", "A=32 B=8", "A=32 B=16", "A=32 B=32"]},
  {"id": "cmp_n", "harness": "h_cmp_n", "enforce": "pointless_cmp_string_{A}_{B}_n", "loops": true, "timeout": 300, "variants": ["A=8 B=8 N", "A=32 B=8 N"]}
 ],
 "bounded": [
  {"id": "b_cmp", "harness": "h_cmp", "unwind": 7, "fallback": true, "bound": "strings of up to 5 characters", "defs": ["MAXLEN=5"], "variants": ["A=8 B=8", "A=8 B=16", "A=8 B=32", "A=16 B=8", "A=16 B=16", "A=16 B=32", "A=32 B=8", "A=32 B=16", "A=32 B=32"]},
  {"id": "b_cmp_n", "harness": "h_cmp_n", "unwind": 7, "fallback": true, "bound": "strings of up to 5 characters", "defs": ["MAXLEN=5"], "variants": ["A=8 B=8 N", "A=32 B=8 N"]}
 ],
 "native": [
  {"harness": "h_cmp", "secs": 1, "tag": "88", "defs": ["A=8", "B=8"]}, {"harness": "h_cmp", "secs": 1, "tag": "816", "defs": ["A=8", "B=16"]}, {"harness": "h_cmp", "secs": 1, "tag": "832", "defs": ["A=8", "B=32"]},
  {"harness": "h_cmp", "secs": 1, "tag": "168", "defs": ["A=16", "B=8"]}, {"harness": "h_cmp", "secs": 1, "tag": "1616", "defs": ["A=16", "B=16"]}, {"harness": "h_cmp", "secs": 1, "tag": "1632", "defs": ["A=16", "B=32"]},
  {"harness": "h_cmp", "secs": 1, "tag": "328", "defs": ["A=32", "B=8"]}, {"harness": "h_cmp", "secs": 1, "tag": "3216", "defs": ["A=32", "B=16"]}, {"harness": "h_cmp", "secs": 1, "tag": "3232", "defs": ["A=32", "B=32"]},
  {"harness": "h_cmp_n", "secs": 2, "tag": "88n", "defs": ["A=8", "B=8", "N"]}, {"harness": "h_cmp_n", "secs": 2, "tag": "328n", "defs": ["A=32", "B=8", "N"]}
 ],
 "native_src": ["src/pointless_value.c", "src/pointless_reader.c", "src/pointless_bitvector.c", "src/pointless_dynarray.c", "src/pointless_int_ops.c", "src/pointless_malloc.c", "src/bitutils.c", "src/pointless_validate.c", "src/pointless_validate_heap.c", "src/pointless_validate_heap_ref.c", "src/pointless_validate_hash_table.c", "src/pointless_hash_table.c", "src/pointless_hash.c", "src/pointless_unicode_utils.c", "src/pointless_cycle_marker.c", "src/pointless_cycle_marker_wrappers.c", "src/pointless_walk.c"],
 "judy": true
}
PTV*/
#include "ptv.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define TA CAT(CAT(uint, A), _t)
#define TB CAT(CAT(uint, B), _t)
#ifdef N
#define PTVFN CAT(CAT(CAT(CAT(pointless_cmp_string_, A), _), B), _n)
#else
#define PTVFN CAT(CAT(CAT(pointless_cmp_string_, A), _), B)
#endif

/* ---------------------------------------------------------------- spec
 * gk: the first position where the strings differ or gA ends (or, bounded variant, where gB ends) */
TA* gA; TB* gB; size_t gk, gn;
#ifdef PTV_CBMC
#define CODE_A(i) ((uint32_t)gA[i])
#define CODE_B(i) ((uint32_t)gB[i])
#define INST(i) (!((i) < gk) || (CODE_A(i) == CODE_B(i) && CODE_A(i) != 0))
#define IDX(a) (__CPROVER_POINTER_OFFSET(a) / sizeof(TA))
#ifdef POINTLESS_PTV
#ifndef N
#define PTV_LOOP_cmp_string(a, b) __CPROVER_assigns(a, b) \
	__CPROVER_loop_invariant(__CPROVER_same_object(a, gA) && IDX(a) <= gk && (TA*)(a) == gA + IDX(a) && (TB*)(b) == gB + IDX(a) && INST(IDX(a))) \
	__CPROVER_decreases(gk - IDX(a))
#define PTV_GHOST_cmp_string(a, b) __CPROVER_assume(INST(IDX(a)));
#else
#define PTV_LOOP_cmp_string_n(a, b, n) __CPROVER_assigns(a, b, n) \
	__CPROVER_loop_invariant(__CPROVER_same_object(a, gA) && IDX(a) <= gk && n == IDX(a) && (TA*)(a) == gA + IDX(a) && (TB*)(b) == gB + IDX(a) && INST(IDX(a))) \
	__CPROVER_decreases(gk - IDX(a))
#define PTV_GHOST_cmp_string_n(a, b) __CPROVER_assume(INST(IDX(a)));
#endif
#endif
#endif

static int32_t spec(void)
{
#ifdef N
	if (gk == gn) return gA[gk] == 0 ? 0 : 1;
	if (gA[gk] == 0) return -1;
#endif
	return (uint32_t)gA[gk] == (uint32_t)gB[gk] ? 0 : ((uint32_t)gA[gk] < (uint32_t)gB[gk] ? -1 : 1);
}

#ifdef PTV_CBMC
#ifdef N
int32_t PTVFN(TA* a, TB* b, size_t n_b)
	PTV_REQUIRES(a == gA && b == gB && n_b == gn)
#else
int32_t PTVFN(TA* a, TB* b)
	PTV_REQUIRES(a == gA && b == gB)
#endif
	PTV_ASSIGNS()
	PTV_ENSURES(PTV_RET == spec());
#endif

#include "/repo/src/pointless_cmp.c"

#ifndef MAXLEN
#ifdef PTV_CBMC
#define MAXLEN 0xfffffff
#else
#define MAXLEN 12
#endif
#endif

/* two strings and the position of their first difference */
static void make(int bounded_b)
{
	size_t i;
#ifdef POINTLESS_PTV
	size_t la = PTV_U64(), lb = PTV_U64();
	PTV_ASSUME(la <= MAXLEN && lb <= MAXLEN);
	gA = ptv_malloc((la + 1) * sizeof(TA));
	gB = ptv_malloc((lb + !bounded_b) * sizeof(TB));
	gn = lb;
	gk = PTV_U64();
	PTV_ASSUME(gk <= la && gk <= lb && gA[la] == 0);
	if (bounded_b)
		PTV_ASSUME(gk == lb || gA[gk] == 0 || CODE_A(gk) != CODE_B(gk));
	else
		PTV_ASSUME(gB[lb] == 0 && (gA[gk] == 0 || CODE_A(gk) != CODE_B(gk)));
	PTV_ASSUME(INST(0));
	(void)i;
#else
	size_t la = ptv_range(0, MAXLEN), lb = ptv_range(0, MAXLEN);
	gA = ptv_malloc((la + 1) * sizeof(TA));
	gB = ptv_malloc((lb + !bounded_b) * sizeof(TB));
	gn = lb;
	for (i = 0; i < la; i++) { gA[i] = (TA)PTV_U64(); PTV_ASSUME(gA[i] != 0); }
	gA[la] = 0;
	for (i = 0; i < lb; i++) {
		gB[i] = (TB)PTV_U64();
		PTV_NATIVE_ONLY(if (i < la && ptv_range(0, 7)) gB[i] = (TB)gA[i];)
		if (!bounded_b) PTV_ASSUME(gB[i] != 0);
	}
	if (!bounded_b) gB[lb] = 0;
	for (gk = 0; gk < la && gk < lb && (uint32_t)gA[gk] == (uint32_t)gB[gk]; gk++)
		;
#endif
}

#ifdef N
void h_cmp_n(void)
{
	int32_t r;
	make(1);
	r = PTVFN(gA, gB, gn);
	PTV_CHECK(r == spec(), "bounded string comparison is the order of the first difference");
	PTV_REACH();
}
void h_cmp(void) {}
#else
void h_cmp(void)
{
	int32_t r;
	make(0);
	r = PTVFN(gA, gB);
	PTV_CHECK(r == spec(), "string comparison is the order of the first difference");
	PTV_REACH();
}
void h_cmp_n(void) {}
#endif

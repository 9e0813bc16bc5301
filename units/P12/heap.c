/*PTV
{
 "functions": ["pointless_validate_heap_value", "pointless_validate_heap_ref", "pointless_validate_inline_invariants", "pointless_require_heap", "pointless_validate_vector_heap", "pointless_validate_bitvector_heap", "pointless_validate_unicode_heap", "pointless_validate_string_heap", "pointless_validate_set_heap", "pointless_validate_map_heap"],
 "assumptions": ["heap shorter than 2^40 bytes", "the content of a string is specified at its terminator and at one arbitrary position; the hypothesis that no character is zero is instantiated at the loop index by a ghost assumption"],
 "contracts": [
  {"id": "heap", "harness": "h_heap", "enforce": "pointless_validate_heap_value", "unwind": 2, "solver": "cadical", "variants": ["KIND=1", "KIND=2", "KIND=3", "KIND=4", "KIND=7"]},
  {"id": "heap_str", "harness": "h_heap", "enforce": "pointless_validate_heap_value", "loops": true, "solver": "cadical", "variants": ["KIND=5", "KIND=6"]},
  {"id": "ref", "harness": "h_ref", "enforce": "pointless_validate_heap_ref", "defs": ["KIND=0"]},
  {"id": "inline", "harness": "h_inline", "enforce": "pointless_validate_inline_invariants", "defs": ["KIND=0"]}
 ],
 "native": [
  {"harness": "h_heap", "secs": 1, "tag": "1", "defs": ["KIND=1"]}, {"harness": "h_heap", "secs": 1, "tag": "2", "defs": ["KIND=2"]}, {"harness": "h_heap", "secs": 1, "tag": "3", "defs": ["KIND=3"]}, {"harness": "h_heap", "secs": 1, "tag": "4", "defs": ["KIND=4"]}, {"harness": "h_heap", "secs": 2, "tag": "5", "defs": ["KIND=5"]}, {"harness": "h_heap", "secs": 2, "tag": "6", "defs": ["KIND=6"]}, {"harness": "h_heap", "secs": 1, "tag": "7", "defs": ["KIND=7"]},
  {"harness": "h_ref", "secs": 1, "tag": "0", "defs": ["KIND=0"]}, {"harness": "h_inline", "secs": 1, "tag": "0", "defs": ["KIND=0"]}
 ],
 "src": ["src/pointless_int_ops.c"]
}
PTV*/
#include "ptv.h"
#include <pointless/pointless_validate.h>

/* KIND: 1 vector 2 bitvector 3 set 4 map 5 unicode 6 string 7 everything else */
pointless_validate_context_t gctx; pointless_t gp; pointless_header_t gh; pointless_value_t gv; const char* gerr; const char* gerr_in;
uint64_t goff, ghl; uint32_t gck, gterm, gt8, gt16, gt24; /* words of the heap at the value, read beforehand */ int groom;
uint8_t* gheap; uint64_t gn, gk; int gnz; /* offset and size of the heap, its bytes, the stored count, a position, hypothesis: no zero character */
uint32_t goffs_i; uint64_t* goffs;

static int is_vec(uint32_t t) { return t <= 8 || t == 25 || t == 26; }
static uint64_t item(uint32_t t) { return t == 0 || t == 1 || t == 25 || t == 26 ? 8 : t == 2 || t == 3 ? 1 : t == 4 || t == 5 ? 2 : 4; }
static int ref_type(uint32_t t) { return is_vec(t) || t == 10 || t == 29 || t == 11 || t == 17 || t == 18; }
static int known(uint32_t t) { return t <= 26 || t == 29; }
#define FITS(n) (goff <= ghl && ghl - goff >= (uint64_t)(n))
#define RD(o) (*(uint32_t*)(gheap + goff + (o)))

/* the decision the contract demands */
#if KIND == 1
#define OK (FITS(4) && FITS(4 + item(gv.type) * (uint64_t)gn))
#define POST(r) (((r) != 0) == OK)
#elif KIND == 2
#define OK (FITS(4) && FITS(4 + ((uint64_t)gn + 7) / 8))
#define POST(r) (((r) != 0) == OK)
#elif KIND == 3
#define OK (FITS(24) && gt8 == POINTLESS_VECTOR_U32 && gt16 == POINTLESS_VECTOR_VALUE_HASHABLE)
#define POST(r) (((r) != 0) == OK)
#elif KIND == 4
#define OK (FITS(32) && gt8 == POINTLESS_VECTOR_U32 && gt16 == POINTLESS_VECTOR_VALUE_HASHABLE && (gt24 == POINTLESS_VECTOR_VALUE || gt24 == POINTLESS_VECTOR_VALUE_HASHABLE))
#define POST(r) (((r) != 0) == OK)
#elif KIND == 5 || KIND == 6
#if KIND == 5
#define TC uint32_t
#else
#define TC uint8_t
#endif
#define CH(i) (((TC*)(gheap + goff + 4))[i])
#define ROOM (FITS(4) && FITS(4 + ((uint64_t)gn + 1) * sizeof(TC)))
/* accepted: room, a terminator after n characters, and none at an arbitrary earlier position; and everything well-formed is accepted */
#define POST(r) ((!(r) || (groom && gterm == 0 && (!(gk < gn) || gck != 0))) && (!(gnz && groom && gterm == 0) || (r)))
#else
#define POST(r) (((r) != 0) == known(gv.type))
#endif
#define TYPEOK(t) (KIND == 1 ? is_vec(t) : KIND == 2 ? (t) == 11 : KIND == 3 ? (t) == 17 : KIND == 4 ? (t) == 18 : KIND == 5 ? (t) == 10 : KIND == 6 ? (t) == 29 : !ref_type(t))
#define NREF(t) (is_vec(t) ? gh.n_vector : (t) == 11 ? gh.n_bitvector : (t) == 17 ? gh.n_set : (t) == 18 ? gh.n_map : (t) == 10 || (t) == 29 ? gh.n_string_unicode : 0)

#ifdef POINTLESS_PTV
#if KIND == 5 || KIND == 6
#define INST(i) (!gnz || !((i) < gn) || CH(i) != 0)
#define PTV_LOOP_validate_string(s, i, n) __CPROVER_assigns(i, gerr) __CPROVER_loop_invariant(0 <= i && i <= (n) && (!(gk < i) || gck != 0) && gerr == gerr_in && INST(i)) __CPROVER_decreases((n) - i)
#define PTV_GHOST_validate_string(s, i) __CPROVER_assume(INST(i + 1));
#endif
#endif
#include "/repo/src/pointless_validate_heap.c"
#include "/repo/src/pointless_validate_heap_ref.c"

#define D gv.data.data_u32
#define INLINE_OK (known(gv.type) && (gv.type == 16 ? (D & 31) <= 27 : gv.type == 9 || gv.type == 24 || gv.type == 19 ? D == 0 : gv.type == 23 ? D <= 1 : 1))
#ifdef PTV_CBMC
int32_t pointless_validate_heap_value(pointless_validate_context_t* context, pointless_value_t* v, const char** error)
PTV_REQUIRES(context == &gctx && v == &gv && error == &gerr)
PTV_ASSIGNS(gerr)
PTV_ENSURES(POST(PTV_RET) && (PTV_RET != 0) == (gerr == gerr_in));

int32_t pointless_validate_heap_ref(pointless_validate_context_t* context, pointless_value_t* v, const char** error)
PTV_REQUIRES(context == &gctx && v == &gv && error == &gerr)
PTV_ASSIGNS(gerr)
PTV_ENSURES((PTV_RET != 0) == (known(gv.type) && (!ref_type(gv.type) || gv.data.data_u32 < NREF(gv.type))) && (PTV_RET != 0) == (gerr == gerr_in));

int32_t pointless_validate_inline_invariants(pointless_validate_context_t* context, pointless_value_t* v, const char** error)
PTV_REQUIRES(context == &gctx && v == &gv && error == &gerr)
PTV_ASSIGNS(gerr)
PTV_ENSURES((PTV_RET != 0) == INLINE_OK && (PTV_RET != 0) == (gerr == gerr_in));
#endif

static void setup(int kind)
{
	gh.n_string_unicode = PTV_U32(); gh.n_vector = PTV_U32(); gh.n_bitvector = PTV_U32(); gh.n_set = PTV_U32(); gh.n_map = PTV_U32();
	gv.type = PTV_U32(); if (PTV_BOOL()) gv.type &= 31;
	gv.data.data_u32 = PTV_U32();
	gp.header = &gh; gctx.p = &gp; gerr_in = gerr = "in";
	(void)kind;
}

void h_heap(void)
{
#if KIND != 0
	uint64_t slack, k; int r;
	setup(KIND);
	PTV_NATIVE_ONLY(if (KIND == 1 && !is_vec(gv.type)) gv.type %= 9;)
	if (KIND >= 2 && KIND <= 6) { gv.type = KIND == 2 ? 11 : KIND == 3 ? 17 : KIND == 4 ? 18 : KIND == 5 ? 10 : 29; }
	PTV_ASSUME(TYPEOK(gv.type));
	/* the offset table: the entry is read at the index of the value, which pointless_validate_heap_ref has accepted */
	PTV_NATIVE_ONLY(gv.data.data_u32 %= 4; gh.n_string_unicode = gh.n_vector = gh.n_bitvector = gh.n_set = gh.n_map = 4;)
	PTV_ASSUME(KIND == 7 || gv.data.data_u32 < NREF(gv.type));
	goffs_i = gv.data.data_u32;
	goffs = ptv_malloc(sizeof(uint64_t) * ((uint64_t)goffs_i + 1));
	ghl = ptv_range(0, PTV_CBMC_ONLY((uint64_t)1 << 40) PTV_NATIVE_ONLY(PTV_BOOL() ? 100 : 1 << 20));
	goff = PTV_U64();
	if (PTV_BOOL()) { PTV_NATIVE_ONLY(goff %= ghl + 1;) PTV_ASSUME(goff <= ghl); }
	goffs[goffs_i] = goff;
	gp.string_unicode_offsets_64 = gp.vector_offsets_64 = gp.bitvector_offsets_64 = gp.set_offsets_64 = gp.map_offsets_64 = goffs;
	gheap = malloc(ghl); PTV_ASSUME(gheap != 0);
	gp.heap_ptr = gheap; gp.heap_len = ghl;
	PTV_NATIVE_ONLY(memset(gheap, 'A', ghl);)
	groom = 0; gn = PTV_U32(); gk = PTV_U64(); gnz = PTV_BOOL();
	PTV_NATIVE_ONLY(if (PTV_BOOL()) gn %= 40; else if (FITS(4) && PTV_BOOL()) gn = (ghl - goff - 4) / (KIND == 1 ? item(gv.type) : KIND == 5 ? 4 : 1) * (KIND == 2 ? 8 : 1) - (uint64_t)ptv_range(0, 3) + 1; gn = (uint32_t)gn;)
	if (FITS(4)) {
		RD(0) = (uint32_t)gn;
#if KIND == 3 || KIND == 4
		if (FITS(24)) { RD(8) = PTV_BOOL() ? POINTLESS_VECTOR_U32 : PTV_U32(); RD(16) = PTV_BOOL() ? POINTLESS_VECTOR_VALUE_HASHABLE : PTV_U32(); }
		if (FITS(32)) RD(24) = PTV_U32() % 32;
		if (FITS(24)) { gt8 = RD(8); gt16 = RD(16); }
		if (FITS(32)) gt24 = RD(24);
#endif
#if KIND == 5 || KIND == 6
		PTV_NATIVE_ONLY(gk = gn ? gk % gn : 0; gnz = 0;)
		groom = ROOM;
		if (groom) {
			uint32_t term = PTV_U32(), c = PTV_U32();
			PTV_NATIVE_ONLY(if (term % 2) term = 0; if (c % 2) c = 0;)
			CH(gn) = (TC)term;
			if (gk < gn) CH(gk) = (TC)c;
			gterm = CH(gn); gck = gk < gn ? CH(gk) : 0;
			PTV_NATIVE_ONLY(gnz = !(gk < gn) || CH(gk) != 0;)
		}
#endif
	}
#if (KIND == 5 || KIND == 6) && defined(POINTLESS_PTV)
	if (groom) PTV_ASSUME(INST(0));
#endif
	r = pointless_validate_heap_value(&gctx, &gv, &gerr);
	PTV_CHECK(POST(r), "accepted exactly when everything read later lies inside the heap");
	PTV_CHECK((r != 0) == (gerr == gerr_in), "an error is reported exactly on refusal");
	if (r) PTV_REACH();
	PTV_NATIVE_ONLY(free(gheap); gheap = 0;)
#endif
}

void h_ref(void)
{
#if KIND == 0
	int r;
	setup(0);
	PTV_NATIVE_ONLY(if (PTV_BOOL()) gv.data.data_u32 = NREF(gv.type) - (uint32_t)ptv_range(0, 2) + 1;)
	r = pointless_validate_heap_ref(&gctx, &gv, &gerr);
	PTV_CHECK((r != 0) == (known(gv.type) && (!ref_type(gv.type) || gv.data.data_u32 < NREF(gv.type))), "a reference is accepted exactly when it is in bounds");
	if (r) PTV_REACH();
#endif
}

void h_inline(void)
{
#if KIND == 0
	int r;
	setup(0);
	PTV_NATIVE_ONLY(if (PTV_BOOL()) gv.data.data_u32 &= 31;)
	r = pointless_validate_inline_invariants(&gctx, &gv, &gerr);
	PTV_CHECK((r != 0) == INLINE_OK, "an inline value is accepted exactly when its payload is allowed");
	if (r) PTV_REACH();
#endif
}

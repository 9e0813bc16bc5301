/*PTV
{
 "functions": ["pointless_hash_string_v1_32", "pointless_hash_string_v1_32_", "pointless_hash_unicode_ucs2_v1_32", "pointless_hash_unicode_ucs4_v1_32", "pointless_hash_float_32", "pointless_hash_i32_32", "pointless_hash_u32_32", "pointless_hash_i64_32", "pointless_hash_u64_32", "pointless_hash_int_32", "pointless_hash_reader_int_32", "pointless_hash_create_int_32", "pointless_hash_reader_float_32", "pointless_hash_create_float_32", "pointless_hash_reader_string_32", "pointless_hash_create_string_32", "pointless_hash_reader_unicode_32", "pointless_hash_create_unicode_32", "pointless_hash_reader_bitvector_32", "pointless_hash_create_bitvector_32", "pointless_hash_reader_null_32", "pointless_hash_create_null_32", "pointless_vector_hash_init_32", "pointless_vector_hash_next_32", "pointless_vector_hash_end_32", "pointless_hash_reader_vector_32_priv", "pointless_hash_reader_vector_32_", "pointless_hash_reader_vector_32", "pointless_hash_create_vector_32", "pointless_hash_reader_func_32", "pointless_hash_create_func_32", "pointless_hash_reader_32", "pointless_hash_create_32", "pointless_is_hashable", "pointless_is_hashable_reader", "pointless_is_hashable_create"],
 "assumptions": ["the hash of a string is specified as a fold over its code points, whose definition is instantiated at every position by a ghost assumption", "the hash of a vector is a function of the number of elements and the sequence of element hashes; the element hash is specified at one arbitrary position", "the reading functions return the elements of the vector (P07), bitvector hashes are P05, comparison is P01 and P02", "vectors compressed when written hold numbers of their own kind (P06)", "modf is the C library function (rounds towards zero)"],
 "contracts": [
  {"id": "str", "harness": "h_str", "enforce": "{F}", "loops": true, "solver": "cadical", "unwind": 2, "defs": ["KIND=1"], "variants": ["F=pointless_hash_string_v1_32 T=uint8_t", "F=pointless_hash_string_v1_32_ T=uint8_t N", "F=pointless_hash_unicode_ucs2_v1_32 T=uint16_t", "F=pointless_hash_unicode_ucs4_v1_32 T=uint32_t"]},
  {"id": "rvec", "harness": "h_rvec", "enforce": "pointless_hash_reader_vector_32_priv", "replace": ["pointless_vector_hash_init_32", "pointless_vector_hash_next_32", "pointless_vector_hash_end_32", "pointless_hash_float_32", "pointless_hash_reader_32"], "loops": true, "solver": "cadical", "unwind": 2, "defs": ["KIND=2"], "variants": ["VT=POINTLESS_VECTOR_I8 ET=int8_t", "VT=POINTLESS_VECTOR_U8 ET=uint8_t", "VT=POINTLESS_VECTOR_I16 ET=int16_t", "VT=POINTLESS_VECTOR_U16 ET=uint16_t", "VT=POINTLESS_VECTOR_I32 ET=int32_t", "VT=POINTLESS_VECTOR_U32 ET=uint32_t", "VT=POINTLESS_VECTOR_I64 ET=int64_t", "VT=POINTLESS_VECTOR_U64 ET=uint64_t", "VT=POINTLESS_VECTOR_FLOAT ET=float", "VT=POINTLESS_VECTOR_VALUE_HASHABLE ET=uint64_t"]},
  {"id": "rvecw", "harness": "h_rvecw", "enforce": "{F}", "replace": ["pointless_hash_reader_vector_32_priv"], "solver": "cadical", "unwind": 2, "defs": ["KIND=3"], "variants": ["F=pointless_hash_reader_vector_32_ WHOLE", "F=pointless_hash_reader_vector_32"]},
  {"id": "cvec", "harness": "h_cvec", "enforce": "pointless_hash_create_vector_32", "replace": ["pointless_vector_hash_init_32", "pointless_vector_hash_next_32", "pointless_vector_hash_end_32", "pointless_hash_float_32", "pointless_hash_create_32"], "loops": true, "solver": "cadical", "unwind": 2, "defs": ["KIND=4"], "variants": ["MODE=1 VT=POINTLESS_VECTOR_I8 ET=int8_t", "MODE=1 VT=POINTLESS_VECTOR_U8 ET=uint8_t", "MODE=1 VT=POINTLESS_VECTOR_I16 ET=int16_t", "MODE=1 VT=POINTLESS_VECTOR_U16 ET=uint16_t", "MODE=1 VT=POINTLESS_VECTOR_I32 ET=int32_t", "MODE=1 VT=POINTLESS_VECTOR_U32 ET=uint32_t", "MODE=1 VT=POINTLESS_VECTOR_FLOAT ET=float", "MODE=3 VT=POINTLESS_VECTOR_VALUE_HASHABLE ET=uint32_t",
   "MODE=2 VT=POINTLESS_VECTOR_I8 ET=int8_t", "MODE=2 VT=POINTLESS_VECTOR_U8 ET=uint8_t", "MODE=2 VT=POINTLESS_VECTOR_I16 ET=int16_t", "MODE=2 VT=POINTLESS_VECTOR_U16 ET=uint16_t", "MODE=2 VT=POINTLESS_VECTOR_I32 ET=int32_t", "MODE=2 VT=POINTLESS_VECTOR_U32 ET=uint32_t", "MODE=2 VT=POINTLESS_VECTOR_I64 ET=int64_t", "MODE=2 VT=POINTLESS_VECTOR_U64 ET=uint64_t", "MODE=2 VT=POINTLESS_VECTOR_FLOAT ET=float"]},
  {"id": "hashable_r", "harness": "h_hashable", "enforce": "pointless_is_hashable_reader", "rec": true, "loops": true, "solver": "cadical", "unwind": 2, "defs": ["KIND=5"]},
  {"id": "hashable_c", "harness": "h_hashable", "enforce": "pointless_is_hashable_create", "rec": true, "loops": true, "solver": "cadical", "unwind": 2, "defs": ["KIND=6"]}
 ],
 "complete": [
  {"id": "disp", "harness": "h_disp", "solver": "cadical", "unwind": 3, "defs": ["KIND=8"], "variants": ["HT=POINTLESS_STRING_", "HT=POINTLESS_UNICODE_", "HT=POINTLESS_I32", "HT=POINTLESS_U32", "HT=POINTLESS_BOOLEAN", "HT=POINTLESS_BITVECTOR", "HT=POINTLESS_BITVECTOR_0", "HT=POINTLESS_BITVECTOR_1", "HT=POINTLESS_BITVECTOR_01", "HT=POINTLESS_BITVECTOR_10", "HT=POINTLESS_BITVECTOR_PACKED", "HT=POINTLESS_FLOAT", "HT=POINTLESS_NULL"]},
  {"id": "num", "harness": "h_num", "solver": "cadical", "unwind": 2, "defs": ["KIND=7"]},
  {"id": "state", "harness": "h_state", "solver": "cadical", "unwind": 2, "defs": ["KIND=7"]},
  {"id": "kinds", "harness": "h_kinds", "solver": "cadical", "unwind": 2, "defs": ["KIND=7"]}
 ],
 "native": [{"harness": "h_native", "secs": 8}],
 "src": ["src/pointless_value.c", "src/pointless_dynarray.c"],
 "nobody": ["pointless_.*", "intop_.*", "bm_.*"],
 "fulllib": true
}
PTV*/
#include "ptv.h"
#include <pointless/pointless.h>
#ifndef KIND
#define KIND 0
#endif
#ifdef PTV_CBMC
static uint32_t gret, gk, gn, goff, gcnt, ghf;
static pointless_t gp; static pointless_create_t gc; static pointless_value_t gv; static pointless_create_value_t gcv;
#if KIND == 1
T* gs; uint64_t glen; uint32_t gfold; uint64_t gat;
#ifdef N
#define INST(i) 1
#else
#define INST(i) (((i) < glen) == (gs[i] != 0))
#endif
/* the fold: gfold is its value over the code points before gat */
#define PTV_LOOP_hash_string(p, x, len) __CPROVER_assigns(p, x, len, gat, gfold) __CPROVER_loop_invariant(len <= glen && p == gs + len && x == gfold && gat == len && INST(len)) __CPROVER_decreases(glen - len)
#define PTV_GHOST_hash_string(len) __CPROVER_assume(INST(len)); gfold = (gfold * 1000003u) ^ (uint32_t)gs[gat]; gat = gat + 1;
#ifdef N
uint32_t F(T* s, size_t n) PTV_REQUIRES(n == glen)
#else
uint32_t F(T* s) PTV_REQUIRES(INST(0))
#endif
PTV_REQUIRES(s == gs && gat == 0 && gfold == (glen ? (uint32_t)gs[0] << 7 : 0))
PTV_ASSIGNS(gat, gfold)
PTV_ENSURES(gat == glen && PTV_RET == (gfold ^ (uint32_t)glen));
#endif
#ifndef PTV_LOOP_hash_string
#define PTV_LOOP_hash_string(...)
#define PTV_GHOST_hash_string(...)
#endif
#if KIND == 2
#define PTV_LOOP_hash_reader_vector(i, h, state) __CPROVER_assigns(i, h, state, gcnt) __CPROVER_loop_invariant(goff <= i && i <= goff + gn && gcnt == i - goff) __CPROVER_decreases(goff + gn - i)
static void* gdata;
#define EL(i) (((ET*)gdata)[i])
#endif
#if KIND == 4
#define PTV_LOOP_hash_create_vector(i, h, vv, state) __CPROVER_assigns(i, h, vv, state, gcnt) __CPROVER_loop_invariant(i <= gn && gcnt == i) __CPROVER_decreases(gn - i)
static ET* gitems; static pointless_create_value_t* gvals;
#if MODE == 1
static uint32_t* ghandles;
#define CV gvals[ghandles[gk]]
#endif
#endif
#if KIND == 5
static pointless_value_t* gitems; static uint32_t* gflags;
#define PTV_LOOP_is_hashable_reader(i, n) __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= n && n == gn && (!(gk < i) || gflags[gk] != 0)) __CPROVER_decreases(n - i)
#elif KIND == 6
static pointless_create_value_t* gvals; static uint32_t* gitems; static uint32_t* gflags; static uint64_t ge;
#define PTV_LOOP_is_hashable_create(i, n) __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= n && n == gn && (!(gk < i) || gflags[gk] != 0)) __CPROVER_decreases(n - i)
#endif
#ifndef PTV_LOOP_hash_reader_vector
#define PTV_LOOP_hash_reader_vector(...)
#endif
#ifndef PTV_LOOP_hash_create_vector
#define PTV_LOOP_hash_create_vector(...)
#endif
#ifndef PTV_LOOP_is_hashable_reader
#define PTV_LOOP_is_hashable_reader(...)
#endif
#ifndef PTV_LOOP_is_hashable_create
#define PTV_LOOP_is_hashable_create(...)
#endif
#endif
#include "/repo/src/pointless_hash.c"

#ifdef PTV_CBMC
static uint32_t fbits(float f) { union { float f; uint32_t u; } x; x.f = f; return x.u; }
#if KIND == 2 || KIND == 4
/* hash of the arbitrary element */
#define IS_FLOAT (VT == POINTLESS_VECTOR_FLOAT)
#define IS_VALUE (VT == POINTLESS_VECTOR_VALUE_HASHABLE)
#if KIND == 2
#define SPECH (IS_FLOAT || IS_VALUE ? ghf : (uint32_t)EL(goff + gk))
#elif MODE == 1
#define SPECH (IS_FLOAT ? ghf : CV.header.type_29 == POINTLESS_I32 ? (uint32_t)CV.data.data_i32 : CV.data.data_u32)
#else
#define SPECH (IS_FLOAT || MODE == 3 ? ghf : (uint32_t)gitems[gk])
#endif
/* the vector hash is fed the element hashes in order */
void pointless_vector_hash_init_32(pointless_vector_hash_state_32_t* state, uint32_t len)
PTV_REQUIRES(len == gn && __CPROVER_w_ok(state)) PTV_ASSIGNS(*state, gcnt) PTV_ENSURES(gcnt == 0);
void pointless_vector_hash_next_32(pointless_vector_hash_state_32_t* state, uint32_t hash)
PTV_REQUIRES(gcnt < gn && (gcnt != gk || hash == SPECH) && __CPROVER_w_ok(state)) PTV_ASSIGNS(*state, gcnt) PTV_ENSURES(gcnt == PTV_OLD(gcnt) + 1);
uint32_t pointless_vector_hash_end_32(pointless_vector_hash_state_32_t* state)
PTV_REQUIRES(gcnt == gn && __CPROVER_w_ok(state)) PTV_ASSIGNS(*state) PTV_ENSURES(PTV_RET == gret);
#endif
#if KIND == 2
uint32_t pointless_hash_float_32(float f)
PTV_REQUIRES(IS_FLOAT && (gcnt != gk || fbits(f) == ((uint32_t*)gdata)[goff + gk])) PTV_ASSIGNS() PTV_ENSURES(gcnt != gk || PTV_RET == ghf);
uint32_t pointless_hash_reader_32(pointless_t* p, pointless_value_t* v)
PTV_REQUIRES(IS_VALUE && p == &gp && (gcnt != gk || v == (pointless_value_t*)gdata + (goff + gk))) PTV_ASSIGNS() PTV_ENSURES(gcnt != gk || PTV_RET == ghf);
static uint32_t pointless_hash_reader_vector_32_priv(pointless_t* p, pointless_value_t* v, uint32_t offset, uint32_t n_items)
PTV_REQUIRES(p == &gp && v == &gv && offset == goff && n_items == gn)
PTV_ASSIGNS(gcnt)
PTV_ENSURES(PTV_RET == gret);
#define ACC(name, TT, ty) ty* pointless_reader_vector_##name(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &gp && v == &gv && VT == POINTLESS_VECTOR_##TT, "the vector, read as its type"); return (ty*)gdata; }
ACC(i8, I8, int8_t) ACC(u8, U8, uint8_t) ACC(i16, I16, int16_t) ACC(u16, U16, uint16_t) ACC(i32, I32, int32_t) ACC(u32, U32, uint32_t) ACC(i64, I64, int64_t) ACC(u64, U64, uint64_t) ACC(float, FLOAT, float) ACC(value, VALUE_HASHABLE, pointless_value_t)
#elif KIND == 3
uint32_t pointless_reader_vector_n_items(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &gp && v == &gv, "the vector"); return gn; }
static uint32_t pointless_hash_reader_vector_32_priv(pointless_t* p, pointless_value_t* v, uint32_t offset, uint32_t n_items)
PTV_REQUIRES(p == &gp && v == &gv && offset == goff && n_items == gn) PTV_ASSIGNS() PTV_ENSURES(PTV_RET == gret);
#ifdef WHOLE
static uint32_t F(pointless_t* p, pointless_value_t* v)
PTV_REQUIRES(p == &gp && v == &gv && goff == 0) PTV_ASSIGNS() PTV_ENSURES(PTV_RET == gret);
#else
uint32_t F(pointless_t* p, pointless_value_t* v, uint32_t i, uint32_t n)
PTV_REQUIRES(p == &gp && v == &gv && i == goff && n == gn) PTV_ASSIGNS() PTV_ENSURES(PTV_RET == gret);
#endif
#elif KIND == 4
uint32_t pointless_hash_float_32(float f)
#if MODE == 1
PTV_REQUIRES(IS_FLOAT && (gcnt != gk || fbits(f) == CV.data.data_u32))
#else
PTV_REQUIRES(IS_FLOAT && (gcnt != gk || fbits(f) == ((uint32_t*)gitems)[gk]))
#endif
PTV_ASSIGNS() PTV_ENSURES(gcnt != gk || PTV_RET == ghf);
uint32_t pointless_hash_create_32(pointless_create_t* c, pointless_create_value_t* v)
PTV_REQUIRES(MODE == 3 && c == &gc && (gcnt != gk || v == gvals + (uint32_t)gitems[gk])) PTV_ASSIGNS() PTV_ENSURES(gcnt != gk || PTV_RET == ghf);
static uint32_t pointless_hash_create_vector_32(pointless_create_t* c, pointless_create_value_t* v)
PTV_REQUIRES(c == &gc && v == &gcv)
PTV_ASSIGNS(gcnt)
PTV_ENSURES(PTV_RET == gret);
#elif KIND == 5
uint32_t pointless_reader_vector_n_items(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &gp && v == &gv, "the vector"); return gn; }
pointless_value_t* pointless_reader_vector_value(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &gp && v == &gv && gv.type == POINTLESS_VECTOR_VALUE_HASHABLE, "the vector"); return gitems; }
/* hashable iff of a hashable type and every element is (gflags: whether the elements are) */
#define LEAF(t) ((t) != POINTLESS_VECTOR_VALUE && (t) != POINTLESS_SET_VALUE && (t) != POINTLESS_MAP_VALUE_VALUE)
uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v)
PTV_REQUIRES(p == &gp && (v == &gv || (__CPROVER_same_object(v, gitems) && __CPROVER_POINTER_OFFSET(v) / sizeof(*v) < gn)))
PTV_ASSIGNS()
PTV_ENSURES(v != &gv || PTV_RET == 0 || (LEAF(gv.type) && (gv.type != POINTLESS_VECTOR_VALUE_HASHABLE || gflags[gk] != 0)))
PTV_ENSURES(v != &gv || PTV_RET != 0 || gv.type == POINTLESS_VECTOR_VALUE_HASHABLE || !LEAF(gv.type))
PTV_ENSURES(v == &gv || (PTV_RET != 0) == (gflags[__CPROVER_POINTER_OFFSET(v) / sizeof(*v)] != 0));
#elif KIND == 6
#define LEAF(t) ((t) != POINTLESS_VECTOR_VALUE && (t) != POINTLESS_SET_VALUE && (t) != POINTLESS_MAP_VALUE_VALUE)
uint32_t pointless_is_hashable_create(pointless_create_t* c, pointless_create_value_t* v)
PTV_REQUIRES(c == &gc && (v == &gcv || __CPROVER_same_object(v, gvals)))
PTV_ASSIGNS()
PTV_ENSURES(v != &gcv || PTV_RET == 0 || (LEAF(gcv.header.type_29) && (gcv.header.type_29 != POINTLESS_VECTOR_VALUE_HASHABLE || gflags[gk] != 0)))
PTV_ENSURES(v != &gcv || PTV_RET != 0 || gcv.header.type_29 == POINTLESS_VECTOR_VALUE_HASHABLE || !LEAF(gcv.header.type_29))
PTV_ENSURES(v == &gcv || !(gk < gn) || v != gvals + gitems[gk] || (PTV_RET != 0) == (gflags[gk] != 0));
#endif
static int valid_type(uint32_t t)
{
	switch (t) {
		case POINTLESS_VECTOR_VALUE: case POINTLESS_VECTOR_VALUE_HASHABLE: case POINTLESS_VECTOR_I8: case POINTLESS_VECTOR_U8: case POINTLESS_VECTOR_I16: case POINTLESS_VECTOR_U16: case POINTLESS_VECTOR_I32: case POINTLESS_VECTOR_U32:
		case POINTLESS_VECTOR_I64: case POINTLESS_VECTOR_U64: case POINTLESS_VECTOR_FLOAT: case POINTLESS_VECTOR_EMPTY: case POINTLESS_UNICODE_: case POINTLESS_STRING_: case POINTLESS_BITVECTOR: case POINTLESS_BITVECTOR_0: case POINTLESS_BITVECTOR_1:
		case POINTLESS_BITVECTOR_01: case POINTLESS_BITVECTOR_10: case POINTLESS_BITVECTOR_PACKED: case POINTLESS_SET_VALUE: case POINTLESS_MAP_VALUE_VALUE: case POINTLESS_EMPTY_SLOT: case POINTLESS_I32: case POINTLESS_U32: case POINTLESS_FLOAT: case POINTLESS_BOOLEAN: case POINTLESS_NULL: return 1;
	}
	return 0;
}
#endif
void h_str(void)
{
#if KIND == 1
	glen = PTV_U64(); PTV_ASSUME(glen < (uint64_t)1 << 32);
#ifdef N
	gs = malloc(glen * sizeof(T)); PTV_ASSUME(gs != 0);
	gat = 0; gfold = glen ? (uint32_t)gs[0] << 7 : 0;
	F(gs, glen);
#else
	gs = malloc((glen + 1) * sizeof(T)); PTV_ASSUME(gs != 0);
	PTV_ASSUME(gs[glen] == 0 && INST(0));
	gat = 0; gfold = glen ? (uint32_t)gs[0] << 7 : 0;
	F(gs);
#endif
	PTV_REACH();
#endif
}
void h_rvec(void)
{
#if KIND == 2
	uint64_t n = PTV_U64(); PTV_ASSUME(n < (uint64_t)1 << 32);
	gn = PTV_U32(); goff = PTV_U32(); gk = PTV_U32(); PTV_ASSUME((uint64_t)goff + gn <= n);
	gdata = malloc(n * sizeof(ET)); PTV_ASSUME(gdata != 0);
	gv.type = VT; gret = PTV_U32(); ghf = PTV_U32();
	pointless_hash_reader_vector_32_priv(&gp, &gv, goff, gn);
	PTV_REACH();
#endif
}
void h_rvecw(void)
{
#if KIND == 3
	gn = PTV_U32(); goff = PTV_U32(); gret = PTV_U32();
#ifdef WHOLE
	goff = 0; F(&gp, &gv);
#else
	F(&gp, &gv, goff, gn);
#endif
	PTV_REACH();
#endif
}
void h_cvec(void)
{
#if KIND == 4
	uint32_t idx = PTV_U32(); uint64_t nv = PTV_U64(), np = PTV_U64(); void* items;
	gn = PTV_U32(); gk = PTV_U32(); gret = PTV_U32(); ghf = PTV_U32();
	PTV_ASSUME(nv >= (uint64_t)1 << 32 && nv < (uint64_t)1 << 40 && np > idx && np < (uint64_t)1 << 33);
	gvals = malloc(nv * sizeof(pointless_create_value_t)); PTV_ASSUME(gvals != 0);
	gc.values._data = gvals; gc.values.n_items = nv; gc.values.item_size = sizeof(pointless_create_value_t);
	items = malloc((uint64_t)gn * (MODE == 1 ? 4 : sizeof(ET))); PTV_ASSUME(items != 0);
	gitems = items;
#if MODE == 1
	ghandles = items;
	/* numbers the vector's type was chosen for */
	PTV_ASSUME(gk >= gn || (IS_FLOAT ? CV.header.type_29 == POINTLESS_FLOAT : CV.header.type_29 == POINTLESS_I32 || CV.header.type_29 == POINTLESS_U32));
#endif
	gcv.header.type_29 = VT; gcv.header.is_compressed_vector = MODE == 1; gcv.data.data_u32 = idx;
	if (MODE == 2 && PTV_BOOL()) {
		gcv.header.is_outside_vector = 1;
		gc.outside_vector_values._data = malloc(np * sizeof(pointless_create_vector_outside_t)); PTV_ASSUME(gc.outside_vector_values._data != 0);
		((pointless_create_vector_outside_t*)gc.outside_vector_values._data)[idx].items = items;
		((pointless_create_vector_outside_t*)gc.outside_vector_values._data)[idx].n_items = gn;
	} else {
		gcv.header.is_outside_vector = 0;
		gc.priv_vector_values._data = malloc(np * sizeof(pointless_create_vector_priv_t)); PTV_ASSUME(gc.priv_vector_values._data != 0);
		((pointless_create_vector_priv_t*)gc.priv_vector_values._data)[idx].vector._data = items;
		((pointless_create_vector_priv_t*)gc.priv_vector_values._data)[idx].vector.n_items = gn;
	}
	pointless_hash_create_vector_32(&gc, &gcv);
	PTV_REACH();
#endif
}
void h_hashable(void)
{
#if KIND == 5
	gn = PTV_U32(); gk = PTV_U32(); PTV_ASSUME(gk < gn);
	gitems = malloc((uint64_t)gn * sizeof(*gitems)); gflags = malloc((uint64_t)gn * 4); PTV_ASSUME(gitems != 0 && gflags != 0);
	gv.type = PTV_U32(); PTV_ASSUME(valid_type(gv.type));
	if (pointless_is_hashable_reader(&gp, &gv) && gv.type == POINTLESS_VECTOR_VALUE_HASHABLE) PTV_REACH();
#elif KIND == 6
	uint32_t idx = PTV_U32(); uint64_t nv = PTV_U64(), np = PTV_U64();
	gn = PTV_U32(); gk = PTV_U32(); PTV_ASSUME(gk < gn);
	PTV_ASSUME(nv >= (uint64_t)1 << 32 && nv < (uint64_t)1 << 40 && np > idx && np < (uint64_t)1 << 33);
	gitems = malloc((uint64_t)gn * sizeof(*gitems)); gflags = malloc((uint64_t)gn * 4); PTV_ASSUME(gitems != 0 && gflags != 0);
	gvals = malloc(nv * sizeof(pointless_create_value_t)); PTV_ASSUME(gvals != 0);
	gc.values._data = gvals; gc.values.n_items = nv;
	gc.priv_vector_values._data = malloc(np * sizeof(pointless_create_vector_priv_t)); PTV_ASSUME(gc.priv_vector_values._data != 0);
	((pointless_create_vector_priv_t*)gc.priv_vector_values._data)[idx].vector._data = gitems;
	((pointless_create_vector_priv_t*)gc.priv_vector_values._data)[idx].vector.n_items = gn;
	gcv.header.type_29 = PTV_U32(); gcv.data.data_u32 = idx; gcv.header.is_outside_vector = 0; PTV_ASSUME(valid_type(gcv.header.type_29));
	if (pointless_is_hashable_create(&gc, &gcv) && gcv.header.type_29 == POINTLESS_VECTOR_VALUE_HASHABLE) PTV_REACH();
#endif
}
/* numbers: an integral value hashes to its low 32 bits, however it is stored */
void h_num(void)
{
#if KIND == 7
	int64_t i = PTV_I64(); uint64_t u = PTV_U64(); float f = PTV_FLOAT(), g = PTV_FLOAT();
	pointless_value_t v; pointless_create_value_t cv; memset(&cv, 0, sizeof(cv));
	PTV_CHECK(pointless_hash_i64_32(i) == (uint32_t)(uint64_t)i, "hash of a 64-bit integer");
	PTV_CHECK(pointless_hash_u64_32(u) == (uint32_t)u, "hash of an unsigned 64-bit integer");
	if (INT32_MIN <= i && i <= INT32_MAX) {
		PTV_CHECK(pointless_hash_i32_32((int32_t)i) == (uint32_t)(uint64_t)i, "hash of a signed integer");
		v.type = POINTLESS_I32; v.data.data_i32 = (int32_t)i; cv.header.type_29 = v.type; cv.data = v.data;
		PTV_CHECK(pointless_hash_reader_int_32(0, &v) == (uint32_t)(uint64_t)i && pointless_hash_create_int_32(0, &cv) == (uint32_t)(uint64_t)i, "hash of a stored signed integer");
	}
	if (0 <= i && i <= UINT32_MAX) {
		PTV_CHECK(pointless_hash_u32_32((uint32_t)i) == (uint32_t)i, "hash of an unsigned integer");
		v.type = i <= 1 && PTV_BOOL() ? POINTLESS_BOOLEAN : POINTLESS_U32; v.data.data_u32 = (uint32_t)i; cv.header.type_29 = v.type; cv.data = v.data;
		PTV_CHECK(pointless_hash_reader_int_32(0, &v) == (uint32_t)i && pointless_hash_create_int_32(0, &cv) == (uint32_t)i, "hash of a stored unsigned integer or boolean");
	}
	if (INT32_MIN <= i && i <= UINT32_MAX && (double)f == (double)i) PTV_CHECK(pointless_hash_float_32(f) == (uint32_t)(uint64_t)i, "a float equal to an integer hashes like it");
	/* equal floats: the same bits, or both zero */
	if (f == g) PTV_CHECK(fbits(f) == fbits(g) || (f == 0 && g == 0), "equal floats are the same, but for the zeros");
	PTV_CHECK(pointless_hash_float_32(0.0f) == pointless_hash_float_32(-0.0f), "the zeros hash equally");
	PTV_CHECK(pointless_hash_reader_null_32(0, &v) == pointless_hash_create_null_32(0, &cv), "hash of null");
	PTV_CHECK(pointless_hash_bool_true_32() == 1 && pointless_hash_bool_false_32() == 0, "booleans hash like 1 and 0");
	PTV_REACH();
#endif
}
/* the vector hash is a function of the length and the element hashes */
void h_state(void)
{
#if KIND == 7
	pointless_vector_hash_state_32_t a, b; uint32_t n = PTV_U32(), h = PTV_U32();
	pointless_vector_hash_init_32(&a, n); pointless_vector_hash_init_32(&b, n);
	PTV_CHECK(a.mult == b.mult && a.x == b.x && a.len == b.len, "same start");
	a.mult = b.mult = PTV_U32(); a.x = b.x = PTV_U32(); a.len = b.len = n;
	pointless_vector_hash_next_32(&a, h); pointless_vector_hash_next_32(&b, h);
	PTV_CHECK(a.mult == b.mult && a.x == b.x && a.len == n && b.len == n, "same step");
	PTV_CHECK(pointless_vector_hash_end_32(&a) == pointless_vector_hash_end_32(&b), "same end");
	PTV_REACH();
#endif
}
/* every type gets the hash function of its kind; strings, wide strings and bitvectors are handed their own characters and bits */
#if KIND == 8
static uint32_t gs32[4]; static uint8_t gs8[16]; static uint8_t gbuf[16];
uint32_t* pointless_reader_unicode_value_ucs4(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &gp && v == &gv, "the value"); return gs32; }
uint8_t* pointless_reader_string_value_ascii(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &gp && v == &gv, "the value"); return gs8; }
void* pointless_reader_bitvector_buffer(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &gp && v == &gv && gv.type == POINTLESS_BITVECTOR, "the value"); return gbuf; }
uint32_t pointless_bitvector_hash_32(uint32_t t, pointless_value_data_t* v, void* buffer)
{
	PTV_CHECK(t == gv.type && v->data_u32 == gv.data.data_u32 && (t != POINTLESS_BITVECTOR || buffer == gbuf), "the bits of the value");
	return gret;
}
#endif
void h_kinds(void)
{
#if KIND == 7
	uint32_t t = PTV_U32(); PTV_ASSUME(valid_type(t));
	int no = t == POINTLESS_VECTOR_VALUE || t == POINTLESS_SET_VALUE || t == POINTLESS_MAP_VALUE_VALUE, vec = t >= POINTLESS_VECTOR_VALUE && pointless_is_vector_type(t);
	PTV_CHECK((pointless_is_hashable(t) != 0) == !no, "hashable types");
	PTV_CHECK((pointless_hash_reader_func_32(t) != 0) == !no && (pointless_hash_create_func_32(t) != 0) == !no, "every hashable type has hash functions");
	PTV_CHECK(!vec || no || (pointless_hash_reader_func_32(t) == pointless_hash_reader_vector_32_ && pointless_hash_create_func_32(t) == pointless_hash_create_vector_32), "vectors of every type hash alike");
	PTV_REACH();
#endif
}
void h_disp(void)
{
#if KIND == 8
	uint32_t t = HT, i;
	int str = t == POINTLESS_STRING_, uni = t == POINTLESS_UNICODE_, num = t == POINTLESS_I32 || t == POINTLESS_U32 || t == POINTLESS_BOOLEAN,
		bv = t == POINTLESS_BITVECTOR || t == POINTLESS_BITVECTOR_0 || t == POINTLESS_BITVECTOR_1 || t == POINTLESS_BITVECTOR_01 || t == POINTLESS_BITVECTOR_10 || t == POINTLESS_BITVECTOR_PACKED;
	for (i = 0; i < 1; i++) { gs32[i] = PTV_U32(); PTV_ASSUME(gs32[i] != 0); gs8[4 + i] = PTV_U8(); gs8[i] = gs8[4 + i]; PTV_ASSUME(gs8[i] != 0); }
	gs32[1] = 0; gs8[1] = 0; gs8[5] = 0;
	gret = PTV_U32(); gv.type = t; gv.data.data_u32 = PTV_U32();
	memset(&gcv, 0, sizeof(gcv)); gcv.header.type_29 = t; gcv.data = gv.data;
	{
		static uint32_t w[4]; void* ps[1]; uint32_t hr, hc;
		w[0] = 1; w[1] = gs32[0]; w[2] = 0;
		ps[0] = uni ? (void*)w : bv ? (void*)gbuf : (void*)gs8;
		if (str) { gs8[0] = 1; gs8[1] = gs8[2] = gs8[3] = 0; }
		if (str || uni) gcv.data.data_u32 = gv.data.data_u32 = 0;
		if (t == POINTLESS_BITVECTOR) gcv.data.data_u32 = gv.data.data_u32 = 0;
		gc.string_unicode_values._data = ps; gc.bitvector_values._data = ps;
		hr = pointless_hash_reader_32(&gp, &gv);
		if (str) PTV_CHECK(hr == pointless_hash_string_v1_32(gs8), "hash of the characters");
		if (str) PTV_CHECK(pointless_hash_create_32(&gc, &gcv) == pointless_hash_string_v1_32(gs8 + 4), "hash of the characters (under construction)");
		if (uni) PTV_CHECK(hr == pointless_hash_unicode_ucs4_v1_32(gs32) && pointless_hash_create_32(&gc, &gcv) == pointless_hash_unicode_ucs4_v1_32(w + 1), "hash of the wide characters");
		if (bv) PTV_CHECK(hr == gret && pointless_hash_create_32(&gc, &gcv) == gret, "hash of the bits");
		if (num) PTV_CHECK(hr == gv.data.data_u32 && pointless_hash_create_32(&gc, &gcv) == hr, "hash of the number");
		if (t == POINTLESS_FLOAT) PTV_CHECK(hr == pointless_hash_float_32(gv.data.data_f) && pointless_hash_create_32(&gc, &gcv) == hr, "hash of the float");
		if (t == POINTLESS_NULL) PTV_CHECK(pointless_hash_create_32(&gc, &gcv) == hr, "hash of null");
	}
	PTV_REACH();
#endif
}
#ifndef PTV_CBMC
#include "graph.h"
/* another representation of an equal value */
static void twin(uint32_t a, uint32_t b)
{
	gr_node* n = &gN[a]; gr_node* m = &gN[b]; uint32_t i, z; int ok;
	static const uint32_t vts[] = { POINTLESS_VECTOR_I8, POINTLESS_VECTOR_U8, POINTLESS_VECTOR_I16, POINTLESS_VECTOR_U16, POINTLESS_VECTOR_I32, POINTLESS_VECTOR_U32, POINTLESS_VECTOR_I64, POINTLESS_VECTOR_U64, POINTLESS_VECTOR_FLOAT };
	*m = *n;
	switch (n->kind) {
		case G_BOOL: m->kind = PTV_BOOL() ? G_I32 : PTV_BOOL() ? G_U32 : G_FLOAT; m->f = (float)n->i; return;
		case G_I32: case G_U32:
			if ((float)n->i == n->i && PTV_BOOL()) { m->kind = G_FLOAT; m->f = (float)n->i; }
			else if (n->i >= 0 && n->i <= INT32_MAX) m->kind = PTV_BOOL() ? G_I32 : G_U32;
			return;
		case G_FLOAT:
			if (n->f >= INT32_MIN && n->f < 4294967296.0f && (float)(int64_t)n->f == n->f) { m->i = (int64_t)n->f; m->kind = m->i < 0 ? G_I32 : G_U32; }
			else if (n->f == 0) m->f = -n->f;
			return;
		case G_STR: m->kind = G_UNI; return;
		case G_UNI: for (i = 0; i < n->n; i++) if (n->s[i] > 255) return; m->kind = G_STR; return;
		case G_VEC: case G_NVEC: break;
		default: return;
	}
	if (n->n > 24) return;
	for (i = 0; i < n->n; i++) if (gr_elem(n, i).cls != 1) break;
	if (i < n->n || ptv_range(0, 3) == 0) {
		/* equal elements in place of elements */
		if (n->kind == G_VEC) for (i = 0; i < n->n; i++) { uint32_t t = (uint32_t)ptv_range(0, gCount - 1); for (z = 0; z < gCount; z++) { uint32_t y = (t + z) % gCount; if (y != b && gN[y].hashable && gr_eq(y, n->k[i]) && y != a && gN[y].kind != G_VEC) { m->k[i] = y; break; } } }
		return;
	}
	m->kind = G_NVEC; m->own = PTV_BOOL(); m->vt = vts[ptv_range(0, 8)]; z = gr_elsize(m->vt); ok = 1;
	for (i = 0; i < n->n; i++) {
		long double x = gr_elem(n, i).x; uint8_t* e = m->raw + i * z;
		if (x != x) { ok = 0; break; }
		if (m->vt == POINTLESS_VECTOR_FLOAT) { float f = (float)x; memcpy(e, &f, 4); }
		else { int64_t k = x >= 9223372036854775808.0L ? 0 : x < -9223372036854775808.0L ? 0 : (int64_t)x; memcpy(e, &k, z); }
		if (gr_elem(m, i).x != x) { ok = 0; break; }
	}
	if (!ok) *m = *n;
}
static int has64(uint32_t a) { uint32_t i; if (gN[a].kind == G_NVEC) return gN[a].vt == POINTLESS_VECTOR_I64 || gN[a].vt == POINTLESS_VECTOR_U64; if (gN[a].kind == G_VEC) for (i = 0; i < gN[a].n; i++) if (has64(gN[a].k[i])) return 1; return 0; }
static int hasf(uint32_t a) { uint32_t i; if (gN[a].kind == G_FLOAT) return 1; if (gN[a].kind == G_NVEC) return gN[a].vt == POINTLESS_VECTOR_FLOAT; if (gN[a].kind == G_VEC) for (i = 0; i < gN[a].n; i++) if (hasf(gN[a].k[i])) return 1; return 0; }
void h_native(void)
{
	void* b; size_t n; pointless_t p; const char* error = 0; pointless_create_t c; uint32_t i, j, k, a; uint32_t at[GR_MAX]; pointless_value_t* v;
	gr_random_ext(16, 0);
	for (i = 0, k = gCount; i < 12; i++) { a = (uint32_t)ptv_range(0, gCount - 1); if (gN[a].hashable) { twin(a, gCount); gCount++; } }
	/* a root holding a null and every hashable value */
	gr_make(gCount, G_NULL); gCount++;
	memset(&gN[gCount], 0, sizeof(gN[0])); gN[gCount].kind = G_VEC; gRoot = gCount++;
	gN[gRoot].k[gN[gRoot].n++] = gRoot - 1;
	for (i = 0; i < gRoot - 1; i++) if (gN[i].hashable && gN[gRoot].n < GR_KIDS) { at[gN[gRoot].n] = i; gN[gRoot].k[gN[gRoot].n++] = i; }
	/* under construction */
	pointless_create_begin_64(&c);
	gr_build(&c);
	for (i = 1; i < gN[gRoot].n; i++) for (j = i; j < gN[gRoot].n; j++) {
		pointless_create_value_t* ca = &pointless_dynarray_ITEM_AT(pointless_create_value_t, &c.values, gN[at[i]].h); pointless_create_value_t* cb = &pointless_dynarray_ITEM_AT(pointless_create_value_t, &c.values, gN[at[j]].h);
		int eq;
		/* still typed as plain vectors while under construction */
		if (!pointless_is_hashable(ca->header.type_29) || !pointless_is_hashable(cb->header.type_29)) continue;
		error = 0;
		eq = pointless_cmp_create(&c, gN[at[i]].h, gN[at[j]].h, &error) == 0 && !error;
		PTV_CHECK(!eq || (has64(at[i]) && hasf(at[j])) || (has64(at[j]) && hasf(at[i])) || pointless_hash_create_32(&c, ca) == pointless_hash_create_32(&c, cb), "equal values under construction hash equally");
		PTV_CHECK(eq == gr_eq(at[i], at[j]), "values under construction compare equal exactly when they are");
	}
	PTV_CHECK(pointless_create_output_and_end_b(&c, &b, &n, &error), "written");
	PTV_CHECK(pointless_open_b(&p, b, n, &error), "accepted");
	v = pointless_reader_vector_value(&p, pointless_root(&p));
	for (i = 1; i < gN[gRoot].n; i++) for (j = i; j < gN[gRoot].n; j++) {
		pointless_complete_value_t xa = pointless_value_to_complete(&v[i]), xb = pointless_value_to_complete(&v[j]); int eq;
		error = 0;
		eq = pointless_cmp_reader(&p, &xa, &p, &xb, &error) == 0 && !error;
		PTV_CHECK(!eq || (has64(at[i]) && hasf(at[j])) || (has64(at[j]) && hasf(at[i])) || pointless_hash_reader_32(&p, &v[i]) == pointless_hash_reader_32(&p, &v[j]), "equal values hash equally");
		PTV_CHECK(eq == gr_eq(at[i], at[j]), "values compare equal exactly when they are");
	}
	pointless_close(&p); pointless_free(b);
	PTV_REACH();
}
#endif

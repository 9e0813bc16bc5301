/*PTV
{
 "functions": ["pointless_get_map_", "pointless_get_set_", "check_string", "check_string_n", "check_unicode", "check_i64", "check_and_get_u32", "check_and_get_i64", "get_value", "pointless_get_mapping_string_to_u32", "pointless_get_mapping_string_to_i64", "pointless_get_mapping_string_to_value", "pointless_get_mapping_string_n_to_value", "pointless_get_mapping_unicode_to_value", "pointless_get_mapping_unicode_to_u32", "pointless_get_mapping_string_to_set", "pointless_get_mapping_string_to_map", "pointless_get_mapping_int_to_value", "pointless_is_int_in_set", "pointless_is_int_in_map", "pointless_is_in_set_acyclic", "pointless_is_in_map_acyclic", "pointless_has_same_keys_set_map", "pointless_has_same_keys_map_map", "pointless_get_mapping_string_to_vector", "pointless_get_mapping_string_to_vector_value", "pointless_get_mapping_string_to_vector_i8", "pointless_get_mapping_string_to_vector_u8", "pointless_get_mapping_string_to_vector_i16", "pointless_get_mapping_string_to_vector_u16", "pointless_get_mapping_string_to_vector_i32", "pointless_get_mapping_string_to_vector_u32", "pointless_get_mapping_string_to_vector_i64", "pointless_get_mapping_string_to_vector_u64", "pointless_get_mapping_string_to_vector_float"],
 "assumptions": ["the iteration over the entries with a given hash hands out every entry with that hash, once (P09)", "equal keys have equal hashes (P03); comparison of strings and values is P01 and P02 (here: one arbitrary verdict per entry)", "integer lookups concern keys stored as integers"],
 "contracts": [
  {"id": "get", "harness": "h_get", "enforce": "W", "loops": true, "solver": "cadical", "unwind": 2, "defs": ["KIND=1"], "variants": ["KEY=1 CALL=pointless_get_mapping_string_to_value(&gp,&gm,(char*)gkey8,&gout)", "KEY=2 CALL=pointless_get_mapping_string_n_to_value(&gp,&gm,(char*)gkey8,gkn,&gout)", "KEY=3 CALL=pointless_get_mapping_unicode_to_value(&gp,&gm,gkey32,&gout)", "KEY=4 CALL=pointless_get_mapping_int_to_value(&gp,&gm,gi,&gout)",
    "KEY=1 VAL=1 CALL=pointless_get_mapping_string_to_u32(&gp,&gm,(char*)gkey8,&gu32)", "KEY=3 VAL=1 CALL=pointless_get_mapping_unicode_to_u32(&gp,&gm,gkey32,&gu32)", "KEY=1 VAL=2 CALL=pointless_get_mapping_string_to_i64(&gp,&gm,(char*)gkey8,&gi64)",
    "KEY=1 VAL=3 VT=POINTLESS_SET_VALUE CALL=pointless_get_mapping_string_to_set(&gp,&gm,(char*)gkey8,&gout)", "KEY=1 VAL=3 VT=POINTLESS_MAP_VALUE_VALUE CALL=pointless_get_mapping_string_to_map(&gp,&gm,(char*)gkey8,&gout)",
    "KEY=4 VAL=9 CALL=pointless_is_int_in_map(&gp,&gm,gi)", "KEY=4 VAL=9 SET CALL=pointless_is_int_in_set(&gp,&gm,gi)", "KEY=5 VAL=9 CALL=pointless_is_in_map_acyclic(&gp,&gm,&gkv)", "KEY=5 VAL=9 SET CALL=pointless_is_in_set_acyclic(&gp,&gm,&gkv)",
    "KEY=1 VAL=5 CALL=pointless_get_mapping_string_to_vector(&gp,&gm,(char*)gkey8,&gout,&gnitems)", "KEY=1 VAL=6 CALL=pointless_get_mapping_string_to_vector_value(&gp,&gm,(char*)gkey8,(void*)&gptr,&gnitems)",
    "KEY=1 VAL=4 VT=POINTLESS_VECTOR_I8 CALL=pointless_get_mapping_string_to_vector_i8(&gp,&gm,(char*)gkey8,(void*)&gptr,&gnitems)", "KEY=1 VAL=4 VT=POINTLESS_VECTOR_U8 CALL=pointless_get_mapping_string_to_vector_u8(&gp,&gm,(char*)gkey8,(void*)&gptr,&gnitems)",
    "KEY=1 VAL=4 VT=POINTLESS_VECTOR_I16 CALL=pointless_get_mapping_string_to_vector_i16(&gp,&gm,(char*)gkey8,(void*)&gptr,&gnitems)", "KEY=1 VAL=4 VT=POINTLESS_VECTOR_U16 CALL=pointless_get_mapping_string_to_vector_u16(&gp,&gm,(char*)gkey8,(void*)&gptr,&gnitems)",
    "KEY=1 VAL=4 VT=POINTLESS_VECTOR_I32 CALL=pointless_get_mapping_string_to_vector_i32(&gp,&gm,(char*)gkey8,(void*)&gptr,&gnitems)", "KEY=1 VAL=4 VT=POINTLESS_VECTOR_U32 CALL=pointless_get_mapping_string_to_vector_u32(&gp,&gm,(char*)gkey8,(void*)&gptr,&gnitems)",
    "KEY=1 VAL=4 VT=POINTLESS_VECTOR_I64 CALL=pointless_get_mapping_string_to_vector_i64(&gp,&gm,(char*)gkey8,(void*)&gptr,&gnitems)", "KEY=1 VAL=4 VT=POINTLESS_VECTOR_U64 CALL=pointless_get_mapping_string_to_vector_u64(&gp,&gm,(char*)gkey8,(void*)&gptr,&gnitems)",
    "KEY=1 VAL=4 VT=POINTLESS_VECTOR_FLOAT CALL=pointless_get_mapping_string_to_vector_float(&gp,&gm,(char*)gkey8,(void*)&gptr,&gnitems)"]},
  {"id": "same", "harness": "h_same", "enforce": "{F}", "replace": ["pointless_is_in_map_acyclic", "pointless_is_in_set_acyclic"], "loops": true, "solver": "cadical", "unwind": 2, "defs": ["KIND=2"], "variants": ["F=pointless_has_same_keys_set_map SETA", "F=pointless_has_same_keys_map_map"]}
 ],
 "native": [{"harness": "h_native", "secs": 8}],
 "src": ["src/pointless_value.c"],
 "nobody": ["pointless_.*"],
 "fulllib": true
}
PTV*/
#include "ptv.h"
#include <pointless/pointless.h>
#include <pointless/pointless_reader_helpers.h>
#ifndef KIND
#define KIND 0
#endif
#ifndef VAL
#define VAL 0
#endif
#ifndef VT
#define VT 0
#endif
#ifdef PTV_CBMC
static pointless_t gp; static pointless_value_t gm, gm2, gK, gV, gkv; static uint32_t gh; static int ginit, gdone, gmatch; static int32_t gcmp; static uint64_t gleft;
static pointless_value_t gout; static uint32_t gu32, gnitems, gvn; static int64_t gi64, gi; static void* gptr;
static uint8_t gkey8[8], gstr8[8], gvec[8]; static uint32_t gkey32[8], gstr32[8]; static size_t gkn;
#if KIND == 1
/* does the value found qualify (lookups of numbers go on otherwise) */
#define ISI(v) ((v).type == POINTLESS_I32 || (v).type == POINTLESS_U32)
#define NUM(v) ((v).type == POINTLESS_I32 ? (int64_t)(v).data.data_i32 : (int64_t)(v).data.data_u32)
#define VOK (VAL == 1 ? (ISI(gV) && NUM(gV) >= 0) : VAL == 2 ? ISI(gV) : 1)
#define GHOSTS gK, gV, gdone, gmatch, gcmp, gleft
#define INV (ginit == 1 && !gdone && (!gmatch || !VOK))
#define PTV_LOOP_get_map(kk, vv, st) __CPROVER_assigns(kk, vv, st, GHOSTS, __CPROVER_object_whole(out)) __CPROVER_loop_invariant(INV) __CPROVER_decreases(gleft)
#define PTV_LOOP_get_set(kk, st) __CPROVER_assigns(kk, st, GHOSTS) __CPROVER_loop_invariant(INV) __CPROVER_decreases(gleft)
#define PTV_LOOP_is_in_map(kk, vv, k2, st) __CPROVER_assigns(kk, vv, k2, st, GHOSTS) __CPROVER_loop_invariant(INV) __CPROVER_decreases(gleft)
#define PTV_LOOP_is_in_set(kk, k2, st) __CPROVER_assigns(kk, k2, st, GHOSTS) __CPROVER_loop_invariant(INV) __CPROVER_decreases(gleft)
#define PTV_LOOP_same_keys(...)
#else
#define PTV_LOOP_get_map(...)
#define PTV_LOOP_get_set(...)
#define PTV_LOOP_is_in_map(...)
#define PTV_LOOP_is_in_set(...)
#if KIND == 2
static int gall, gphase; static uint32_t gna, gnb;
#define PTV_LOOP_same_keys(kk, vv, st) __CPROVER_assigns(kk, st, gK, gV, gdone, gcmp, gleft, gall, vv) __CPROVER_loop_invariant(gphase == __CPROVER_loop_entry(gphase) && gdone == __CPROVER_loop_entry(gdone) && gall) __CPROVER_decreases(gleft)
#else
#define PTV_LOOP_same_keys(...)
#endif
#endif
#endif
#include "/repo/src/pointless_reader_helpers.c"
#ifdef PTV_CBMC
static int valid_type(uint32_t t)
{
	switch (t) {
		case POINTLESS_VECTOR_VALUE: case POINTLESS_VECTOR_VALUE_HASHABLE: case POINTLESS_VECTOR_I8: case POINTLESS_VECTOR_U8: case POINTLESS_VECTOR_I16: case POINTLESS_VECTOR_U16: case POINTLESS_VECTOR_I32: case POINTLESS_VECTOR_U32:
		case POINTLESS_VECTOR_I64: case POINTLESS_VECTOR_U64: case POINTLESS_VECTOR_FLOAT: case POINTLESS_VECTOR_EMPTY: case POINTLESS_UNICODE_: case POINTLESS_STRING_: case POINTLESS_BITVECTOR: case POINTLESS_BITVECTOR_0: case POINTLESS_BITVECTOR_1:
		case POINTLESS_BITVECTOR_01: case POINTLESS_BITVECTOR_10: case POINTLESS_BITVECTOR_PACKED: case POINTLESS_SET_VALUE: case POINTLESS_MAP_VALUE_VALUE: case POINTLESS_EMPTY_SLOT: case POINTLESS_I32: case POINTLESS_U32: case POINTLESS_FLOAT: case POINTLESS_BOOLEAN: case POINTLESS_NULL: return 1;
	}
	return 0;
}
static void any_value(pointless_value_t* v) { uint64_t x = nondet_ptv_u64(); v->type = (uint32_t)x; v->data.data_u32 = (uint32_t)(x >> 32); __CPROVER_assume(valid_type(v->type)); }
#endif
#if KIND == 1
/* hashes: of the key that was given */
uint32_t pointless_hash_string_v1_32(uint8_t* s) { PTV_CHECK(KEY == 1 && s == gkey8, "hash of the key"); return gh; }
uint32_t pointless_hash_string_v1_32_(uint8_t* s, size_t n) { PTV_CHECK(KEY == 2 && s == gkey8 && n == gkn, "hash of the key"); return gh; }
uint32_t pointless_hash_unicode_ucs4_v1_32(uint32_t* s) { PTV_CHECK(KEY == 3 && s == gkey32, "hash of the key"); return gh; }
uint32_t pointless_hash_i64_32(int64_t i) { PTV_CHECK(KEY == 4 && i == gi, "hash of the key"); return gh; }
uint32_t pointless_hash_reader_32(pointless_t* p, pointless_value_t* v) { PTV_CHECK(KEY == 5 && p == &gp && v == &gkv, "hash of the key"); return gh; }
/* the entries with that hash */
static void init(pointless_t* p, pointless_value_t* m, uint32_t hash) { PTV_CHECK(p == &gp && m == &gm && hash == gh && !ginit, "iteration over the container given, by the hash of the key"); ginit = 1; }
static int next(void)
{
	PTV_CHECK(ginit && !gdone, "started, not at the end");
	if (gleft == 0) { gdone = 1; gmatch = 0; return 0; }
	gleft = gleft - 1;
	any_value(&gK); any_value(&gV); __CPROVER_assume(gK.type != POINTLESS_EMPTY_SLOT);
	gcmp = (int32_t)nondet_ptv_u64();
	gmatch = KEY == 4 ? (ISI(gK) && NUM(gK) == gi) : KEY == 5 ? gcmp == 0 : ((gK.type == POINTLESS_STRING_ || gK.type == POINTLESS_UNICODE_) && gcmp == 0);
	return 1;
}
void pointless_reader_map_iter_hash_init(pointless_t* p, pointless_value_t* m, uint32_t hash, pointless_hash_iter_state_t* st) { PTV_CHECK(m->type == POINTLESS_MAP_VALUE_VALUE, "a map"); init(p, m, hash); st->hash = hash; }
void pointless_reader_set_iter_hash_init(pointless_t* p, pointless_value_t* m, uint32_t hash, pointless_hash_iter_state_t* st) { PTV_CHECK(m->type == POINTLESS_SET_VALUE, "a set"); init(p, m, hash); st->hash = hash; }
uint32_t pointless_reader_map_iter_hash(pointless_t* p, pointless_value_t* m, uint32_t hash, pointless_value_t** k, pointless_value_t** v, pointless_hash_iter_state_t* st)
{
	PTV_CHECK(p == &gp && m == &gm && hash == gh, "the same iteration");
	if (!next()) return 0;
	*k = &gK; *v = &gV; return 1;
}
uint32_t pointless_reader_set_iter_hash(pointless_t* p, pointless_value_t* m, uint32_t hash, pointless_value_t** k, pointless_hash_iter_state_t* st)
{
	PTV_CHECK(p == &gp && m == &gm && hash == gh, "the same iteration");
	if (!next()) return 0;
	*k = &gK; return 1;
}
/* comparisons of the current key with the key given */
uint32_t* pointless_reader_unicode_value_ucs4(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &gp && v == &gK && gK.type == POINTLESS_UNICODE_, "the current key"); return gstr32; }
uint8_t* pointless_reader_string_value_ascii(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &gp && v == &gK && gK.type == POINTLESS_STRING_, "the current key"); return gstr8; }
int32_t pointless_cmp_string_32_8(uint32_t* a, uint8_t* b) { PTV_CHECK(KEY == 1 && a == gstr32 && b == gkey8, "key against key"); return gcmp; }
int32_t pointless_cmp_string_8_8(uint8_t* a, uint8_t* b) { PTV_CHECK(KEY == 1 && ((a == gstr8 && b == gkey8) || (b == gstr8 && a == gkey8)), "key against key"); return gcmp; }
int32_t pointless_cmp_string_32_8_n(uint32_t* a, uint8_t* b, size_t n) { PTV_CHECK(KEY == 2 && a == gstr32 && b == gkey8 && n == gkn, "key against key"); return gcmp; }
int32_t pointless_cmp_string_8_8_n(uint8_t* a, uint8_t* b, size_t n) { PTV_CHECK(KEY == 2 && a == gstr8 && b == gkey8 && n == gkn, "key against key"); return gcmp; }
int32_t pointless_cmp_string_32_32(uint32_t* a, uint32_t* b) { PTV_CHECK(KEY == 3 && ((a == gstr32 && b == gkey32) || (b == gstr32 && a == gkey32)), "key against key"); return gcmp; }
int32_t pointless_cmp_string_8_32(uint8_t* a, uint32_t* b) { PTV_CHECK(KEY == 3 && a == gstr8 && b == gkey32, "key against key"); return gcmp; }
#define SAMEV(c, v) ((c)->type == (v).type && (c)->complete_data.data_u32 == (v).data.data_u32)
int32_t pointless_cmp_reader_acyclic(pointless_t* pa, pointless_complete_value_t* a, pointless_t* pb, pointless_complete_value_t* b)
{
	PTV_CHECK(KEY == 5 && pa == &gp && pb == &gp && ((SAMEV(a, gK) && SAMEV(b, gkv)) || (SAMEV(b, gK) && SAMEV(a, gkv))), "key against key");
	return gcmp;
}
uint32_t pointless_reader_vector_n_items(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &gp && v->type == gV.type && v->data.data_u32 == gV.data.data_u32, "the vector found"); return gvn; }
#define ACC(name, TT, ty) ty* pointless_reader_vector_##name(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &gp && v->type == gV.type && v->data.data_u32 == gV.data.data_u32 && v->type == POINTLESS_VECTOR_##TT, "the vector found, read as its type"); return (ty*)gvec; }
ACC(i8, I8, int8_t) ACC(u8, U8, uint8_t) ACC(i16, I16, int16_t) ACC(u16, U16, uint16_t) ACC(i32, I32, int32_t) ACC(u32, U32, uint32_t) ACC(i64, I64, int64_t) ACC(u64, U64, uint64_t) ACC(float, FLOAT, float)
pointless_value_t* pointless_reader_vector_value(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &gp && v->type == gV.type && v->data.data_u32 == gV.data.data_u32 && (v->type == POINTLESS_VECTOR_VALUE || v->type == POINTLESS_VECTOR_VALUE_HASHABLE), "the vector found, read as its type"); return (pointless_value_t*)gvec; }
/* found: the current entry matches and the value is handed out; otherwise no entry qualified */
#define NUMVEC(t) ((t) == POINTLESS_VECTOR_I8 || (t) == POINTLESS_VECTOR_U8 || (t) == POINTLESS_VECTOR_I16 || (t) == POINTLESS_VECTOR_U16 || (t) == POINTLESS_VECTOR_I32 || (t) == POINTLESS_VECTOR_U32 || (t) == POINTLESS_VECTOR_I64 || (t) == POINTLESS_VECTOR_U64 || (t) == POINTLESS_VECTOR_FLOAT || (t) == POINTLESS_VECTOR_EMPTY)
#define ISV (gout.type == gV.type && gout.data.data_u32 == gV.data.data_u32)
#define TOK (VAL == 3 ? gV.type == VT : VAL == 4 ? gV.type == VT || gV.type == POINTLESS_VECTOR_EMPTY : VAL == 5 ? NUMVEC(gV.type) : VAL == 6 ? gV.type == POINTLESS_VECTOR_VALUE || gV.type == POINTLESS_VECTOR_VALUE_HASHABLE || gV.type == POINTLESS_VECTOR_EMPTY : 1)
#define OUT (VAL == 0 || VAL == 3 ? ISV : VAL == 1 ? gu32 == gV.data.data_u32 : VAL == 2 ? gi64 == NUM(gV) : VAL == 4 || VAL == 6 ? (gV.type == POINTLESS_VECTOR_EMPTY ? gptr == 0 && gnitems == 0 : gptr == gvec && gnitems == gvn) : VAL == 5 ? ISV && gnitems == gvn : 1)
static int W(void)
PTV_REQUIRES(!ginit && !gdone && !gmatch)
PTV_ASSIGNS(GHOSTS, ginit, gout, gu32, gi64, gnitems, gptr)
PTV_ENSURES(PTV_RET ? (gmatch && VOK && TOK && OUT) : (gdone ? 1 : gmatch && !TOK));
static int W(void) { return CALL; }
#elif KIND == 2
/* two passes; gdone counts the exhausted ones */
static int next2(int phase) { PTV_CHECK(gdone == phase, "one pass after the other"); if (gleft == 0) { gdone = gdone + 1; gleft = nondet_ptv_u64(); return 0; } gleft = gleft - 1; any_value(&gK); any_value(&gV); return 1; }
uint32_t pointless_reader_set_n_items(pointless_t* p, pointless_value_t* s) { PTV_CHECK(p == &gp && (s == &gm || s == &gm2) && s->type == POINTLESS_SET_VALUE, "one of the containers"); return s == &gm ? gna : gnb; }
uint32_t pointless_reader_map_n_items(pointless_t* p, pointless_value_t* s) { PTV_CHECK(p == &gp && (s == &gm || s == &gm2) && s->type == POINTLESS_MAP_VALUE_VALUE, "one of the containers"); return s == &gm ? gna : gnb; }
uint32_t pointless_reader_set_iter(pointless_t* p, pointless_value_t* s, pointless_value_t** k, uint32_t* st) { PTV_CHECK(p == &gp && (s == &gm || s == &gm2) && s->type == POINTLESS_SET_VALUE, "one of the containers"); if (!next2(s == &gm2)) return 0; *k = &gK; return 1; }
uint32_t pointless_reader_map_iter(pointless_t* p, pointless_value_t* s, pointless_value_t** k, pointless_value_t** v, uint32_t* st) { PTV_CHECK(p == &gp && (s == &gm || s == &gm2) && s->type == POINTLESS_MAP_VALUE_VALUE, "one of the containers"); if (!next2(s == &gm2)) return 0; *k = &gK; *v = &gV; return 1; }
/* every key is looked up in the other container */
int pointless_is_in_set_acyclic(pointless_t* p, pointless_value_t* s, pointless_value_t* k)
PTV_REQUIRES(p == &gp && s == (gdone == 0 ? &gm2 : &gm) && s->type == POINTLESS_SET_VALUE && k == &gK) PTV_ASSIGNS(gall) PTV_ENSURES((PTV_RET != 0) == gall);
int pointless_is_in_map_acyclic(pointless_t* p, pointless_value_t* s, pointless_value_t* k)
PTV_REQUIRES(p == &gp && s == (gdone == 0 ? &gm2 : &gm) && s->type == POINTLESS_MAP_VALUE_VALUE && k == &gK) PTV_ASSIGNS(gall) PTV_ENSURES((PTV_RET != 0) == gall);
int F(pointless_t* p, pointless_value_t* s, pointless_value_t* m)
PTV_REQUIRES(p == &gp && s == &gm && m == &gm2 && gall == 1 && gdone == 0)
PTV_ASSIGNS(gall, gdone, gK, gV, gcmp, gleft)
PTV_ENSURES(PTV_RET ? (gna == gnb && gall && gdone == 2) : (gna != gnb || !gall));
#endif
void h_get(void)
{
#if KIND == 1
#ifdef SET
	gm.type = POINTLESS_SET_VALUE;
#else
	gm.type = POINTLESS_MAP_VALUE_VALUE;
#endif
	gm.data.data_u32 = PTV_U32(); gh = PTV_U32(); gi = PTV_I64(); gkn = PTV_U64(); gleft = PTV_U64(); gvn = PTV_U32();
	any_value(&gkv);
	if (W()) PTV_REACH();
#endif
}
void h_same(void)
{
#if KIND == 2
#ifdef SETA
	gm.type = POINTLESS_SET_VALUE;
#else
	gm.type = POINTLESS_MAP_VALUE_VALUE;
#endif
	gm2.type = POINTLESS_MAP_VALUE_VALUE; gna = PTV_U32(); gnb = PTV_U32(); gleft = PTV_U64(); gall = 1; gdone = 0;
	if (F(&gp, &gm, &gm2)) PTV_REACH();
#endif
}
#ifndef PTV_CBMC
#include "graph.h"
/* a random set and map, looked up by strings, wide strings, integers and arbitrary values */
static uint32_t find(uint32_t c, uint32_t a) { uint32_t j; for (j = 0; j < gN[c].n; j++) if (gr_eq(gN[c].k[j], a)) return j; return UINT32_MAX; }
static int cb_eq(pointless_t* p, pointless_complete_value_t* v, void* user, const char** error) { return gr_key_eq(p, v, gr_of(*(uint32_t*)user)); }
void h_native(void)
{
	void* b; size_t n; pointless_t p; const char* error = 0; uint32_t i, j, k, m, s1, s2, m1, pool; uint32_t at[GR_MAX]; pointless_value_t *v, *S, *M, *S2, out, *kk, *vv; uint8_t z[32]; uint32_t w[32]; int r;
	gr_random_ext(22, 0);
	pool = gCount;
	/* some entries that strings and integers are likely to find */
	for (i = 0; i < 6; i++) gr_make(gCount++, PTV_BOOL() ? G_STR : PTV_BOOL() ? G_I32 : PTV_BOOL() ? G_UNI : G_NVEC);
	gr_make(s1 = gCount, G_SET); gCount++;
	gr_make(m1 = gCount, G_MAP); gCount++;
	gr_make(s2 = gCount, G_SET); gCount++;
	if (PTV_BOOL()) { gN[s2] = gN[m1]; gN[s2].kind = G_SET; if (gN[s2].n && ptv_range(0, 3) == 0) gN[s2].n--; }
	if (gN[s1].n > 20) gN[s1].n = 20;
	gr_make(gCount, G_NULL); gCount++;
	memset(&gN[gCount], 0, sizeof(gN[0])); gN[gCount].kind = G_VEC; gRoot = gCount++;
	k = 0; at[k] = gRoot - 1; gN[gRoot].k[k++] = gRoot - 1; gN[gRoot].k[k++] = s1; gN[gRoot].k[k++] = m1; gN[gRoot].k[k++] = s2;
	for (i = 0; i < s1 && k < GR_KIDS; i++) { at[k] = i; gN[gRoot].k[k++] = i; }
	gN[gRoot].n = k;
	gr_write(&b, &n);
	PTV_CHECK(pointless_open_b(&p, b, n, &error), "accepted");
	v = pointless_reader_vector_value(&p, pointless_root(&p)); S = v + 1; M = v + 2; S2 = v + 3;
	for (i = 4; i < k; i++) {
		gr_node* e = &gN[at[i]]; uint32_t es = e->hashable ? find(s1, at[i]) : UINT32_MAX, em = e->hashable ? find(m1, at[i]) : UINT32_MAX;
		kk = vv = 0; error = 0;
		pointless_reader_set_lookup(&p, S, &v[i], &kk, &error);
		PTV_CHECK((kk != 0) == (es != UINT32_MAX) && (!kk || gr_key_is(&p, kk, at[i])) && (error == 0 || !e->hashable), "member found exactly when it was added");
		kk = vv = 0; error = 0;
		pointless_reader_map_lookup(&p, M, &v[i], &kk, &vv, &error);
		PTV_CHECK((kk != 0) == (em != UINT32_MAX) && (vv != 0) == (kk != 0) && (!kk || gr_key_is(&p, kk, at[i])) && (error == 0 || !e->hashable), "key found exactly when it was added");
		if (vv) { memset(gr_seen, 0, sizeof(gr_seen)); gr_same_v(&p, vv, gN[m1].v[em]); }
		if (e->hashable) {
			uint32_t h = pointless_hash_reader_32(&p, &v[i]), u = at[i];
			PTV_CHECK(pointless_is_in_set_acyclic(&p, S, &v[i]) == (es != UINT32_MAX), "is in the set");
			PTV_CHECK(pointless_is_in_map_acyclic(&p, M, &v[i]) == (em != UINT32_MAX), "is in the map");
			kk = vv = 0; error = 0; pointless_reader_set_lookup_ext(&p, S, h, cb_eq, &u, &kk, &error);
			PTV_CHECK((kk != 0) == (es != UINT32_MAX), "member found with a comparison function");
			kk = vv = 0; error = 0; pointless_reader_map_lookup_ext(&p, M, h, cb_eq, &u, &kk, &vv, &error);
			PTV_CHECK((kk != 0) == (em != UINT32_MAX) && (vv != 0) == (kk != 0), "key found with a comparison function");
			if (vv) { memset(gr_seen, 0, sizeof(gr_seen)); gr_same_v(&p, vv, gN[m1].v[em]); }
		}
		if (e->kind == G_STR || e->kind == G_UNI) {
			int narrow = 1; gr_node* f = em != UINT32_MAX ? &gN[gN[m1].v[em]] : 0;
			for (j = 0; j < e->n; j++) { z[j] = (uint8_t)e->s[j]; w[j] = e->s[j]; if (e->s[j] > 255) narrow = 0; }
			z[j] = 0; w[j] = 0;
			r = pointless_get_mapping_unicode_to_value(&p, M, w, &out);
			PTV_CHECK(r == (em != UINT32_MAX), "found by wide string");
			if (r) { memset(gr_seen, 0, sizeof(gr_seen)); gr_same_v(&p, &out, gN[m1].v[em]); }
			{ uint32_t u = 7; r = pointless_get_mapping_unicode_to_u32(&p, M, w, &u); PTV_CHECK(r == (f && (f->kind == G_I32 || f->kind == G_U32) && f->i >= 0) && (!r || u == f->i), "number found by wide string"); }
			if (narrow) {
				uint8_t* q; uint32_t u = 7, nv; int64_t x = 7; float* fl; void* pp;
				r = pointless_get_mapping_string_to_value(&p, M, (char*)z, &out);
				PTV_CHECK(r == (em != UINT32_MAX), "found by string");
				if (r) { memset(gr_seen, 0, sizeof(gr_seen)); gr_same_v(&p, &out, gN[m1].v[em]); }
				q = malloc(e->n ? e->n : 1); memcpy(q, z, e->n);
				if (!e->n) q[0] = PTV_U8();
				r = pointless_get_mapping_string_n_to_value(&p, M, (char*)q, e->n, &out);
				PTV_CHECK(r == (em != UINT32_MAX), "found by counted string");
				if (r) { memset(gr_seen, 0, sizeof(gr_seen)); gr_same_v(&p, &out, gN[m1].v[em]); }
				free(q);
				/* a counted string that is the beginning of another */
				if (e->n) { z[e->n] = 'x'; r = pointless_get_mapping_string_n_to_value(&p, M, (char*)z, e->n, &out); PTV_CHECK(r == (em != UINT32_MAX), "found by the beginning of a string"); z[e->n] = 0; }
				r = pointless_get_mapping_string_to_u32(&p, M, (char*)z, &u); PTV_CHECK(r == (f && (f->kind == G_I32 || f->kind == G_U32) && f->i >= 0) && (!r || u == f->i), "number found by string");
				r = pointless_get_mapping_string_to_i64(&p, M, (char*)z, &x); PTV_CHECK(r == (f && (f->kind == G_I32 || f->kind == G_U32)) && (!r || x == f->i), "number found by string");
				r = pointless_get_mapping_string_to_set(&p, M, (char*)z, &out); PTV_CHECK(r == (f && f->kind == G_SET), "set found by string");
				r = pointless_get_mapping_string_to_map(&p, M, (char*)z, &out); PTV_CHECK(r == (f && f->kind == G_MAP), "map found by string");
#define NVC(T, X, ty) { ty* y = 0; nv = 77; r = pointless_get_mapping_string_to_vector_##X(&p, M, (char*)z, &y, &nv); \
					PTV_CHECK(f && f->kind == G_NVEC && (f->n == 0 || f->vt == POINTLESS_VECTOR_##T) ? r : !r || (f && f->kind == G_VEC), "typed vector found by string"); \
					if (r && f->kind == G_NVEC) { PTV_CHECK(nv == f->n, "its length"); for (j = 0; j < nv; j++) PTV_CHECK(memcmp(&y[j], f->raw + j * sizeof(ty), sizeof(ty)) == 0, "its elements"); } }
				NVC(I8, i8, int8_t) NVC(U8, u8, uint8_t) NVC(I16, i16, int16_t) NVC(U16, u16, uint16_t) NVC(I32, i32, int32_t) NVC(U32, u32, uint32_t) NVC(I64, i64, int64_t) NVC(U64, u64, uint64_t) NVC(FLOAT, float, float)
				(void)fl; (void)pp;
			}
		}
		if (e->kind == G_I32 || e->kind == G_U32) {
			/* keys stored as integers */
			int is = es != UINT32_MAX && (gN[gN[s1].k[es]].kind == G_I32 || gN[gN[s1].k[es]].kind == G_U32), im = em != UINT32_MAX && (gN[gN[m1].k[em]].kind == G_I32 || gN[gN[m1].k[em]].kind == G_U32);
			PTV_CHECK(pointless_is_int_in_set(&p, S, e->i) == is, "integer in the set");
			PTV_CHECK(pointless_is_int_in_map(&p, M, e->i) == im, "integer in the map");
			PTV_CHECK(!pointless_is_int_in_map(&p, M, e->i + ((int64_t)1 << 33)) && !pointless_is_int_in_set(&p, S, e->i - ((int64_t)1 << 33)), "no integer of the same low bits");
			r = pointless_get_mapping_int_to_value(&p, M, e->i, &out);
			PTV_CHECK(r == im, "found by integer");
			if (r) { memset(gr_seen, 0, sizeof(gr_seen)); gr_same_v(&p, &out, gN[m1].v[em]); }
		}
	}
	for (r = 1, i = 0; i < gN[s2].n; i++) if (find(m1, gN[s2].k[i]) == UINT32_MAX) r = 0;
	if (gN[s2].n != gN[m1].n) r = 0;
	PTV_CHECK(pointless_has_same_keys_set_map(&p, S2, M) == r && pointless_has_same_keys_map_map(&p, M, M), "same keys");
	(void)m; (void)pool;
	pointless_close(&p); pointless_free(b);
	PTV_REACH();
}
#endif

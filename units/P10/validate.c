/*PTV
{
 "functions": ["pointless_hash_table_validate", "pointless_validate_hashable", "pointless_validate_set_complicated", "pointless_validate_map_complicated"],
 "assumptions": ["the number of non-empty buckets is a ghost prefix count, defined by its recurrence, instantiated at the loop index", "the expected number of buckets (a power of two above the number of items, up to 2^31, or 0), the hash of a key and the result of a probe are arbitrary functions (their own contracts: P08, P03)", "facts about all buckets are specified at one arbitrary bucket; a key vector that is not hashable throughout has a witness element", "completeness (well-formed tables are accepted): the hypothesis on the bucket at hand is instantiated at the loop index"],
 "contracts": [
  {"id": "table", "harness": "h_table", "enforce": "pointless_hash_table_validate", "replace": ["pointless_validate_hashable"], "loops": true, "solver": "cadical", "defs": ["W=1"], "variants": ["MAP", "SET"]},
  {"id": "hashable", "harness": "h_hashable", "enforce": "pointless_validate_hashable", "rec": true, "loops": true, "solver": "cadical", "defs": ["W=2"]},
  {"id": "set", "harness": "h_cont", "enforce": "pointless_validate_set_complicated", "solver": "cadical", "defs": ["W=3", "SET"]},
  {"id": "map", "harness": "h_cont", "enforce": "pointless_validate_map_complicated", "solver": "cadical", "defs": ["W=3", "MAP"]}
 ],
 "src": []
}
PTV*/
#include "ptv.h"
#include <pointless/pointless_validate.h>

pointless_t gp; const char* gerr; const char* gdummy = "e";
uint32_t gitems, gnb, gNB; uint32_t* ghv; pointless_value_t *gkv, *gvv;
/* arbitrary bucket; prefix counts of non-empty buckets; hypothesis: everything is in order */
uint32_t gq; uint64_t* gpre; int ggood;
/* seen for bucket gq: it was found hashable, its hash, the result of the probe */
int gHq, gHashed; uint32_t gHash, gProbe; int gProbed;
#define EMPTY(i) (gkv[i].type == POINTLESS_EMPTY_SLOT)

/* a value and the elements it has if it is a hashable vector: gDv, D(i): hashable throughout */
pointless_value_t gv, *gel; uint32_t gn, gw, gdepth; int gDv; uint8_t* gDr;
#define D(i) (gDv || gDr[i])

#ifdef PTV_CBMC
#if W == 1
uint32_t pointless_hash_compute_n_buckets(uint32_t n) { PTV_CHECK(n == gitems, "buckets for the number of items"); return gNB; }
uint32_t pointless_hash_reader_32(pointless_t* p, pointless_value_t* v)
{
	uint32_t i = (uint32_t)(v - gkv), h = (uint32_t)nondet_ptv_u64();
	PTV_CHECK(p == &gp && v == gkv + i && i < gnb, "a key of the table is hashed");
	if (i == gq) PTV_CHECK(gHq, "keys are hashed after they were found hashable");
	if (ggood) h = ghv[i];
	if (i == gq) { gHashed = 1; gHash = h; }
	return h;
}
uint32_t pointless_hash_table_probe(pointless_t* p, uint32_t h, pointless_value_t* v, uint32_t n_buckets, uint32_t* hash_vector, pointless_value_t* key_vector, const char** error)
{
	uint32_t i = (uint32_t)(v - gkv), r = (uint32_t)nondet_ptv_u64();
	PTV_CHECK(p == &gp && v == gkv + i && i < gnb && n_buckets == gnb && hash_vector == ghv && key_vector == gkv && error == &gerr, "arguments of the probe");
	PTV_CHECK(h == ghv[i], "probed with the hash of the bucket");
	__CPROVER_assume(r < gnb || r == POINTLESS_HASH_TABLE_PROBE_ERROR || r == POINTLESS_HASH_TABLE_PROBE_MISS);
	if (ggood) r = i;
	if (r == POINTLESS_HASH_TABLE_PROBE_ERROR) gerr = "probe";
	if (i == gq) { gProbed = 1; gProbe = r; }
	return r;
}
#define GHOSTS gHq, gHashed, gHash, gProbe, gProbed
#define INST(i) (gpre[(i) + 1] == gpre[i] + (EMPTY(i) ? 0 : 1) && (!ggood || !gvv || !EMPTY(i) || gvv[i].type == POINTLESS_EMPTY_SLOT))
#define CNT(i) (!((i) > gq) || !EMPTY(gq) || !gvv || gvv[gq].type == POINTLESS_EMPTY_SLOT)
#define HQ(i) (!((i) > gq) || (gHq && gHashed && gHash == ghv[gq]))
#define PQ(i) (!((i) > gq) || EMPTY(gq) || (gProbed && gProbe == gq))
#define PTV_LOOP_vh_items(i)
#define PTV_LOOP_vh_count(i, n_used, n_empty) __CPROVER_assigns(i, n_used, n_empty, gerr) __CPROVER_loop_invariant(i <= gnb && n_used <= i && n_empty == i - n_used && n_used == gpre[i] && gerr == 0 && CNT(i)) __CPROVER_decreases(gnb - i)
#define PTV_GHOST_vh_count_step(i) __CPROVER_assume(INST(i));
#define PTV_LOOP_vh_hash(i) __CPROVER_assigns(i, gerr, gHq, gHashed, gHash) __CPROVER_loop_invariant(i <= gnb && gerr == 0 && HQ(i)) __CPROVER_decreases(gnb - i)
#define PTV_LOOP_vh_place(i) __CPROVER_assigns(i, gerr, gProbe, gProbed) __CPROVER_loop_invariant(i <= gnb && gerr == 0 && PQ(i)) __CPROVER_decreases(gnb - i)
#elif W == 2
int gIsH;
uint32_t pointless_is_hashable(uint32_t type) { PTV_CHECK(type == gv.type, "the type of the value"); return gIsH; }
uint32_t pointless_reader_vector_n_items(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &gp && v == &gv && gv.type == POINTLESS_VECTOR_VALUE_HASHABLE, "length of the vector"); return gn; }
pointless_value_t* pointless_reader_vector_value(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &gp && v == &gv && gv.type == POINTLESS_VECTOR_VALUE_HASHABLE, "elements of the vector"); return gel; }
#define PTV_LOOP_vh_items(i) __CPROVER_assigns(i, gerr) __CPROVER_loop_invariant(i <= gn && gerr == 0 && (!(gw < i && gw < gn) || D(gw))) __CPROVER_decreases(gn - i)
#define PTV_LOOP_vh_count(i, n_used, n_empty)
#define PTV_GHOST_vh_count_step(i)
#define PTV_LOOP_vh_hash(i)
#define PTV_LOOP_vh_place(i)
#else
#define PTV_LOOP_vh_items(i)
#define PTV_LOOP_vh_count(i, n_used, n_empty)
#define PTV_GHOST_vh_count_step(i)
#define PTV_LOOP_vh_hash(i)
#define PTV_LOOP_vh_place(i)
#endif
#endif

#if W != 3
#include "/repo/src/pointless_validate_hash_table.c"
#else
#include "/repo/src/pointless_validate.c"
#endif

#ifdef PTV_CBMC
#if W == 1
static int32_t pointless_validate_hashable(pointless_t* p, pointless_value_t* v, uint32_t depth, const char** error)
PTV_REQUIRES(p == &gp && __CPROVER_same_object(v, gkv) && v == gkv + (v - gkv) && 0 <= v - gkv && v - gkv < gnb && depth == 0 && error == &gerr && gerr == 0)
PTV_ASSIGNS(gerr, gHq)
PTV_ENSURES((PTV_RET != 0) == (gerr == 0) && (!ggood || PTV_RET) && (!PTV_RET || v - gkv != gq || gHq) && (v - gkv == gq || gHq == PTV_OLD(gHq)));

int32_t pointless_hash_table_validate(pointless_t* p, uint32_t n_items, uint32_t n_buckets, uint32_t* hash_vector, pointless_value_t* key_vector, pointless_value_t* value_vector, const char** error)
PTV_REQUIRES(p == &gp && n_items == gitems && n_buckets == gnb && hash_vector == ghv && key_vector == gkv && value_vector == gvv && error == &gerr && gerr == 0)
PTV_ASSIGNS(gerr, GHOSTS)
PTV_ENSURES((PTV_RET != 0) == (gerr == 0)
/* accepted: the right number of buckets, one of them empty, as many keys as items */
&& (!PTV_RET || (gnb == gNB && gpre[gnb] == gitems && gpre[gnb] < gnb))
/* and every bucket in order */
&& (!PTV_RET || !(gq < gnb) || (gHq && gHashed && gHash == ghv[gq] && (EMPTY(gq) ? !gvv || gvv[gq].type == POINTLESS_EMPTY_SLOT : gProbed && gProbe == gq)))
/* everything in order: accepted */
&& (!(ggood && gnb == gNB && gpre[gnb] == gitems && gpre[gnb] < gnb) || PTV_RET));
#elif W == 2
#define SELF (v == &gv && depth == gdepth)
static int32_t pointless_validate_hashable(pointless_t* p, pointless_value_t* v, uint32_t depth, const char** error)
PTV_REQUIRES(p == &gp && error == &gerr && gerr == 0 && (SELF || (__CPROVER_same_object(v, gel) && 0 <= v - gel && v - gel < gn && v == gel + (v - gel) && depth == gdepth + 1)))
PTV_ASSIGNS(gerr)
PTV_ENSURES((PTV_RET != 0) == (gerr == 0) && (PTV_RET != 0) == (v == &gv ? gDv != 0 : D(v - gel) != 0));
#else
int nh, nk, nv, gcalled, gres; pointless_header_t ghd; uint64_t soff[1]; uint64_t gmem[16]; pointless_validate_state_t gstate; pointless_validate_context_t gctx;
uint32_t gnh, gnk, gnv;
#ifdef MAP
#define HDR ((pointless_map_header_t*)((char*)gmem + 8))
#else
#define HDR ((pointless_set_header_t*)((char*)gmem + 8))
#endif
uint32_t pointless_reader_vector_n_items(pointless_t* p, pointless_value_t* v)
{
	PTV_CHECK(p == &gp, "file");
	if (v == &HDR->hash_vector) return gnh;
	if (v == &HDR->key_vector) return gnk;
#ifdef MAP
	if (v == &HDR->value_vector) return gnv;
#endif
	PTV_CHECK(0, "a vector of the container");
	return 0;
}
uint32_t* pointless_reader_vector_u32(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &gp && v == &HDR->hash_vector, "hash vector"); return ghv; }
pointless_value_t* pointless_reader_vector_value(pointless_t* p, pointless_value_t* v)
{
	PTV_CHECK(p == &gp, "file");
	if (v == &HDR->key_vector) return gkv;
#ifdef MAP
	PTV_CHECK(v == &HDR->value_vector, "value vector");
#else
	PTV_CHECK(0, "only the keys are values");
#endif
	return gvv;
}
int32_t pointless_hash_table_validate(pointless_t* p, uint32_t n_items, uint32_t n_buckets, uint32_t* hash_vector, pointless_value_t* key_vector, pointless_value_t* value_vector, const char** error)
{
	PTV_CHECK(p == &gp && n_items == gitems && n_buckets == gnk && gnk == gnh && hash_vector == ghv && key_vector == gkv && error == &gstate.error, "the vectors of the container");
#ifdef MAP
	PTV_CHECK(gnv == gnk && value_vector == gvv, "the value vector");
#else
	PTV_CHECK(value_vector == 0, "no value vector");
#endif
	gcalled = 1; gres = nondet_ptv_u64() & 1;
	if (!gres) gstate.error = "table";
	return gres;
}
#ifdef MAP
#define FN pointless_validate_map_complicated
#define SAME (gnh == gnk && gnk == gnv)
#else
#define FN pointless_validate_set_complicated
#define SAME (gnh == gnk)
#endif
static int FN(pointless_validate_state_t* state, pointless_value_t* v)
PTV_REQUIRES(state == &gstate && v == &gv && gstate.error == 0)
PTV_ASSIGNS(gstate.error, gcalled, gres)
PTV_ENSURES((PTV_RET != 0) == (SAME && gcalled && gres) && (PTV_RET != 0) == (gstate.error == 0));
#endif
#endif

void h_table(void)
{
#if defined(PTV_CBMC) && W == 1
	gitems = PTV_U32(); gnb = PTV_U32(); gNB = PTV_U32(); PTV_ASSUME(gNB <= (uint32_t)1 << 31 && (gNB == 0 ? gitems > 0 : gNB > gitems)); gq = PTV_U32(); ggood = PTV_BOOL(); gerr = 0; gHq = gHashed = gProbed = 0;
	ghv = malloc(sizeof(uint32_t) * (size_t)gnb); PTV_ASSUME(ghv != 0);
	gkv = malloc(sizeof(pointless_value_t) * (size_t)gnb); PTV_ASSUME(gkv != 0);
	gpre = malloc(sizeof(uint64_t) * ((size_t)gnb + 1)); PTV_ASSUME(gpre != 0 && gpre[0] == 0);
	gvv = 0;
#ifdef MAP
	gvv = malloc(sizeof(pointless_value_t) * (size_t)gnb); PTV_ASSUME(gvv != 0);
#endif
	if (pointless_hash_table_validate(&gp, gitems, gnb, ghv, gkv, gvv, &gerr)) PTV_REACH(); else PTV_REACH();
#endif
}

void h_hashable(void)
{
#if defined(PTV_CBMC) && W == 2
	int vec;
	gv.type = PTV_U32(); gv.data.data_u32 = PTV_U32(); gdepth = PTV_U32(); gn = PTV_U32(); gw = PTV_U32(); gDv = PTV_BOOL(); gerr = 0;
	PTV_ASSUME(gdepth <= POINTLESS_MAX_DEPTH);
	gel = malloc(sizeof(pointless_value_t) * (size_t)gn); PTV_ASSUME(gel != 0);
	gDr = malloc(gn); PTV_ASSUME(gDr != 0);
	/* definition of hashable throughout: a hashable type, not too deep, and so are all elements of a vector of values */
	vec = gv.type == POINTLESS_VECTOR_VALUE_HASHABLE;
	gIsH = PTV_BOOL();
	if (gdepth >= POINTLESS_MAX_DEPTH || !gIsH) PTV_ASSUME(!gDv);
	else if (!vec) PTV_ASSUME(gDv);
	else PTV_ASSUME(gDv || (gw < gn && !gDr[gw]));
	if (pointless_validate_hashable(&gp, &gv, gdepth, &gerr)) PTV_REACH(); else PTV_REACH();
#endif
}

void h_cont(void)
{
#if defined(PTV_CBMC) && W == 3
	ghv = (uint32_t*)malloc(4); gkv = malloc(8); gvv = malloc(8);
	gitems = PTV_U32(); gnh = PTV_U32(); gnk = PTV_U32(); gnv = PTV_U32();
	gp.header = &ghd; gp.heap_ptr = gmem; gp.set_offsets_64 = gp.map_offsets_64 = soff; soff[0] = 8;
	gv.data.data_u32 = 0; HDR->n_items = gitems; gstate.error = 0; gstate.context = &gctx; gctx.p = &gp; gcalled = 0;
	if (FN(&gstate, &gv)) PTV_REACH(); else PTV_REACH();
#endif
}

/*PTV
{
 "functions": ["pointless_serialize_string", "pointless_serialize_unicode", "pointless_serialize_bitvector", "pointless_serialize_vector_outside", "pointless_serialize_set", "pointless_serialize_map", "pointless_create_to_read_value", "dynarray_write", "dynarray_align_4", "align_next_4_size_t", "align_next_4_64"],
 "assumptions": ["the write and align callbacks are stubs that may fail at any call and record the bytes", "the bytes are specified at one arbitrary position", "pointless_dynarray_push and push_bulk append (P14)", "the order and the offsets of the objects in the file, and the composition of creating, writing, validating and reading, are checked by execution only"],
 "contracts": [
  {"id": "flat", "harness": "h_flat", "enforce": "{F}", "solver": "cadical", "unwind": 2, "defs": ["KIND=1"], "variants": ["F=pointless_serialize_string W=1", "F=pointless_serialize_unicode W=4", "F=pointless_serialize_bitvector W=0"]},
  {"id": "outside", "harness": "h_outside", "enforce": "pointless_serialize_vector_outside", "solver": "cadical", "unwind": 2, "defs": ["KIND=2"], "variants": ["VT=POINTLESS_VECTOR_I8 T=int8_t", "VT=POINTLESS_VECTOR_U8 T=uint8_t", "VT=POINTLESS_VECTOR_I16 T=int16_t", "VT=POINTLESS_VECTOR_U16 T=uint16_t", "VT=POINTLESS_VECTOR_I32 T=int32_t", "VT=POINTLESS_VECTOR_U32 T=uint32_t", "VT=POINTLESS_VECTOR_I64 T=int64_t", "VT=POINTLESS_VECTOR_U64 T=uint64_t", "VT=POINTLESS_VECTOR_FLOAT T=float"]},
  {"id": "table", "harness": "h_table", "enforce": "{F}", "solver": "cadical", "unwind": 2, "defs": ["KIND=3"], "variants": ["F=pointless_serialize_set MAP=0", "F=pointless_serialize_map MAP=1"]},
  {"id": "write", "harness": "h_write", "enforce": "dynarray_write", "solver": "cadical", "unwind": 2, "defs": ["KIND=5"]}
 ],
 "complete": [{"id": "align", "harness": "h_align", "solver": "cadical", "unwind": 5, "defs": ["KIND=4"]}, {"id": "next64", "harness": "h_next64", "solver": "cadical", "unwind": 2, "defs": ["KIND=6"]}],
 "native": [{"harness": "h_native", "secs": 15}],
 "src": ["src/pointless_value.c"],
 "nobody": ["pointless_.*", "Judy.*", "intop_.*", "bentley_sort_.*", "bm_.*", "rename", "fopen", "fclose", "fwrite", "fflush", "fsync", "fileno", "mkstemp.*", "fdopen", "close", "unlink", "fchmod", "realpath", "strdup"],
 "fulllib": true
}
PTV*/
#include "ptv.h"
#include <pointless/pointless.h>
#include <pointless/bitutils.h>
#include <pointless/pointless_recreate.h>
#include "ser.h"
#ifndef KIND
#define KIND 0
#endif
#ifdef PTV_CBMC
static pointless_create_t gc; static uint32_t gh, gnpv, gl; static uint32_t* gbuf; static pointless_dynarray_t ga; static const void* gsrc; static uint64_t gsn; static uint64_t gx;
#define VAL(h) (((pointless_create_value_t*)gc.values._data)[h])
#define TYPE(h) VAL(h).header.type_29
size_t pointless_dynarray_n_items(pointless_dynarray_t* a) { return a->n_items; }
#define PTV_LOOP_compress(...)
#define PTV_LOOP_serialize_items(...)
#define PTV_LOOP_bv_all_1(...)
#define PTV_LOOP_bv_all_0(...)
#define PTV_LOOP_bv_01(...)
#define PTV_LOOP_bv_10(...)
#define PTV_LOOP_bv_packed(...)
#if KIND == 4 || KIND == 5
int pointless_dynarray_push(pointless_dynarray_t* a, void* i)
{
	PTV_CHECK(a == &ga && *(uint8_t*)i == 0, "padding is zero");
	if (nondet_ptv_u64() & 1) { gfailed = 1; return 0; }
	a->n_items++;
	return 1;
}
int pointless_dynarray_push_bulk(pointless_dynarray_t* a, void* i, size_t n)
{
	PTV_CHECK(a == &ga && i == gsrc && n == gsn, "all the bytes given");
	if (nondet_ptv_u64() & 1) { gfailed = 1; return 0; }
	a->n_items += n;
	return 1;
}
static int dynarray_write(void* buf, size_t buflen, void* user, const char** error)
PTV_REQUIRES(user == &ga && error == &gerr && buf == gsrc && buflen == gsn && !gfailed)
PTV_ASSIGNS(ga.n_items, gfailed, gerr)
PTV_ENSURES((PTV_RET != 0) == !gfailed && (PTV_RET || gerr != 0))
PTV_ENSURES(!PTV_RET || ga.n_items == PTV_OLD(ga.n_items) + buflen);
#endif
#endif
#include "/repo/src/pointless_create.c"
#ifdef PTV_CBMC
static pointless_create_cb_t gcb;
#if KIND == 1
#define BYTES ((uint64_t)4 + (W == 0 ? ((uint64_t)gl + 7) / 8 : ((uint64_t)gl + 1) * W))
static int F(pointless_create_cb_t* cb, void* b, const char** error)
PTV_REQUIRES(cb == &gcb && b == gbuf && SER_REQUIRES)
PTV_ASSIGNS(SER_ASSIGNS)
SER_ENSURES(BYTES, ((uint8_t*)gbuf)[gb]);
#elif KIND == 2
static int pointless_serialize_vector_outside(pointless_create_t* c, uint32_t vector, pointless_create_cb_t* cb, const char** error)
PTV_REQUIRES(c == &gc && vector == gh && cb == &gcb && SER_REQUIRES)
PTV_ASSIGNS(SER_ASSIGNS)
SER_ENSURES(4 + (uint64_t)gl * sizeof(T), gb < 4 ? BYTE_OF(gl, gb) : ((uint8_t*)gbuf)[gb - 4]);
#elif KIND == 3
static uint32_t ghash, gkeys, gvals, gidx;
/* a reference: type and index, private vectors before the others */
#define REF(h, k) ((k) < 4 ? BYTE_OF((uint32_t)TYPE(h), k) : BYTE_OF(VAL(h).data.data_u32 + (VAL(h).header.is_outside_vector ? gnpv : 0), (k) - 4))
static int F(pointless_create_cb_t* cb, pointless_create_t* c, uint32_t s, uint32_t n_priv_vectors, const char** error)
PTV_REQUIRES(c == &gc && s == gh && cb == &gcb && n_priv_vectors == gnpv && SER_REQUIRES)
PTV_ASSIGNS(SER_ASSIGNS)
SER_ENSURES(MAP ? 32 : 24, gb < 4 ? BYTE_OF(gl, gb) : gb < 8 ? 0 : gb < 16 ? REF(ghash, gb - 8) : gb < 24 ? REF(gkeys, gb - 16) : REF(gvals, gb - 24));
#endif
static void* many(uint64_t atleast, uint64_t w)
{
	uint64_t n = PTV_U64(); void* r;
	PTV_ASSUME(n >= atleast && n < ((uint64_t)1 << 36));
	r = malloc(n * w); PTV_ASSUME(r != 0);
	return r;
}
#define MANY(T_, atleast) ((T_*)many(atleast, sizeof(T_)))
#endif
void h_flat(void)
{
#if KIND == 1
	ser_make(); SER_CB(gcb);
	gl = PTV_U32(); PTV_ASSUME(gl < UINT32_MAX - 8 && (W != 4 || gl < (1u << 30) - 1));
	gbuf = malloc(BYTES); PTV_ASSUME(gbuf != 0);
	*gbuf = gl;
	if (F(&gcb, gbuf, &gerr)) PTV_REACH();
#endif
}
void h_outside(void)
{
#if KIND == 2
	uint64_t idx;
	ser_make(); SER_CB(gcb);
	gl = PTV_U32(); gh = PTV_U32();
	gbuf = malloc((uint64_t)gl * sizeof(T)); PTV_ASSUME(gbuf != 0);
	gc.values._data = MANY(pointless_create_value_t, (uint64_t)1 << 32);
	PTV_ASSUME(TYPE(gh) == VT && VAL(gh).header.is_outside_vector);
	idx = VAL(gh).data.data_u32;
	gc.outside_vector_values._data = MANY(pointless_create_vector_outside_t, idx + 1);
	((pointless_create_vector_outside_t*)gc.outside_vector_values._data)[idx].items = gbuf;
	((pointless_create_vector_outside_t*)gc.outside_vector_values._data)[idx].n_items = gl;
	if (pointless_serialize_vector_outside(&gc, gh, &gcb, &gerr)) PTV_REACH();
#endif
}
void h_table(void)
{
#if KIND == 3
	ser_make(); SER_CB(gcb);
	gl = PTV_U32(); gh = PTV_U32(); ghash = PTV_U32(); gkeys = PTV_U32(); gvals = PTV_U32(); gnpv = PTV_U32();
	gc.values._data = MANY(pointless_create_value_t, (uint64_t)1 << 32);
	PTV_ASSUME(TYPE(ghash) == POINTLESS_VECTOR_U32 && TYPE(gkeys) == POINTLESS_VECTOR_VALUE_HASHABLE && (TYPE(gvals) == POINTLESS_VECTOR_VALUE || TYPE(gvals) == POINTLESS_VECTOR_VALUE_HASHABLE));
	gidx = VAL(gh).data.data_u32;
#if MAP
	gc.map_values._data = MANY(pointless_create_map_t, (uint64_t)gidx + 1);
	pointless_create_map_t* t = (pointless_create_map_t*)gc.map_values._data + gidx;
	t->values.n_items = gl; t->serialize_values = gvals;
#else
	gc.set_values._data = MANY(pointless_create_set_t, (uint64_t)gidx + 1);
	pointless_create_set_t* t = (pointless_create_set_t*)gc.set_values._data + gidx;
#endif
	t->keys.n_items = gl; t->serialize_hash = ghash; t->serialize_keys = gkeys;
	if (F(&gcb, &gc, gh, gnpv, &gerr)) PTV_REACH();
#endif
}
void h_align(void)
{
#if KIND == 4
	ser_make(); ga.n_items = PTV_U64(); PTV_ASSUME(ga.n_items < (uint64_t)1 << 60);
	uint64_t old = ga.n_items; int r = dynarray_align_4(&ga, &gerr);
	PTV_CHECK((r != 0) == !gfailed && (r || gerr != 0), "fails exactly when a push fails");
	PTV_CHECK(!r || (ga.n_items % 4 == 0 && ga.n_items >= old && ga.n_items - old < 4), "the next multiple of four");
	PTV_REACH();
#endif
}
void h_write(void)
{
#if KIND == 5
	ser_make(); ga.n_items = PTV_U64(); gsn = PTV_U64(); PTV_ASSUME(ga.n_items < (uint64_t)1 << 60 && gsn < (uint64_t)1 << 40);
	gsrc = malloc(gsn); PTV_ASSUME(gsrc != 0);
	if (dynarray_write((void*)gsrc, gsn, &ga, &gerr)) PTV_REACH();
#endif
}
void h_next64(void)
{
#if KIND == 6
	gx = PTV_U64(); PTV_ASSUME(gx <= UINT64_MAX - 4);
	uint64_t r = align_next_4_64(gx);
	PTV_CHECK(r % 4 == 0 && r >= gx && r - gx < 4, "the next multiple of four");
	PTV_REACH();
#endif
}
#ifndef PTV_CBMC
#include "graph.h"
/* a random graph, written and read back; then re-created from the file, written and read back again */
void h_native(void)
{
	void *b, *b2; size_t n, n2; pointless_t p, q; const char* error = 0; pointless_create_t c; uint32_t r;
	gr_no_nan = 0;
	gr_random(); gr_write(&b, &n);
	if (!pointless_open_b(&p, b, n, &error)) { fprintf(stderr, "%s\n", error); PTV_CHECK(0, "the file written is accepted"); }
	gr_compare(&p);
	gr_touch(&p, pointless_root(&p), 0);
	pointless_create_begin_64(&c);
	r = pointless_recreate_value(&p, pointless_root(&p), &c, &error);
	PTV_CHECK(r != POINTLESS_CREATE_VALUE_FAIL, "re-created");
	pointless_create_set_root(&c, r);
	PTV_CHECK(pointless_create_output_and_end_b(&c, &b2, &n2, &error), "written again");
	PTV_CHECK(pointless_open_b(&q, b2, n2, &error), "the second file is accepted");
	gr_compare(&q);
	pointless_close(&q); pointless_free(b2);
	pointless_close(&p); pointless_free(b);
	PTV_REACH();
}
#endif

/*PTV
{
 "functions": ["pointless_create_vector_compression", "pointless_serialize_vector_priv", "pointless_create_to_read_value", "pointless_create_get_int_as_int64", "pointless_create_value_get_i32", "pointless_create_value_get_u32", "pointless_create_value_get_float"],
 "assumptions": ["every 32-bit number is a valid handle of a value (an array of 2^32 values of arbitrary contents), so handles outside the range of a real array are included", "element type and bytes are specified at one arbitrary element and one arbitrary byte position", "the write and align callbacks are stubs that may fail at any call and record the bytes", "reading the elements back is P07"],
 "contracts": [
  {"id": "choose", "harness": "h_choose", "enforce": "pointless_create_vector_compression", "loops": true, "solver": "cadical", "unwind": 2, "defs": ["KIND=1"]},
  {"id": "store", "harness": "h_store", "enforce": "pointless_serialize_vector_priv", "loops": true, "solver": "cadical", "unwind": 2, "defs": ["KIND=2"], "variants": ["MODE=1 VT=POINTLESS_VECTOR_I8 T=int8_t", "MODE=1 VT=POINTLESS_VECTOR_U8 T=uint8_t", "MODE=1 VT=POINTLESS_VECTOR_I16 T=int16_t", "MODE=1 VT=POINTLESS_VECTOR_U16 T=uint16_t", "MODE=1 VT=POINTLESS_VECTOR_I32 T=int32_t", "MODE=1 VT=POINTLESS_VECTOR_U32 T=uint32_t", "MODE=1 VT=POINTLESS_VECTOR_FLOAT T=float", "MODE=3 VT=POINTLESS_VECTOR_VALUE T=pointless_value_t", "MODE=3 VT=POINTLESS_VECTOR_VALUE_HASHABLE T=pointless_value_t",
    "MODE=2 VT=POINTLESS_VECTOR_I8 T=int8_t", "MODE=2 VT=POINTLESS_VECTOR_U8 T=uint8_t", "MODE=2 VT=POINTLESS_VECTOR_I16 T=int16_t", "MODE=2 VT=POINTLESS_VECTOR_U16 T=uint16_t", "MODE=2 VT=POINTLESS_VECTOR_I32 T=int32_t", "MODE=2 VT=POINTLESS_VECTOR_U32 T=uint32_t", "MODE=2 VT=POINTLESS_VECTOR_I64 T=int64_t", "MODE=2 VT=POINTLESS_VECTOR_U64 T=uint64_t", "MODE=2 VT=POINTLESS_VECTOR_FLOAT T=float"]}
 ],
 "native": [{"harness": "h_native", "secs": 6}],
 "src": ["src/pointless_value.c", "src/pointless_dynarray.c"],
 "nobody": ["pointless_.*", "Judy.*", "intop_.*", "bentley_sort_.*", "bm_.*", "rename", "fopen", "fclose", "fwrite", "fflush", "fsync", "fileno", "mkstemp.*", "fdopen", "close", "unlink", "fchmod", "realpath", "strdup"],
 "fulllib": true
}
PTV*/
#include "ptv.h"
#include <pointless/pointless.h>
#include <pointless/bitutils.h>
#include "ser.h"
#ifndef KIND
#define KIND 0
#endif
#ifdef PTV_CBMC
static pointless_create_t gc; static uint32_t gvec, gn, gk, gnpv; static uint32_t* gitems;
#define VAL(h) (((pointless_create_value_t*)gc.values._data)[h])
#define TYPE(h) VAL(h).header.type_29
#define ISINT(h) (TYPE(h) == POINTLESS_I32 || TYPE(h) == POINTLESS_U32)
#define NUM(h) (TYPE(h) == POINTLESS_I32 ? (int64_t)VAL(h).data.data_i32 : (int64_t)VAL(h).data.data_u32)
#define IN(x, lo, hi) ((int64_t)(lo) <= (x) && (x) <= (int64_t)(hi))
#define FITS(t, x) ((t) == POINTLESS_VECTOR_I8 ? IN(x, INT8_MIN, INT8_MAX) : (t) == POINTLESS_VECTOR_U8 ? IN(x, 0, UINT8_MAX) : (t) == POINTLESS_VECTOR_I16 ? IN(x, INT16_MIN, INT16_MAX) : \
 (t) == POINTLESS_VECTOR_U16 ? IN(x, 0, UINT16_MAX) : (t) == POINTLESS_VECTOR_I32 ? IN(x, INT32_MIN, INT32_MAX) : (t) == POINTLESS_VECTOR_U32 ? IN(x, 0, UINT32_MAX) : 0)
#if KIND == 1
#define PTV_LOOP_compress(i, n, is_int, init_int, init_float, cur, mn, mx) __CPROVER_assigns(i, is_int, init_int, init_float, cur, mn, mx) \
 __CPROVER_loop_invariant(i <= n && (init_int == 0 || init_int == 1) && (init_float == 0 || init_float == 1) && !(init_int && init_float) && (i == 0 || init_int || init_float)) \
 __CPROVER_loop_invariant(!init_int || (INT32_MIN <= mn && mn <= mx && mx <= (int64_t)UINT32_MAX)) \
 __CPROVER_loop_invariant(!(gk < i) || (ISINT(gitems[gk]) ? init_int && mn <= NUM(gitems[gk]) && NUM(gitems[gk]) <= mx : TYPE(gitems[gk]) == POINTLESS_FLOAT && init_float)) \
 __CPROVER_decreases(n - i)
static uint32_t pointless_create_vector_compression(pointless_create_t* c, uint32_t vector)
PTV_REQUIRES(c == &gc && vector == gvec && gn > 0 && gk < gn)
PTV_ASSIGNS()
/* whatever type is chosen, the arbitrary element fits it; or the vector stays a vector of values */
PTV_ENSURES(PTV_RET == TYPE(gvec) || (PTV_RET == POINTLESS_VECTOR_FLOAT ? TYPE(gitems[gk]) == POINTLESS_FLOAT : ISINT(gitems[gk]) && FITS(PTV_RET, NUM(gitems[gk]))));
#elif KIND == 2
#define W sizeof(T)
#define EL ((gb - 4) / W)
#if MODE == 2
#define SPEC (gb < 4 ? BYTE_OF(gn, gb) : ((uint8_t*)gitems)[gb - 4])
#elif MODE == 1
#define DATA (VT == POINTLESS_VECTOR_FLOAT ? VAL(gitems[EL]).data.data_u32 : (uint32_t)NUM(gitems[EL]))
#define SPEC (gb < 4 ? BYTE_OF(gn, gb) : BYTE_OF(DATA, (gb - 4) % W))
#else
#define DATA (VAL(gitems[EL]).data.data_u32 + (VAL(gitems[EL]).header.is_outside_vector ? gnpv : 0))
#define SPEC (gb < 4 ? BYTE_OF(gn, gb) : (gb - 4) % 8 < 4 ? BYTE_OF((uint32_t)TYPE(gitems[EL]), (gb - 4) % 8) : BYTE_OF(DATA, (gb - 4) % 4))
#endif
#define PTV_LOOP_serialize_items(i, n, value, w_len) __CPROVER_assigns(i, value, w_len, gpos, gbyte, gfailed, gerr) \
 __CPROVER_loop_invariant(i <= n && !gfailed && (MODE == 2 || gpos == 4 + i * W) && (gb >= gpos || gbyte == SPEC)) __CPROVER_decreases(n - i)
static int ser_write(void* data, size_t n, void* user, const char** error);
#endif
#define PTV_LOOP_bv_all_1(...)
#define PTV_LOOP_bv_all_0(...)
#define PTV_LOOP_bv_01(...)
#define PTV_LOOP_bv_10(...)
#define PTV_LOOP_bv_packed(...)
#ifndef PTV_LOOP_compress
#define PTV_LOOP_compress(...)
#endif
#ifndef PTV_LOOP_serialize_items
#define PTV_LOOP_serialize_items(...)
#endif
#endif
#include "/repo/src/pointless_create.c"

#ifdef PTV_CBMC
#if KIND == 2
static pointless_create_cb_t gcb;
static int pointless_serialize_vector_priv(pointless_create_t* c, uint32_t vector, pointless_create_cb_t* cb, uint32_t n_priv_vectors, const char** error)
PTV_REQUIRES(c == &gc && vector == gvec && cb == &gcb && n_priv_vectors == gnpv && SER_REQUIRES)
/* the arbitrary element was accepted by the choice of the type (above) */
PTV_REQUIRES(MODE != 1 || gb < 4 || EL >= gn || (VT == POINTLESS_VECTOR_FLOAT ? TYPE(gitems[EL]) == POINTLESS_FLOAT : ISINT(gitems[EL]) && FITS(VT, NUM(gitems[EL]))))
PTV_ASSIGNS(SER_ASSIGNS)
SER_ENSURES(4 + (uint64_t)gn * W, SPEC);
#endif
static void make(uint32_t w)
{
	uint64_t nv = PTV_U64(), np, idx;
	PTV_ASSUME(nv >= ((uint64_t)1 << 32) && nv < ((uint64_t)1 << 40));
	gc.values._data = malloc(nv * sizeof(pointless_create_value_t)); PTV_ASSUME(gc.values._data != 0);
	gvec = PTV_U32(); gn = PTV_U32(); gk = PTV_U32(); gnpv = PTV_U32();
	np = PTV_U64(); PTV_ASSUME(np > VAL(gvec).data.data_u32 && np < ((uint64_t)1 << 33));
	gc.priv_vector_values._data = malloc(np * sizeof(pointless_create_vector_priv_t)); PTV_ASSUME(gc.priv_vector_values._data != 0);
	idx = VAL(gvec).data.data_u32;
	gitems = malloc((uint64_t)gn * w); PTV_ASSUME(gitems != 0);
	((pointless_create_vector_priv_t*)gc.priv_vector_values._data)[idx].vector._data = gitems;
	((pointless_create_vector_priv_t*)gc.priv_vector_values._data)[idx].vector.n_items = gn;
	PTV_ASSUME(VAL(gvec).header.is_outside_vector == 0);
}
#endif
void h_choose(void)
{
#if KIND == 1
	make(4);
	PTV_ASSUME(gn > 0 && gk < gn && (TYPE(gvec) == POINTLESS_VECTOR_VALUE || TYPE(gvec) == POINTLESS_VECTOR_VALUE_HASHABLE));
	if (pointless_create_vector_compression(&gc, gvec) != TYPE(gvec)) PTV_REACH();
#endif
}
void h_store(void)
{
#if KIND == 2
	make(MODE == 2 ? W : 4);
	ser_make(); SER_CB(gcb);
	PTV_ASSUME(TYPE(gvec) == VT && VAL(gvec).header.is_compressed_vector == (MODE == 1));
	PTV_ASSUME(MODE != 1 || gb < 4 || EL >= gn || (VT == POINTLESS_VECTOR_FLOAT ? TYPE(gitems[EL]) == POINTLESS_FLOAT : ISINT(gitems[EL]) && FITS(VT, NUM(gitems[EL]))));
	if (pointless_serialize_vector_priv(&gc, gvec, &gcb, gnpv, &gerr)) PTV_REACH();
#endif
}
#ifndef PTV_CBMC
#include "graph.h"
/* vectors of integers of all ranges, and mixtures: written and read back */
void h_native(void)
{
	void* b; size_t n; pointless_t p; const char* error = 0; uint32_t i, m = (uint32_t)ptv_range(1, GR_KIDS);
	static const int64_t lim[] = { 0, 1, -1, INT8_MAX, INT8_MIN, UINT8_MAX, INT16_MAX, INT16_MIN, UINT16_MAX, INT32_MAX, INT32_MIN, UINT32_MAX, 5 };
	int64_t lo = lim[ptv_range(0, 12)], hi = lim[ptv_range(0, 12)], t; int mix = (int)ptv_range(0, 12);
	if (lo > hi) { t = lo; lo = hi; hi = t; }
	gCount = m + 1; gRoot = m;
	memset(&gN[m], 0, sizeof(gN[m]));
	gN[m].kind = G_VEC; gN[m].n = m;
	for (i = 0; i < m; i++) {
		gr_node* e = &gN[i];
		memset(e, 0, sizeof(*e));
		t = ptv_range(0, 3) == 0 ? lo : ptv_range(0, 2) == 0 ? hi : lo + (int64_t)ptv_range(0, (uint64_t)(hi - lo));
		t += (int64_t)(ptv_range(0, 15) == 0) - (int64_t)(ptv_range(0, 15) == 0);
		if (t < INT32_MIN) t = INT32_MIN;
		if (t > (int64_t)UINT32_MAX) t = UINT32_MAX;
		e->i = t; e->kind = t > INT32_MAX || (t >= 0 && PTV_BOOL()) ? G_U32 : G_I32;
		if (mix == 0 && PTV_BOOL()) gr_make(i, G_FLOAT);
		if (mix == 1) gr_make(i, G_FLOAT);
		if (mix == 2 && ptv_range(0, 3) == 0) gr_make(i, (int)ptv_range(0, 5));
		gN[m].k[i] = i;
	}
	gr_write(&b, &n);
	PTV_CHECK(pointless_open_b(&p, b, n, &error), "the file written is accepted");
	gr_compare(&p);
	pointless_close(&p); pointless_free(b);
	PTV_REACH();
}
#endif

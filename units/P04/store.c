/*PTV
{
 "functions": ["pointless_bitvector_is_all_0", "pointless_bitvector_is_all_1", "pointless_bitvector_is_01", "pointless_bitvector_is_10", "pointless_create_bitvector_", "pointless_create_bitvector", "pointless_create_bitvector_no_normalize", "pointless_create_bitvector_compressed", "bm_is_set_", "bm_set_"],
 "assumptions": ["pointless_dynarray_push appends a copy of the element or fails (P14)", "JudyHSGet/JudyHSIns (external library) map byte strings exactly: an earlier entry has the same bytes, hence the same length word and bits", "bits are specified at one arbitrary position", "the stored forms are read as specified by lib/bv.h, which the reading functions are proved against in P05", "serialization copies the buffer unchanged (checked by execution)", "memcpy into a fresh buffer: only the bytes the specification speaks of are modelled as copied, the others stay arbitrary"],
 "contracts": [
  {"id": "all", "harness": "h_all", "enforce": "{F}", "loops": true, "solver": "cadical", "unwind": 2, "defs": ["KIND=1"], "variants": ["F=pointless_bitvector_is_all_0 VAL=0", "F=pointless_bitvector_is_all_1 VAL=1"]},
  {"id": "run", "harness": "h_run", "enforce": "{F}", "loops": true, "solver": "cadical", "unwind": 2, "defs": ["KIND=2"], "variants": ["F=pointless_bitvector_is_01 VAL=0", "F=pointless_bitvector_is_10 VAL=1"]},
  {"id": "create", "harness": "h_create", "enforce": "pointless_create_bitvector_", "replace": ["pointless_bitvector_is_all_0", "pointless_bitvector_is_all_1", "pointless_bitvector_is_01", "pointless_bitvector_is_10"], "loops": true, "solver": "cadical", "unwind": 2, "defs": ["KIND=3"], "timeout": 400},
  {"id": "public", "harness": "h_public", "enforce": "{F}", "replace": ["pointless_create_bitvector_"], "solver": "cadical", "unwind": 2, "defs": ["KIND=4"], "variants": ["F=pointless_create_bitvector NORM=1", "F=pointless_create_bitvector_no_normalize NORM=0"]},
  {"id": "compressed", "harness": "h_compressed", "enforce": "pointless_create_bitvector_compressed", "solver": "cadical", "unwind": 2, "defs": ["KIND=5"]}
 ],
 "native": [{"harness": "h_native", "secs": 6}],
 "src": ["src/bitutils.c"],
 "nobody": ["pointless_.*", "Judy.*", "rename", "fopen", "fclose", "fwrite", "fflush", "fsync", "fileno", "mkstemp.*", "fdopen", "close", "unlink", "fchmod", "realpath", "strdup"],
 "fulllib": true
}
PTV*/
#include "ptv.h"
#include <pointless/pointless_defs.h>
#include <pointless/bitutils.h>
#include <pointless/pointless.h>
#include "bv.h"
#ifndef KIND
#define KIND 0
#endif
uint8_t* gv; uint32_t gn, gk;              /* the bits given, their number, an arbitrary position */
#define BIT(i) ((gv[(i) / 8] >> ((i) % 8)) & 1)
uint32_t gna, gnb;
#ifdef PTV_CBMC
pointless_create_t gc; pointless_create_value_t gpushed; uint8_t* gbuf; int gpushed_v, gpushed_b;
uint32_t gnv; int gnorm; uint32_t gret;
pointless_value_t gval;
/* an earlier entry of the bitvector map, its reference, and whether there is one equal to the current */
Word_t gword; int ghave; uint8_t* gfresh; uint64_t gfresh_n;

#if KIND == 1
#define PTV_LOOP_bv_all_0(i, n) __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= n && (!(gk < i) || BIT(gk) == 0)) __CPROVER_decreases(n - i)
#define PTV_LOOP_bv_all_1(i, n) __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= n && (!(gk < i) || BIT(gk) == 1)) __CPROVER_decreases(n - i)
static int F(void* v, uint32_t n_bits)
PTV_REQUIRES(v == gv && n_bits == gn && gk < gn)
PTV_ASSIGNS()
PTV_ENSURES(!PTV_RET || BIT(gk) == VAL);
#elif KIND == 2
#define PTV_LOOP_bv_01(i, n, n0, n1) __CPROVER_assigns(i, n0, n1) __CPROVER_loop_invariant(i <= n && n0 <= i && n1 == i - n0 && (!(gk < i) || BIT(gk) == (gk >= n0))) __CPROVER_decreases(n - i)
#define PTV_LOOP_bv_10(i, n, n0, n1) __CPROVER_assigns(i, n0, n1) __CPROVER_loop_invariant(i <= n && n1 <= i && n0 == i - n1 && (!(gk < i) || BIT(gk) == (gk < n1))) __CPROVER_decreases(n - i)
static int F(void* v, uint32_t n_bits, uint32_t* a, uint32_t* b)
PTV_REQUIRES(v == gv && n_bits == gn && gk < gn && a == &gna && b == &gnb)
PTV_ASSIGNS(gna, gnb)
PTV_ENSURES(!PTV_RET || (gna <= gn && gnb == gn - gna && BIT(gk) == (VAL ? gk < gna : gk >= gna)));
#endif
#ifndef PTV_LOOP_bv_all_0
#define PTV_LOOP_bv_all_0(i, n)
#define PTV_LOOP_bv_all_1(i, n)
#endif
#ifndef PTV_LOOP_bv_01
#define PTV_LOOP_bv_01(i, n, n0, n1)
#define PTV_LOOP_bv_10(i, n, n0, n1)
#endif
#if KIND == 3
#define PTV_LOOP_bv_packed(i, n, value) __CPROVER_assigns(i, value.data.data_u32) __CPROVER_loop_invariant(i <= n && (value.data.data_u32 & 31) == n && (gk >= n || ((value.data.data_u32 >> (5 + gk)) & 1) == (gk < i ? BIT(gk) : 0))) __CPROVER_decreases(n - i)
static int pointless_bitvector_is_all_0(void* v, uint32_t n_bits)
PTV_REQUIRES(v == gv && n_bits == gn) PTV_ASSIGNS() PTV_ENSURES(!PTV_RET || gk >= gn || BIT(gk) == 0);
static int pointless_bitvector_is_all_1(void* v, uint32_t n_bits)
PTV_REQUIRES(v == gv && n_bits == gn) PTV_ASSIGNS() PTV_ENSURES(!PTV_RET || gk >= gn || BIT(gk) == 1);
static int pointless_bitvector_is_01(void* v, uint32_t n_bits, uint32_t* a, uint32_t* b)
PTV_REQUIRES(v == gv && n_bits == gn) PTV_ASSIGNS(*a, *b)
PTV_ENSURES(!PTV_RET || (*a <= gn && *b == gn - *a && (gk >= gn || BIT(gk) == (gk >= *a))));
static int pointless_bitvector_is_10(void* v, uint32_t n_bits, uint32_t* a, uint32_t* b)
PTV_REQUIRES(v == gv && n_bits == gn) PTV_ASSIGNS(*a, *b)
PTV_ENSURES(!PTV_RET || (*a <= gn && *b == gn - *a && (gk >= gn || BIT(gk) == (gk < *a))));
#endif
#ifndef PTV_LOOP_bv_packed
#define PTV_LOOP_bv_packed(i, n, value)
#endif
#if KIND == 3 || KIND == 5
/* contracts of the dynamic array operations (P14) as nondeterministic bodies */
size_t pointless_dynarray_n_items(pointless_dynarray_t* a)
{
	PTV_CHECK(a == &gc.values, "the values");
	return (size_t)gnv + (gpushed_v ? 1 : 0);
}
int pointless_dynarray_push(pointless_dynarray_t* a, void* i)
{
	PTV_CHECK((a == &gc.values && !gpushed_v) || (a == &gc.bitvector_values && !gpushed_b), "one value, at most one buffer");
	if (nondet_ptv_u64() & 1) return 0;
	if (a == &gc.values) { gpushed_v = 1; gpushed = *(pointless_create_value_t*)i; }
	else { gpushed_b = 1; gbuf = *(uint8_t**)i; PTV_CHECK(gbuf == gfresh, "the new buffer"); gbuf = gfresh; }
	return 1;
}
void pointless_dynarray_pop(pointless_dynarray_t* a)
{
	PTV_CHECK((a == &gc.values && gpushed_v) || (a == &gc.bitvector_values && gpushed_b), "what was pushed");
	if (a == &gc.values) gpushed_v = 0; else gpushed_b = 0;
}
#endif
#if KIND == 3
/* the key looked up is: length word, the bits, no others */
#define KEY(k, l) ((l) == 4 + ((uint64_t)gn + 7) / 8 && *(uint32_t*)(k) == gn && (gk >= gn || ((((uint8_t*)(k))[4 + gk / 8] >> (gk % 8)) & 1) == BIT(gk)) && (gn % 8 == 0 || (((uint8_t*)(k))[4 + gn / 8] >> (gn % 8)) == 0))
PPvoid_t JudyHSGet(Pcvoid_t a, void* k, Word_t l)
{
	PTV_CHECK(gnorm && a == gc.bitvector_map_judy && k == gfresh && KEY(gfresh, l), "the key is the new buffer");
	return ghave ? (PPvoid_t)&gword : 0;
}
PPvoid_t JudyHSIns(PPvoid_t a, void* k, Word_t l, PJError_t e)
{
	PTV_CHECK(gnorm && !ghave && a == &gc.bitvector_map_judy && k == gfresh && KEY(gfresh, l) && gpushed_b, "the stored buffer is added under its contents");
	return (nondet_ptv_u64() & 1) ? 0 : (PPvoid_t)&gword;
}
/* the value stored: the same number of bits and the same bit at gk, in a form that can be serialized */
#define T29 gpushed.header.type_29
#define STORED (gpushed_v && gpushed.header.is_outside_vector == 0 && gpushed.header.is_set_map_vector == 0 && gpushed.header.is_compressed_vector == 0 && \
 (T29 == POINTLESS_BITVECTOR ? (gpushed_b && gpushed.data.data_u32 == PTV_OLD(gc.bitvector_map_judy_count) && gc.bitvector_map_judy_count == (uint32_t)(PTV_OLD(gc.bitvector_map_judy_count) + 1) && spec_n(POINTLESS_BITVECTOR, 0, gbuf) == gn && (gk >= gn || spec_bit(POINTLESS_BITVECTOR, 0, gbuf, gk) == BIT(gk))) : \
  ((T29 == POINTLESS_BITVECTOR_0 || T29 == POINTLESS_BITVECTOR_1 || T29 == POINTLESS_BITVECTOR_01 || T29 == POINTLESS_BITVECTOR_10 || (T29 == POINTLESS_BITVECTOR_PACKED && gn <= 27)) && !gpushed_b && gc.bitvector_map_judy_count == PTV_OLD(gc.bitvector_map_judy_count) && \
    spec_n(T29, (pointless_value_data_t*)&gpushed.data, 0) == gn && (gk >= gn || spec_bit(T29, (pointless_value_data_t*)&gpushed.data, 0, gk) == BIT(gk)))))
static uint32_t pointless_create_bitvector_(pointless_create_t* c, void* v, uint32_t n_bits, int normalize)
PTV_REQUIRES(c == &gc && v == gv && n_bits == gn && normalize == gnorm && !gpushed_v && !gpushed_b)
PTV_ASSIGNS(gfresh, gfresh_n, gpushed_v, gpushed_b, gpushed, gbuf, gword, gc.bitvector_map_judy, gc.bitvector_map_judy_count)
/* failure: nothing was added */
PTV_ENSURES(PTV_RET != POINTLESS_CREATE_VALUE_FAIL || (!gpushed_v && !gpushed_b))
/* success: the earlier equal value, or the new one */
PTV_ENSURES(PTV_RET == POINTLESS_CREATE_VALUE_FAIL || (!gpushed_v && !gpushed_b && gnorm && ghave && PTV_RET == (uint32_t)gword) || (PTV_RET == gnv && STORED))
/* a new entry is found later under its reference */
PTV_ENSURES(PTV_RET == POINTLESS_CREATE_VALUE_FAIL || !gpushed_b || !gnorm || gword == gnv);
#elif KIND == 4
static uint32_t pointless_create_bitvector_(pointless_create_t* c, void* v, uint32_t n_bits, int normalize)
PTV_REQUIRES(c == &gc && v == gv && n_bits == gn && normalize == NORM) PTV_ASSIGNS() PTV_ENSURES(PTV_RET == gret);
uint32_t F(pointless_create_t* c, void* v, uint32_t n_bits)
PTV_REQUIRES(c == &gc && v == gv && n_bits == gn) PTV_ASSIGNS() PTV_ENSURES(PTV_RET == gret);
#elif KIND == 5
uint32_t pointless_create_bitvector_compressed(pointless_create_t* c, pointless_value_t* v)
PTV_REQUIRES(c == &gc && v == &gval && !gpushed_v)
PTV_ASSIGNS(gpushed_v, gpushed_b, gpushed, gbuf)
PTV_ENSURES(PTV_RET == POINTLESS_CREATE_VALUE_FAIL ? !gpushed_v : (PTV_RET == gnv && gpushed_v && gpushed.header.type_29 == gval.type && gpushed.header.is_outside_vector == 0 && gpushed.header.is_set_map_vector == 0 && gpushed.header.is_compressed_vector == 0 && gpushed.data.data_u32 == gval.data.data_u32));
#endif
#endif

#if defined(PTV_CBMC) && KIND == 3
/* memcpy into the freshly allocated buffer (contents unconstrained so far): the bytes the specification speaks of are copied */
static void* ptv_memcpy(void* dst, const void* src, size_t n)
{
	uint64_t o = gk / 8;
	PTV_CHECK(__CPROVER_same_object(dst, gfresh) && __CPROVER_POINTER_OFFSET(dst) + n <= gfresh_n, "copied to the new buffer");
	PTV_CHECK(src == gv && n <= ((uint64_t)gn + 7) / 8, "copied from the given bits");
	if (o < n) ((uint8_t*)dst)[o] = gv[o];
	if (n > 0 && o != n - 1) ((uint8_t*)dst)[n - 1] = gv[n - 1];
	return dst;
}
#define memcpy ptv_memcpy
#endif
#include "/repo/src/pointless_create.c"
#undef memcpy

#ifdef PTV_CBMC
#if KIND == 3
void* pointless_malloc(size_t n) { if (nondet_ptv_u64() & 1) return 0; gfresh_n = n; return gfresh = malloc(n * sizeof(uint8_t)); }
#endif
void pointless_free(void* p) { free(p); }
static void make(void)
{
	gn = PTV_U32(); gk = PTV_U32();
	gv = malloc(sizeof(uint8_t) * (((uint64_t)gn + 7) / 8));
	PTV_ASSUME(gv != 0);
}
#endif
void h_all(void)
{
#if KIND == 1
	make(); PTV_ASSUME(gk < gn);
	F(gv, gn);
	PTV_REACH();
#endif
}
void h_run(void)
{
#if KIND == 2
	make(); PTV_ASSUME(gk < gn);
	F(gv, gn, &gna, &gnb);
	PTV_REACH();
#endif
}
void h_create(void)
{
#if KIND == 3
	make();
	gnorm = PTV_BOOL(); ghave = PTV_BOOL(); gword = (Word_t)PTV_U64(); gnv = PTV_U32(); gc.bitvector_map_judy_count = PTV_U32();
	PTV_ASSUME(gnv < POINTLESS_CREATE_VALUE_FAIL && gword < POINTLESS_CREATE_VALUE_FAIL);
	gpushed_v = gpushed_b = 0; gbuf = 0;
	pointless_create_bitvector_(&gc, gv, gn, gnorm);
	PTV_REACH();
#endif
}
void h_public(void)
{
#if KIND == 4
	make(); gret = PTV_U32();
	F(&gc, gv, gn);
	PTV_REACH();
#endif
}
void h_compressed(void)
{
#if KIND == 5
	gval.type = PTV_U8(); gval.data.data_u32 = PTV_U32(); gnv = PTV_U32(); gpushed_v = gpushed_b = 0;
	PTV_ASSUME(gval.type == POINTLESS_BITVECTOR_0 || gval.type == POINTLESS_BITVECTOR_1 || gval.type == POINTLESS_BITVECTOR_PACKED || gval.type == POINTLESS_BITVECTOR_01 || gval.type == POINTLESS_BITVECTOR_10);
	PTV_ASSUME(gnv < POINTLESS_CREATE_VALUE_FAIL);
	pointless_create_bitvector_compressed(&gc, &gval);
	PTV_REACH();
#endif
}
#ifndef PTV_CBMC
/* a vector of bitvectors, some given twice, written and read back; lengths around the limits of the storage forms */
static const uint32_t big[] = { 27, 28, 31, 32, 33, 255, 256, 65534, 65535, 65536, 65537, 70001, 131070, 131071, 140000 };
#define NB 12
static uint8_t* kb[NB]; static uint32_t kn[NB], kh[NB]; static int ks[NB];
void h_native(void)
{
	pointless_create_t c; void* buf; size_t buflen; const char* error = 0; pointless_t p;
	uint32_t m = (uint32_t)ptv_range(1, NB), i, j, root; uint8_t* r;
	pointless_create_begin_64(&c);
	root = pointless_create_vector_value(&c);
	for (i = 0; i < m; i++) {
		uint32_t b, pat = (uint32_t)ptv_range(0, 5), a, nb;
		kn[i] = (uint32_t)(ptv_range(0, 2) ? ptv_range(0, 60) : ptv_range(0, 3) ? ptv_range(0, 300) : big[ptv_range(0, 14)]);
		nb = (kn[i] + 7) / 8;
		kb[i] = ptv_malloc(nb);
		a = kn[i] > 60000 && PTV_BOOL() ? (PTV_BOOL() ? 65535 + (uint32_t)ptv_range(0, 2) : kn[i] - 65535 - (uint32_t)ptv_range(0, 2)) : (uint32_t)ptv_range(0, kn[i]);
		if (a > kn[i]) a = kn[i];
		if (pat == 5) { for (b = 0; b < nb; b++) kb[i][b] = PTV_U8(); }
		else for (b = 0; b < kn[i]; b++) { int x = pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? b >= a : pat == 3 ? b < a : b == a; kb[i][b / 8] = (uint8_t)((kb[i][b / 8] & ~(1 << (b % 8))) | (x << (b % 8))); }
		if (i && !ptv_range(0, 3)) {  /* one given before, with other unused bits */
			j = (uint32_t)ptv_range(0, i - 1); kn[i] = kn[j]; nb = (kn[i] + 7) / 8; kb[i] = ptv_malloc(nb);
			memcpy(kb[i], kb[j], nb);
			if (kn[i] % 8) kb[i][nb - 1] = (uint8_t)((kb[i][nb - 1] & ((1 << (kn[i] % 8)) - 1)) | (PTV_U8() << (kn[i] % 8)));
		}
		r = ptv_malloc((kn[i] + 7) / 8); memcpy(r, kb[i], (kn[i] + 7) / 8);   /* the creator takes a copy */
		ks[i] = ptv_range(0, 5) != 0;
		kh[i] = (ks[i] ? pointless_create_bitvector : pointless_create_bitvector_no_normalize)(&c, r, kn[i]);
		PTV_CHECK(kh[i] != POINTLESS_CREATE_VALUE_FAIL, "created");
		PTV_CHECK(pointless_create_vector_value_append(&c, root, kh[i]) != POINTLESS_CREATE_VALUE_FAIL, "appended");
		memset(r, 0x5a, (kn[i] + 7) / 8);
	}
	pointless_create_set_root(&c, root);
	PTV_CHECK(pointless_create_output_and_end_b(&c, &buf, &buflen, &error), "written");
	PTV_CHECK(pointless_open_b(&p, buf, buflen, &error), "read back");
	{
		pointless_value_t* rv = pointless_root(&p);
		pointless_value_t* v = pointless_reader_vector_value(&p, rv);
		PTV_CHECK(pointless_reader_vector_n_items(&p, rv) == m, "all of them");
		for (i = 0; i < m; i++) {
			PTV_CHECK(pointless_reader_bitvector_n_bits(&p, &v[i]) == kn[i], "number of bits");
			for (j = 0; j < kn[i]; j++)
				if (pointless_reader_bitvector_is_set(&p, &v[i], j) != (uint32_t)((kb[i][j / 8] >> (j % 8)) & 1)) PTV_CHECK(0, "bit");
			if (v[i].type == POINTLESS_BITVECTOR) {
				for (j = 0; j < i; j++) {
					uint32_t b;
					if (kn[j] != kn[i]) continue;
					for (b = 0; b < kn[i] && !(((kb[i][b / 8] ^ kb[j][b / 8]) >> (b % 8)) & 1); b++) ;
					PTV_CHECK(b < kn[i] || v[j].type == POINTLESS_BITVECTOR, "equal bitvectors in the same form");
					if (b == kn[i] && ks[i] && ks[j]) PTV_CHECK(v[i].data.data_u32 == v[j].data.data_u32, "equal bitvectors share one stored value");
				}
			}
		}
	}
	pointless_close(&p);
	PTV_REACH();
}
#endif

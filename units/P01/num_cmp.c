/*PTV
{
 "functions": ["pointless_cmp_reader_acyclic", "pointless_cmp_reader", "pointless_cmp_create", "pointless_cmp_int_float", "pointless_cmp_float_i64", "pointless_cmp_float_u64", "pointless_complete_value_get_as_i64", "pointless_complete_value_get_as_u64", "pointless_create_value_to_complete"],
 "assumptions": ["number values only (i32, u32, i64, u64, boolean, float); NaN is excluded"],
 "contracts": [
  {"id": "reader_acyclic", "harness": "h_reader_acyclic", "enforce": "pointless_cmp_reader_acyclic", "unwind": 2, "variants": ["TA=POINTLESS_I32", "TA=POINTLESS_U32", "TA=POINTLESS_I64", "TA=POINTLESS_U64", "TA=POINTLESS_BOOLEAN", "TA=POINTLESS_FLOAT"]},
  {"id": "reader", "harness": "h_reader", "enforce": "pointless_cmp_reader", "unwind": 2, "variants": ["TA=POINTLESS_I32", "TA=POINTLESS_U32", "TA=POINTLESS_I64", "TA=POINTLESS_U64", "TA=POINTLESS_BOOLEAN", "TA=POINTLESS_FLOAT"]},
  {"id": "create", "harness": "h_create", "enforce": "pointless_cmp_create", "unwind": 2, "variants": ["TA=POINTLESS_I32", "TA=POINTLESS_U32", "TA=POINTLESS_BOOLEAN", "TA=POINTLESS_FLOAT"], "prune": ["pointless_cmp_create_vector", "pointless_cmp_create_string_unicode", "pointless_cmp_create_bitvector"]}
 ],
 "bounded": [
  {"id": "b_reader_acyclic", "harness": "h_reader_acyclic", "unwind": 2, "fallback": true, "variants": ["TA=POINTLESS_I32", "TA=POINTLESS_U32", "TA=POINTLESS_I64", "TA=POINTLESS_U64", "TA=POINTLESS_BOOLEAN", "TA=POINTLESS_FLOAT"]},
  {"id": "b_create", "harness": "h_create", "unwind": 2, "fallback": true, "variants": ["TA=POINTLESS_I32", "TA=POINTLESS_U32", "TA=POINTLESS_BOOLEAN", "TA=POINTLESS_FLOAT"], "prune": ["pointless_cmp_create_vector", "pointless_cmp_create_string_unicode", "pointless_cmp_create_bitvector"]}
 ],
 "native": [
  {"harness": "h_reader_acyclic", "secs": 3}, {"harness": "h_reader", "secs": 2}, {"harness": "h_create", "secs": 3}, {"harness": "h_order", "secs": 3}
 ],
 "native_src": ["src/pointless_reader.c", "src/pointless_bitvector.c", "src/pointless_dynarray.c", "src/pointless_int_ops.c", "src/pointless_malloc.c", "src/bitutils.c", "src/pointless_validate.c", "src/pointless_validate_heap.c", "src/pointless_validate_heap_ref.c", "src/pointless_validate_hash_table.c", "src/pointless_hash_table.c", "src/pointless_hash.c", "src/pointless_unicode_utils.c", "src/pointless_cycle_marker.c", "src/pointless_cycle_marker_wrappers.c", "src/pointless_walk.c"],
 "judy": true
}
PTV*/
#include "ptv.h"
#include "/repo/src/pointless_value.c"
#include "/repo/src/pointless_cmp.c"

/* ---------------------------------------------------------------- spec */
/* a number as sign, integer part and "has a fraction"; huge = beyond any 64-bit integer */
typedef struct { int sign; unsigned __int128 mag; int frac; int huge; uint32_t hbits; } num_t;

static int is_num(uint32_t t)
{
	return t == POINTLESS_I32 || t == POINTLESS_U32 || t == POINTLESS_I64 || t == POINTLESS_U64 || t == POINTLESS_BOOLEAN || t == POINTLESS_FLOAT;
}

static num_t num_of_parts(uint32_t t, int64_t i64, uint64_t u64, int32_t i32, uint32_t u32, uint32_t fbits)
{
	num_t n = {0, 0, 0, 0, 0};
	if (t == POINTLESS_I32) { n.sign = i32 < 0; n.mag = i32 < 0 ? (unsigned __int128)(-(int64_t)i32) : (unsigned __int128)i32; }
	else if (t == POINTLESS_U32 || t == POINTLESS_BOOLEAN) { n.mag = u32; }
	else if (t == POINTLESS_I64) { n.sign = i64 < 0; n.mag = i64 < 0 ? (unsigned __int128)(-(uint64_t)i64) : (unsigned __int128)i64; }
	else if (t == POINTLESS_U64) { n.mag = u64; }
	else {
		uint32_t e = (fbits >> 23) & 0xff, m = fbits & 0x7fffff;
		n.sign = (fbits >> 31) != 0;
		if (e == 0) { n.frac = (int)m; }                       /* zero, or a denormal: fraction bits order them */
		else if (e >= 127 + 66) { n.huge = 1; n.hbits = fbits & 0x7fffffff; }
		else if (e >= 127 + 23) { n.mag = (unsigned __int128)(m | 0x800000) << (e - 150); }
		else if (e >= 127) { n.mag = (m | 0x800000) >> (150 - e); n.frac = (int)((m | 0x800000) & ((1u << (150 - e)) - 1)) << (e - 127); }
		else n.frac = (int)(0x800000 + (fbits & 0x7fffffff)); /* 0 < |f| < 1, only ordered against each other */
	}
	return n;
}

/* magnitude comparison; two floats with the same sign are ordered as their bit patterns */
static int spec_cmp(num_t a, num_t b, int both_float, uint32_t fa, uint32_t fb)
{
	int za = !a.huge && a.mag == 0 && !a.frac, zb = !b.huge && b.mag == 0 && !b.frac, r;
	if (za && zb) return 0;
	if (za) return b.sign ? 1 : -1;
	if (zb) return a.sign ? -1 : 1;
	if (a.sign != b.sign) return a.sign ? -1 : 1;
	if (both_float) {
		uint32_t x = fa & 0x7fffffff, y = fb & 0x7fffffff;
		r = (x > y) - (x < y);
	}
	else if (a.huge) r = 1;          /* the other one is an integer */
	else if (b.huge) r = -1;
	else if (a.mag != b.mag) r = a.mag < b.mag ? -1 : 1;
	else r = (a.frac != 0) - (b.frac != 0);
	return a.sign ? -r : r;
}

static uint32_t bits_of(float f) { union { uint32_t u; float f; } x; x.f = f; return x.u; }

static num_t num_r(pointless_complete_value_t* v)
{
	return num_of_parts(v->type, v->complete_data.data_i64, v->complete_data.data_u64, v->complete_data.data_i32, v->complete_data.data_u32, v->complete_data.data_u32);
}

static int spec_cmp_r(pointless_complete_value_t* a, pointless_complete_value_t* b)
{
	return spec_cmp(num_r(a), num_r(b), a->type == POINTLESS_FLOAT && b->type == POINTLESS_FLOAT, a->complete_data.data_u32, b->complete_data.data_u32);
}

static int valid_num(uint32_t t, uint32_t u32)
{
	if (!is_num(t)) return 0;
	if (t == POINTLESS_FLOAT) return (u32 & 0x7fffffff) <= 0x7f800000; /* no NaN */
	if (t == POINTLESS_BOOLEAN) return u32 <= 1;
	return 1;
}
#define VALID_R(v) valid_num((v)->type, (v)->complete_data.data_u32)

/* ----------------------------------------------------------- contracts */
#ifdef PTV_CBMC
/* functions which a comparison of numbers must never reach */
#define UNREACHED(T, N, ...) T N(__VA_ARGS__) { PTV_CHECK(0, "number comparison does not reach " #N); __CPROVER_assume(0); return (T)0; }
UNREACHED(uint32_t*, pointless_reader_unicode_value_ucs4, pointless_t* p, pointless_value_t* v)
UNREACHED(uint8_t*, pointless_reader_string_value_ascii, pointless_t* p, pointless_value_t* v)
UNREACHED(void*, pointless_reader_bitvector_buffer, pointless_t* p, pointless_value_t* v)
UNREACHED(uint32_t, pointless_reader_vector_n_items, pointless_t* p, pointless_value_t* v)
UNREACHED(pointless_value_t*, pointless_reader_vector_value, pointless_t* p, pointless_value_t* v)
UNREACHED(int8_t*, pointless_reader_vector_i8, pointless_t* p, pointless_value_t* v)
UNREACHED(uint8_t*, pointless_reader_vector_u8, pointless_t* p, pointless_value_t* v)
UNREACHED(int16_t*, pointless_reader_vector_i16, pointless_t* p, pointless_value_t* v)
UNREACHED(uint16_t*, pointless_reader_vector_u16, pointless_t* p, pointless_value_t* v)
UNREACHED(int32_t*, pointless_reader_vector_i32, pointless_t* p, pointless_value_t* v)
UNREACHED(uint32_t*, pointless_reader_vector_u32, pointless_t* p, pointless_value_t* v)
UNREACHED(int64_t*, pointless_reader_vector_i64, pointless_t* p, pointless_value_t* v)
UNREACHED(uint64_t*, pointless_reader_vector_u64, pointless_t* p, pointless_value_t* v)
UNREACHED(float*, pointless_reader_vector_float, pointless_t* p, pointless_value_t* v)
UNREACHED(int32_t, pointless_bitvector_cmp_buffer_buffer, uint32_t t_a, pointless_value_data_t* v_a, void* buffer_a, uint32_t t_b, pointless_value_data_t* v_b, void* buffer_b)
UNREACHED(void*, pointless_dynarray_buffer, pointless_dynarray_t* a)
UNREACHED(size_t, pointless_dynarray_n_items, pointless_dynarray_t* a)
pointless_complete_value_t *g_a, *g_b;
const char** g_e;
int32_t pointless_cmp_reader_acyclic(pointless_t* p_a, pointless_complete_value_t* a, pointless_t* p_b, pointless_complete_value_t* b)
	PTV_REQUIRES(a == g_a && b == g_b && VALID_R(a) && VALID_R(b))
	PTV_ASSIGNS()
	PTV_ENSURES(PTV_RET == spec_cmp_r(a, b));

int32_t pointless_cmp_reader(pointless_t* p_a, pointless_complete_value_t* a, pointless_t* p_b, pointless_complete_value_t* b, const char** error)
	PTV_REQUIRES(a == g_a && b == g_b && VALID_R(a) && VALID_R(b) && error == g_e)
	PTV_ASSIGNS(*error)
	PTV_ENSURES(PTV_RET == spec_cmp_r(a, b) && *error == PTV_OLD(*error));

static pointless_create_value_t* cr(pointless_create_t* c, uint32_t i) { return (pointless_create_value_t*)c->values._data + i; }
static int valid_cr(pointless_create_value_t* v) { return valid_num(v->header.type_29, v->data.data_u32); }
static int spec_cmp_cr(pointless_create_value_t* a, pointless_create_value_t* b);

pointless_create_t* g_c;
int32_t pointless_cmp_create(pointless_create_t* c, uint32_t a, uint32_t b, const char** error)
	PTV_REQUIRES(c == g_c && a == 0 && b == 1 && error == g_e)
	PTV_ASSIGNS(*error)
	PTV_ENSURES(PTV_RET == spec_cmp_cr(cr(c, a), cr(c, b)) && *error == PTV_OLD(*error));
#endif

static int spec_cmp_cr(pointless_create_value_t* a, pointless_create_value_t* b)
{
	pointless_complete_value_t x, y;
	x.type = a->header.type_29; x.complete_data.data_u64 = 0; x.complete_data.data_u32 = a->data.data_u32;
	y.type = b->header.type_29; y.complete_data.data_u64 = 0; y.complete_data.data_u32 = b->data.data_u32;
	return spec_cmp_r(&x, &y);
}

/* ----------------------------------------------------------- harnesses */
/* every pair of number types, each as a constant */
#define T6(M) M(POINTLESS_I32) M(POINTLESS_U32) M(POINTLESS_I64) M(POINTLESS_U64) M(POINTLESS_BOOLEAN) M(POINTLESS_FLOAT)
static const uint32_t ts[] = {POINTLESS_I32, POINTLESS_U32, POINTLESS_BOOLEAN, POINTLESS_FLOAT, POINTLESS_I64, POINTLESS_U64};

static uint64_t nd_payload(uint32_t t)
{
	uint64_t d = PTV_U64();
	PTV_NATIVE_ONLY(
		if (t == POINTLESS_BOOLEAN) d &= 1;
		if (t == POINTLESS_FLOAT && (d & 0x100000000ull)) { float f = (float)(int64_t)d; d = bits_of(f); }
	)
	return d;
}

static pointless_complete_value_t mk(uint32_t t, uint64_t d)
{
	pointless_complete_value_t v;
	v.type = t;
	v.complete_data.data_u64 = d;
	return v;
}

static void reader_acyclic(uint32_t ta, uint32_t tb)
{
	pointless_complete_value_t a = mk(ta, nd_payload(ta)), b = mk(tb, nd_payload(tb));
	int32_t c;
	PTV_ASSUME(VALID_R(&a) && VALID_R(&b));
	PTV_CBMC_ONLY(g_a = &a; g_b = &b;)
	c = pointless_cmp_reader_acyclic(0, &a, 0, &b);
	PTV_CHECK(c == spec_cmp_r(&a, &b), "comparison of two numbers is the comparison of their exact values");
}

static void reader(uint32_t ta, uint32_t tb)
{
	pointless_complete_value_t a = mk(ta, nd_payload(ta)), b = mk(tb, nd_payload(tb));
	const char* error = 0;
	int32_t c;
	PTV_ASSUME(VALID_R(&a) && VALID_R(&b));
	PTV_CBMC_ONLY(g_a = &a; g_b = &b; g_e = &error;)
	c = pointless_cmp_reader(0, &a, 0, &b, &error);
	PTV_CHECK(error == 0, "comparison of two numbers does not fail");
	PTV_CHECK(c == spec_cmp_r(&a, &b), "comparison of two numbers is the comparison of their exact values");
}

static void create(uint32_t ta, uint32_t tb)
{
	pointless_create_t c;
	pointless_create_value_t vs[2];
	const char* error = 0;
	int32_t r;
	memset(&c, 0, sizeof(c));
	memset(vs, 0, sizeof(vs));
	vs[0].header.type_29 = ta; vs[0].data.data_u32 = (uint32_t)nd_payload(ta);
	vs[1].header.type_29 = tb; vs[1].data.data_u32 = (uint32_t)nd_payload(tb);
	PTV_ASSUME(valid_num(ta, vs[0].data.data_u32) && valid_num(tb, vs[1].data.data_u32));
	c.values._data = vs; c.values.n_items = c.values.n_alloc = 2; c.values.item_size = sizeof(*vs);
	PTV_CBMC_ONLY(g_c = &c; g_e = &error;)
	r = pointless_cmp_create(&c, 0, 1, &error);
	PTV_CHECK(error == 0, "comparison of two numbers does not fail");
	PTV_CHECK(r == spec_cmp_cr(&vs[0], &vs[1]), "comparison of two numbers is the comparison of their exact values");
}

#ifdef TA
#define FIRST(n) TA
#else
#define FIRST(n) ts[ptv_range(0, n)]
#endif
#define ROW(F, A) case A: switch (tb) { \
	case POINTLESS_I32: F(A, POINTLESS_I32); break; case POINTLESS_U32: F(A, POINTLESS_U32); break; \
	case POINTLESS_BOOLEAN: F(A, POINTLESS_BOOLEAN); break; case POINTLESS_FLOAT: F(A, POINTLESS_FLOAT); break; \
	case POINTLESS_I64: F(A, POINTLESS_I64); break; case POINTLESS_U64: F(A, POINTLESS_U64); break; } break;
#define ROW4(F, A) case A: switch (tb) { \
	case POINTLESS_I32: F(A, POINTLESS_I32); break; case POINTLESS_U32: F(A, POINTLESS_U32); break; \
	case POINTLESS_BOOLEAN: F(A, POINTLESS_BOOLEAN); break; case POINTLESS_FLOAT: F(A, POINTLESS_FLOAT); break; } break;

void h_reader_acyclic(void)
{
	uint32_t ta = FIRST(5), tb = ts[ptv_range(0, 5)];
	switch (ta) { ROW(reader_acyclic, POINTLESS_I32) ROW(reader_acyclic, POINTLESS_U32) ROW(reader_acyclic, POINTLESS_BOOLEAN) ROW(reader_acyclic, POINTLESS_FLOAT) ROW(reader_acyclic, POINTLESS_I64) ROW(reader_acyclic, POINTLESS_U64) }
	PTV_REACH();
}

void h_reader(void)
{
	uint32_t ta = FIRST(5), tb = ts[ptv_range(0, 5)];
	switch (ta) { ROW(reader, POINTLESS_I32) ROW(reader, POINTLESS_U32) ROW(reader, POINTLESS_BOOLEAN) ROW(reader, POINTLESS_FLOAT) ROW(reader, POINTLESS_I64) ROW(reader, POINTLESS_U64) }
	PTV_REACH();
}

void h_create(void)
{
	uint32_t ta = FIRST(3), tb = ts[ptv_range(0, 3)];
	switch (ta) { ROW4(create, POINTLESS_I32) ROW4(create, POINTLESS_U32) ROW4(create, POINTLESS_BOOLEAN) ROW4(create, POINTLESS_FLOAT) }
	PTV_REACH();
}

/* three numbers: the comparison is a total order (native: the exact specification above implies it) */
void h_order(void)
{
	uint32_t ta = ts[ptv_range(0, 5)], tb = ts[ptv_range(0, 5)], tc = ts[ptv_range(0, 5)];
	pointless_complete_value_t a = mk(ta, nd_payload(ta)), b = mk(tb, nd_payload(tb)), c = mk(tc, nd_payload(tc));
	int32_t ab, ba, bc, ac;
	PTV_ASSUME(VALID_R(&a) && VALID_R(&b) && VALID_R(&c));
	ab = pointless_cmp_reader_acyclic(0, &a, 0, &b); ba = pointless_cmp_reader_acyclic(0, &b, 0, &a);
	bc = pointless_cmp_reader_acyclic(0, &b, 0, &c); ac = pointless_cmp_reader_acyclic(0, &a, 0, &c);
	PTV_CHECK(ab == -ba, "antisymmetry");
	PTV_CHECK(!(ab <= 0 && bc <= 0) || ac <= 0, "transitivity of <=");
	PTV_CHECK(!(ab <= 0 && bc < 0) || ac < 0, "transitivity of <");
	PTV_REACH();
}

/*PTV
{
 "functions": ["pointless_cmp_reader_acyclic", "pointless_cmp_create", "pointless_cmp_reader_string_unicode", "pointless_cmp_create_string_unicode", "pointless_reader_unicode_value_ucs4", "pointless_reader_string_value_ascii"],
 "assumptions": ["the string comparison functions are used through their contracts, proved in str_cmp.c"],
 "contracts": [
  {"id": "reader", "harness": "h_reader", "enforce": "pointless_cmp_reader_acyclic", "replace": ["pointless_cmp_string_8_8", "pointless_cmp_string_8_32", "pointless_cmp_string_32_8", "pointless_cmp_string_32_32"], "unwind": 2,
   "prune": ["pointless_cmp_reader_int_float", "pointless_cmp_reader_bitvector", "pointless_cmp_reader_vector"],
   "variants": ["TA=POINTLESS_STRING_ TB=POINTLESS_STRING_", "TA=POINTLESS_STRING_ TB=POINTLESS_UNICODE_", "TA=POINTLESS_UNICODE_ TB=POINTLESS_STRING_", "TA=POINTLESS_UNICODE_ TB=POINTLESS_UNICODE_"]},
  {"id": "create", "harness": "h_create", "enforce": "pointless_cmp_create", "replace": ["pointless_cmp_string_8_8", "pointless_cmp_string_8_32", "pointless_cmp_string_32_8", "pointless_cmp_string_32_32"], "unwind": 2,
   "prune": ["pointless_cmp_create_int_float", "pointless_cmp_create_bitvector", "pointless_cmp_create_vector"],
   "variants": ["TA=POINTLESS_STRING_ TB=POINTLESS_STRING_", "TA=POINTLESS_STRING_ TB=POINTLESS_UNICODE_", "TA=POINTLESS_UNICODE_ TB=POINTLESS_STRING_", "TA=POINTLESS_UNICODE_ TB=POINTLESS_UNICODE_"]}
 ],
 "native": [{"harness": "h_file", "secs": 3}],
 "native_src": ["src/pointless_bitvector.c", "src/pointless_dynarray.c", "src/pointless_int_ops.c", "src/pointless_malloc.c", "src/bitutils.c", "src/pointless_validate.c", "src/pointless_validate_heap.c", "src/pointless_validate_heap_ref.c", "src/pointless_validate_hash_table.c", "src/pointless_hash_table.c", "src/pointless_hash.c", "src/pointless_unicode_utils.c", "src/pointless_cycle_marker.c", "src/pointless_cycle_marker_wrappers.c", "src/pointless_walk.c"],
 "judy": true,
 "nobody": ["pointless_bitvector_cmp_buffer_buffer", "pointless_bitvector_n_bits", "pointless_bitvector_is_set", "pointless_dynarray_buffer", "pointless_dynarray_n_items"]
}
PTV*/
#include "ptv.h"
#include "/repo/src/pointless_value.c"
#include "/repo/src/pointless_reader.c"
#include "/repo/src/pointless_cmp.c"
#ifndef TA
#define TA POINTLESS_STRING_
#define TB POINTLESS_UNICODE_
#define ANYT
#endif

#ifdef PTV_CBMC
void *g_sa, *g_sb;        /* where the characters of the operands start */
int32_t g_r;              /* what the comparison of these characters gives */
#define STRCMP(A, B) int32_t pointless_cmp_string_##A##_##B(uint##A##_t* a, uint##B##_t* b) \
	PTV_REQUIRES((void*)a == g_sa && (void*)b == g_sb && A == WA && B == WB) PTV_ASSIGNS() PTV_ENSURES(PTV_RET == g_r);
#define WA (TA == POINTLESS_STRING_ ? 8 : 32)
#define WB (TB == POINTLESS_STRING_ ? 8 : 32)
STRCMP(8, 8) STRCMP(8, 32) STRCMP(32, 8) STRCMP(32, 32)

pointless_complete_value_t *g_a, *g_b;
pointless_t *g_pa, *g_pb;
int32_t pointless_cmp_reader_acyclic(pointless_t* p_a, pointless_complete_value_t* a, pointless_t* p_b, pointless_complete_value_t* b)
	PTV_REQUIRES(a == g_a && b == g_b && p_a == g_pa && p_b == g_pb && a->type == TA && b->type == TB)
	PTV_ASSIGNS()
	PTV_ENSURES(PTV_RET == g_r);
pointless_create_t* g_c;
const char** g_e;
int32_t pointless_cmp_create(pointless_create_t* c, uint32_t a, uint32_t b, const char** error)
	PTV_REQUIRES(c == g_c && a == 0 && b == 1 && error == g_e)
	PTV_ASSIGNS(*error)
	PTV_ENSURES(PTV_RET == g_r && *error == PTV_OLD(*error));

void h_reader(void)
{
	pointless_t pa, pb;
	uint64_t offs_a[2], offs_b[2];
	char heap_a[64], heap_b[64];
	uint32_t ia = ptv_range(0, 1), ib = ptv_range(0, 1);
	pointless_complete_value_t a, b;
	int32_t r;
	offs_a[0] = ptv_range(0, 60); offs_a[1] = ptv_range(0, 60); offs_b[0] = ptv_range(0, 60); offs_b[1] = ptv_range(0, 60);
	pa.string_unicode_offsets_64 = offs_a; pb.string_unicode_offsets_64 = offs_b;
	pa.heap_ptr = heap_a; pb.heap_ptr = heap_b;
	a.type = TA; b.type = TB; a.complete_data.data_u64 = ia; b.complete_data.data_u64 = ib;
	g_a = &a; g_b = &b; g_pa = &pa; g_pb = &pb;
	g_sa = heap_a + offs_a[ia] + 4; g_sb = heap_b + offs_b[ib] + 4;
	g_r = PTV_I32();
	r = pointless_cmp_reader_acyclic(&pa, &a, &pb, &b);
	PTV_CHECK(r == g_r, "strings of a file are compared by their characters");
	PTV_REACH();
}

void h_create(void)
{
	pointless_create_t c;
	pointless_create_value_t vs[2];
	void* strs[2];
	char s0[8], s1[8];
	const char* error = 0;
	int32_t r;
	uint32_t ia = ptv_range(0, 1), ib = ptv_range(0, 1);
	memset(&c, 0, sizeof(c)); memset(vs, 0, sizeof(vs));
	strs[0] = s0; strs[1] = s1;
	vs[0].header.type_29 = TA; vs[0].data.data_u32 = ia;
	vs[1].header.type_29 = TB; vs[1].data.data_u32 = ib;
	c.values._data = vs; c.values.n_items = c.values.n_alloc = 2; c.values.item_size = sizeof(*vs);
	c.string_unicode_values._data = strs; c.string_unicode_values.n_items = c.string_unicode_values.n_alloc = 2; c.string_unicode_values.item_size = sizeof(void*);
	g_c = &c; g_e = &error;
	g_sa = (char*)strs[ia] + 4; g_sb = (char*)strs[ib] + 4;
	g_r = PTV_I32();
	r = pointless_cmp_create(&c, 0, 1, &error);
	PTV_CHECK(error == 0 && r == g_r, "strings under creation are compared by their characters");
	PTV_REACH();
}
void h_file(void) {}
#else
/* two strings of a hand-made heap, and of a hand-made creation context */
static uint32_t code[2][12]; static size_t len[2];
static int32_t order(void)
{
	size_t i;
	for (i = 0; i < len[0] && i < len[1]; i++)
		if (code[0][i] != code[1][i]) return code[0][i] < code[1][i] ? -1 : 1;
	return len[0] < len[1] ? -1 : (len[0] > len[1] ? 1 : 0);
}
void h_file(void)
{
	pointless_t p[2]; pointless_header_t hd[2]; uint64_t offs[2][3]; uint32_t* heap[2]; pointless_complete_value_t v[2];
	pointless_create_t c; pointless_create_value_t vs[2]; void* strs[2]; const char* error = 0;
	size_t i, k; int w[2];
	memset(p, 0, sizeof(p)); memset(&c, 0, sizeof(c)); memset(vs, 0, sizeof(vs)); memset(hd, 0, sizeof(hd));
	for (k = 0; k < 2; k++) {
		size_t pad = ptv_range(0, 3);
		w[k] = PTV_BOOL();
		len[k] = ptv_range(0, 8);
		for (i = 0; i < len[k]; i++) {
			code[k][i] = w[k] ? PTV_U32() : PTV_U8();
			if (k == 1 && i < len[0] && ptv_range(0, 7) && (w[1] || code[0][i] < 256)) code[k][i] = code[0][i];
			PTV_ASSUME(code[k][i] != 0);
		}
		heap[k] = ptv_malloc(4 * pad + 4 + (len[k] + 1) * (w[k] ? 4 : 1));
		offs[k][1] = 4 * pad; offs[k][0] = offs[k][2] = 0;
		heap[k][pad] = (uint32_t)len[k];
		for (i = 0; i <= len[k]; i++) {
			uint32_t x = i < len[k] ? code[k][i] : 0;
			if (w[k]) heap[k][pad + 1 + i] = x; else ((uint8_t*)(heap[k] + pad + 1))[i] = (uint8_t)x;
		}
		hd[k].n_string_unicode = 3;
		p[k].header = &hd[k]; p[k].string_unicode_offsets_64 = offs[k]; p[k].heap_ptr = heap[k];
		v[k].type = w[k] ? POINTLESS_UNICODE_ : POINTLESS_STRING_; v[k].complete_data.data_u64 = 1;
		strs[k] = heap[k] + pad;
		vs[k].header.type_29 = v[k].type; vs[k].data.data_u32 = k;
	}
	c.values._data = vs; c.values.n_items = c.values.n_alloc = 2; c.values.item_size = sizeof(*vs);
	c.string_unicode_values._data = strs; c.string_unicode_values.n_items = c.string_unicode_values.n_alloc = 2; c.string_unicode_values.item_size = sizeof(void*);
	PTV_CHECK(pointless_cmp_reader_acyclic(&p[0], &v[0], &p[1], &v[1]) == order(), "strings of a file are compared by their characters");
	PTV_CHECK(pointless_cmp_reader(&p[0], &v[0], &p[1], &v[1], &error) == order() && error == 0, "strings of a file are compared by their characters");
	PTV_CHECK(pointless_cmp_create(&c, 0, 1, &error) == order() && error == 0, "strings under creation are compared by their characters");
	PTV_REACH();
}
void h_reader(void) {}
void h_create(void) {}
#endif

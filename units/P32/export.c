/*PTV
{
 "functions": ["pointless_export_py_rec", "pointless_export_py", "pointless_export_get_seen", "pointless_export_set_seen", "pointless_write_object", "pointless_write_object_to", "pointless_write_object_to_primvector", "pointless_write_object_to_bytearray"],
 "assumptions": ["CPython is modelled by lib/py.h and the stubs of this unit; reference counts are not modelled", "the creation functions do what their properties say (P21, P23 and others); a creation failure other than of adding to a container is reported as out of memory", "the table of objects seen is a Judy array, modelled by its entry for the object at hand", "no Python code runs while a list, tuple or dict is exported (there is none that could)"],
 "cflags": ["-I/usr/include/python3.12", "-I/repo"],
 "contracts": [
  {"id": "export", "harness": "h_export", "enforce": "pointless_export_py_rec", "loops": true, "variants": ["K=0", "K=1", "K=2", "K=3", "K=4", "K=5", "K=6", "K=7", "K=8", "K=9", "K=10", "K=11", "K=12", "K=13", "K=14", "K=15", "K=16"]},
  {"id": "write", "harness": "h_write", "enforce": "pointless_write_object", "defs": ["K=16", "WRITE"]},
  {"id": "write_primvector", "harness": "h_write_pv", "enforce": "pointless_write_object_to_primvector", "defs": ["K=16", "WRITE"]},
  {"id": "write_bytearray", "harness": "h_write_ba", "enforce": "pointless_write_object_to_bytearray", "defs": ["K=16", "WRITE"]}
 ]
}
PTV*/
#include "ptv.h"
#ifndef K
#define K 16
#endif
#ifdef PTV_CBMC
#include "py.h"
/* what the object is */
enum { BOOL, LONG, NONE, FLOAT, LIST, TUPLE, PVEC, BYTES, PRIM, STR, DICT, SET, STOREDBITS, BITS, PSET, PMAP, OTHER };
#define FAIL POINTLESS_CREATE_VALUE_FAIL
PyTypeObject PyByteArray_Type, PySet_Type, PyFrozenSet_Type, PyList_Type, PyTuple_Type, PyUnicode_Type, PyDict_Type, PyPointlessVectorType, PyPointlessPrimVectorType, PyPointlessBitvectorType, PyPointlessSetType, PyPointlessMapType;
PyObject* PyExc_IOError;
static PyObject g_plain, g_child, g_dkey, g_dval, g_iter; static PyPointlessVector g_pv; static PyPointlessPrimVector g_prim; static PyPointlessBitvector g_bv; static PyPointlessSet g_ps; static PyPointlessMap g_pm;
static PyPointless g_pp;
static PyObject* g_top;
static int g_true;
static uint32_t g_depth;
static uint64_t g_n_items;           /* items of a container or characters of a string */
static void* g_data;                 /* a block of items or characters */
static uint32_t g_ukind, g_is_ascii; static Py_ssize_t g_zlen;   /* strings: width, whether 7 bits do, the position of the first zero */

/* the children, in the order in which they are exported, and what was done with them */
static uint64_t g_cur, g_nchild, g_nadd, g_nkey, g_nval; static uint32_t g_child_ret, g_key_ret, g_val_ret;
static int g_iter_fails, g_next_fails, g_adds_fail; static int g_end;
/* what was created for the object */
static uint32_t g_newh, g_ncreate, g_mk; static void* g_mp; static uint64_t g_mn; static int g_create_fails;
/* the table of objects seen */
static Word_t g_slot; static uint32_t g_seen, g_nset, g_set_fails; static uint32_t g_seen_at_child;

enum { M_TRUE = 1, M_FALSE, M_U32, M_I32, M_NULL, M_FLOAT, M_VECTOR, M_I8, M_U8, M_I16, M_U16, M_I3, M_U3, M_I64, M_U64, M_F, M_ASCII, M_S2, M_S4, M_UC2, M_UC4, M_MAP, M_SET, M_BITS, M_BITSRAW, M_SLICE, M_RECREATE };
static pointless_create_t* g_c;
static float g_mf;
static uint32_t make(pointless_create_t* c, uint32_t kind, void* p, uint64_t n)
{
	PTV_CHECK(c == g_c, "the value is created in the file being written");
	g_ncreate++; g_mk = kind; g_mp = p; g_mn = n;
	return g_create_fails ? FAIL : g_newh;
}
uint32_t pointless_create_boolean_true(pointless_create_t* c) { return make(c, M_TRUE, 0, 0); }
uint32_t pointless_create_boolean_false(pointless_create_t* c) { return make(c, M_FALSE, 0, 0); }
uint32_t pointless_create_null(pointless_create_t* c) { return make(c, M_NULL, 0, 0); }
uint32_t pointless_create_u32(pointless_create_t* c, uint32_t v) { return make(c, M_U32, 0, v); }
uint32_t pointless_create_i32(pointless_create_t* c, int32_t v) { return make(c, M_I32, 0, (uint64_t)(int64_t)v); }
uint32_t pointless_create_float(pointless_create_t* c, float v) { g_mf = v; return make(c, M_FLOAT, 0, 0); }
uint32_t pointless_create_vector_value(pointless_create_t* c) { return make(c, M_VECTOR, 0, 0); }
uint32_t pointless_create_map(pointless_create_t* c) { return make(c, M_MAP, 0, 0); }
uint32_t pointless_create_set(pointless_create_t* c) { return make(c, M_SET, 0, 0); }
#define OWNER(f, T, k) uint32_t f(pointless_create_t* c, T* p, uint32_t n) { return make(c, k, p, n); }
OWNER(pointless_create_vector_i8_owner, int8_t, M_I8) OWNER(pointless_create_vector_u8_owner, uint8_t, M_U8) OWNER(pointless_create_vector_i16_owner, int16_t, M_I16)
OWNER(pointless_create_vector_u16_owner, uint16_t, M_U16) OWNER(pointless_create_vector_i32_owner, int32_t, M_I3) OWNER(pointless_create_vector_u32_owner, uint32_t, M_U3)
OWNER(pointless_create_vector_i64_owner, int64_t, M_I64) OWNER(pointless_create_vector_u64_owner, uint64_t, M_U64) OWNER(pointless_create_vector_float_owner, float, M_F)
uint32_t pointless_create_string_ascii(pointless_create_t* c, uint8_t* s) { return make(c, M_ASCII, s, 0); }
uint32_t pointless_create_string_ucs2(pointless_create_t* c, uint16_t* s) { return make(c, M_S2, s, 0); }
uint32_t pointless_create_string_ucs4(pointless_create_t* c, uint32_t* s) { return make(c, M_S4, s, 0); }
uint32_t pointless_create_unicode_ucs2(pointless_create_t* c, uint16_t* s) { return make(c, M_UC2, s, 0); }
uint32_t pointless_create_unicode_ucs4(pointless_create_t* c, uint32_t* s) { return make(c, M_UC4, s, 0); }
static uint32_t gk; static int g_bit, g_bit_seen; static uint32_t g_nbits;
#define BITOF(p, i) (((((unsigned char*)(p))[(i) / 8]) >> ((i) % 8)) & 1)
static uint32_t make_bits(pointless_create_t* c, uint32_t kind, void* p, uint32_t n)
{
	/* the bits are looked at here: the block is freed afterwards */
	g_bit_seen = K == STOREDBITS && gk < n ? BITOF(p, gk) : 0;
	return make(c, kind, p, n);
}
uint32_t pointless_create_bitvector(pointless_create_t* c, void* p, uint32_t n) { return make_bits(c, M_BITS, p, n); }
uint32_t pointless_create_bitvector_no_normalize(pointless_create_t* c, void* p, uint32_t n) { return make_bits(c, M_BITSRAW, p, n); }
uint32_t pointless_recreate_vector_slice(pointless_t* p, pointless_value_t* v, uint32_t i, uint32_t n, pointless_create_t* c, const char** e)
{
	PTV_CHECK(p == &g_pp.p && v == &g_pv.v, "the stored vector is re-created");
	if (g_create_fails) *e = "error";
	return make(c, M_SLICE, 0, ((uint64_t)i << 32) | n);
}
uint32_t pointless_recreate_value(pointless_t* p, pointless_value_t* v, pointless_create_t* c, const char** e)
{
	PTV_CHECK(p == &g_pp.p, "the stored value is re-created");
	if (g_create_fails) *e = "error";
	return make(c, M_RECREATE, v, 0);
}
#define RD(T, s) T* pointless_reader_vector_##s(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &g_pp.p && v == &g_pv.v, "reads the stored vector"); return (T*)g_data; }
RD(int8_t, i8) RD(uint8_t, u8) RD(int16_t, i16) RD(uint16_t, u16) RD(int32_t, i32) RD(uint32_t, u32) RD(int64_t, i64) RD(uint64_t, u64) RD(float, float)
uint32_t pointless_reader_bitvector_n_bits(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &g_pp.p && v == &g_bv.v, "reads the bitvector"); return g_nbits; }
uint32_t pointless_reader_bitvector_is_set(pointless_t* p, pointless_value_t* v, uint32_t i) { PTV_CHECK(p == &g_pp.p && v == &g_bv.v && i < g_nbits, "reads a bit"); return i == gk ? g_bit : nondet_ptv_u64() & 1; }
void bm_set_(void* b, uint64_t i) { ((unsigned char*)b)[i / 8] |= (unsigned char)(1u << (i % 8)); }
size_t pointless_dynarray_n_items(pointless_dynarray_t* a) { PTV_CHECK(a == &g_prim.array, "the items of the vector"); return (uint32_t)g_n_items; }
size_t pointless_ucs1_len(uint8_t* s) { PTV_CHECK(s == g_data && g_ukind == PyUnicode_1BYTE_KIND, "width"); return g_zlen; }
size_t pointless_ucs2_len(uint16_t* s) { PTV_CHECK(s == g_data && g_ukind == PyUnicode_2BYTE_KIND, "width"); return g_zlen; }
size_t pointless_ucs4_len(uint32_t* s) { PTV_CHECK(s == g_data && g_ukind == PyUnicode_4BYTE_KIND, "width"); return g_zlen; }
int pointless_is_ucs2_ascii(uint16_t* s) { PTV_CHECK(s == g_data && g_ukind == PyUnicode_2BYTE_KIND, "width"); return g_is_ascii; }
int pointless_is_ucs4_ascii(uint32_t* s) { PTV_CHECK(s == g_data && g_ukind == PyUnicode_4BYTE_KIND, "width"); return g_is_ascii; }
#undef PyUnicode_KIND
#undef PyUnicode_DATA
#undef PyUnicode_GET_LENGTH
#undef PyFloat_AS_DOUBLE
#undef PyByteArray_GET_SIZE
#undef PyList_GET_SIZE
#undef PyTuple_GET_SIZE
#undef PyList_GET_ITEM
#undef PyTuple_GET_ITEM
#define PyUnicode_KIND(o) (PTV_ID(o, STR), g_ukind)
#define PyUnicode_DATA(o) (PTV_ID(o, STR), g_data)
#define PyUnicode_GET_LENGTH(o) (PTV_ID(o, STR), (Py_ssize_t)g_n_items)
#define PyByteArray_GET_SIZE(o) (PTV_ID(o, BYTES), (Py_ssize_t)g_n_items)
#define PyFloat_AS_DOUBLE(o) (PTV_ID(o, FLOAT), g_dbl)
#define PyList_GET_SIZE(o) (PTV_ID(o, LIST), (Py_ssize_t)g_n_items)
#define PyTuple_GET_SIZE(o) (PTV_ID(o, TUPLE), (Py_ssize_t)g_n_items)
#define PyList_GET_ITEM(o, i) (PTV_ID(o, LIST), item(i))
#define PyTuple_GET_ITEM(o, i) (PTV_ID(o, TUPLE), item(i))
static void PTV_ID(PyObject* o, int k) { PTV_CHECK(o == g_top && K == k, "asks the object at hand"); }
static PyObject* item(Py_ssize_t i) { PTV_CHECK(i >= 0 && (uint64_t)i < g_n_items, "an item"); g_cur = i; return &g_child; }
char* PyByteArray_AsString(PyObject* o) { PTV_ID(o, BYTES); return g_data; }
/* a dict gives its pairs in turn */
int PyDict_Next(PyObject* o, Py_ssize_t* pos, PyObject** k, PyObject** v)
{
	PTV_ID(o, DICT);
	PTV_CHECK(!g_end && g_nadd == g_cur && (*pos == 0) == (g_cur == 0), "the next pair");
	if (g_cur >= g_n_items) { g_end = 1; return 0; }
	*pos = 1; g_cur++; *k = &g_dkey; *v = &g_dval;
	return 1;
}
PyObject* PyObject_GetIter(PyObject* o) { PTV_ID(o, SET); if (g_iter_fails) { g_exc = PyExc_TypeError; return 0; } return &g_iter; }
PyObject* PyIter_Next(PyObject* it)
{
	PTV_CHECK(it == &g_iter && !g_end && g_nadd == g_cur, "the next member");
	if (g_cur >= g_n_items) { g_end = 1; if (g_next_fails) g_exc = PyExc_TypeError; return 0; }
	g_cur++;
	return &g_child;
}
void _Py_Dealloc(PyObject* o) { }
static uint32_t add(pointless_create_t* c, uint32_t to)
{
	PTV_CHECK(c == g_c && to == g_newh && g_ncreate == 1 && !g_create_fails, "adds to the container just created");
	if (g_adds_fail && (nondet_ptv_u64() & 1)) return FAIL;
	g_nadd++;
	return to;
}
uint32_t pointless_create_vector_value_append(pointless_create_t* c, uint32_t vector, uint32_t v) { PTV_CHECK(g_nchild == g_nadd + 1 && v == g_child_ret, "adds the item just exported"); return add(c, vector); }
uint32_t pointless_create_set_add(pointless_create_t* c, uint32_t s, uint32_t v) { PTV_CHECK(g_nchild == g_nadd + 1 && v == g_child_ret, "adds the member just exported"); return add(c, s); }
uint32_t pointless_create_map_add(pointless_create_t* c, uint32_t m, uint32_t k, uint32_t v) { PTV_CHECK(g_nkey == g_nadd + 1 && g_nval == g_nadd + 1 && k == g_key_ret && v == g_val_ret, "adds the pair just exported"); return add(c, m); }
PPvoid_t JudyLGet(Pcvoid_t a, Word_t i, PJError_t e) { PTV_CHECK((PyObject*)i == g_top, "looks for the object at hand"); return g_seen || g_nset ? (PPvoid_t)&g_slot : 0; }
PPvoid_t JudyLIns(PPvoid_t a, Word_t i, PJError_t e) { PTV_CHECK((PyObject*)i == g_top, "remembers the object at hand"); if (g_set_fails) return 0; g_nset++; return (PPvoid_t)&g_slot; }
Word_t JudyLFreeArray(PPvoid_t a, PJError_t e) { return 0; }
/* writing */
static PyObject* g_kwds; static int g_args_ok, g_opts; static PyObject *g_unwiden, *g_normalize; static const char* g_fname;
static int g_out_fails, g_nout, g_nroot, g_nbegin; static uint32_t g_root; static void* g_buf; static size_t g_buflen; static PyObject g_result;
static int g_res_fails, g_nres;
static int parse(PyObject* a, PyObject* k, const char* f, char** names, void* p1, void* p2, void* p3, void* p4, void* p5, void* p6)
{
	void* t1; void* t2; void *u, *n;
	PTV_CHECK(a == g_args && k == g_kwds && f[0] == 'O', "the arguments are parsed");
	if (!g_args_ok) { g_exc = PyExc_TypeError; return 0; }
	*(PyObject**)p1 = g_top;
	if (f[1] == 's') { *(const char**)p2 = g_fname; t1 = p3; u = p4; t2 = p5; n = p6; } else { t1 = p2; u = p3; t2 = p4; n = p5; }
	PTV_CHECK(t1 == (void*)&PyBool_Type && t2 == (void*)&PyBool_Type, "the options are booleans");
	if (g_opts & 1) *(PyObject**)u = g_unwiden;
	if (g_opts & 2) *(PyObject**)n = g_normalize;
	return 1;
}
#undef PyArg_ParseTupleAndKeywords
#define PyArg_ParseTupleAndKeywords(a, k, f, names, ...) PARSE_(a, k, f, names, __VA_ARGS__, 0, 0)
#define PARSE_(a, k, f, names, p1, p2, p3, p4, p5, p6, ...) parse(a, k, f, names, (void*)(p1), (void*)(p2), (void*)(p3), (void*)(p4), (void*)(p5), (void*)(p6))
void pointless_create_begin_64(pointless_create_t* c) { g_c = c; g_nbegin++; }
void pointless_create_end(pointless_create_t* c) { }
void pointless_create_set_root(pointless_create_t* c, uint32_t root) { PTV_CHECK(c == g_c, "the root"); g_nroot++; g_root = root; }
static int out(pointless_create_t* c, const char** e)
{
	PTV_CHECK(c == g_c && g_nroot == 1 && g_nout == 0, "written once, with its root");
	g_nout++;
	if (g_out_fails) { *e = "error"; return 0; }
	return 1;
}
int pointless_create_output_and_end_f(pointless_create_t* c, const char* fname, const char** e) { PTV_CHECK(fname == g_fname, "to the file"); return out(c, e); }
int pointless_create_output_and_end_b(pointless_create_t* c, void** b, size_t* n, const char** e) { if (!out(c, e)) return 0; *b = g_buf; *n = g_buflen; return 1; }
static int g_which;
static PyObject* result(int w, const void* b, size_t n) { PTV_CHECK(b == g_buf && n == g_buflen && g_nout == 1 && !g_out_fails, "the contents of the file"); g_nres++; g_which = w; if (g_res_fails) { g_exc = PyExc_MemoryError; return 0; } return &g_result; }
PyPointlessPrimVector* PyPointlessPrimVector_from_buffer(void* b, size_t n) { return (PyPointlessPrimVector*)result(1, b, n); }
PyObject* PyByteArray_FromStringAndSize(const char* b, Py_ssize_t n) { return result(2, b, n); }
#define pointless_calloc(a, b) blank(a, b)
static void* blank(size_t a, size_t b) { void* p; if (nondet_ptv_u64() & 1) return 0; p = calloc(a * b, 1); __CPROVER_assume(p != 0); return p; }
#define pointless_free(p) free(p)

#define GHOSTS g_cur, g_nchild, g_nadd, g_nkey, g_nval, g_child_ret, g_key_ret, g_val_ret, g_exc, g_end
#define PTV_LOOP_ex_items(i, n) __CPROVER_assigns(i, GHOSTS, state->is_error, state->error_line) \
	__CPROVER_loop_invariant(0 <= i && i <= n && g_nchild == (uint64_t)i && g_nadd == (uint64_t)i && !g_end && g_exc == 0 && !state->is_error)
#define PTV_LOOP_ex_dict(pos, key, value) __CPROVER_assigns(pos, key, value, GHOSTS, state->is_error, state->error_line) \
	__CPROVER_loop_invariant(g_cur <= g_n_items && !g_end && g_nkey == g_cur && g_nval == g_cur && g_nadd == g_cur && (pos == 0) == (g_cur == 0) && g_exc == 0 && !state->is_error)
#define PTV_LOOP_ex_set(item) __CPROVER_assigns(item, GHOSTS, state->is_error, state->error_line) \
	__CPROVER_loop_invariant(g_cur <= g_n_items && !g_end && g_nchild == g_cur && g_nadd == g_cur && g_exc == 0 && !state->is_error)
#define PTV_LOOP_ex_bits(i, n, bits) __CPROVER_assigns(i, __CPROVER_object_whole(bits)) \
	__CPROVER_loop_invariant(i <= n && (gk >= n || BITOF(bits, gk) == (gk < i ? g_bit : 0)))
/* exporting an item: the calls (not the definition) go to the stub, which is the contract of the function at the next level */
#define PTV_PROBE_PyObject ~, 1,
#define PTV_SEL(x, y, ...) y
#define PTV_SEL_(...) PTV_SEL(__VA_ARGS__)
#define PTV_NAME(b) PTV_SEL_(PTV_PROBE_##b, 0)
#define PTV_NM0 export_stub
#define PTV_NM1 pointless_export_py_rec
#define PTV_CAT_(a, b) a##b
#define PTV_CAT(a, b) PTV_CAT_(a, b)
#define pointless_export_py_rec(a, b, c) PTV_CAT(PTV_NM, PTV_NAME(b))(a, b, c)
#define export_stub(st, ob, dp) export_child(&(st)->c, &(st)->is_error, &(st)->error_line, ob, dp)
static uint32_t export_child(pointless_create_t* c, int* is_error, int* line, PyObject* o, uint32_t depth);
#include "/repo/python/pointless_create.c"
#undef pointless_export_py_rec

/* ------------------------------------------------------------ contracts */
static pointless_export_state_t g_st;
#define ST (*state)
#define UNWIDEN (ST.unwiden_strings)
/* the one thing created for the object */
#define MADE(k) (g_ncreate == 1 && g_mk == (k) && PTV_RET == g_newh)
#define RAISED (PTV_RET == FAIL)
#define VALID (g_create_fails == 0)
#define VTAG(t) ((t) == POINTLESS_VECTOR_I8 ? M_I8 : (t) == POINTLESS_VECTOR_U8 ? M_U8 : (t) == POINTLESS_VECTOR_I16 ? M_I16 : (t) == POINTLESS_VECTOR_U16 ? M_U16 : (t) == POINTLESS_VECTOR_I32 ? M_I3 : (t) == POINTLESS_VECTOR_U32 ? M_U3 : (t) == POINTLESS_VECTOR_I64 ? M_I64 : (t) == POINTLESS_VECTOR_U64 ? M_U64 : (t) == POINTLESS_VECTOR_FLOAT ? M_F : 0)
#define VWIDTH(t) ((t) == POINTLESS_VECTOR_I8 || (t) == POINTLESS_VECTOR_U8 ? 1 : (t) == POINTLESS_VECTOR_I16 || (t) == POINTLESS_VECTOR_U16 ? 2 : (t) == POINTLESS_VECTOR_I64 || (t) == POINTLESS_VECTOR_U64 ? 8 : 4)
#define PTAG(t) ((t) == POINTLESS_PRIM_VECTOR_TYPE_I8 ? M_I8 : (t) == POINTLESS_PRIM_VECTOR_TYPE_U8 ? M_U8 : (t) == POINTLESS_PRIM_VECTOR_TYPE_I16 ? M_I16 : (t) == POINTLESS_PRIM_VECTOR_TYPE_U16 ? M_U16 : (t) == POINTLESS_PRIM_VECTOR_TYPE_I32 ? M_I3 : (t) == POINTLESS_PRIM_VECTOR_TYPE_U32 ? M_U3 : (t) == POINTLESS_PRIM_VECTOR_TYPE_I64 ? M_I64 : (t) == POINTLESS_PRIM_VECTOR_TYPE_U64 ? M_U64 : (t) == POINTLESS_PRIM_VECTOR_TYPE_FLOAT ? M_F : 0)
/* the string is kept, in 8 bits where it has that form or may be narrowed */
#define STRTAG (g_ukind == PyUnicode_1BYTE_KIND ? g_mk == M_ASCII : g_ukind == PyUnicode_2BYTE_KIND ? g_mk == (UNWIDEN && g_is_ascii ? M_S2 : M_UC2) : g_mk == (UNWIDEN && g_is_ascii ? M_S4 : M_UC4))
#define PVT (g_pv.v.type)
/* what the object becomes */
#if K == 0
#define BECOMES (VALID ? MADE(g_true ? M_TRUE : M_FALSE) : RAISED)
#elif K == 1
#define INRANGE (g_num >= INT32_MIN && g_num <= UINT32_MAX)
#define BECOMES (VALID && INRANGE ? g_num >= 0 ? MADE(M_U32) && g_mn == (uint64_t)g_num : MADE(M_I32) && (int64_t)g_mn == (int64_t)g_num : RAISED && (INRANGE || g_ncreate == 0))
#elif K == 2
#define BECOMES (VALID ? MADE(M_NULL) : RAISED)
#elif K == 3
#define BECOMES (VALID ? MADE(M_FLOAT) && (g_mf == (float)g_dbl || (g_mf != g_mf && g_dbl != g_dbl)) : RAISED)
#elif K == 4 || K == 5
#define BECOMES (RAISED || (MADE(M_VECTOR) && g_nchild == g_n_items && g_nadd == g_n_items))
#elif K == 6
#define BECOMES (RAISED || (g_ncreate == 1 && PTV_RET == g_newh && (PVT == POINTLESS_VECTOR_EMPTY ? g_mk == M_VECTOR : PVT == POINTLESS_VECTOR_VALUE || PVT == POINTLESS_VECTOR_VALUE_HASHABLE ? g_mk == M_SLICE && g_mn == (((uint64_t)g_pv.slice_i << 32) | g_pv.slice_n) : g_mk == VTAG(PVT) && g_mp == (char*)g_data + (uint64_t)g_pv.slice_i * VWIDTH(PVT) && g_mn == g_pv.slice_n)))
#elif K == 7
#define BECOMES (g_n_items > UINT32_MAX ? RAISED && g_ncreate == 0 : RAISED || (MADE(M_U8) && g_mp == g_data && g_mn == g_n_items))
#elif K == 8
#define BECOMES (RAISED || (MADE(PTAG(g_prim.type)) && g_mp == g_data && g_mn == (uint32_t)g_n_items))
#elif K == 9
#define BECOMES (g_zlen != (Py_ssize_t)g_n_items ? RAISED && g_ncreate == 0 : RAISED || (g_ncreate == 1 && STRTAG && g_mp == g_data && PTV_RET == g_newh))
#elif K == 10
#define BECOMES (RAISED || (MADE(M_MAP) && g_nkey == g_n_items && g_nval == g_n_items && g_nadd == g_n_items))
#elif K == 11
#define BECOMES (g_iter_fails || (g_next_fails && g_end) ? RAISED : RAISED || (MADE(M_SET) && g_nchild == g_n_items && g_nadd == g_n_items))
#elif K == 12
#define BECOMES (RAISED || (MADE(ST.normalize_bitvector ? M_BITS : M_BITSRAW) && g_mn == g_nbits && (gk >= g_nbits || g_bit_seen == g_bit)))
#elif K == 13
#define BECOMES (RAISED || (MADE(ST.normalize_bitvector ? M_BITS : M_BITSRAW) && g_mp == g_data && g_mn == g_bv.primitive_n_bits))
#elif K == 14
#define BECOMES (RAISED || (MADE(M_RECREATE) && g_mp == &g_ps.v))
#elif K == 15
#define BECOMES (RAISED || (MADE(M_RECREATE) && g_mp == &g_pm.v))
#else
#define BECOMES (RAISED && g_ncreate == 0)
#endif
/* whether it may be shared: remembered, found again, and remembered before its items are exported */
#define SHARED (K >= 4 && K <= 15)
/* it is refused only for a reason */
#define NOREASON (!g_create_fails && !g_set_fails && !g_adds_fail && !g_iter_fails && !g_next_fails)
#define EXPECTED (K == 6 ? VTAG(PVT) || PVT == POINTLESS_VECTOR_EMPTY || PVT == POINTLESS_VECTOR_VALUE || PVT == POINTLESS_VECTOR_VALUE_HASHABLE : K == 8 ? PTAG(g_prim.type) != 0 : K == 7 ? g_n_items <= UINT32_MAX : K == 9 ? g_zlen == (Py_ssize_t)g_n_items : K == 13 || K == 14 || K == 15)
static uint32_t export_child(pointless_create_t* c, int* is_error, int* line, PyObject* o, uint32_t depth)
{
	uint32_t r = (uint32_t)nondet_ptv_u64();
	PTV_CHECK(c == g_c, "an item of the same file");
#ifdef WRITE
	PTV_CHECK(o == g_top && depth == 0 && !*is_error && g_exc == 0 && g_nbegin == 1 && g_nchild == 0 && g_nout == 0, "the object is exported, once");
	g_nchild++; g_child_ret = r;
#else
	PTV_CHECK(depth == g_depth + 1, "one level deeper");
	PTV_CHECK(g_nset == 1 && g_slot == g_newh && !g_end, "the container is remembered before its items");
	if (K == DICT) {
		PTV_CHECK(g_nadd + 1 == g_cur && (o == &g_dkey ? g_nkey + 1 == g_cur : o == &g_dval && g_nval + 1 == g_cur), "the next key or value");
		if (o == &g_dkey) { g_nkey++; g_key_ret = r; } else { g_nval++; g_val_ret = r; }
	} else {
		PTV_CHECK(o == &g_child && (K == SET ? g_nchild + 1 == g_cur && g_nadd + 1 == g_cur : (K == LIST || K == TUPLE) && g_nchild == g_cur && g_nadd == g_cur), "the next item");
		g_nchild++; g_child_ret = r;
	}
#endif
	if (r == FAIL) { *is_error = 1; *line = 1; g_exc = PyExc_ValueError; }
	return r;
}
static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObject* py_object, uint32_t depth)
	PTV_REQUIRES(&state->c == g_c)
	PTV_REQUIRES(depth == g_depth && (py_object == g_top && g_exc == 0 && !ST.is_error && g_ncreate == 0 && g_nset == 0 && g_nchild == 0 && g_nadd == 0 && g_nkey == 0 && g_nval == 0 && g_cur == 0 && !g_end))
	PTV_ASSIGNS(ST.is_error, ST.error_line, GHOSTS, g_ncreate, g_mk, g_mp, g_mn, g_mf, g_slot, g_nset, g_bit_seen, ST.objects_used)
	/* it fails exactly with an exception, and then nothing is written */
	PTV_ENSURES(((PTV_RET == FAIL) == (ST.is_error != 0) && (PTV_RET == FAIL) == (g_exc != 0)))
	PTV_ENSURES(depth < POINTLESS_MAX_DEPTH || RAISED)
	PTV_ENSURES(depth >= POINTLESS_MAX_DEPTH || !SHARED || !g_seen || (PTV_RET == PTV_OLD(g_slot) && g_ncreate == 0 && g_slot == PTV_OLD(g_slot)))
	PTV_ENSURES(depth >= POINTLESS_MAX_DEPTH || (SHARED && g_seen) || BECOMES)
	PTV_ENSURES(depth >= POINTLESS_MAX_DEPTH || !SHARED || g_seen || RAISED || (g_nset == 1 && g_slot == PTV_RET))
	PTV_ENSURES(depth >= POINTLESS_MAX_DEPTH || !NOREASON || !EXPECTED || PTV_RET != FAIL)
;
#ifdef WRITE
#define WOBJ PTV_REQUIRES(args == g_args && kwds == g_kwds && g_exc == 0 && g_depth == 0 && g_nbegin == 0 && g_nout == 0 && g_nroot == 0 && g_nres == 0 && g_ncreate == 0 && g_nset == 0 && g_nchild == 0 && g_nadd == 0 && g_nkey == 0 && g_nval == 0 && g_cur == 0 && !g_end) \
	PTV_ASSIGNS(GHOSTS, g_ncreate, g_mk, g_mp, g_mn, g_mf, g_slot, g_nset, g_bit_seen, g_c, g_nbegin, g_nroot, g_root, g_nout, g_nres, g_which) \
	PTV_ENSURES((PTV_RET == 0) == (g_exc != 0)) \
	PTV_ENSURES(PTV_RET == 0 || (g_nout == 1 && !g_out_fails && g_nchild == 1 && g_root == g_child_ret && g_child_ret != FAIL))
PyObject* pointless_write_object(PyObject* self, PyObject* args, PyObject* kwds)
	WOBJ PTV_ENSURES(PTV_RET == 0 ? 1 : PTV_RET == Py_None);
PyObject* pointless_write_object_to_primvector(PyObject* self, PyObject* args, PyObject* kwds)
	WOBJ PTV_ENSURES(PTV_RET == 0 || (PTV_RET == &g_result && g_which == 1));
PyObject* pointless_write_object_to_bytearray(PyObject* self, PyObject* args, PyObject* kwds)
	WOBJ PTV_ENSURES(PTV_RET == 0 || (PTV_RET == &g_result && g_which == 2));
#endif

/* ------------------------------------------------------------ harnesses */
static void setup(void)
{
	PyObject* all[] = {&g_plain, &g_child, &g_dkey, &g_dval, &g_iter, (PyObject*)&g_pv, (PyObject*)&g_prim, (PyObject*)&g_bv, (PyObject*)&g_ps, (PyObject*)&g_pm, &g_result};
	int i;
	g_kind = K == LONG ? PY_LONG : K == FLOAT ? PY_FLOAT : PY_OTHER;
	py_setup();
	for (i = 0; i < 11; i++) all[i]->ob_refcnt = _Py_IMMORTAL_REFCNT;
	PyExc_IOError = &py_exc[9];
	PyBool_Type.tp_flags = Py_TPFLAGS_LONG_SUBCLASS;
	PyByteArray_Type.tp_flags = PySet_Type.tp_flags = PyFrozenSet_Type.tp_flags = PyPointlessVectorType.tp_flags = PyPointlessPrimVectorType.tp_flags = PyPointlessBitvectorType.tp_flags = PyPointlessSetType.tp_flags = PyPointlessMapType.tp_flags = 0;
	PyList_Type.tp_flags = Py_TPFLAGS_LIST_SUBCLASS; PyTuple_Type.tp_flags = Py_TPFLAGS_TUPLE_SUBCLASS; PyUnicode_Type.tp_flags = Py_TPFLAGS_UNICODE_SUBCLASS; PyDict_Type.tp_flags = Py_TPFLAGS_DICT_SUBCLASS;
	_Py_NoneStruct.ob_type = &py_other_type;
	g_plain.ob_type = K == LIST ? &PyList_Type : K == TUPLE ? &PyTuple_Type : K == BYTES ? &PyByteArray_Type : K == STR ? &PyUnicode_Type : K == DICT ? &PyDict_Type : K == SET ? ((nondet_ptv_u64() & 1) ? &PySet_Type : &PyFrozenSet_Type) : &py_other_type;
	g_pv.ob_base.ob_type = &PyPointlessVectorType; g_prim.ob_base.ob_type = &PyPointlessPrimVectorType; g_bv.ob_base.ob_type = &PyPointlessBitvectorType; g_ps.ob_base.ob_type = &PyPointlessSetType; g_pm.ob_base.ob_type = &PyPointlessMapType;
	g_pv.pp = g_bv.pp = g_ps.pp = g_pm.pp = &g_pp;
	g_bv.is_pointless = K == STOREDBITS;
	g_true = nondet_ptv_u64() & 1;
	g_top = K == BOOL ? (g_true ? Py_True : Py_False) : K == LONG || K == FLOAT ? &g_n : K == NONE ? Py_None : K == PVEC ? (PyObject*)&g_pv : K == PRIM ? (PyObject*)&g_prim : K == STOREDBITS || K == BITS ? (PyObject*)&g_bv : K == PSET ? (PyObject*)&g_ps : K == PMAP ? (PyObject*)&g_pm : &g_plain;
	__CPROVER_assume(g_n_items <= PY_SSIZE_T_MAX && g_zlen >= 0 && g_newh != FAIL && g_depth < UINT32_MAX && g_nbits <= UINT32_MAX - 8);
	__CPROVER_assume(g_ukind == PyUnicode_1BYTE_KIND || g_ukind == PyUnicode_2BYTE_KIND || g_ukind == PyUnicode_4BYTE_KIND);
	__CPROVER_assume(!g_seen || (g_slot != FAIL && g_slot <= UINT32_MAX));
	if (K == OTHER) g_seen = 0;
	g_bit = nondet_ptv_u64() & 1;
	g_data = malloc(K == PVEC ? ((size_t)1 << 32) * VWIDTH(g_pv.v.type) : 64);
	__CPROVER_assume(g_data != 0);
	g_prim.array._data = g_data; g_bv.primitive_bits = g_data;
	g_c = &g_st.c; g_st.is_error = 0;
	g_cur = g_nchild = g_nadd = g_nkey = g_nval = 0; g_ncreate = g_nset = 0; g_end = 0;
	g_args = &g_plain; g_nout = g_nroot = g_nres = g_nbegin = 0;
	g_unwiden = (nondet_ptv_u64() & 1) ? Py_True : Py_False; g_normalize = (nondet_ptv_u64() & 1) ? Py_True : Py_False;
}
void h_export(void) { setup(); pointless_export_py_rec(&g_st, g_top, g_depth); PTV_REACH(); }
void h_write(void) { setup(); g_depth = 0; PTV_CBMC_ONLY(pointless_write_object(0, g_args, g_kwds);) PTV_REACH(); }
void h_write_pv(void) { setup(); g_depth = 0; PTV_CBMC_ONLY(pointless_write_object_to_primvector(0, g_args, g_kwds);) PTV_REACH(); }
void h_write_ba(void) { setup(); g_depth = 0; PTV_CBMC_ONLY(pointless_write_object_to_bytearray(0, g_args, g_kwds);) PTV_REACH(); }
#endif

/*PTV
{
 "functions": ["pyobject_hash_rec_32", "pyobject_hash_tuple_32", "pyobject_hash_primvector_32", "pyobject_hash_unicode_32", "pyobject_hash_long_32", "pyobject_hash_float_32", "pyobject_hash_boolean_32", "pyobject_hash_null_32", "pyobject_hash_32", "pointless_pyobject_hash_32"],
 "assumptions": ["CPython is modelled by lib/py.h; reference counts are not modelled", "the hashes of numbers, strings, bitvectors and stored values are those of property P03: equal for equal values however they are stored", "the hash of a vector is a function of the number of items and the sequence of their hashes (P03)"],
 "cflags": ["-I/usr/include/python3.12", "-I/repo"],
 "contracts": [
  {"id": "rec", "harness": "h_rec", "enforce": "pyobject_hash_rec_32", "loops": true, "variants": ["K=0", "K=1", "K=2", "K=3", "K=4", "K=5", "K=7", "K=8", "K=9", "K=10"]},
  {"id": "prim", "harness": "h_rec", "enforce": "pyobject_hash_rec_32", "loops": true, "defs": ["K=6"], "variants": ["TY=I8 CT=int8_t", "TY=U8 CT=uint8_t", "TY=I16 CT=int16_t", "TY=U16 CT=uint16_t", "TY=I32 CT=int32_t", "TY=U32 CT=uint32_t", "TY=I64 CT=int64_t", "TY=U64 CT=uint64_t", "TY=FLOAT CT=float"]},
  {"id": "entry", "harness": "h_entry", "enforce": "pyobject_hash_32", "defs": ["K=10", "ENTRY"]},
  {"id": "python", "harness": "h_python", "enforce": "pointless_pyobject_hash_32", "defs": ["K=10", "ENTRY"]}
 ]
}
PTV*/
#include "ptv.h"
#ifndef K
#define K 10
#endif
#ifndef TY
#define TY I8
#define CT int8_t
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define PTV_ISF ((CT)0.5 != 0)
#ifdef PTV_CBMC
#include "py.h"
enum { LONG, STR, TUPLE, PVEC, BITS, SET, PRIM, FLOAT, BOOL, NONE, OTHER };
PyTypeObject PyTuple_Type, PyUnicode_Type, PyPointlessVectorType, PyPointlessPrimVectorType, PyPointlessBitvectorType, PyPointlessSetType, PyPointlessMapType;
static PyObject g_plain, g_child; static PyPointlessVector g_pv; static PyPointlessPrimVector g_prim; static PyPointlessBitvector g_bv; static PyPointlessSet g_ps; static PyPointless g_pp;
static PyObject* g_top; static int g_true; static uint32_t g_depth, g_version;
static uint64_t g_n_items; static void* g_data; static uint32_t g_ukind;
static uint64_t gk; static CT g_val; static CT g_item[1];
/* what has been hashed last, and how often */
enum { H_NUM = 1, H_FLOAT, H_BOOL, H_NULL, H_STR, H_BITS, H_VALUE, H_SLICE, H_CHILD };
static uint32_t g_leafk, g_nleaf, g_leaf; static num_t g_leafn; static float g_leaff;
static uint32_t leaf(uint32_t kind) { g_leafk = kind; g_nleaf++; g_leaf = (uint32_t)nondet_ptv_u64(); return g_leaf; }
static uint32_t num(num_t n) { g_leafn = n; return leaf(H_NUM); }
uint32_t pointless_hash_i32_32(int32_t i) { return num(i); }
uint32_t pointless_hash_u32_32(uint32_t i) { return num(i); }
uint32_t pointless_hash_i64_32(int64_t i) { return num(i); }
uint32_t pointless_hash_u64_32(uint64_t i) { return num(i); }
uint32_t pointless_hash_float_32(float f) { g_leaff = f; return leaf(H_FLOAT); }
uint32_t pointless_hash_bool_true_32() { return num(1); }
uint32_t pointless_hash_bool_false_32() { return num(0); }
uint32_t pointless_hash_null_32() { return leaf(H_NULL); }
uint32_t pointless_hash_string_v1_32(uint8_t* s) { PTV_CHECK(K == STR && s == g_data && g_ukind == PyUnicode_1BYTE_KIND, "the string is hashed"); return leaf(H_STR); }
uint32_t pointless_hash_unicode_ucs2_v1_32(uint16_t* s) { PTV_CHECK(K == STR && s == g_data && g_ukind == PyUnicode_2BYTE_KIND, "the string is hashed"); return leaf(H_STR); }
uint32_t pointless_hash_unicode_ucs4_v1_32(uint32_t* s) { PTV_CHECK(K == STR && s == g_data && g_ukind == PyUnicode_4BYTE_KIND, "the string is hashed"); return leaf(H_STR); }
uint32_t pointless_pybitvector_hash_32(PyPointlessBitvector* b) { PTV_CHECK(b == &g_bv, "the bitvector is hashed"); return leaf(H_BITS); }
uint32_t pointless_hash_reader_32(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &g_pp.p && v->type == g_ps.v.type && v->data.data_u32 == g_ps.v.data.data_u32, "the stored value is hashed"); return leaf(H_VALUE); }
uint32_t pointless_hash_reader_vector_32(pointless_t* p, pointless_value_t* v, uint32_t i, uint32_t n)
{
	PTV_CHECK(p == &g_pp.p && v->type == g_pv.v.type && v->data.data_u32 == g_pv.v.data.data_u32 && i == g_pv.slice_i && n == g_pv.slice_n, "the stored vector is hashed, as far as the slice goes");
	return leaf(H_SLICE);
}
/* whether stored values can be hashed */
static int g_hashable, g_refused, g_hk;
uint32_t pointless_is_hashable(uint32_t type) { PTV_CHECK(type == (K == SET ? g_ps.v.type : g_pv.v.type), "asks about the type"); return g_hashable; }
pointless_value_t* pointless_reader_vector_value(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &g_pp.p && v->data.data_u32 == g_pv.v.data.data_u32 && v->type == g_pv.v.type, "the items of the vector"); return g_data; }
uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v)
{
	uint32_t r = nondet_ptv_u64() & 1; uint64_t i = v - (pointless_value_t*)g_data;
	PTV_CHECK(p == &g_pp.p && v >= (pointless_value_t*)g_data + g_pv.slice_i && i < (uint64_t)g_pv.slice_i + g_pv.slice_n, "asks about an item of the slice");
	if (i == (uint64_t)g_pv.slice_i + gk) r = g_hk;
	if (!r) g_refused = 1;
	return r;
}
/* the items, in order, and the hash of the vector */
static uint64_t g_nnext, g_ninit, g_nend; static uint32_t g_end; static uint64_t g_cur;
static uint64_t VN(void) { return K == PRIM ? (uint32_t)g_n_items : g_n_items; }
void pointless_vector_hash_init_32(pointless_vector_hash_state_32_t* s, uint32_t len) { PTV_CHECK(len == g_n_items && g_ninit == 0, "hashes as many items as there are"); g_ninit++; }
void pointless_vector_hash_next_32(pointless_vector_hash_state_32_t* s, uint32_t h)
{
	PTV_CHECK(g_ninit == 1 && g_nleaf == g_nnext + 1 && g_cur == g_nnext && h == g_leaf, "adds the hash of the next item");
	PTV_CHECK(K == TUPLE ? g_leafk == H_CHILD : K == PRIM, "hashes an item");
	if (K == PRIM && g_nnext == gk) {
		if (PTV_ISF) PTV_CHECK(g_leafk == H_FLOAT && (g_leaff == g_val || (g_leaff != g_leaff && g_val != g_val)), "hashes the float");
		else PTV_CHECK(g_leafk == H_NUM && g_leafn == (num_t)g_val, "hashes the number");
	}
	g_nnext++;
}
uint32_t pointless_vector_hash_end_32(pointless_vector_hash_state_32_t* s) { PTV_CHECK(g_nnext == g_n_items && g_ninit == 1 && g_nend == 0, "all items are hashed"); g_nend++; return g_end; }
size_t pointless_dynarray_n_items(pointless_dynarray_t* a) { PTV_CHECK(a == &g_prim.array, "the items of the vector"); return g_n_items; }
void* pointless_dynarray_item_at(pointless_dynarray_t* a, size_t i)
{
	CT x;
	PTV_CHECK(a == &g_prim.array && i < g_n_items, "an item of the vector");
	g_cur = i; g_item[0] = i == gk ? g_val : x;
	return g_item;
}
#undef PyUnicode_KIND
#undef PyUnicode_DATA
#undef PyUnicode_READY
#undef PyTuple_GET_SIZE
#undef PyTuple_GET_ITEM
#undef PyFloat_AS_DOUBLE
static void is(PyObject* o, int k) { PTV_CHECK(o == g_top && K == k, "asks the object at hand"); }
#define PyUnicode_KIND(o) (is((PyObject*)(o), STR), g_ukind)
#define PyUnicode_DATA(o) (is((PyObject*)(o), STR), g_data)
#define PyUnicode_READY(o) (is((PyObject*)(o), STR), 0)
#define PyFloat_AS_DOUBLE(o) (is((PyObject*)(o), FLOAT), g_dbl)
#define PyTuple_GET_SIZE(o) (is((PyObject*)(o), TUPLE), (Py_ssize_t)g_n_items)
#define PyTuple_GET_ITEM(o, i) (is((PyObject*)(o), TUPLE), item(i))
static PyObject* item(Py_ssize_t i) { PTV_CHECK(i >= 0 && (uint64_t)i < g_n_items, "an item"); g_cur = i; return &g_child; }
/* hashing an item: the calls (not the definition) go to the stub, which is the contract of the function at the next level */
#define PTV_PROBE_PyObject ~, 1,
#define PTV_SEL(x, y, ...) y
#define PTV_SEL_(...) PTV_SEL(__VA_ARGS__)
#define PTV_NAME(b) PTV_SEL_(PTV_PROBE_##b, 0)
#define PTV_NM0 hash_child
#define PTV_NM1 pyobject_hash_rec_32
#define pyobject_hash_rec_32(a, b) CAT(PTV_NM, PTV_NAME(a))(a, b)
#define hash_child(a, st) hash_child_(a, (st)->version, (st)->depth, (st)->error)
static const char g_err[1];
static uint32_t hash_child_(PyObject* o, uint32_t version, uint32_t depth, const char** error)
{
	PTV_CHECK(version == g_version, "the same version");
#ifdef ENTRY
	PTV_CHECK(depth == 0 && o == g_top && g_nleaf == 0, "the object is hashed");
#else
	PTV_CHECK(depth == g_depth + 1 && o == &g_child && K == TUPLE, "the item is hashed, one level deeper");
#endif
	if (nondet_ptv_u64() & 1) { *error = g_err; g_refused = 1; }
	return leaf(H_CHILD);
}
/* the arguments: an object and maybe a version */
static int g_given; static int g_ver_arg;
static int parse(PyObject* a, PyObject** o, int* v)
{
	PTV_CHECK(a == g_args, "the arguments are parsed");
	if (!g_arg_ok) { g_exc = PyExc_TypeError; return 0; }
	*o = g_top; if (g_given) *v = g_ver_arg;
	return 1;
}
#undef PyArg_ParseTuple
#define PyArg_ParseTuple(a, f, o, v) parse(a, o, v)
#define HG g_cur, g_nnext, g_leafk, g_nleaf, g_leaf, g_leafn, g_leaff, g_refused
#define PTV_LOOP_ph_tuple(i, s) __CPROVER_assigns(i, h, o, HG, *error_) \
	__CPROVER_loop_invariant(0 <= i && i <= s && g_nnext == (uint64_t)i && g_nleaf == (uint64_t)i && (*error_ != 0) == (g_refused != 0))
#define error_ (state->error)
#define PTV_LOOP_ph_prim(i, n) __CPROVER_assigns(i, h, HG, g_item) \
	__CPROVER_loop_invariant(i <= n && g_nnext == i && g_nleaf == i && !g_refused && *error_ == 0)
#define PTV_LOOP_ph_items(i, n) __CPROVER_assigns(i, g_refused) \
	__CPROVER_loop_invariant(i <= n && !g_refused && (gk >= i || g_hk))
#include "/repo/python/pointless_pyobject_hash.c"
#undef pyobject_hash_rec_32

/* ------------------------------------------------------------ contracts */
static pyobject_hash_state_t g_st; static const char* g_error;
#define ERR (g_error != 0)
#define LEAF(k) (!ERR && g_nleaf == 1 && g_leafk == (k) && PTV_RET == g_leaf)
#define INRANGE (g_num >= INT32_MIN && g_num <= UINT32_MAX)
#if K == 0
#define IS (INRANGE ? LEAF(H_NUM) && g_leafn == g_num : ERR)
#elif K == 1
#define IS LEAF(H_STR)
#elif K == 2
#define IS (ERR == (g_refused || g_n_items > UINT32_MAX) && (ERR || (g_nend == 1 && PTV_RET == g_end)))
#elif K == 3
#define IS (g_hashable ? ERR ? g_refused && g_pv.v.type == POINTLESS_VECTOR_VALUE_HASHABLE : LEAF(H_SLICE) && (g_pv.v.type != POINTLESS_VECTOR_VALUE_HASHABLE || gk >= g_pv.slice_n || g_hk) : ERR)
#elif K == 4
#define IS LEAF(H_BITS)
#elif K == 5
#define IS (g_hashable ? LEAF(H_VALUE) : ERR)
#elif K == 6
#define IS (!ERR && g_nend == 1 && PTV_RET == g_end)
#elif K == 7
#define IS (LEAF(H_FLOAT) && (g_leaff == (float)g_dbl || (g_dbl != g_dbl && g_leaff != g_leaff)))
#elif K == 8
#define IS (LEAF(H_NUM) && g_leafn == g_true)
#elif K == 9
#define IS LEAF(H_NULL)
#else
#define IS ERR
#endif
static uint32_t pyobject_hash_rec_32(PyObject* py_object, pyobject_hash_state_t* state)
	PTV_REQUIRES(state == &g_st && state->depth == g_depth && state->version == g_version && state->error == &g_error && g_error == 0 && py_object == g_top)
	PTV_REQUIRES(g_cur == 0 && g_nnext == 0 && g_nleaf == 0 && g_ninit == 0 && g_nend == 0 && !g_refused && g_exc == 0)
	PTV_ASSIGNS(state->depth, g_error, HG, g_ninit, g_nend, g_item, g_exc)
	PTV_ENSURES(state->depth == g_depth && g_exc == 0)
	PTV_ENSURES(g_depth >= POINTLESS_MAX_DEPTH ? ERR : IS);
#ifdef ENTRY
#define VERSION(v) ((v) == POINTLESS_FF_VERSION_OFFSET_32_NEWHASH || (v) == POINTLESS_FF_VERSION_OFFSET_64_NEWHASH)
uint32_t pyobject_hash_32(PyObject* py_object, uint32_t version, const char** error)
	PTV_REQUIRES(py_object == g_top && version == g_version && error == &g_error && g_error == 0 && g_nleaf == 0 && !g_refused)
	PTV_ASSIGNS(g_error, HG)
	PTV_ENSURES(g_nleaf == 1 && PTV_RET == g_leaf && ERR == (g_refused != 0));
PyObject* pointless_pyobject_hash_32(PyObject* self, PyObject* args)
	PTV_REQUIRES(args == g_args && g_nleaf == 0 && !g_refused && g_exc == 0 && g_nmade == 0)
	PTV_ASSIGNS(HG, g_exc, g_nmade, g_made_kind, g_made_num, g_made_dbl)
	PTV_ENSURES((PTV_RET == 0) == (g_exc != 0))
	PTV_ENSURES(g_arg_ok && (!g_given || g_ver_arg == POINTLESS_FF_VERSION_OFFSET_64_NEWHASH) ? g_nleaf == 1 && (g_refused ? g_exc == PyExc_ValueError : g_nmade == 1 && g_made_kind == PY_LONG && g_made_num == (num_t)g_leaf && (g_fail_make || PTV_RET == &g_made)) : !g_arg_ok ? g_nleaf == 0 && PTV_RET == 0 : PTV_RET == 0 || g_nleaf == 1);
#endif

/* ------------------------------------------------------------ harnesses */
#define VERSION_OK(v) ((v) == POINTLESS_FF_VERSION_OFFSET_32_NEWHASH || (v) == POINTLESS_FF_VERSION_OFFSET_64_NEWHASH)
static void setup(void)
{
	PyObject* all[] = {&g_plain, &g_child, (PyObject*)&g_pv, (PyObject*)&g_prim, (PyObject*)&g_bv, (PyObject*)&g_ps};
	int i;
	g_kind = K == LONG ? PY_LONG : K == FLOAT ? PY_FLOAT : PY_OTHER;
	py_setup();
	for (i = 0; i < 6; i++) all[i]->ob_refcnt = _Py_IMMORTAL_REFCNT;
	PyPointlessVectorType.tp_flags = PyPointlessPrimVectorType.tp_flags = PyPointlessBitvectorType.tp_flags = PyPointlessSetType.tp_flags = PyPointlessMapType.tp_flags = 0;
	PyTuple_Type.tp_flags = Py_TPFLAGS_TUPLE_SUBCLASS; PyUnicode_Type.tp_flags = Py_TPFLAGS_UNICODE_SUBCLASS;
	_Py_NoneStruct.ob_type = &py_other_type;
	g_plain.ob_type = K == TUPLE ? &PyTuple_Type : K == STR ? &PyUnicode_Type : &py_other_type;
	g_pv.ob_base.ob_type = &PyPointlessVectorType; g_prim.ob_base.ob_type = &PyPointlessPrimVectorType; g_bv.ob_base.ob_type = &PyPointlessBitvectorType; g_ps.ob_base.ob_type = &PyPointlessSetType;
	g_pv.pp = g_ps.pp = &g_pp;
	g_true = nondet_ptv_u64() & 1;
	g_top = K == BOOL ? (g_true ? Py_True : Py_False) : K == LONG || K == FLOAT ? &g_n : K == NONE ? Py_None : K == PVEC ? (PyObject*)&g_pv : K == PRIM ? (PyObject*)&g_prim : K == BITS ? (PyObject*)&g_bv : K == SET ? (PyObject*)&g_ps : &g_plain;
	__CPROVER_assume(K == PRIM ? g_n_items <= UINT32_MAX : g_n_items <= PY_SSIZE_T_MAX);
	__CPROVER_assume(g_depth < UINT32_MAX && VERSION_OK(g_version));
	__CPROVER_assume((uint64_t)g_pv.slice_i + g_pv.slice_n <= UINT32_MAX);
	__CPROVER_assume(g_ukind == PyUnicode_1BYTE_KIND || g_ukind == PyUnicode_2BYTE_KIND || g_ukind == PyUnicode_4BYTE_KIND);
	g_hashable = nondet_ptv_u64() & 1; g_hk = nondet_ptv_u64() & 1;
	g_prim.type = CAT(POINTLESS_PRIM_VECTOR_TYPE_, TY);
	size_t size = nondet_ptv_u64(); __CPROVER_assume(K == PVEC ? size >= ((size_t)1 << 35) && size <= ((size_t)1 << 36) : size == 64);
	g_data = malloc(size);
	__CPROVER_assume(g_data != 0);
	g_st.depth = g_depth; g_st.version = g_version; g_st.error = &g_error; g_error = 0;
	g_cur = g_nnext = 0; g_nleaf = 0; g_ninit = g_nend = 0; g_refused = 0;
	g_args = &g_plain;
}
void h_rec(void) { setup(); pyobject_hash_rec_32(g_top, &g_st); PTV_REACH(); }
#ifdef ENTRY
void h_entry(void) { setup(); pyobject_hash_32(g_top, g_version, &g_error); PTV_REACH(); }
void h_python(void) { setup(); g_version = g_given ? (uint32_t)g_ver_arg : POINTLESS_FILE_FORMAT_LATEST_VERSION_; pointless_pyobject_hash_32(0, g_args); PTV_REACH(); }
#else
void h_entry(void) { }
void h_python(void) { }
#endif
#endif

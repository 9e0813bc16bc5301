/*PTV
{
 "functions": ["pypointless_cmp_rec", "pypointless_cmp_func", "pypointless_cmp_int_float_bool", "pypointless_cmp_int_float_bool_from_value", "pypointless_cmp_int_float_bool_priv", "pypointless_cmp_string_unicode", "pypointless_cmp_extract_string", "pypointless_cmp_vector", "pypointless_cmp_vector_n_items", "pypointless_cmp_vector_item_at", "pypointless_cmp_bitvector", "pypointless_cmp_bitvector_n_items", "pypointless_cmp_bitvector_item_at", "pypointless_cmp_value_init_python", "pypointless_cmp_value_init_pointless", "pypointless_cmp_eq", "pointless_cmp", "pointless_is_eq"],
 "assumptions": ["CPython is modelled by lib/py.h; reference counts are not modelled; PyObject_RichCompareBool of an integer with zero tells its sign", "numbers and strings are compared by the functions of properties P01 and P02; stored vectors and bitvectors are read by those of P07 and P05", "lists and tuples hold fewer than 2^32 items", "an item of a vector is compared by the contract of pypointless_cmp_rec at the next level"],
 "src": ["src/pointless_value.c"],
 "cflags": ["-I/usr/include/python3.12", "-I/repo"],
 "contracts": [
  {"id": "rec", "harness": "h_rec", "enforce": "pypointless_cmp_rec", "variants": ["KA=0", "KA=1", "KA=2", "KA=3", "KA=4", "KA=5", "KA=6", "KA=7", "KA=8", "KA=9", "KA=10"]},
  {"id": "numbers", "harness": "h_numbers", "enforce": "real_num"},
  {"id": "strings", "harness": "h_strings", "enforce": "real_str"},
  {"id": "vector", "harness": "h_vector", "enforce": "real_vec", "replace": ["pypointless_cmp_rec"], "loops": true, "defs": ["VECTOR"], "variants": ["VA=LIST VB=LIST", "VA=LIST VB=STORED", "VA=STORED VB=TUPLE", "VA=STORED VB=STORED"]},
  {"id": "bits", "harness": "h_bits", "enforce": "real_bits", "loops": true},
  {"id": "none", "harness": "h_none", "enforce": "real_none"},
  {"id": "eq", "harness": "h_eq", "enforce": "pypointless_cmp_eq", "replace": ["pypointless_cmp_rec"], "defs": ["TOP"]},
  {"id": "cmp", "harness": "h_cmp", "enforce": "pointless_cmp", "replace": ["pypointless_cmp_rec"], "defs": ["TOP"]},
  {"id": "is_eq", "harness": "h_is_eq", "enforce": "pointless_is_eq", "replace": ["pypointless_cmp_rec"], "defs": ["TOP"]}
 ]
}
PTV*/
#include "ptv.h"
#ifndef KA
#define KA 0
#endif
#ifdef PTV_CBMC
#include "py.h"
/* two operands, 0 and 1: each a Python object or a stored value */
enum { LONG, FLOAT, BOOL, NONE, STR, LIST, TUPLE, DICT, SET, BITS, OTHER, STORED, NKIND };
PyTypeObject PyList_Type, PyTuple_Type, PyUnicode_Type, PyDict_Type, PySet_Type, PyFrozenSet_Type, PyPointlessVectorType, PyPointlessPrimVectorType, PyPointlessBitvectorType, PyPointlessSetType, PyPointlessMapType;
static PyObject g_o[2], g_num_o[2]; static PyPointlessBitvector g_bv[2]; static PyPointlessVector g_pv[2]; static PyPointlessSet g_ps[2]; static PyPointlessMap g_pm[2]; static PyPointless g_pp[2];
static int g_k[2];                    /* what each is */
static num_t g_nv[2]; static double g_dv[2];
static uint64_t g_len[2];             /* items */
static uint32_t g_uk[2]; static int g_haszero[2]; static int g_strdata[2];
static PyObject* g_item[2];   /* the item of a list or tuple */
static int which(PyObject* o) { return o == &g_o[0] || o == &g_num_o[0] || o == (PyObject*)&g_bv[0] ? 0 : 1; }
static int py_is(PyObject* o) { PTV_CHECK(o == &g_o[0] || o == &g_o[1] || o == &g_num_o[0] || o == &g_num_o[1] || o == (PyObject*)&g_bv[0] || o == (PyObject*)&g_bv[1], "one of the operands"); return which(o); }
/* integers */
static long long as_ll(PyObject* o)
{
	int w;
	if (o == Py_True || o == Py_False) return o == Py_True;
	w = py_is(o); PTV_CHECK(g_k[w] == LONG, "an integer");
	if (g_nv[w] < INT64_MIN || g_nv[w] > INT64_MAX) { g_exc = PyExc_OverflowError; return -1; }
	return (long long)g_nv[w];
}
static unsigned long long as_ull(PyObject* o)
{
	int w;
	if (o == Py_True || o == Py_False) return o == Py_True;
	w = py_is(o); PTV_CHECK(g_k[w] == LONG, "an integer");
	if (g_nv[w] < 0 || g_nv[w] > UINT64_MAX) { g_exc = PyExc_OverflowError; return -1; }
	return (unsigned long long)g_nv[w];
}
#define PyLong_AsLongLong(o) as_ll(o)
#define PyLong_AsUnsignedLongLong(o) as_ull(o)
static PyObject g_zero;
int PyObject_RichCompareBool(PyObject* a, PyObject* b, int op)
{
	PTV_CHECK(op == Py_LT, "asks for the sign");
	if (a == Py_True || a == Py_False) return 0;
	return g_nv[py_is(a)] < 0;
}
#undef PyFloat_AS_DOUBLE
#undef PyUnicode_KIND
#undef PyUnicode_DATA
#undef PyUnicode_GET_LENGTH
#undef PyList_GET_SIZE
#undef PyTuple_GET_SIZE
#undef PyList_GET_ITEM
#undef PyTuple_GET_ITEM
#define PyFloat_AS_DOUBLE(o) g_dv[py_is((PyObject*)(o))]
#define PyUnicode_KIND(o) g_uk[py_is((PyObject*)(o))]
#define PyUnicode_DATA(o) ((void*)&g_strdata[py_is((PyObject*)(o))])
#define PyUnicode_GET_LENGTH(o) ((Py_ssize_t)g_len[py_is((PyObject*)(o))])
#define PyList_GET_SIZE(o) ((Py_ssize_t)g_len[seq((PyObject*)(o), LIST)])
#define PyTuple_GET_SIZE(o) ((Py_ssize_t)g_len[seq((PyObject*)(o), TUPLE)])
#define PyList_GET_ITEM(o, i) item(seq((PyObject*)(o), LIST), i)
#define PyTuple_GET_ITEM(o, i) item(seq((PyObject*)(o), TUPLE), i)
static int seq(PyObject* o, int k) { int w = py_is(o); PTV_CHECK(g_k[w] == k, "a list, or a tuple"); return w; }
Py_ssize_t PyUnicode_FindChar(PyObject* o, Py_UCS4 ch, Py_ssize_t start, Py_ssize_t end, int dir)
{
	int w = py_is(o);
	PTV_CHECK(ch == 0 && start == 0 && end == (Py_ssize_t)g_len[w], "looks for a zero in the whole string");
	return g_haszero[w] ? (Py_ssize_t)(nondet_ptv_u64() >> 2) : -1;
}
/* items, at the position asked for last, and those compared last */
static uint64_t g_at[2], g_nat[2]; static uint32_t g_itype[2], g_idata[2];
static PyObject* item(int w, Py_ssize_t i) { PTV_CHECK(i >= 0 && (uint64_t)i < g_len[w], "an item"); g_at[w] = i; g_nat[w]++; return g_item[w]; }
/* stored vectors: slice and items */
static uint32_t g_si[2], g_sn[2]; static uint32_t g_vt[2], g_vd[2]; static uint32_t g_inner[2];
static int stored(pointless_t* p) { PTV_CHECK(p == &g_pp[0].p || p == &g_pp[1].p, "the file of an operand"); return p == &g_pp[1].p; }
pointless_complete_value_t pointless_reader_vector_value_case(pointless_t* p, pointless_value_t* v, uint32_t i)
{
	pointless_complete_value_t r; int w = stored(p);
	PTV_CHECK(v->type == g_vt[w] && v->data.data_u32 == g_vd[w] && i >= g_si[w] && (uint64_t)i < (uint64_t)g_si[w] + g_sn[w], "an item of the slice");
	g_at[w] = i - g_si[w]; g_nat[w]++;
	r.type = g_itype[w]; r.complete_data.data_u64 = 0; r.complete_data.data_u32 = g_idata[w];
	return r;
}
uint32_t pointless_reader_vector_n_items(pointless_t* p, pointless_value_t* v) { int w = stored(p); PTV_CHECK((v->type == g_itype[w] && v->data.data_u32 == g_idata[w]) || (v->type == g_vt[w] && v->data.data_u32 == g_vd[w]), "the vector at hand"); return g_inner[w]; }
/* bits */
static uint32_t g_nb[2]; static int g_bit[2]; static uint64_t g_seed; static uint64_t gd; static unsigned char g_bits[2][8];
static int bitat(int w, uint32_t i)
{
	PTV_CHECK(i < g_nb[w], "a bit");
	/* below gd the bits agree, at gd (if both go on) they differ: the bits are those of one arbitrary pair of sequences with first difference gd */
	return i < gd ? (int)((g_seed >> (i & 63)) & 1) : i == gd ? g_bit[w] : (int)(nondet_ptv_u64() & 1);
}
uint32_t pointless_reader_bitvector_n_bits(pointless_t* p, pointless_value_t* v) { int w = stored(p); PTV_CHECK(v->type == g_vt[w] && v->data.data_u32 == g_vd[w], "the bitvector at hand"); return g_nb[w]; }
uint32_t pointless_reader_bitvector_is_set(pointless_t* p, pointless_value_t* v, uint32_t i) { int w = stored(p); PTV_CHECK(v->type == g_vt[w] && v->data.data_u32 == g_vd[w], "the bitvector at hand"); return bitat(w, i); }
unsigned char bm_is_set_(void* b, uint64_t i) { PTV_CHECK(b == g_bits[0] || b == g_bits[1], "the bits of an operand"); return bitat(b == g_bits[1], i) ? (unsigned char)(1u << (i % 8)) : 0; }
/* strings: compared once, each in its own width, in order */
static uint32_t g_ncmp; static int32_t g_ret; 
uint32_t* pointless_reader_unicode_value_ucs4(pointless_t* p, pointless_value_t* v) { int w = stored(p); PTV_CHECK(v->type == POINTLESS_UNICODE_ && g_vt[w] == POINTLESS_UNICODE_ && v->data.data_u32 == g_vd[w], "the string at hand"); return (uint32_t*)&g_strdata[w]; }
uint8_t* pointless_reader_string_value_ascii(pointless_t* p, pointless_value_t* v) { int w = stored(p); PTV_CHECK(v->type == POINTLESS_STRING_ && g_vt[w] == POINTLESS_STRING_ && v->data.data_u32 == g_vd[w], "the string at hand"); return (uint8_t*)&g_strdata[w]; }
static int width(int w) { return g_k[w] == STORED ? (g_vt[w] == POINTLESS_UNICODE_ ? 32 : 8) : g_uk[w] == PyUnicode_1BYTE_KIND ? 8 : g_uk[w] == PyUnicode_2BYTE_KIND ? 16 : 32; }
static int32_t strcmp_(void* a, int wa, void* b, int wb)
{
	/* either order will do, as long as the sign follows */
	if (a == &g_strdata[0]) PTV_CHECK(b == &g_strdata[1] && wa == width(0) && wb == width(1), "the two strings, in their widths");
	else PTV_CHECK(0, "the two strings, in order");
	g_ncmp++;
	return g_ret;
}
#define SC(A, B, TA, TB) int32_t pointless_cmp_string_##A##_##B(TA* a, TB* b) { return strcmp_(a, A, b, B); }
SC(8, 8, uint8_t, uint8_t) SC(8, 16, uint8_t, uint16_t) SC(8, 32, uint8_t, uint32_t) SC(16, 8, uint16_t, uint8_t) SC(16, 16, uint16_t, uint16_t) SC(16, 32, uint16_t, uint32_t) SC(32, 8, uint32_t, uint8_t) SC(32, 16, uint32_t, uint16_t) SC(32, 32, uint32_t, uint32_t)
/* numbers: compared once, as what they are */
static int isnum(pointless_complete_value_t* v, int w)
{
	num_t n; int f = 0; float x = 0; int vf = v->type == POINTLESS_FLOAT; num_t vn;
	if (g_k[w] == LONG) n = g_nv[w];
	else if (g_k[w] == BOOL) n = g_nv[w];
	else if (g_k[w] == FLOAT) { f = 1; x = (float)g_dv[w]; }
	else switch (g_vt[w]) {
		case POINTLESS_I32: n = (int32_t)g_vd[w]; break;
		case POINTLESS_U32: case POINTLESS_BOOLEAN: n = g_vd[w]; break;
		case POINTLESS_I64: n = (int64_t)g_nv[w]; break;
		case POINTLESS_U64: n = (uint64_t)g_nv[w]; break;
		default: f = 1; x = (float)g_dv[w];
	}
	if (f != vf) return 0;
	if (f) return v->complete_data.data_f == x || (x != x && v->complete_data.data_f != v->complete_data.data_f);
	switch (v->type) {
		case POINTLESS_I32: vn = v->complete_data.data_i32; break;
		case POINTLESS_U32: case POINTLESS_BOOLEAN: vn = v->complete_data.data_u32; break;
		case POINTLESS_I64: vn = v->complete_data.data_i64; break;
		case POINTLESS_U64: vn = v->complete_data.data_u64; break;
		default: return 0;
	}
	return vn == n;
}
int32_t pointless_cmp_reader_acyclic(pointless_t* pa, pointless_complete_value_t* a, pointless_t* pb, pointless_complete_value_t* b)
{
	PTV_CHECK(isnum(a, 0) && isnum(b, 1), "the two numbers, in order");
	g_ncmp++;
	return g_ret;
}
/* the comparison functions as they are called from pypointless_cmp_rec: mentioned there, not called by name */
static uint32_t g_called, g_depth; static void *g_pa, *g_pb;
enum { C_NUM = 1, C_NONE, C_STR, C_VEC, C_BITS };
#define pypointless_cmp_int_float_bool stub_num
#define pypointless_cmp_none stub_none
#define pypointless_cmp_string_unicode stub_str
#define pypointless_cmp_vector stub_vec
#define pypointless_cmp_bitvector stub_bits
#define stub_num(a, b, c) real_num(a, b, c)
#define stub_none(a, b, c) real_none(a, b, c)
#define stub_str(a, b, c) real_str(a, b, c)
#define stub_vec(a, b, c) real_vec(a, b, c)
#define stub_bits(a, b, c) real_bits(a, b, c)
static int32_t (stub_num)(void* a, void* b, void* s), (stub_none)(void* a, void* b, void* s), (stub_str)(void* a, void* b, void* s), (stub_vec)(void* a, void* b, void* s), (stub_bits)(void* a, void* b, void* s);
/* the arguments */
static PyObject *g_arg_a, *g_arg_b;
static int parse(PyObject* a, PyObject** x, PyObject** y) { PTV_CHECK(a == g_args, "the arguments are parsed"); if (!g_arg_ok) { g_exc = PyExc_TypeError; return 0; } *x = g_arg_a; *y = g_arg_b; return 1; }
#undef PyArg_ParseTuple
#define PyArg_ParseTuple(a, f, x, y) parse(a, x, y)
#define PTV_LOOP_pc_items(i, n, v_a, v_b, c) __CPROVER_assigns(i, v_a, v_b, c, g_at, g_nat, g_ncmp, g_last, state->error) \
	__CPROVER_loop_invariant(i <= n && g_ncmp == i && g_nat[0] == i && g_nat[1] == i && state->error == 0 && (i == 0 || g_last == 0))
#define PTV_LOOP_pc_bits(i, n, v_a, v_b, c) __CPROVER_assigns(i, v_a, v_b, c) \
	__CPROVER_loop_invariant(i <= n && i <= gd)
static int32_t g_last; static int32_t g_is_eq; static const char g_msg[1];
#define PyLong_FromLong small_or_make
static PyObject* small_or_make(long v);
#include "/repo/python/pointless_pyobject_cmp.c"
#undef PyLong_FromLong
static PyObject* small_or_make(long v)
{
#ifdef TOP
	return py_make(PY_LONG, v, 0);
#else
	PTV_CHECK(v == 0, "compares with zero"); return &g_zero;
#endif
}
#define STUBF(name, kind) static int32_t (name)(void* a, void* b, void* s) { g_called = g_called ? 99 : kind; g_pa = a; g_pb = b; PTV_CHECK(((pypointless_cmp_state_t*)s)->depth == g_depth + 1, "one level deeper"); if (nondet_ptv_u64() & 1) ((pypointless_cmp_state_t*)s)->error = "error"; return g_ret; }
STUBF(stub_num, C_NUM) STUBF(stub_none, C_NONE) STUBF(stub_str, C_STR) STUBF(stub_vec, C_VEC) STUBF(stub_bits, C_BITS)
#undef stub_num
#undef stub_none
#undef stub_str
#undef stub_vec
#undef stub_bits
#undef pypointless_cmp_int_float_bool
#undef pypointless_cmp_none
#undef pypointless_cmp_string_unicode
#undef pypointless_cmp_vector
#undef pypointless_cmp_bitvector

/* ------------------------------------------------------------ contracts */
static pypointless_cmp_state_t g_st; static pypointless_cmp_value_t g_v[2]; static const char* g_error;
#define SG(x) ((x) > 0 ? 1 : (x) < 0 ? -1 : 0)
#define ISVEC(t) ((t) == POINTLESS_VECTOR_VALUE || (t) == POINTLESS_VECTOR_VALUE_HASHABLE || (t) == POINTLESS_VECTOR_I8 || (t) == POINTLESS_VECTOR_U8 || (t) == POINTLESS_VECTOR_I16 || (t) == POINTLESS_VECTOR_U16 || (t) == POINTLESS_VECTOR_I32 || (t) == POINTLESS_VECTOR_U32 || (t) == POINTLESS_VECTOR_I64 || (t) == POINTLESS_VECTOR_U64 || (t) == POINTLESS_VECTOR_FLOAT || (t) == POINTLESS_VECTOR_EMPTY)
#define ISBITS(t) ((t) == POINTLESS_BITVECTOR || (t) == POINTLESS_BITVECTOR_0 || (t) == POINTLESS_BITVECTOR_1 || (t) == POINTLESS_BITVECTOR_01 || (t) == POINTLESS_BITVECTOR_10 || (t) == POINTLESS_BITVECTOR_PACKED)
static int tclass(uint32_t t)
{
	switch (t) {
		case POINTLESS_I32: case POINTLESS_U32: case POINTLESS_I64: case POINTLESS_U64: case POINTLESS_FLOAT: case POINTLESS_BOOLEAN: return C_NUM;
		case POINTLESS_NULL: return C_NONE;
		case POINTLESS_STRING_: case POINTLESS_UNICODE_: return C_STR;
		case POINTLESS_SET_VALUE: case POINTLESS_MAP_VALUE_VALUE: case POINTLESS_EMPTY_SLOT: return 0;
	}
	return ISVEC(t) ? C_VEC : ISBITS(t) ? C_BITS : -1;
}
/* the kind of value an operand is: 0 is a set or map, -1 something else */
static int class(int w) { switch (g_k[w]) { case LONG: case FLOAT: case BOOL: return C_NUM; case NONE: return C_NONE; case STR: return C_STR; case LIST: case TUPLE: return C_VEC; case DICT: case SET: return 0; case BITS: return C_BITS; case STORED: return tclass(g_vt[w]); } return -1; }
/* an object as an operand */
#define OFSTORED(x, T, o) ((x)->is_pointless && (x)->value.pointless.p == &((T*)(o))->pp->p && (x)->value.pointless.v.type == ((T*)(o))->v.type && (x)->value.pointless.v.complete_data.data_u32 == ((T*)(o))->v.data.data_u32)
static int isop(pypointless_cmp_value_t* x, PyObject* o)
{
	if (o->ob_type == &PyPointlessVectorType) return OFSTORED(x, PyPointlessVector, o) && x->value.pointless.vector_slice_i == ((PyPointlessVector*)o)->slice_i && x->value.pointless.vector_slice_n == ((PyPointlessVector*)o)->slice_n;
	if (o->ob_type == &PyPointlessSetType) return OFSTORED(x, PyPointlessSet, o);
	if (o->ob_type == &PyPointlessMapType) return OFSTORED(x, PyPointlessMap, o);
	if (o->ob_type == &PyPointlessBitvectorType && ((PyPointlessBitvector*)o)->is_pointless) return OFSTORED(x, PyPointlessBitvector, o);
	return !x->is_pointless && x->value.py_object == o;
}
/* an item of a stored vector as an operand */
static int isitem(pypointless_cmp_value_t* x, int w)
{
	if (g_k[w] != STORED) return isop(x, g_item[w]);
	return x->is_pointless && x->value.pointless.p == &g_pp[w].p && x->value.pointless.v.type == g_itype[w] && x->value.pointless.v.complete_data.data_u32 == g_idata[w] && (!ISVEC(g_itype[w]) || (x->value.pointless.vector_slice_i == 0 && x->value.pointless.vector_slice_n == g_inner[w]));
}
#if defined(VECTOR) || defined(TOP)
static int g_item_ok[2];
static int32_t pypointless_cmp_rec(pypointless_cmp_value_t* a, pypointless_cmp_value_t* b, pypointless_cmp_state_t* state)
	PTV_REQUIRES(state->error == 0)
#ifdef VECTOR
	PTV_REQUIRES(state == &g_st && g_at[0] == g_ncmp && g_at[1] == g_ncmp && g_nat[0] == g_ncmp + 1 && g_nat[1] == g_ncmp + 1)
	PTV_REQUIRES(isitem(a, 0))
	PTV_REQUIRES(isitem(b, 1))
#else
	PTV_REQUIRES(g_ncmp == 0 && state->depth == 0 && state->is_eq == g_is_eq)
	PTV_REQUIRES(g_is_eq ? a->is_pointless && a->value.pointless.p == &g_pp[0].p && a->value.pointless.v.type == g_vt[0] && a->value.pointless.v.complete_data.data_u64 == g_v[0].value.pointless.v.complete_data.data_u64 && (!ISVEC(g_vt[0]) || (a->value.pointless.vector_slice_i == 0 && a->value.pointless.vector_slice_n == g_inner[0])) : isop(a, g_arg_a))
	PTV_REQUIRES(isop(b, g_arg_b))
#endif
	PTV_ASSIGNS(state->error, g_ncmp, g_last)
	PTV_ENSURES(g_ncmp == PTV_OLD(g_ncmp) + 1 && g_last == PTV_RET && (state->error == 0 || state->error == g_msg));
#else
static int32_t pypointless_cmp_rec(pypointless_cmp_value_t* a, pypointless_cmp_value_t* b, pypointless_cmp_state_t* state)
	PTV_REQUIRES(a == &g_v[0] && b == &g_v[1] && state == &g_st && state->error == 0 && state->depth == g_depth && g_called == 0 && g_exc == 0)
	PTV_ASSIGNS(state->error, state->depth, g_called, g_pa, g_pb, g_exc)
	PTV_ENSURES(state->depth == g_depth)
	PTV_ENSURES(g_depth < POINTLESS_MAX_DEPTH || (state->error != 0 && g_called == 0))
	PTV_ENSURES(g_depth >= POINTLESS_MAX_DEPTH || (g_called == 0) == !(class(0) > 0 && class(0) == class(1)))
	PTV_ENSURES(g_depth >= POINTLESS_MAX_DEPTH || g_called == 0 || (g_called == class(0) && g_pa == a && g_pb == b && (state->error != 0 || PTV_RET == g_ret)))
	PTV_ENSURES(g_depth >= POINTLESS_MAX_DEPTH || g_called != 0 || (state->is_eq && class(0) >= 0 && class(1) >= 0 && class(0) != class(1) ? state->error == 0 && PTV_RET != 0 : state->error != 0));
#endif
#define OPS PTV_REQUIRES(a == &g_v[0] && b == &g_v[1] && state == &g_st && state->error == 0 && g_ncmp == 0 && g_exc == 0)
#define TOOBIG(w) (g_k[w] == LONG && (g_nv[w] < INT64_MIN || g_nv[w] > UINT64_MAX))
static int32_t real_num(pypointless_cmp_value_t* a, pypointless_cmp_value_t* b, pypointless_cmp_state_t* state)
	OPS PTV_REQUIRES(class(0) == C_NUM && class(1) == C_NUM)
	PTV_ASSIGNS(state->error, g_ncmp, g_exc)
	PTV_ENSURES(g_exc == 0 && (state->error != 0) == (TOOBIG(0) || TOOBIG(1)))
	PTV_ENSURES(state->error != 0 || (g_ncmp == 1 && PTV_RET == g_ret));
#define ZERO(w) (g_k[w] == STR && g_haszero[w])
static int32_t real_str(pypointless_cmp_value_t* a, pypointless_cmp_value_t* b, pypointless_cmp_state_t* state)
	OPS PTV_REQUIRES(class(0) == C_STR && class(1) == C_STR)
	PTV_ASSIGNS(state->error, g_ncmp)
	PTV_ENSURES(ZERO(0) || ZERO(1) ? (state->is_eq ? state->error == 0 && PTV_RET != 0 : state->error != 0) : state->error == 0 && g_ncmp == 1 && PTV_RET == g_ret);
#define LEN(w) (g_k[w] == STORED ? (uint64_t)g_sn[w] : g_len[w])
#define MINLEN (LEN(0) < LEN(1) ? LEN(0) : LEN(1))
static int32_t real_vec(pypointless_cmp_value_t* a, pypointless_cmp_value_t* b, pypointless_cmp_state_t* state)
	OPS PTV_REQUIRES(class(0) == C_VEC && class(1) == C_VEC && g_at[0] == 0 && g_at[1] == 0 && g_nat[0] == 0 && g_nat[1] == 0)
	PTV_ASSIGNS(state->error, g_ncmp, g_last, g_at, g_nat)
	PTV_ENSURES(state->error != 0 || (g_ncmp > 0 && g_last != 0 ? SG(PTV_RET) == SG(g_last) : g_ncmp == MINLEN && SG(PTV_RET) == (LEN(0) < LEN(1) ? -1 : LEN(0) > LEN(1))));
#define MINBITS (g_nb[0] < g_nb[1] ? g_nb[0] : g_nb[1])
static int32_t real_bits(pypointless_cmp_value_t* a, pypointless_cmp_value_t* b, pypointless_cmp_state_t* state)
	OPS PTV_REQUIRES(class(0) == C_BITS && class(1) == C_BITS)
	PTV_ASSIGNS(state->error)
	PTV_ENSURES(state->error == 0 && SG(PTV_RET) == (gd < MINBITS ? (g_bit[0] < g_bit[1] ? -1 : 1) : g_nb[0] < g_nb[1] ? -1 : g_nb[0] > g_nb[1]));
static int32_t real_none(pypointless_cmp_value_t* a, pypointless_cmp_value_t* b, pypointless_cmp_state_t* state)
	OPS
	PTV_ASSIGNS(state->error)
	PTV_ENSURES(state->error == 0 && PTV_RET == 0);
#ifdef TOP
uint32_t pypointless_cmp_eq(pointless_t* p, pointless_complete_value_t* v, PyObject* py_object, const char** error)
	PTV_REQUIRES(g_is_eq == 1 && p == &g_pp[0].p && v == &g_v[0].value.pointless.v && py_object == g_arg_b && error == &g_error && g_error == 0 && g_ncmp == 0)
	PTV_ASSIGNS(g_ncmp, g_last, g_error)
	PTV_ENSURES(g_ncmp == 1 && (g_error != 0 ? g_error == g_msg && PTV_RET == 0 : (PTV_RET != 0) == (g_last == 0)));
#define FROMPY PTV_REQUIRES(args == g_args && g_is_eq == 0 && g_exc == 0 && g_ncmp == 0 && g_nmade == 0) \
	PTV_ASSIGNS(g_ncmp, g_last, g_exc, g_nmade, g_made_kind, g_made_num, g_made_dbl) \
	PTV_ENSURES((PTV_RET == 0) == (g_exc != 0)) PTV_ENSURES(g_arg_ok ? g_ncmp == 1 : PTV_RET == 0)
PyObject* pointless_cmp(PyObject* self, PyObject* args) FROMPY
	PTV_ENSURES(PTV_RET == 0 || (PTV_RET == &g_made && g_nmade == 1 && g_made_kind == PY_LONG && SG(g_made_num) == SG(g_last)));
PyObject* pointless_is_eq(PyObject* self, PyObject* args) FROMPY
	PTV_ENSURES(PTV_RET == 0 || PTV_RET == (g_last == 0 ? Py_True : Py_False));
#endif

/* ------------------------------------------------------------ harnesses */
#define FLAGS(T) T.tp_flags
static void operand(int w, int k)
{
	uint32_t t = (uint32_t)nondet_ptv_u64();
	g_k[w] = k;
	__CPROVER_assume(k < NKIND);
	g_o[w].ob_type = k == LIST ? &PyList_Type : k == TUPLE ? &PyTuple_Type : k == STR ? &PyUnicode_Type : k == DICT ? &PyDict_Type : k == SET ? ((nondet_ptv_u64() & 1) ? &PySet_Type : &PyFrozenSet_Type) : k == LONG ? &PyLong_Type : k == FLOAT ? &PyFloat_Type : &py_other_type;
	g_o[w].ob_refcnt = _Py_IMMORTAL_REFCNT;
	g_bv[w].ob_base.ob_type = &PyPointlessBitvectorType; g_bv[w].is_pointless = 0; g_bv[w].primitive_bits = g_bits[w]; g_bv[w].primitive_n_bits = g_nb[w];
	g_bit[w] = nondet_ptv_u64() & 1;
	g_haszero[w] = nondet_ptv_u64() & 1;
	__CPROVER_assume(g_uk[w] == PyUnicode_1BYTE_KIND || g_uk[w] == PyUnicode_2BYTE_KIND || g_uk[w] == PyUnicode_4BYTE_KIND);
	__CPROVER_assume(g_len[w] <= UINT32_MAX);
	g_vt[w] = t;
	__CPROVER_assume((uint64_t)g_si[w] + g_sn[w] <= UINT32_MAX);
	if (k == BOOL) { g_nv[w] = nondet_ptv_u64() & 1; }
	/* only booleans are 0 or 1 */
	if (k == STORED && t == POINTLESS_BOOLEAN) g_vd[w] &= 1;
	if (k == STORED) {
		g_v[w].is_pointless = 1; g_v[w].value.pointless.p = &g_pp[w].p; g_v[w].value.pointless.v.type = t;
		g_v[w].value.pointless.v.complete_data.data_u64 = 0;
		if (t == POINTLESS_I64) g_v[w].value.pointless.v.complete_data.data_i64 = (int64_t)g_nv[w];
		else if (t == POINTLESS_U64) g_v[w].value.pointless.v.complete_data.data_u64 = (uint64_t)g_nv[w];
		else if (t == POINTLESS_FLOAT) g_v[w].value.pointless.v.complete_data.data_f = (float)g_dv[w];
		else g_v[w].value.pointless.v.complete_data.data_u32 = g_vd[w];
		g_v[w].value.pointless.vector_slice_i = g_si[w]; g_v[w].value.pointless.vector_slice_n = g_sn[w];
	} else {
		g_v[w].is_pointless = 0;
		g_v[w].value.py_object = k == BOOL ? (g_nv[w] ? Py_True : Py_False) : k == NONE ? Py_None : k == BITS ? (PyObject*)&g_bv[w] : &g_o[w];
	}
	/* an object: plain, or a stored vector, set, map or bitvector */
	g_pv[w].ob_base.ob_type = &PyPointlessVectorType; g_ps[w].ob_base.ob_type = &PyPointlessSetType; g_pm[w].ob_base.ob_type = &PyPointlessMapType;
	g_pv[w].pp = g_ps[w].pp = g_pm[w].pp = g_bv[w].pp = &g_pp[w];
#if defined(VECTOR) || defined(TOP)
	{ uint32_t c = (uint32_t)nondet_ptv_u64() % 6; g_bv[w].is_pointless = nondet_ptv_u64() & 1; g_num_o[w].ob_type = &py_other_type; g_item[w] = c == 0 ? (PyObject*)&g_pv[w] : c == 1 ? (PyObject*)&g_ps[w] : c == 2 ? (PyObject*)&g_pm[w] : c == 3 ? (PyObject*)&g_bv[w] : &g_num_o[w]; }
#endif
}
static void setup(int ka, int kb)
{
	py_setup();
	PyPointlessVectorType.tp_flags = PyPointlessPrimVectorType.tp_flags = PyPointlessBitvectorType.tp_flags = PyPointlessSetType.tp_flags = PyPointlessMapType.tp_flags = PySet_Type.tp_flags = PyFrozenSet_Type.tp_flags = 0;
	PyList_Type.tp_flags = Py_TPFLAGS_LIST_SUBCLASS; PyTuple_Type.tp_flags = Py_TPFLAGS_TUPLE_SUBCLASS; PyUnicode_Type.tp_flags = Py_TPFLAGS_UNICODE_SUBCLASS; PyDict_Type.tp_flags = Py_TPFLAGS_DICT_SUBCLASS;
	_Py_NoneStruct.ob_type = &py_other_type; g_zero.ob_refcnt = _Py_IMMORTAL_REFCNT;
	operand(0, ka); operand(1, kb);
	/* gd is the first position at which the two differ */
	__CPROVER_assume(gd >= g_nb[0] || gd >= g_nb[1] || g_bit[0] != g_bit[1]);
	g_st.error = 0; g_st.depth = g_depth; g_st.is_eq = nondet_ptv_u64() & 1;
	__CPROVER_assume(g_depth < UINT32_MAX);
	g_called = 0; g_ncmp = 0; g_error = 0; g_at[0] = g_at[1] = g_nat[0] = g_nat[1] = 0;
	g_args = &g_zero; g_arg_a = g_item[0]; g_arg_b = g_item[1];
}
#define ANY (int)(nondet_ptv_u64() & 15)
void h_rec(void) { setup(KA == 10 ? ((nondet_ptv_u64() & 1) ? OTHER : STORED) : KA, ANY); pypointless_cmp_rec(&g_v[0], &g_v[1], &g_st); PTV_REACH(); }
#define ALL(c) setup(ANY, ANY); __CPROVER_assume(class(0) == c && class(1) == c);
void h_numbers(void) { ALL(C_NUM) real_num(&g_v[0], &g_v[1], &g_st); PTV_REACH(); }
void h_strings(void) { ALL(C_STR) real_str(&g_v[0], &g_v[1], &g_st); PTV_REACH(); }
#ifndef VA
#define VA ANY
#define VB ANY
#endif
void h_vector(void) { setup(VA, VB); __CPROVER_assume(class(0) == C_VEC && class(1) == C_VEC); real_vec(&g_v[0], &g_v[1], &g_st); PTV_REACH(); }
void h_bits(void) { ALL(C_BITS) real_bits(&g_v[0], &g_v[1], &g_st); PTV_REACH(); }
void h_none(void) { setup(NONE, NONE); real_none(&g_v[0], &g_v[1], &g_st); PTV_REACH(); }
#ifdef TOP
void h_eq(void) { setup(STORED, OTHER); g_is_eq = 1; pypointless_cmp_eq(&g_pp[0].p, &g_v[0].value.pointless.v, g_arg_b, &g_error); PTV_REACH(); }
void h_cmp(void) { setup(OTHER, OTHER); g_is_eq = 0; pointless_cmp(0, g_args); PTV_REACH(); }
void h_is_eq(void) { setup(OTHER, OTHER); g_is_eq = 0; pointless_is_eq(0, g_args); PTV_REACH(); }
#else
void h_eq(void) { }
void h_cmp(void) { }
void h_is_eq(void) { }
#endif
#endif

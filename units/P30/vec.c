/*PTV
{
 "functions": ["PyPointlessVector_check_index", "PyPointlessVector_subscript_priv", "PyPointlessVector_subscript", "PyPointlessVector_item", "PyPointlessVector_length", "PyPointlessVector_contains", "PyPointlessVector_slice", "PyPointlessVector_New", "PyPointlessVector_iter", "PyPointlessVector_rev_iter", "PyPointlessVectorIter_iternext", "PyPointlessVectorRevIter_iternext", "PyPointlessVector_richcompare", "PyPointlessVector_get_typecode", "PyPointlessVector_getbuffer", "pointless_prim_vector_base_ptr", "pointless_vector_n_bytes", "PyPointlessVector_min_max", "PyPointlessVector_min", "PyPointlessVector_max", "PyPointlessVector_range", "PyPointlessVector_bisect_left", "parse_pyobject_number", "pypointless_i32", "pypointless_u32", "pypointless_i64", "pypointless_u64", "pypointless_float"],
 "assumptions": ["CPython is modelled by lib/py.h (documented behaviour of the number, slice, index and comparison functions; reference counts are not modelled)", "the stored vector is well-formed: its view lies inside the stored items (established by New, whose callers are under contract here, and by file validation, property P10)", "the reader functions return the stored items (property P07)", "comparison and range are proved over vectors of values with subscript_priv inlined; for the other element types they rest on the contract of subscript_priv, and on execution"],
 "cflags": ["-I/usr/include/python3.12", "-I/repo"],
 "contracts": [
  {"id": "subscript_priv", "harness": "h_get", "enforce": "PyPointlessVector_subscript_priv", "variants": ["TY=0", "TY=1", "TY=2", "TY=3", "TY=4", "TY=5", "TY=6", "TY=7", "TY=8", "TY=9", "TY=10"]},
  {"id": "check_index", "harness": "h_check_index", "enforce": "PyPointlessVector_check_index"},
  {"id": "item", "harness": "h_item", "enforce": "PyPointlessVector_item", "replace": ["PyPointlessVector_subscript_priv"], "defs": ["CALLER"]},
  {"id": "subscript", "harness": "h_subscript", "enforce": "PyPointlessVector_subscript", "replace": ["PyPointlessVector_subscript_priv", "PyPointlessVector_slice", "PyPointlessVector_check_index"], "defs": ["CALLER"]},
  {"id": "slice", "harness": "h_slice", "enforce": "PyPointlessVector_slice", "replace": ["PyPointlessVector_New"], "defs": ["SLICE"]},
  {"id": "new", "harness": "h_new", "enforce": "PyPointlessVector_New", "defs": ["NEW"]},
  {"id": "iter", "harness": "h_iter", "enforce": "PyPointlessVector_iter"},
  {"id": "rev_iter", "harness": "h_rev_iter", "enforce": "PyPointlessVector_rev_iter"},
  {"id": "iternext", "harness": "h_iternext", "enforce": "PyPointlessVectorIter_iternext", "replace": ["PyPointlessVector_subscript_priv"], "defs": ["CALLER"]},
  {"id": "reviternext", "harness": "h_reviternext", "enforce": "PyPointlessVectorRevIter_iternext", "replace": ["PyPointlessVector_subscript_priv"], "defs": ["CALLER"]},
  {"id": "contains", "harness": "h_contains", "enforce": "PyPointlessVector_contains", "loops": true},
  {"id": "richcompare", "harness": "h_cmp", "enforce": "PyPointlessVector_richcompare", "loops": true, "defs": ["CMP", "TY=9"], "variants": ["WHO=0", "WHO=1", "WHO=2"]},
  {"id": "typecode", "harness": "h_typecode", "enforce": "PyPointlessVector_get_typecode"},
  {"id": "getbuffer", "harness": "h_getbuffer", "enforce": "PyPointlessVector_getbuffer", "variants": ["TY=0", "TY=1", "TY=2", "TY=3", "TY=4", "TY=5", "TY=6", "TY=7", "TY=8", "TY=9", "TY=11"]},
  {"id": "min_max", "harness": "h_min_max", "enforce": "PyPointlessVector_min_max", "loops": true, "solver": "cadical", "variants": ["TY=0", "TY=1", "TY=2", "TY=3", "TY=4", "TY=5", "TY=6", "TY=7", "TY=8"]},
  {"id": "min_max_other", "harness": "h_min_max", "enforce": "PyPointlessVector_min_max", "loops": true, "variants": ["TY=9", "TY=10", "TY=11"]},
  {"id": "max", "harness": "h_max", "enforce": "PyPointlessVector_max", "replace": ["PyPointlessVector_min_max", "PyPointlessVector_subscript_priv"], "defs": ["CALLER", "MM"]},
  {"id": "min", "harness": "h_min", "enforce": "PyPointlessVector_min", "replace": ["PyPointlessVector_min_max", "PyPointlessVector_subscript_priv"], "defs": ["CALLER", "MM"]},
  {"id": "range", "harness": "h_range", "enforce": "PyPointlessVector_range", "replace": ["PyPointlessVector_min_max"], "defs": ["MM", "CMP", "RANGE", "TY=9"]},
  {"id": "bisect_left", "harness": "h_bisect", "enforce": "PyPointlessVector_bisect_left", "loops": true, "solver": "cadical", "defs": ["BISECT"], "variants": ["TY=8", "TY=5", "TY=9"]}
 ]
}
PTV*/
#include "ptv.h"
#ifndef TY
#define TY g_ty
#define ANYTYPE
#endif
#ifdef PTV_CBMC
#include "py.h"
#include "prim.h"
/* TY: an element type of prim.h (0 to 8), 9 and 10: values (hashable or not), 11: the empty vector */
#define VTYPE(t) ((t) == 0 ? POINTLESS_VECTOR_I8 : (t) == 1 ? POINTLESS_VECTOR_U8 : (t) == 2 ? POINTLESS_VECTOR_I16 : (t) == 3 ? POINTLESS_VECTOR_U16 : (t) == 4 ? POINTLESS_VECTOR_I32 : (t) == 5 ? POINTLESS_VECTOR_U32 : (t) == 6 ? POINTLESS_VECTOR_FLOAT : (t) == 7 ? POINTLESS_VECTOR_I64 : (t) == 8 ? POINTLESS_VECTOR_U64 : (t) == 9 ? POINTLESS_VECTOR_VALUE : (t) == 10 ? POINTLESS_VECTOR_VALUE_HASHABLE : POINTLESS_VECTOR_EMPTY)
#define VSIZE(t) ((t) == 9 || (t) == 10 ? sizeof(pointless_value_t) : (t) == 11 ? (size_t)0 : TSIZE(t))
static uint8_t g_ty;
PyObject _Py_NotImplementedStruct;
static PyPointlessVector g_v, g_w;      /* the views */
static PyPointless g_pp, g_pq;          /* their files */
static uint32_t g_total;                /* the number of stored items */
static char* g_base; static char* g_wbase; static uint32_t g_wtotal;                   /* the stored items */
static size_t gk;
#define N ((num_t)g_v.slice_n)
#define ITEM(i) (g_base + ((size_t)g_v.slice_i + (i)) * VSIZE(TY))
#define WF (g_v.pp == &g_pp && g_v.v.type == VTYPE(TY) && (uint64_t)g_v.slice_i + g_v.slice_n <= g_total)

static void* rd(pointless_t* p, pointless_value_t* v, uint32_t t)
{
#ifdef CMP
	if (v == &g_w.v) { PTV_CHECK(p == &g_pq.p && v->type == t, "reads the stored vector"); return g_wbase; }
#endif
	 PTV_CHECK(p == &g_pp.p && v == &g_v.v && v->type == t, "reads the stored vector"); return g_base; }
pointless_value_t* pointless_reader_vector_value(pointless_t* p, pointless_value_t* v) { return rd(p, v, TY == 10 ? POINTLESS_VECTOR_VALUE_HASHABLE : POINTLESS_VECTOR_VALUE); }
int8_t* pointless_reader_vector_i8(pointless_t* p, pointless_value_t* v) { return rd(p, v, POINTLESS_VECTOR_I8); }
uint8_t* pointless_reader_vector_u8(pointless_t* p, pointless_value_t* v) { return rd(p, v, POINTLESS_VECTOR_U8); }
int16_t* pointless_reader_vector_i16(pointless_t* p, pointless_value_t* v) { return rd(p, v, POINTLESS_VECTOR_I16); }
uint16_t* pointless_reader_vector_u16(pointless_t* p, pointless_value_t* v) { return rd(p, v, POINTLESS_VECTOR_U16); }
int32_t* pointless_reader_vector_i32(pointless_t* p, pointless_value_t* v) { return rd(p, v, POINTLESS_VECTOR_I32); }
uint32_t* pointless_reader_vector_u32(pointless_t* p, pointless_value_t* v) { return rd(p, v, POINTLESS_VECTOR_U32); }
int64_t* pointless_reader_vector_i64(pointless_t* p, pointless_value_t* v) { return rd(p, v, POINTLESS_VECTOR_I64); }
uint64_t* pointless_reader_vector_u64(pointless_t* p, pointless_value_t* v) { return rd(p, v, POINTLESS_VECTOR_U64); }
float* pointless_reader_vector_float(pointless_t* p, pointless_value_t* v) { return rd(p, v, POINTLESS_VECTOR_FLOAT); }
static pointless_value_t g_stored;      /* the value of which pypointless_value or New makes an object */
uint32_t pointless_reader_vector_n_items(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &g_pp.p && (v == &g_v.v || v == &g_stored), "asks for the length of the stored vector"); return g_total; }
static uint32_t g_cid;
uint32_t pointless_container_id(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &g_pp.p && (v == &g_v.v || v == &g_stored), "asks for the identity of the stored vector"); return g_cid; }
static int32_t g_hashable;
uint32_t pointless_is_hashable(uint32_t t) { PTV_CHECK(t == g_v.v.type, "asks for the hashability of the stored vector"); return g_hashable; }

/* membership: comparisons with the items, in order, until one is equal or fails */
static uint32_t g_nread, g_ncmp; static int g_found, g_failed; static PyObject g_other; static pointless_complete_value_t g_item;
#ifndef CMP
pointless_complete_value_t pointless_reader_vector_value_case(pointless_t* p, pointless_value_t* v, uint32_t i)
{
	PTV_CHECK(p == &g_pp.p && v == &g_v.v && i == g_v.slice_i + g_nread && g_nread == g_ncmp && g_nread < g_v.slice_n, "the next item is read");
	g_nread++;
	g_item.type = nondet_ptv_u64(); g_item.complete_data.data_u64 = nondet_ptv_u64();
	return g_item;
}
uint32_t pypointless_cmp_eq(pointless_t* p, pointless_complete_value_t* v, PyObject* o, const char** error)
{
	PTV_CHECK(p == &g_pp.p && v->type == g_item.type && v->complete_data.data_u64 == g_item.complete_data.data_u64 && o == &g_other && g_nread == g_ncmp + 1 && !g_found && !g_failed, "the item just read is compared with the object");
	g_ncmp++;
	if (nondet_ptv_u64() & 1) { g_failed = 1; *error = "error"; return nondet_ptv_u64(); }
	g_found = nondet_ptv_u64() & 1;
	return g_found;
}
#define PTV_LOOP_sv_contains(i, c, v, error) __CPROVER_assigns(i, c, v, error, g_nread, g_ncmp, g_found, g_failed, g_item) \
	__CPROVER_loop_invariant(i <= g_v.slice_n && g_nread == i && g_ncmp == i && !g_found && !g_failed && error == 0 && g_exc == 0)
#endif
/* comparison and range: the items of the two views */
static PyObject g_oa, g_ob, g_comp; static uint32_t g_nat; static size_t g_min, g_max; static int g_differ, g_cmp_failed; static int g_ncomp, g_op;
#ifdef CMP
static PyObject* sv_tuple(const char* fmt, PyObject* a, PyObject* b);
int PyObject_RichCompareBool(PyObject* a, PyObject* b, int op)
{
	PTV_CHECK(a == &g_oa && b == &g_ob && op == Py_EQ && !g_differ && !g_cmp_failed, "the next items are compared");
	if (nondet_ptv_u64() & 1) { g_exc = PyExc_Exception; g_cmp_failed = 1; return -1; }
	if (nondet_ptv_u64() & 1) { g_differ = 1; return 0; }
	g_ncmp++;
	return 1;
}
PyObject* PyObject_RichCompare(PyObject* a, PyObject* b, int op)
{
	PTV_CHECK(a == &g_oa && b == &g_ob && op == g_op && g_differ, "the first items which differ are compared");
	g_ncomp++;
	return &g_comp;
}
#define PTV_LOOP_sv_cmp(i, n_items) __CPROVER_assigns(i, g_differ, g_cmp_failed, g_ncmp, g_exc) \
	__CPROVER_loop_invariant(i <= n_items && g_ncmp == i && !g_differ && !g_cmp_failed && g_exc == 0)
#endif
/* buffers */
static Py_buffer g_view; static int g_fill_ret, g_nfill;
int PyBuffer_FillInfo(Py_buffer* v, PyObject* o, void* p, Py_ssize_t len, int ro, int flags)
{
	PTV_CHECK(v == &g_view && o == (PyObject*)&g_v && (TY == 11 ? len == 0 : p == ITEM(0) && len == g_v.slice_n * VSIZE(TY)) && ro == 1, "the buffer is the items of the view, read-only");
	g_nfill++;
	return g_fill_ret;
}
/* objects */
static PyPointlessVector g_new; static PyPointlessVectorIter g_newit; static PyPointlessVectorRevIter g_newrit; static int g_alloc_fails;
PyObject* _PyObject_New(PyTypeObject* t)
{
	PyObject* o = t == &PyPointlessVectorIterType ? (PyObject*)&g_newit : (PyObject*)&g_newrit;
	if (g_alloc_fails) { g_exc = PyExc_MemoryError; return 0; }
	o->ob_refcnt = _Py_IMMORTAL_REFCNT; o->ob_type = t;
	return o;
}
static PyObject* sv_alloc(PyTypeObject* t, Py_ssize_t n) { if (g_alloc_fails) { g_exc = PyExc_MemoryError; return 0; } g_new.ob_base.ob_refcnt = _Py_IMMORTAL_REFCNT; g_new.ob_base.ob_type = t; return (PyObject*)&g_new; }
void _Py_Dealloc(PyObject* o) { }
static PyObject g_str; static const char* g_code;
static PyObject* sv_string(const char* fmt, const char* s) { PTV_CHECK(fmt[0] == 's' && fmt[1] == 0, "format"); g_code = s; return &g_str; }
#ifdef CMP
#define Py_BuildValue(f, ...) SV_BUILD(f, __VA_ARGS__, 0, 0)
#define SV_BUILD(f, a, b, ...) sv_tuple(f, (PyObject*)(a), (PyObject*)(b))
#else
#define Py_BuildValue(f, s, ...) sv_string(f, (const char*)(s))
#endif
#define pypointless_value sv_value
static PyObject* sv_value(PyPointless* p, pointless_value_t* v);
static uint64_t g_x;
#define PTV_LOOP_sv_bisect(i, j, mid, a) __CPROVER_assigns(i, j, mid) \
	__CPROVER_loop_invariant(0 <= i && i <= j && j <= g_v.slice_n && (i == 0 || a[i - 1] < g_x) && (j == g_v.slice_n || a[j] >= g_x)) __CPROVER_decreases(j - i)
#define PTV_LOOP_sv_min_max(T, v, n, i, min_i, max_i) __CPROVER_assigns(i, min_i, max_i) \
	__CPROVER_loop_invariant(1 <= i && i <= n && min_i < i && max_i < i && (gk >= i || (!(((T*)v)[min_i] > ((T*)v)[gk]) && !(((T*)v)[gk] > ((T*)v)[max_i]))))

#include "/repo/python/pointless_vector.c"
#undef pypointless_value
#include "/repo/python/pointless_instance_dispatch.c"
static pointless_value_t* g_value_at; static int g_nvalue;
static PyObject* sv_value(PyPointless* p, pointless_value_t* v)
{
#ifdef CMP
#ifdef RANGE
	PTV_CHECK(p == &g_pp && (v == (pointless_value_t*)ITEM(g_min) || v == (pointless_value_t*)ITEM(g_max)), "the smallest or the largest");
	if (nondet_ptv_u64() & 1) { g_exc = PyExc_MemoryError; return 0; }
	g_nat++;
	return v == (pointless_value_t*)ITEM(g_min) ? &g_oa : &g_ob;
#else
	if (nondet_ptv_u64() & 1) { g_exc = PyExc_MemoryError; return 0; }
	if (p == &g_pp) { PTV_CHECK(v == (pointless_value_t*)ITEM(g_ncmp), "the next item"); return &g_oa; }
	PTV_CHECK(p == &g_pq && v == (pointless_value_t*)g_wbase + g_w.slice_i + g_ncmp, "the next item");
	return &g_ob;
#endif
#endif
	PTV_CHECK(p == &g_pp && (TY == 9 || TY == 10), "an object of this file");
	g_nvalue++; g_nmade++; g_value_at = v;
	if (g_fail_make) { g_exc = PyExc_MemoryError; return 0; }
	return &g_made;
}
#ifdef CMP
static int g_ntuple;
static PyObject* sv_tuple(const char* fmt, PyObject* a, PyObject* b)
{
	PTV_CHECK(fmt[0] == '(' && fmt[1] == 'N' && fmt[2] == 'N' && fmt[3] == ')' && a == &g_oa && b == (g_min == g_max ? &g_oa : &g_ob), "smallest and largest");
	g_ntuple++;
	return &g_made;
}
#endif

/* ------------------------------------------------------------ contracts */
static uint32_t g_want;       /* the item asked for */
#ifndef CMP
static PyObject* PyPointlessVector_subscript_priv(PyPointlessVector* self, uint32_t i)
	PTV_REQUIRES(self == &g_v && WF && i < g_v.slice_n && g_exc == 0 && g_nmade == 0)
	PTV_ASSIGNS(g_nmade, g_made_kind, g_made_num, g_made_dbl, g_exc, g_want, g_nvalue, g_value_at)
	PTV_ENSURES(PTV_RET == 0 || PTV_RET == &g_made)
	PTV_ENSURES(g_nmade == 1 && (PTV_RET == 0) == (g_exc != 0) && (PTV_RET == 0) == (g_fail_make != 0))
	PTV_ENSURES(g_want == i);
#endif
static num_t g_in;
#define IXOK (g_is_index && !g_index_fails && g_in >= -N && g_in < N)
#define TARGET ((Py_ssize_t)(g_in < 0 ? g_in + N : g_in))
static int PyPointlessVector_check_index(PyPointlessVector* self, PyObject* item, Py_ssize_t* i)
	PTV_REQUIRES(self == &g_v && WF && item == &g_ix && g_exc == 0 && g_num == g_in)
	PTV_ASSIGNS(*i, g_exc)
	PTV_ENSURES(PTV_RET == (IXOK ? 1 : 0) && (PTV_RET ? *i == TARGET && g_exc == 0 : g_exc != 0))
	PTV_ENSURES(PTV_RET || !g_is_index || g_index_fails || g_exc == PyExc_IndexError);
#ifdef CALLER
static PyObject* PyPointlessVector_item(PyPointlessVector* self, Py_ssize_t i)
	PTV_REQUIRES(self == &g_v && WF && g_exc == 0 && g_nmade == 0)
	PTV_ASSIGNS(g_nmade, g_made_kind, g_made_num, g_made_dbl, g_exc, g_want, g_nvalue, g_value_at)
	PTV_ENSURES((PTV_RET != 0) == (i >= 0 && i < N && !g_fail_make))
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 && (g_exc == PyExc_IndexError || (i >= 0 && i < N)) : g_want == i && g_exc == 0);
static Py_ssize_t g_sl_lo, g_sl_hi; static int g_nslice;
#define CLIP(v) ((v) < 0 ? ((v) + N < 0 ? 0 : (v) + N) : (v) > N ? N : (num_t)(v))
static PyObject* PyPointlessVector_slice(PyPointlessVector* self, Py_ssize_t ilow, Py_ssize_t ihigh)
	PTV_REQUIRES(self == &g_v && g_nslice == 0)
	PTV_ASSIGNS(g_sl_lo, g_sl_hi, g_nslice)
	PTV_ENSURES(g_nslice == 1 && g_sl_lo == ilow && g_sl_hi == ihigh && PTV_RET == (PyObject*)&g_new);
static PyObject* PyPointlessVector_subscript(PyPointlessVector* self, PyObject* item)
	PTV_REQUIRES(self == &g_v && WF && (item == &g_ix || item == &g_slice) && g_exc == 0 && g_num == g_in && g_nslice == 0 && g_nmade == 0)
	PTV_ASSIGNS(g_sl_lo, g_sl_hi, g_nslice, g_nmade, g_made_kind, g_made_num, g_made_dbl, g_exc, g_want, g_nvalue, g_value_at)
	PTV_ENSURES(item != &g_slice || g_slice_fails || g_step != 1 || (PTV_RET == (PyObject*)&g_new && g_nslice == 1 && g_sl_lo == CLIP(g_start) && g_sl_hi == CLIP(g_stop)))
	PTV_ENSURES(item != &g_slice || (!g_slice_fails && g_step == 1) || (PTV_RET == 0 && g_exc != 0))
	PTV_ENSURES(item != &g_ix || ((PTV_RET != 0) == (IXOK && !g_fail_make) && (PTV_RET == 0 ? g_exc != 0 : g_want == TARGET && PTV_RET == &g_made)));
static PyPointlessVectorIter g_it; static PyPointlessVectorIter g_rit;
#define IT_POST(it, pos) \
	PTV_ENSURES(PTV_OLD(it.vector) == 0 || PTV_OLD(it.iter_state) >= g_v.slice_n ? PTV_RET == 0 && g_exc == 0 && it.vector == 0 : PTV_RET != 0 ? g_want == (pos) && it.iter_state == PTV_OLD(it.iter_state) + 1 && PTV_RET == &g_made && it.vector == &g_v : g_fail_make && g_exc != 0)
static PyObject* PyPointlessVectorIter_iternext(PyPointlessVectorIter* iter)
	PTV_REQUIRES(iter == &g_it && (g_it.vector == 0 || g_it.vector == &g_v) && WF && g_exc == 0 && g_nmade == 0)
	PTV_ASSIGNS(g_it.vector, g_it.iter_state, g_nmade, g_made_kind, g_made_num, g_made_dbl, g_exc, g_want, g_nvalue, g_value_at)
	IT_POST(g_it, PTV_OLD(g_it.iter_state));
static PyObject* PyPointlessVectorRevIter_iternext(PyPointlessVectorIter* iter)
	PTV_REQUIRES(iter == &g_rit && (g_rit.vector == 0 || g_rit.vector == &g_v) && WF && g_exc == 0 && g_nmade == 0)
	PTV_ASSIGNS(g_rit.vector, g_rit.iter_state, g_nmade, g_made_kind, g_made_num, g_made_dbl, g_exc, g_want, g_nvalue, g_value_at)
	IT_POST(g_rit, g_v.slice_n - 1 - PTV_OLD(g_rit.iter_state));
#endif
/* a view: as many items as asked for, beginning where asked for, of the same vector */
#define VIEW(r, file, value, i, n) ((r)->pp == (file) && (r)->v.type == (value).type && (r)->v.data.data_u32 == (value).data.data_u32 && (r)->slice_i == (i) && (r)->slice_n == (n))
static uint32_t g_from, g_count; static int g_nnew;
#ifdef SLICE
#define LOW(a) ((a) < 0 ? 0 : (a) > N ? N : (num_t)(a))
#define HIGH(a, b) ((b) < LOW(a) ? LOW(a) : (b) > N ? N : (num_t)(b))
PyPointlessVector* PyPointlessVector_New(PyPointless* pp, pointless_value_t* v, uint32_t slice_i, uint32_t slice_n)
	PTV_REQUIRES(pp == &g_pp && v == &g_v.v && (uint64_t)slice_i + slice_n <= g_total && g_nnew == 0)
	PTV_ASSIGNS(g_from, g_count, g_nnew)
	PTV_ENSURES(PTV_RET == &g_new && g_from == slice_i && g_count == slice_n && g_nnew == 1);
static PyObject* PyPointlessVector_slice(PyPointlessVector* self, Py_ssize_t ilow, Py_ssize_t ihigh)
	PTV_REQUIRES(self == &g_v && WF && g_nnew == 0)
	PTV_ASSIGNS(g_from, g_count, g_nnew)
	PTV_ENSURES(PTV_RET == (PyObject*)&g_new && g_nnew == 1 && g_from == g_v.slice_i + LOW(ilow) && g_count == HIGH(ilow, ihigh) - LOW(ilow));
#endif
#ifdef NEW
PyPointlessVector* PyPointlessVector_New(PyPointless* pp, pointless_value_t* v, uint32_t slice_i, uint32_t slice_n)
	PTV_REQUIRES(pp == &g_pp && v == &g_v.v && g_exc == 0 && (uint64_t)slice_i + slice_n <= UINT32_MAX)
	PTV_ASSIGNS(g_new, g_exc, g_pp.n_vector_refs)
	PTV_ENSURES((PTV_RET != 0) == ((uint64_t)slice_i + slice_n <= g_total && !g_alloc_fails))
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 : PTV_RET == &g_new && g_exc == 0 && VIEW(&g_new, &g_pp, g_v.v, slice_i, slice_n) && g_new.container_id == g_cid && g_new.is_hashable == g_hashable);
#endif
static PyObject* PyPointlessVector_iter(PyObject* vector)
	PTV_REQUIRES(vector == (PyObject*)&g_v && g_exc == 0)
	PTV_ASSIGNS(g_newit, g_exc)
	PTV_ENSURES(PTV_RET == 0 ? g_alloc_fails && g_exc != 0 : PTV_RET == (PyObject*)&g_newit && g_newit.vector == &g_v && g_newit.iter_state == 0 && g_newit.ob_base.ob_type == &PyPointlessVectorIterType);
static PyObject* PyPointlessVector_rev_iter(PyObject* vector)
	PTV_REQUIRES(vector == (PyObject*)&g_v && g_exc == 0)
	PTV_ASSIGNS(g_newrit, g_exc)
	PTV_ENSURES(PTV_RET == 0 ? g_alloc_fails && g_exc != 0 : PTV_RET == (PyObject*)&g_newrit && g_newrit.vector == &g_v && g_newrit.iter_state == 0 && g_newrit.ob_base.ob_type == &PyPointlessVectorRevIterType);
#ifndef CMP
static int PyPointlessVector_contains(PyPointlessVector* self, PyObject* b)
	PTV_REQUIRES(self == &g_v && WF && b == &g_other && g_exc == 0 && g_nread == 0 && g_ncmp == 0 && !g_found && !g_failed)
	PTV_ASSIGNS(g_nread, g_ncmp, g_found, g_failed, g_item, g_exc)
	PTV_ENSURES(PTV_RET == (g_failed ? -1 : g_found) && (g_exc != 0) == g_failed)
	PTV_ENSURES(g_failed || g_found || g_ncmp == g_v.slice_n);
#elif !defined(RANGE)
static PyPointlessVector g_not; static int g_kind_a, g_kind_b;
#define NA g_v.slice_n
#define NB g_w.slice_n
#define TRUTH(x) (PTV_RET == ((x) ? Py_True : Py_False))
static PyObject* PyPointlessVector_richcompare(PyObject* a, PyObject* b, int op)
	PTV_REQUIRES(a == (WHO == 1 ? &g_other : (PyObject*)&g_v) && b == (WHO == 2 ? &g_other : (PyObject*)&g_w) && op >= Py_LT && op <= Py_GE && op == g_op && g_exc == 0 && g_ncmp == 0 && !g_differ && !g_cmp_failed && g_ncomp == 0)
	PTV_ASSIGNS(g_exc, g_differ, g_cmp_failed, g_ncmp, g_ncomp)
	PTV_ENSURES((a != &g_other && b != &g_other) || PTV_RET == Py_NotImplemented)
	PTV_ENSURES(a == &g_other || b == &g_other || NA == NB || (op != Py_EQ && op != Py_NE) || TRUTH(op == Py_NE))
	PTV_ENSURES(PTV_RET != 0 || g_exc != 0)
	/* the views are equal up to g_ncmp; then an error, the items which differ, or the end of one of them */
	PTV_ENSURES(a == &g_other || b == &g_other || (NA != NB && (op == Py_EQ || op == Py_NE)) || g_exc != 0 || g_differ || (g_ncmp == NA && NA <= NB) || (g_ncmp == NB && NB <= NA))
	PTV_ENSURES(!g_cmp_failed || PTV_RET == 0)
	PTV_ENSURES(!g_differ || g_exc != 0 || (op == Py_EQ || op == Py_NE ? TRUTH(op == Py_NE) : g_ncomp == 1 && PTV_RET == &g_comp))
	PTV_ENSURES(a == &g_other || b == &g_other || g_differ || g_exc != 0 || TRUTH(op == Py_LT ? NA < NB : op == Py_LE ? NA <= NB : op == Py_EQ ? NA == NB : op == Py_NE ? NA != NB : op == Py_GT ? NA > NB : NA >= NB));
#endif
#define CODE(t) ((t) == 0 ? "i8" : (t) == 1 ? "u8" : (t) == 2 ? "i16" : (t) == 3 ? "u16" : (t) == 4 ? "i32" : (t) == 5 ? "u32" : (t) == 6 ? "f" : (t) == 7 ? "i64" : "u64")
static PyObject* PyPointlessVector_get_typecode(PyPointlessVector* a, void* closure)
	PTV_REQUIRES(a == &g_v && WF && g_exc == 0)
	PTV_ASSIGNS(g_exc, g_code)
	PTV_ENSURES(TY <= 8 ? PTV_RET == &g_str && g_exc == 0 : PTV_RET == 0 && g_exc == PyExc_ValueError);
static int PyPointlessVector_getbuffer(PyPointlessVector* self, Py_buffer* view, int flags)
	PTV_REQUIRES(self == &g_v && WF && (view == 0 || view == &g_view) && g_nfill == 0 && g_exc == 0)
	PTV_ASSIGNS(g_nfill, g_exc, g_view.obj)
	PTV_ENSURES(view == 0 ? PTV_RET == 0 : TY == 9 || TY == 10 ? PTV_RET == -1 && g_exc == PyExc_BufferError && g_view.obj == 0 && g_nfill == 0 : PTV_RET == g_fill_ret && g_nfill == 1);
#ifdef MM
static int PyPointlessVector_min_max(PyPointlessVector* self, size_t* min_i_out, size_t* max_i_out)
	PTV_REQUIRES(self == &g_v && WF && g_exc == 0)
	PTV_ASSIGNS(*min_i_out, *max_i_out, g_exc)
	PTV_ENSURES(PTV_RET == (g_v.slice_n > 0) && (PTV_RET ? *min_i_out == g_min && *max_i_out == g_max && g_min < g_v.slice_n && g_max < g_v.slice_n && g_exc == 0 : g_exc != 0));
#ifdef RANGE
static PyObject* PyPointlessVector_range(PyPointlessVector* self)
	PTV_REQUIRES(self == &g_v && WF && g_exc == 0 && g_nat == 0 && g_ntuple == 0)
	PTV_ASSIGNS(g_exc, g_ntuple, g_nat)
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 : g_v.slice_n > 0 && g_ntuple == 1 && g_nat == 2 && PTV_RET == &g_made && g_exc == 0);
#else
static PyObject* PyPointlessVector_max(PyPointlessVector* self)
	PTV_REQUIRES(self == &g_v && WF && g_exc == 0 && g_nmade == 0)
	PTV_ASSIGNS(g_nmade, g_made_kind, g_made_num, g_made_dbl, g_exc, g_want, g_nvalue, g_value_at)
	PTV_ENSURES((PTV_RET != 0) == (g_v.slice_n > 0 && !g_fail_make) && (PTV_RET ? g_want == g_max && PTV_RET == &g_made : g_exc != 0));
static PyObject* PyPointlessVector_min(PyPointlessVector* self)
	PTV_REQUIRES(self == &g_v && WF && g_exc == 0 && g_nmade == 0)
	PTV_ASSIGNS(g_nmade, g_made_kind, g_made_num, g_made_dbl, g_exc, g_want, g_nvalue, g_value_at)
	PTV_ENSURES((PTV_RET != 0) == (g_v.slice_n > 0 && !g_fail_make) && (PTV_RET ? g_want == g_min && PTV_RET == &g_made : g_exc != 0));
#endif
#elif !defined(ANYTYPE)
#if TY <= 8
#define CELL(i) (((T_(TY)*)ITEM(0))[i])
#else
#define CELL(i) 0
#endif
static int PyPointlessVector_min_max(PyPointlessVector* self, size_t* min_i_out, size_t* max_i_out)
	PTV_REQUIRES(self == &g_v && WF && g_exc == 0)
	PTV_ASSIGNS(*min_i_out, *max_i_out, g_exc)
	PTV_ENSURES(PTV_RET == (TY <= 8 && g_v.slice_n > 0) && (PTV_RET ? g_exc == 0 && *min_i_out < g_v.slice_n && *max_i_out < g_v.slice_n : g_exc == PyExc_ValueError || (TY == 11 && g_v.slice_n > 0)))
	PTV_ENSURES(!PTV_RET || gk >= g_v.slice_n || (!(CELL(*min_i_out) > CELL(gk)) && !(CELL(gk) > CELL(*max_i_out))));
#endif
#ifdef BISECT
/* everything before the position is smaller and nothing from it on is, as far as the neighbours tell: in a sorted vector this is the leftmost place */
static int g_tuple_ok;
#define GOOD (g_tuple_ok && g_kind == PY_LONG && g_num >= 0 && g_num <= UINT64_MAX && TY == 8)
#define U(i) (((uint64_t*)ITEM(0))[i])
static PyObject* PyPointlessVector_bisect_left(PyPointlessVector* self, PyObject* args)
	PTV_REQUIRES(self == &g_v && WF && args == g_args && g_exc == 0 && g_nmade == 0)
	PTV_ASSIGNS(g_exc, g_nmade, g_made_kind, g_made_num, g_made_dbl)
	PTV_ENSURES((PTV_RET != 0) == (GOOD && !g_fail_make) && (PTV_RET == 0 || (PTV_RET == &g_made && g_exc == 0)) && (GOOD || g_exc == PyExc_ValueError))
	PTV_ENSURES(PTV_RET == 0 || (g_made_kind == PY_LONG && 0 <= g_made_num && g_made_num <= N && (g_made_num == 0 || U((size_t)g_made_num - 1) < g_num) && (g_made_num == N || U((size_t)g_made_num) >= g_num)));
#endif

/* ------------------------------------------------------------ harnesses */
static void setup(void)
{
	g_kind = ptv_range(1, 3);
	{ num_t n; __CPROVER_assume(n > -((num_t)1 << 126) && n < ((num_t)1 << 126)); g_num = g_in = n; }
	{ double d; g_dbl = d; __CPROVER_assume(d == d); }
	py_setup();
	g_fail_make = ptv_range(0, 1); g_alloc_fails = ptv_range(0, 1);
#ifdef ANYTYPE
	g_ty = ptv_range(0, 11);
#endif
	g_v.ob_base.ob_refcnt = g_w.ob_base.ob_refcnt = g_pp.ob_base.ob_refcnt = g_other.ob_refcnt = g_oa.ob_refcnt = g_ob.ob_refcnt = g_comp.ob_refcnt = g_str.ob_refcnt = _Py_IMMORTAL_REFCNT;
	PyPointlessVectorType.tp_alloc = sv_alloc;
	g_v.ob_base.ob_type = g_w.ob_base.ob_type = &PyPointlessVectorType; g_other.ob_type = &py_other_type;
	g_total = PTV_U32(); g_v.slice_i = PTV_U32(); g_v.slice_n = PTV_U32();
	g_v.pp = &g_pp; g_v.v.type = VTYPE(TY);
	g_w.slice_i = PTV_U32(); g_w.slice_n = PTV_U32(); g_w.pp = &g_pq;
	__CPROVER_assume((uint64_t)g_v.slice_i + g_v.slice_n <= g_total && (TY != 11 || g_total == 0));
	g_base = malloc((size_t)g_total * VSIZE(TY));
	__CPROVER_assume(g_base != 0);
	gk = PTV_U32();
#ifdef CMP
	g_wtotal = PTV_U32();
	__CPROVER_assume((uint64_t)g_w.slice_i + g_w.slice_n <= g_wtotal);
	g_wbase = malloc((size_t)g_wtotal * sizeof(pointless_value_t));
	__CPROVER_assume(g_wbase != 0);
	g_w.v.type = POINTLESS_VECTOR_VALUE;
#endif
	g_pp.n_vector_refs &= 0xFFFFFF;
	_Py_NotImplementedStruct.ob_refcnt = _Py_IMMORTAL_REFCNT;
	g_cid = PTV_U32(); g_hashable = ptv_range(0, 1);
	g_nread = g_ncmp = g_nfill = g_ncomp = g_nat = g_nnew = g_nvalue = 0; g_found = g_failed = g_differ = g_cmp_failed = 0;
}
#endif

#define H(name, ...) void name(void) { PTV_CBMC_ONLY(setup(); __VA_ARGS__; PTV_REACH();) }
#if !defined(CMP)
void h_get(void)
{
#if defined(PTV_CBMC) && !defined(ANYTYPE)
	uint32_t i;
	setup();
	PTV_ASSUME(i < g_v.slice_n);
	g_want = i;
	PTV_ASSUME(TY != 6 || *(float*)ITEM(i) == *(float*)ITEM(i));
	if (PyPointlessVector_subscript_priv(&g_v, i))
		PTV_CHECK(TY == 9 || TY == 10 ? g_nvalue == 1 && g_value_at == (pointless_value_t*)ITEM(i) : TY == 6 ? g_made_kind == PY_FLOAT && f32_bits(g_made_dbl) == F32(ITEM(i)) : g_made_kind == PY_LONG && g_made_num == RD(TY, ITEM(i)), "the object is the item");
	PTV_REACH();
#endif
}
H(h_contains, PyPointlessVector_contains(&g_v, &g_other))
#endif
H(h_check_index, { Py_ssize_t i; g_is_index = ptv_range(0, 1); g_index_fails = ptv_range(0, 1); PyPointlessVector_check_index(&g_v, &g_ix, &i); })
#ifdef CALLER
H(h_item, { Py_ssize_t i; PyPointlessVector_item(&g_v, i); })
H(h_subscript, { g_nslice = 0; g_is_index = ptv_range(0, 1); g_index_fails = ptv_range(0, 1); g_slice_fails = ptv_range(0, 1); g_start = PTV_I64(); g_stop = PTV_I64(); g_step = PTV_I64(); PyPointlessVector_subscript(&g_v, ptv_range(0, 1) ? &g_ix : &g_slice); })
H(h_iternext, { g_it.vector = ptv_range(0, 1) ? &g_v : 0; g_it.iter_state = PTV_U32(); PyPointlessVectorIter_iternext(&g_it); })
H(h_reviternext, { g_rit.vector = ptv_range(0, 1) ? &g_v : 0; g_rit.iter_state = PTV_U32(); PyPointlessVectorRevIter_iternext(&g_rit); })
#endif
#ifdef SLICE
H(h_slice, { Py_ssize_t a; Py_ssize_t b; PyPointlessVector_slice(&g_v, a, b); })
#endif
#ifdef NEW
H(h_new, { uint32_t i; uint32_t n; PTV_ASSUME((uint64_t)i + n <= UINT32_MAX); PyPointlessVector_New(&g_pp, &g_v.v, i, n); })
#endif
H(h_iter, PyPointlessVector_iter((PyObject*)&g_v))
H(h_rev_iter, PyPointlessVector_rev_iter((PyObject*)&g_v))
#if defined(CMP) && !defined(RANGE)
H(h_cmp, { int op; PTV_ASSUME(op >= Py_LT && op <= Py_GE); g_op = op; PyPointlessVector_richcompare(WHO == 1 ? &g_other : (PyObject*)&g_v, WHO == 2 ? &g_other : (PyObject*)&g_w, op); })
#endif
void h_typecode(void)
{
#ifdef PTV_CBMC
	setup();
	if (PyPointlessVector_get_typecode(&g_v, 0)) {
		uint32_t k;
		for (k = 0; k < 4; k++) { PTV_CHECK(g_code[k] == CODE(TY)[k], "the code of the type"); if (!g_code[k]) break; }
	}
	PTV_REACH();
#endif
}
H(h_getbuffer, { int f; g_fill_ret = ptv_range(0, 1) ? 0 : -1; PyPointlessVector_getbuffer(&g_v, ptv_range(0, 1) ? &g_view : 0, f); })
#if defined(MM) && defined(RANGE)
H(h_range, { g_ntuple = 0; g_min = PTV_U64(); g_max = PTV_U64(); PyPointlessVector_range(&g_v); })
#elif defined(MM)
H(h_max, { g_min = PTV_U64(); g_max = PTV_U64(); PyPointlessVector_max(&g_v); })
H(h_min, { g_min = PTV_U64(); g_max = PTV_U64(); PyPointlessVector_min(&g_v); })
#elif !defined(ANYTYPE)
H(h_min_max, { size_t a; size_t b; PyPointlessVector_min_max(&g_v, &a, &b); })
#endif
#ifdef BISECT
static PyTypeObject g_tuple_type; static PyTupleObject g_tuple;
H(h_bisect, { g_tuple_ok = ptv_range(0, 1); g_tuple_type.tp_flags = Py_TPFLAGS_TUPLE_SUBCLASS; g_tuple.ob_base.ob_base.ob_type = &g_tuple_type; g_tuple.ob_base.ob_size = g_tuple_ok ? 1 : ptv_range(0, 1) * 2; g_tuple.ob_item[0] = &g_n; g_args = (PyObject*)&g_tuple; g_x = (uint64_t)g_num; PyPointlessVector_bisect_left(&g_v, g_args); })
#endif

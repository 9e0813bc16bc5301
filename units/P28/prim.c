/*PTV
{
 "functions": ["PyPointlessPrimVector_subscript_priv", "PyPointlessPrimVector_check_index", "PyPointlessPrimVector_subscript", "PyPointlessPrimVector_item", "PyPointlessPrimVector_index_f", "PyPointlessPrimVector_index_i_i", "PyPointlessPrimVector_index_i_u", "PyPointlessPrimVector_index_", "PyPointlessPrimVector_contains", "PyPointlessPrimVector_index", "PyPointlessPrimVector_pop", "PyPointlessPrimVector_pop_bulk", "PyPointlessPrimVector_remove", "PyPointlessPrimVector_fast_remove", "PyPointlessPrimVector_clear", "PyPointlessPrimVector_can_resize", "PointlessPrimVector_getbuffer", "PointlessPrimVector_releasebuffer", "PyPointlessPrimVector_min_max", "PyPointlessPrimVector_max", "PyPointlessPrimVector_min", "PyPointlessPrimVector_slice", "PyPointlessPrimVector_append_bulk", "PyPointlessPrimVector_serialize", "PyPointlessPrimVectorIter_iternext", "PyPointlessPrimVectorRevIter_iternext", "PyPointlessPrimVector_sort", "prim_sort_cmp_*", "prim_sort_swap_*", "pointless_dynarray_swap", "pointless_dynarray_pop", "pointless_dynarray_item_at"],
 "assumptions": ["CPython is modelled by lib/py.h (documented behaviour of the number, slice, index and argument functions; reference counts are not modelled)", "vectors hold at most 2^32-1 items", "pointless_dynarray_push by its contract (property P14)", "bentley_sort_ by property P15", "the shifting loop of remove() is proved for 8- and 16-bit items (32-bit in the thorough tier; 64-bit and float items by execution only)"],
 "cflags": ["-I/usr/include/python3.12", "-I/repo"],
 "contracts": [
  {"id": "subscript_priv", "harness": "h_get", "enforce": "PyPointlessPrimVector_subscript_priv"},
  {"id": "check_index", "harness": "h_check_index", "enforce": "PyPointlessPrimVector_check_index"},
  {"id": "item", "harness": "h_item", "enforce": "PyPointlessPrimVector_item", "replace": ["PyPointlessPrimVector_subscript_priv"]},
  {"id": "subscript", "harness": "h_subscript", "enforce": "PyPointlessPrimVector_subscript", "replace": ["PyPointlessPrimVector_subscript_priv", "PyPointlessPrimVector_slice", "PyPointlessPrimVector_check_index"], "defs": ["SUBSCRIPT"]},
  {"id": "pop", "harness": "h_pop", "enforce": "PyPointlessPrimVector_pop", "replace": ["PyPointlessPrimVector_subscript_priv"]},
  {"id": "pop_bulk", "harness": "h_pop_bulk", "enforce": "PyPointlessPrimVector_pop_bulk", "loops": true},
  {"id": "clear", "harness": "h_clear", "enforce": "PyPointlessPrimVector_clear"},
  {"id": "getbuffer", "harness": "h_getbuffer", "enforce": "PointlessPrimVector_getbuffer"},
  {"id": "releasebuffer", "harness": "h_releasebuffer", "enforce": "PointlessPrimVector_releasebuffer"},
  {"id": "index_f", "harness": "h_index_f", "enforce": "PyPointlessPrimVector_index_f", "loops": true, "defs": ["TY=6"]},
  {"id": "index_ii", "harness": "h_index_ii", "enforce": "PyPointlessPrimVector_index_i_i", "loops": true, "variants": ["TY=0", "TY=2", "TY=4", "TY=7", "TY=1"]},
  {"id": "index_iu", "harness": "h_index_iu", "enforce": "PyPointlessPrimVector_index_i_u", "loops": true, "variants": ["TY=0", "TY=1", "TY=2", "TY=3", "TY=4", "TY=5", "TY=7", "TY=8"]},
  {"id": "index_", "harness": "h_index_", "enforce": "PyPointlessPrimVector_index_", "replace": ["PyPointlessPrimVector_index_f", "PyPointlessPrimVector_index_i_i", "PyPointlessPrimVector_index_i_u", "parse_pyobject_number"], "defs": ["CALLER"]},
  {"id": "contains", "harness": "h_contains", "enforce": "PyPointlessPrimVector_contains", "replace": ["PyPointlessPrimVector_index_f", "PyPointlessPrimVector_index_i_i", "PyPointlessPrimVector_index_i_u", "parse_pyobject_number"], "defs": ["CALLER"]},
  {"id": "remove", "harness": "h_remove", "enforce": "PyPointlessPrimVector_remove", "replace": ["PyPointlessPrimVector_index_"], "loops": true, "solver": "cadical", "defs": ["REMOVE"], "variants": ["TY=1", "TY=3"], "timeout": 150},
  {"id": "remove32", "harness": "h_remove", "enforce": "PyPointlessPrimVector_remove", "replace": ["PyPointlessPrimVector_index_"], "loops": true, "solver": "cadical", "defs": ["REMOVE", "TY=5"], "thorough": true, "timeout": 300},
  {"id": "fast_remove", "harness": "h_fast_remove", "enforce": "PyPointlessPrimVector_fast_remove", "replace": ["PyPointlessPrimVector_index_"], "defs": ["REMOVE"], "variants": ["TY=1", "TY=3", "TY=5", "TY=8"]},
  {"id": "min_max", "harness": "h_min_max", "enforce": "PyPointlessPrimVector_min_max", "loops": true, "variants": ["TY=0", "TY=1", "TY=2", "TY=3", "TY=4", "TY=5", "TY=6", "TY=7", "TY=8"]},
  {"id": "max", "harness": "h_max", "enforce": "PyPointlessPrimVector_max", "replace": ["PyPointlessPrimVector_min_max", "PyPointlessPrimVector_subscript_priv"], "defs": ["CALLER"]},
  {"id": "min", "harness": "h_min", "enforce": "PyPointlessPrimVector_min", "replace": ["PyPointlessPrimVector_min_max", "PyPointlessPrimVector_subscript_priv"], "defs": ["CALLER"]},
  {"id": "slice", "harness": "h_slice", "enforce": "PyPointlessPrimVector_slice", "loops": true, "defs": ["PUSH"], "variants": ["TY=1", "TY=3", "TY=5", "TY=8"]},
  {"id": "append_bulk", "harness": "h_append_bulk", "enforce": "PyPointlessPrimVector_append_bulk", "replace": ["PyPointlessPrimVector_append_item"], "loops": true, "defs": ["PUSH", "BULK"], "variants": ["TY=0", "TY=1", "TY=2", "TY=3", "TY=4", "TY=5", "TY=6", "TY=7", "TY=8"]},
  {"id": "serialize", "harness": "h_serialize", "enforce": "PyPointlessPrimVector_serialize", "unwind": 10},
  {"id": "iternext", "harness": "h_iternext", "enforce": "PyPointlessPrimVectorIter_iternext", "replace": ["PyPointlessPrimVector_subscript_priv"]},
  {"id": "reviternext", "harness": "h_reviternext", "enforce": "PyPointlessPrimVectorRevIter_iternext", "replace": ["PyPointlessPrimVector_subscript_priv"]}
 ],
 "complete": [
  {"id": "table", "harness": "h_table", "unwind": 12, "timeout": 60},
  {"id": "sort_calls", "harness": "h_sort", "timeout": 60},
  {"id": "sort_cmp", "harness": "h_sort_cmp", "variants": ["TY=0 FN=i8", "TY=1 FN=u8", "TY=2 FN=i16", "TY=3 FN=u16", "TY=4 FN=i32", "TY=5 FN=u32", "TY=6 FN=f", "TY=7 FN=i64", "TY=8 FN=u64"], "timeout": 60}
 ]
}
PTV*/
#include "ptv.h"
#ifndef TY
#define TY g_ty
#define ANYTYPE
#endif
#ifdef PTV_CBMC
#include "py.h"
#include "prim.h"

static uint8_t g_ty;
static PyPointlessPrimVector g_v;
static size_t g_n0;       /* the number of items at entry */
static size_t gk, gi;     /* arbitrary positions */
static void* g_base;      /* the items */
#define ITEM(t, i) ((char*)g_base + (size_t)(i) * TSIZE(t))
#define NMAX ((size_t)UINT32_MAX)
#define WF (g_v.array.n_items <= NMAX && g_v.array.item_size == TSIZE(TY) && g_v.type == TY && g_v.array._data == g_base)
#define SAMEV (g_v.array.n_items == g_n0 && g_v.array._data == g_base && g_v.array.item_size == TSIZE(TY) && g_v.type == TY)

#if defined(PUSH)
/* push, by its contract: the item is copied behind the others, or nothing changes */
static pointless_dynarray_t* g_dst; static const void* g_src; static size_t g_srcsize; static size_t g_npush; static void* g_num_at;
static int pv_push(pointless_dynarray_t* a, void* p)
{
	PTV_CHECK(a == g_dst, "push to the result");
	/* the items arrive in order */
	PTV_CHECK(g_num_at != 0 ? p == g_num_at : p == (char*)g_src + g_npush * TSIZE(TY), "the next item is pushed");
	if (nondet_ptv_u64() & 1) return 0;
	g_npush++;
	a->n_items++;
	return 1;
}
#define pointless_dynarray_push pv_push
#endif
void* pv_memcpy(void* d, const void* s, size_t n);
#define memcpy pv_memcpy
/* objects */
static PyPointlessPrimVector g_new; static int g_new_fails;
PyObject* _PyObject_New(PyTypeObject* t) { if (g_new_fails) { g_exc = PyExc_MemoryError; return 0; } g_new.ob_base.ob_refcnt = _Py_IMMORTAL_REFCNT; g_new.ob_base.ob_type = t; return (PyObject*)&g_new; }
void _Py_Dealloc(PyObject* o) { }
/* buffers */
static Py_buffer g_view; static int g_fill_ret; static int g_nfill;
int PyBuffer_FillInfo(Py_buffer* v, PyObject* o, void* p, Py_ssize_t len, int ro, int flags)
{
	PTV_CHECK(v == &g_view && o == (PyObject*)&g_v && p == g_base && len == g_n0 * TSIZE(TY) && ro == 0, "the buffer is the items");
	g_nfill++;
	return g_fill_ret;
}
static char* g_mem; static size_t g_memsize; static PyObject g_bytes; static int g_nbytes, g_ncopy; static void* g_freed;
void* pointless_malloc(size_t n) { char* r; if (nondet_ptv_u64() & 1) return 0; r = malloc(n); __CPROVER_assume(r != 0); g_mem = r; g_memsize = n; return r; }
void pointless_free(void* p) { g_freed = p; }
void* pointless_realloc(void* p, size_t n) { PTV_CHECK(0, "no reallocation"); return 0; }
PyObject* PyByteArray_FromStringAndSize(const char* p, Py_ssize_t n)
{
	PTV_CHECK(p == g_mem && n == g_memsize && n == 8 + g_n0 * TSIZE(TY), "the bytes are the buffer");
	PTV_CHECK(((const uint32_t*)p)[0] == TY && ((const uint32_t*)p)[1] == g_n0, "type and length come first");
	PTV_CHECK(g_ncopy == 1, "and then the items");
	g_nbytes++;
	return &g_bytes;
}
#ifdef BULK
/* the iterator: an unknown number of objects, then the end or an error */
static PyObject g_iterator, g_other; static size_t g_yield; static int g_iter_fails;
PyObject* PyObject_GetIter(PyObject* o) { PTV_CHECK(o == &g_other, "iterates over the argument"); if (g_iter_fails) { g_exc = PyExc_TypeError; return 0; } return &g_iterator; }
PyObject* PyIter_Next(PyObject* o)
{
	PTV_CHECK(o == &g_iterator && g_exc == 0, "next of the iterator");
	if (nondet_ptv_u64() & 1) return &g_n;
	if (nondet_ptv_u64() & 1) g_exc = PyExc_KeyError;
	return 0;
}
static PyPointlessPrimVector g_o; static PyPointlessVector g_p; static PyPointless g_pp;
PyTypeObject PyPointlessVectorType;
static void* g_stored;
static void* rd_stored(pointless_t* p, pointless_value_t* v, uint32_t t) { PTV_CHECK(p == &g_pp.p && v == &g_p.v && v->type == t, "reads the stored vector"); return g_stored; }
#define PTV_LOOP_pv_bulk_prim(i, n_items, n_append, number, j) __CPROVER_assigns(i, j, n_append, number, g_npush, g_exc, g_num_at, g_v.array.n_items) \
	__CPROVER_loop_invariant(i <= n_items && n_append == i && g_npush == i && g_v.array.n_items == g_n0 + i && g_exc == 0)
#define PTV_LOOP_pv_bulk_stored(i, n_append, j) __CPROVER_assigns(i, j, n_append, g_npush, g_exc, g_v.array.n_items) \
	__CPROVER_loop_invariant(i <= g_p.slice_n && n_append == i && g_npush == i && g_v.array.n_items == g_n0 + i && g_exc == 0)
#define PTV_LOOP_pv_bulk_undo(j, n_append) __CPROVER_assigns(j, g_v.array.n_items) \
	__CPROVER_loop_invariant(j <= n_append && g_v.array.n_items == g_n0 + (n_append - j))
#define PTV_LOOP_pv_bulk_undo_iter(n_before) __CPROVER_assigns(g_v.array.n_items) \
	__CPROVER_loop_invariant(g_v.array.n_items >= g_n0 && n_before == g_n0)
#define PTV_LOOP_pv_bulk_iter(item, n_append) __CPROVER_assigns(item, n_append, g_yield, g_exc, g_v.array.n_items) \
	__CPROVER_loop_invariant(g_exc == 0 && g_v.array.n_items == g_n0 + g_yield && g_yield <= ((size_t)1 << 60))
#else
PyTypeObject PyPointlessVectorType;
#endif
#define PTV_LOOP_pv_pop_bulk(i, n) __CPROVER_assigns(i, g_v.array.n_items) __CPROVER_loop_invariant(0 <= i && (n < 0 ? i == 0 : i <= n) && g_v.array.n_items == g_n0 - i)
static float g_f; static int64_t g_si; static uint64_t g_ui;
#define NOTF(i) !(((float*)g_base)[i] == g_f)
#define NOTI(i) !(RD(TY, ITEM(TY, i)) == (num_t)g_si)
#define NOTU(i) !(RD(TY, ITEM(TY, i)) == (num_t)g_ui)
#define UNSIGNED(t) ((t) == 1 || (t) == 3 || (t) == 5 || (t) == 8)
#define PTV_LOOP_pv_index_f(i, n, a) __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= n && (gk >= i || NOTF(gk)))
#define PTV_LOOP_pv_index_ii(i, n, a) __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= n && (gk >= i || NOTI(gk)))
#define PTV_LOOP_pv_index_iu(i, n, a) __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= n && (gk >= i || NOTU(gk)))
static size_t g_r;
#ifdef REMOVE
static T_(TY) g_old_k, g_old_k1, g_old_r, g_old_last;
#endif
#define V(i) (((T_(TY)*)g_base)[i])
/* every item before the hole is in place, those between have moved down, the rest waits */
#ifdef REMOVE
#define PTV_LOOP_pv_remove(i) __CPROVER_assigns(i, __CPROVER_object_whole(g_base)) \
	__CPROVER_loop_invariant(g_r <= i && i <= g_n0 - 1 && V(i) == g_old_r) \
	__CPROVER_loop_invariant(gk >= g_n0 || gk == i || V(gk) == (gk < g_r || gk > i ? g_old_k : g_old_k1)) \
	__CPROVER_loop_invariant(gk + 1 >= g_n0 || gk + 1 <= i || V(gk + 1) == g_old_k1)
#endif
#define PTV_LOOP_pv_min_max(T, v, n, i, min_i, max_i) __CPROVER_assigns(i, min_i, max_i) \
	__CPROVER_loop_invariant(1 <= i && i <= n && min_i < i && max_i < i && (gk >= i || (!(((T*)v)[min_i] > ((T*)v)[gk]) && !(((T*)v)[gk] > ((T*)v)[max_i]))))
#ifdef PUSH
#define PTV_LOOP_pv_slice(i, slice_i, slice_n, pv) __CPROVER_assigns(i, g_npush, g_exc, g_new.array.n_items) __CPROVER_loop_invariant(i <= slice_n && g_npush == i && g_new.array.n_items == i && g_exc == 0)
#endif

/* sorting, by its contract: any comparisons and exchanges inside the vector */
static int g_nsort;
static int g_sort_n; static void* g_sort_cmp; static void* g_sort_swap;
#define bentley_sort_ pv_sort
static int pv_sort(int n, qsort_cmp_ cmp, qsort_swap_ swap, void* user) { g_nsort++; g_sort_n = n; g_sort_cmp = (void*)cmp; g_sort_swap = (void*)swap; PTV_CHECK(user == &g_v, "sorts the vector"); return 1; }
#define pointless_reader_vector_i8(p, v) rd_stored(p, v, POINTLESS_VECTOR_I8)
#define pointless_reader_vector_u8(p, v) rd_stored(p, v, POINTLESS_VECTOR_U8)
#define pointless_reader_vector_i16(p, v) rd_stored(p, v, POINTLESS_VECTOR_I16)
#define pointless_reader_vector_u16(p, v) rd_stored(p, v, POINTLESS_VECTOR_U16)
#define pointless_reader_vector_i32(p, v) rd_stored(p, v, POINTLESS_VECTOR_I32)
#define pointless_reader_vector_u32(p, v) rd_stored(p, v, POINTLESS_VECTOR_U32)
#define pointless_reader_vector_i64(p, v) rd_stored(p, v, POINTLESS_VECTOR_I64)
#define pointless_reader_vector_u64(p, v) rd_stored(p, v, POINTLESS_VECTOR_U64)
#define pointless_reader_vector_float(p, v) rd_stored(p, v, POINTLESS_VECTOR_FLOAT)
#ifndef BULK
static void* rd_stored(pointless_t* p, pointless_value_t* v, uint32_t t) { return 0; }
#endif
#include "/repo/python/pointless_prim_vector.c"
#undef pointless_dynarray_push
#undef memcpy
#include "/repo/src/pointless_dynarray.c"
void* pv_memcpy(void* d, const void* s, size_t n)
{
#ifdef BULK
	PTV_CHECK(n == TSIZE(TY) && s == (char*)g_src + g_npush * TSIZE(TY), "the next item is copied");
	g_num_at = d;
#else
	PTV_CHECK((char*)d == g_mem + 8 && s == g_base && n == g_n0 * TSIZE(TY), "the items are copied");
	g_ncopy++;
#endif
	return d;
}

/* ------------------------------------------------------------ contracts */
/* the made object is the item at i */
#define MADE(i) (TY == POINTLESS_PRIM_VECTOR_TYPE_FLOAT ? g_made_kind == PY_FLOAT && f32_bits(g_made_dbl) == F32(ITEM(TY, i)) : g_made_kind == PY_LONG && g_made_num == RD(TY, ITEM(TY, i)))
static size_t g_want;       /* the item asked for */
static PyObject* PyPointlessPrimVector_subscript_priv(PyPointlessPrimVector* self, uint32_t i)
	PTV_REQUIRES(self == &g_v && WF && i < g_v.array.n_items && g_exc == 0 && g_nmade == 0)
	PTV_ASSIGNS(g_nmade, g_made_kind, g_made_num, g_made_dbl, g_exc, g_want)
	PTV_ENSURES(PTV_RET == 0 || PTV_RET == &g_made)
	PTV_ENSURES(g_nmade == 1 && (PTV_RET == 0) == (g_exc != 0) && (PTV_RET == 0) == (g_fail_make != 0))
#if defined(NOWANT)
	;
#else
	PTV_ENSURES(g_want == i);
#endif
static num_t g_in;
#define IXOK (g_is_index && !g_index_fails && g_in >= -(num_t)g_n0 && g_in < (num_t)g_n0)
#define TARGET ((Py_ssize_t)(g_in < 0 ? g_in + (num_t)g_n0 : g_in))
static int PyPointlessPrimVector_check_index(PyPointlessPrimVector* self, PyObject* item, Py_ssize_t* i)
	PTV_REQUIRES(self == &g_v && WF && item == &g_ix && g_exc == 0 && g_num == g_in && g_v.array.n_items == g_n0)
	PTV_ASSIGNS(*i, g_exc)
	PTV_ENSURES(PTV_RET == (IXOK ? 1 : 0) && (PTV_RET ? *i == TARGET && g_exc == 0 : g_exc != 0))
	PTV_ENSURES(PTV_RET || !g_is_index || g_index_fails || g_exc == PyExc_IndexError);
static PyObject* PyPointlessPrimVector_item(PyPointlessPrimVector* self, Py_ssize_t i)
	PTV_REQUIRES(self == &g_v && WF && g_exc == 0 && g_nmade == 0 && g_v.array.n_items == g_n0 && (num_t)i == g_in)
	PTV_ASSIGNS(g_nmade, g_made_kind, g_made_num, g_made_dbl, g_exc, g_want)
	PTV_ENSURES((PTV_RET != 0) == (g_in >= -(num_t)g_n0 && g_in < (num_t)g_n0 && !g_fail_make))
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 : g_want == TARGET && g_exc == 0);
#ifdef SUBSCRIPT
static Py_ssize_t g_sl_lo, g_sl_hi; static int g_nslice;
#define CLIP(v) ((v) < 0 ? ((v) + (num_t)g_n0 < 0 ? 0 : (v) + (num_t)g_n0) : (v) > (num_t)g_n0 ? (num_t)g_n0 : (num_t)(v))
static PyObject* PyPointlessPrimVector_slice(PyPointlessPrimVector* self, Py_ssize_t ilow, Py_ssize_t ihigh)
	PTV_REQUIRES(self == &g_v && g_nslice == 0)
	PTV_ASSIGNS(g_sl_lo, g_sl_hi, g_nslice)
	PTV_ENSURES(g_nslice == 1 && g_sl_lo == ilow && g_sl_hi == ihigh && PTV_RET == (PyObject*)&g_new);
static PyObject* PyPointlessPrimVector_subscript(PyPointlessPrimVector* self, PyObject* item)
	PTV_REQUIRES(self == &g_v && WF && (item == &g_ix || item == &g_slice) && g_exc == 0 && g_num == g_in && g_v.array.n_items == g_n0 && g_nslice == 0 && g_nmade == 0)
	PTV_ASSIGNS(g_sl_lo, g_sl_hi, g_nslice, g_nmade, g_made_kind, g_made_num, g_made_dbl, g_exc, g_want)
	PTV_ENSURES(item != &g_slice || g_slice_fails || g_step != 1 || (PTV_RET == (PyObject*)&g_new && g_nslice == 1 && g_sl_lo == CLIP(g_start) && g_sl_hi == CLIP(g_stop)))
	PTV_ENSURES(item != &g_slice || (!g_slice_fails && g_step == 1) || (PTV_RET == 0 && g_exc != 0))
	PTV_ENSURES(item != &g_ix || ((PTV_RET != 0) == (IXOK && !g_fail_make) && (PTV_RET == 0 ? g_exc != 0 : g_want == TARGET && PTV_RET == &g_made)));
#endif
static PyObject* PyPointlessPrimVector_pop(PyPointlessPrimVector* self)
	PTV_REQUIRES(self == &g_v && WF && g_v.array.n_items == g_n0 && g_exc == 0 && g_nmade == 0)
	PTV_ASSIGNS(g_nmade, g_made_kind, g_made_num, g_made_dbl, g_exc, g_want, g_v.array.n_items)
	PTV_ENSURES((PTV_RET != 0) == (g_n0 > 0 && g_v.ob_exports <= 0 && !g_fail_make))
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 && g_v.array.n_items == g_n0 : g_want == g_n0 - 1 && g_v.array.n_items == g_n0 - 1 && PTV_RET == &g_made && g_exc == 0)
	PTV_ENSURES(g_n0 > 0 || g_exc == PyExc_IndexError);
static PyObject* PyPointlessPrimVector_pop_bulk(PyPointlessPrimVector* self, PyObject* args)
	PTV_REQUIRES(self == &g_v && WF && g_v.array.n_items == g_n0 && g_exc == 0 && args == g_args)
	PTV_ASSIGNS(g_exc, g_v.array.n_items)
	PTV_ENSURES((PTV_RET != 0) == (g_arg_ok && g_v.ob_exports <= 0 && (g_arg_ll < 0 || (uint64_t)g_arg_ll <= g_n0)))
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 && g_v.array.n_items == g_n0 : g_v.array.n_items == g_n0 - (g_arg_ll < 0 ? 0 : g_arg_ll) && g_exc == 0);
static PyObject* PyPointlessPrimVector_clear(PyPointlessPrimVector* self)
	PTV_REQUIRES(self == &g_v && WF && g_v.array.n_items == g_n0 && g_exc == 0)
	PTV_ASSIGNS(g_exc, g_v.array, g_freed)
	PTV_ENSURES((PTV_RET != 0) == (g_v.ob_exports <= 0))
	PTV_ENSURES(PTV_RET == 0 ? g_exc == PyExc_BufferError && SAMEV : g_v.array.n_items == 0 && g_v.array.n_alloc == 0 && g_v.array._data == 0 && g_v.array.item_size == TSIZE(TY) && g_freed == g_base);
static int PointlessPrimVector_getbuffer(PyPointlessPrimVector* obj, Py_buffer* view, int flags)
	PTV_REQUIRES(obj == &g_v && WF && g_v.array.n_items == g_n0 && (view == 0 || view == &g_view) && g_v.ob_exports >= 0 && g_v.ob_exports < INT_MAX && g_nfill == 0)
	PTV_ASSIGNS(g_v.ob_exports, g_nfill)
	PTV_ENSURES(view == 0 ? PTV_RET == 0 && g_v.ob_exports == PTV_OLD(g_v.ob_exports) + 1 : PTV_RET == g_fill_ret && g_nfill == 1 && g_v.ob_exports == PTV_OLD(g_v.ob_exports) + (PTV_RET >= 0 ? 1 : 0));
static void PointlessPrimVector_releasebuffer(PyPointlessPrimVector* obj, Py_buffer* view)
	PTV_REQUIRES(obj == &g_v && g_v.ob_exports > 0)
	PTV_ASSIGNS(g_v.ob_exports)
	PTV_ENSURES(g_v.ob_exports == PTV_OLD(g_v.ob_exports) - 1);
#ifdef CALLER
/* abstract: which search was made, and its result */
static size_t g_found; static int g_nsearch; static int g_search;
static size_t PyPointlessPrimVector_index_f(PyPointlessPrimVector* self, float v)
	PTV_REQUIRES(self == &g_v && g_nsearch == 0) PTV_ASSIGNS(g_nsearch, g_search, g_f)
	PTV_ENSURES(PTV_RET == g_found && g_nsearch == 1 && g_search == 1 && (g_f == v || v != v));
static size_t PyPointlessPrimVector_index_i_i(PyPointlessPrimVector* self, int64_t v)
	PTV_REQUIRES(self == &g_v && g_nsearch == 0 && v < 0) PTV_ASSIGNS(g_nsearch, g_search, g_si)
	PTV_ENSURES(PTV_RET == g_found && g_nsearch == 1 && g_search == 2 && g_si == v);
static size_t PyPointlessPrimVector_index_i_u(PyPointlessPrimVector* self, uint64_t v)
	PTV_REQUIRES(self == &g_v && g_nsearch == 0) PTV_ASSIGNS(g_nsearch, g_search, g_ui)
	PTV_ENSURES(PTV_RET == g_found && g_nsearch == 1 && g_search == 3 && g_ui == v);
static int parse_pyobject_number(PyObject* v, int* is_signed, int64_t* i, uint64_t* u)
	PTV_REQUIRES(v == &g_n && g_exc == 0)
	PTV_ASSIGNS(*is_signed, *i, *u, g_exc)
	PTV_ENSURES((PTV_RET == 1) == (g_kind == PY_LONG && g_num >= INT64_MIN && g_num <= UINT64_MAX))
	PTV_ENSURES(PTV_RET == 1 || PTV_RET == 0)
	PTV_ENSURES(PTV_RET ? g_exc == 0 && (*is_signed ? *i < 0 && *i == g_num : *u == g_num) && (*is_signed == 0 || *is_signed == 1) : g_exc == (g_kind == PY_LONG ? PyExc_ValueError : PyExc_TypeError));
/* the search made is for the number handed in */
#define INTSEARCH (g_kind == PY_LONG && g_num >= INT64_MIN && g_num <= UINT64_MAX)
#define SEARCHED (g_nsearch == 1 && (g_num < 0 ? g_search == 2 && g_si == g_num : g_search == 3 && g_ui == g_num))
static PyTupleObject g_tuple;
static size_t PyPointlessPrimVector_index_(PyPointlessPrimVector* self, PyObject* args, const char* func)
	PTV_REQUIRES(self == &g_v && args == g_args && g_exc == 0 && g_nsearch == 0 && g_v.type == TY)
	PTV_ASSIGNS(g_exc, g_nsearch, g_search, g_f, g_si, g_ui)
	PTV_ENSURES(TY != POINTLESS_PRIM_VECTOR_TYPE_FLOAT || (g_arg_ok ? g_nsearch == 1 && g_search == 1 && (g_f == g_arg_f || g_arg_f != g_arg_f) : PTV_RET == SIZE_MAX - 1 && g_exc != 0))
	PTV_ENSURES(TY == POINTLESS_PRIM_VECTOR_TYPE_FLOAT || (INTSEARCH ? SEARCHED : PTV_RET == SIZE_MAX - 1 && g_exc != 0))
	PTV_ENSURES(g_nsearch == 0 || (g_found == SIZE_MAX ? PTV_RET == SIZE_MAX - 1 && g_exc == PyExc_ValueError : PTV_RET == g_found && g_exc == 0));
static int PyPointlessPrimVector_contains(PyPointlessPrimVector* self, PyObject* b)
	PTV_REQUIRES(self == &g_v && b == &g_n && g_exc == 0 && g_nsearch == 0 && g_v.type == TY)
	PTV_ASSIGNS(g_exc, g_nsearch, g_search, g_f, g_si, g_ui)
	PTV_ENSURES(PTV_RET == (g_nsearch == 1 && g_found != SIZE_MAX) && g_exc == 0)
	PTV_ENSURES(TY == POINTLESS_PRIM_VECTOR_TYPE_FLOAT || (INTSEARCH ? SEARCHED : g_nsearch == 0))
	PTV_ENSURES(TY != POINTLESS_PRIM_VECTOR_TYPE_FLOAT || (g_kind == PY_FLOAT ? g_nsearch == 1 && g_search == 1 && g_f == (float)g_dbl : INTSEARCH ? g_nsearch == 1 && g_search == 1 && g_f == (g_num < 0 ? (float)(int64_t)g_num : (float)(uint64_t)g_num) : g_nsearch == 0));
#elif defined(REMOVE)
static size_t PyPointlessPrimVector_index_(PyPointlessPrimVector* self, PyObject* args, const char* func)
	PTV_REQUIRES(self == &g_v && args == g_args && g_exc == 0)
	PTV_ASSIGNS(g_exc)
	PTV_ENSURES(PTV_RET == g_r && (PTV_RET == SIZE_MAX - 1 ? g_exc != 0 : g_exc == 0));
static PyObject* PyPointlessPrimVector_remove(PyPointlessPrimVector* self, PyObject* args)
	PTV_REQUIRES(self == &g_v && WF && g_v.array.n_items == g_n0 && args == g_args && g_exc == 0)
	PTV_ASSIGNS(g_exc, g_v.array.n_items, __CPROVER_object_whole(g_base))
	PTV_ENSURES((PTV_RET != 0) == (g_v.ob_exports <= 0 && g_r < g_n0))
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 && g_v.array.n_items == g_n0 && (gk >= g_n0 || V(gk) == g_old_k)
		: g_v.array.n_items == g_n0 - 1 && g_exc == 0 && (gk >= g_n0 - 1 || V(gk) == (gk < g_r ? g_old_k : g_old_k1)));
static PyObject* PyPointlessPrimVector_fast_remove(PyPointlessPrimVector* self, PyObject* args)
	PTV_REQUIRES(self == &g_v && WF && g_v.array.n_items == g_n0 && args == g_args && g_exc == 0)
	PTV_ASSIGNS(g_exc, g_v.array.n_items, __CPROVER_object_whole(g_base))
	PTV_ENSURES((PTV_RET != 0) == (g_v.ob_exports <= 0 && g_r < g_n0))
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 && g_v.array.n_items == g_n0 && (gk >= g_n0 || V(gk) == g_old_k)
		: g_v.array.n_items == g_n0 - 1 && g_exc == 0 && (gk >= g_n0 - 1 || V(gk) == (gk == g_r ? g_old_last : g_old_k)));
#else
static size_t PyPointlessPrimVector_index_f(PyPointlessPrimVector* self, float v)
	PTV_REQUIRES(self == &g_v && WF && g_v.array.n_items == g_n0 && v == g_f)
	PTV_ASSIGNS()
	PTV_ENSURES(PTV_RET == SIZE_MAX ? gk >= g_n0 || NOTF(gk) : PTV_RET < g_n0 && !NOTF(PTV_RET) && (gk >= PTV_RET || NOTF(gk)));
static size_t PyPointlessPrimVector_index_i_i(PyPointlessPrimVector* self, int64_t v)
	PTV_REQUIRES(self == &g_v && WF && g_v.array.n_items == g_n0 && v == g_si && v < 0)
	PTV_ASSIGNS()
	PTV_ENSURES(PTV_RET == SIZE_MAX ? gk >= g_n0 || NOTI(gk) : PTV_RET < g_n0 && !NOTI(PTV_RET) && (gk >= PTV_RET || NOTI(gk)));
static size_t PyPointlessPrimVector_index_i_u(PyPointlessPrimVector* self, uint64_t v)
	PTV_REQUIRES(self == &g_v && WF && g_v.array.n_items == g_n0 && v == g_ui)
	PTV_ASSIGNS()
	PTV_ENSURES(PTV_RET == SIZE_MAX ? gk >= g_n0 || NOTU(gk) : PTV_RET < g_n0 && !NOTU(PTV_RET) && (gk >= PTV_RET || NOTU(gk)));
#endif
#ifdef CALLER
static size_t g_min, g_max;
static int PyPointlessPrimVector_min_max(PyPointlessPrimVector* self, size_t* min_i_out, size_t* max_i_out)
	PTV_REQUIRES(self == &g_v && WF && g_exc == 0 && g_v.array.n_items == g_n0)
	PTV_ASSIGNS(*min_i_out, *max_i_out, g_exc)
	PTV_ENSURES(PTV_RET == (g_n0 > 0) && (PTV_RET ? *min_i_out == g_min && *max_i_out == g_max && g_min < g_n0 && g_max < g_n0 && g_exc == 0 : g_exc != 0));
static PyObject* PyPointlessPrimVector_max(PyPointlessPrimVector* self)
	PTV_REQUIRES(self == &g_v && WF && g_exc == 0 && g_v.array.n_items == g_n0 && g_nmade == 0)
	PTV_ASSIGNS(g_nmade, g_made_kind, g_made_num, g_made_dbl, g_exc, g_want)
	PTV_ENSURES((PTV_RET != 0) == (g_n0 > 0 && !g_fail_make) && (PTV_RET ? g_want == g_max && PTV_RET == &g_made : g_exc != 0));
static PyObject* PyPointlessPrimVector_min(PyPointlessPrimVector* self)
	PTV_REQUIRES(self == &g_v && WF && g_exc == 0 && g_v.array.n_items == g_n0 && g_nmade == 0)
	PTV_ASSIGNS(g_nmade, g_made_kind, g_made_num, g_made_dbl, g_exc, g_want)
	PTV_ENSURES((PTV_RET != 0) == (g_n0 > 0 && !g_fail_make) && (PTV_RET ? g_want == g_min && PTV_RET == &g_made : g_exc != 0));
#elif !defined(ANYTYPE)
#define CELL(i) (((T_(TY)*)g_base)[i])
#define NUM(i) (CELL(i) == CELL(i))
static int PyPointlessPrimVector_min_max(PyPointlessPrimVector* self, size_t* min_i_out, size_t* max_i_out)
	PTV_REQUIRES(self == &g_v && WF && g_exc == 0 && g_v.array.n_items == g_n0)
	PTV_ASSIGNS(*min_i_out, *max_i_out, g_exc)
	PTV_ENSURES(PTV_RET == (g_n0 > 0) && (PTV_RET ? g_exc == 0 && *min_i_out < g_n0 && *max_i_out < g_n0 : g_exc == PyExc_ValueError))
	PTV_ENSURES(!PTV_RET || gk >= g_n0 || (!(CELL(*min_i_out) > CELL(gk)) && !(CELL(gk) > CELL(*max_i_out))));
#endif
#ifdef PUSH
#define LOW(a) ((a) < 0 ? 0 : (a) > (Py_ssize_t)g_n0 ? (Py_ssize_t)g_n0 : (a))
#define HIGH(a, b) ((b) < LOW(a) ? LOW(a) : (b) > (Py_ssize_t)g_n0 ? (Py_ssize_t)g_n0 : (b))
static Py_ssize_t g_lo, g_hi;
static PyObject* PyPointlessPrimVector_slice(PyPointlessPrimVector* self, Py_ssize_t ilow, Py_ssize_t ihigh)
	PTV_REQUIRES(self == &g_v && WF && g_v.array.n_items == g_n0 && g_exc == 0 && g_npush == 0 && g_dst == &g_new.array && ilow == g_lo && ihigh == g_hi)
	PTV_REQUIRES(g_src == ITEM(TY, LOW(g_lo)) && g_num_at == 0)
	PTV_ASSIGNS(g_exc, g_new, g_npush)
	PTV_ENSURES(PTV_RET == 0 || PTV_RET == (PyObject*)&g_new)
	PTV_ENSURES(PTV_RET == 0 ? g_exc == PyExc_MemoryError : g_exc == 0 && g_new.array.n_items == HIGH(g_lo, g_hi) - LOW(g_lo) && g_npush == g_new.array.n_items && g_new.type == TY && g_new.array.item_size == TSIZE(TY) && g_new.ob_exports == 0);
#endif
#ifdef BULK
static int g_what;      /* 0: any iterable, 1: a primitive vector, 2: a stored vector */
static PyObject* PyPointlessPrimVector_append_item(PyPointlessPrimVector* self, PyObject* item)
	PTV_REQUIRES(self == &g_v && item == &g_n && g_exc == 0)
	PTV_ASSIGNS(g_exc, g_v.array.n_items, g_yield)
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 && g_v.array.n_items == PTV_OLD(g_v.array.n_items) && g_yield == PTV_OLD(g_yield) : g_exc == 0 && g_v.array.n_items == PTV_OLD(g_v.array.n_items) + 1 && g_yield == PTV_OLD(g_yield) + 1 && g_yield <= ((size_t)1 << 60));
static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self, PyObject* args)
	PTV_REQUIRES(self == &g_v && WF && g_v.array.n_items == g_n0 && g_exc == 0 && args == g_args && g_npush == 0 && g_yield == 0 && g_dst == &g_v.array)
	PTV_ASSIGNS(g_exc, g_v.array.n_items, g_npush, g_yield, g_num_at)
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 && g_v.array.n_items == g_n0 : g_exc == 0 && g_arg_ok && g_v.ob_exports <= 0)
	PTV_ENSURES(PTV_RET == 0 || g_v.array.n_items == g_n0 + (g_what == 1 ? g_o.array.n_items : g_what == 2 ? g_p.slice_n : g_yield))
	PTV_ENSURES(g_v.ob_exports <= 0 || !g_arg_ok || g_exc == PyExc_BufferError);
#endif
static PyObject* PyPointlessPrimVector_serialize(PyPointlessPrimVector* self)
	PTV_REQUIRES(self == &g_v && WF && g_v.array.n_items == g_n0 && g_exc == 0 && g_nbytes == 0 && g_ncopy == 0)
	PTV_ASSIGNS(g_exc, g_nbytes, g_ncopy, g_freed, g_mem, g_memsize)
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 : PTV_RET == &g_bytes && g_nbytes == 1 && g_freed == g_mem);
static PyPointlessPrimVectorIter g_it; static PyPointlessPrimVectorRevIter g_rit;
#define IT_POST(it, pos) \
	PTV_ENSURES(PTV_OLD(it.vector) == 0 || PTV_OLD(it.iter_state) >= g_n0 ? PTV_RET == 0 && g_exc == 0 && it.vector == 0 : PTV_RET != 0 ? g_want == (pos) && it.iter_state == PTV_OLD(it.iter_state) + 1 && PTV_RET == &g_made && it.vector == &g_v : g_fail_make && g_exc != 0)
static PyObject* PyPointlessPrimVectorIter_iternext(PyPointlessPrimVectorIter* iter)
	PTV_REQUIRES(iter == &g_it && (g_it.vector == 0 || g_it.vector == &g_v) && WF && g_v.array.n_items == g_n0 && g_exc == 0 && g_nmade == 0)
	PTV_ASSIGNS(g_it.vector, g_it.iter_state, g_nmade, g_made_kind, g_made_num, g_made_dbl, g_exc, g_want)
	IT_POST(g_it, PTV_OLD(g_it.iter_state));
static PyObject* PyPointlessPrimVectorRevIter_iternext(PyPointlessPrimVectorRevIter* iter)
	PTV_REQUIRES(iter == &g_rit && (g_rit.vector == 0 || g_rit.vector == &g_v) && WF && g_v.array.n_items == g_n0 && g_exc == 0 && g_nmade == 0)
	PTV_ASSIGNS(g_rit.vector, g_rit.iter_state, g_nmade, g_made_kind, g_made_num, g_made_dbl, g_exc, g_want)
	IT_POST(g_rit, g_n0 - 1 - PTV_OLD(g_rit.iter_state));

/* ------------------------------------------------------------ harnesses */
/* the table of types (static data are unconstrained in a contract proof; h_table checks what it really contains) */
#define TYPE_OF(i) ((i) == 6 ? 7 : (i) == 7 ? 8 : (i) == 8 ? 6 : (i))
#define TABLE(i, name) (pointless_prim_vector_type_map[i].s = name, pointless_prim_vector_type_map[i].type = TYPE_OF(i), pointless_prim_vector_type_map[i].typesize = TSIZE(TYPE_OF(i)))
static void setup(void)
{
	g_kind = ptv_range(1, 3);
	{ num_t n; __CPROVER_assume(n > -((num_t)1 << 126) && n < ((num_t)1 << 126)); g_num = g_in = n; }
	{ double d; g_dbl = d; __CPROVER_assume(d == d); }
	py_setup();
	g_fail_make = ptv_range(0, 1);
#ifdef ANYTYPE
	g_ty = ptv_range(0, 8);
#endif
	g_v.ob_base.ob_refcnt = _Py_IMMORTAL_REFCNT;
	g_v.type = TY;
	{ int e; g_v.ob_exports = e; __CPROVER_assume(e >= 0); }
	g_n0 = ptv_range(0, NMAX);
	g_v.array.n_items = g_n0; g_v.array.item_size = TSIZE(TY);
	{ size_t na; __CPROVER_assume(na >= g_n0); g_v.array.n_alloc = na; }
	g_base = malloc(g_n0 * TSIZE(TY));
	__CPROVER_assume(g_base != 0);
	g_v.array._data = g_base;
	gk = ptv_nd(64);
	TABLE(0, "i8"); TABLE(1, "u8"); TABLE(2, "i16"); TABLE(3, "u16"); TABLE(4, "i32"); TABLE(5, "u32"); TABLE(6, "i64"); TABLE(7, "u64"); TABLE(8, "f");
	g_arg_ok = ptv_range(0, 1); { PyObject* a; g_args = a; } { long long l; g_arg_ll = l; } { float f; g_arg_f = f; }
	g_nfill = g_nbytes = g_ncopy = 0;
}
#endif

#define H(name, ...) void name(void) { PTV_CBMC_ONLY(setup(); __VA_ARGS__; PTV_REACH();) }
void h_get(void)
{
#ifdef PTV_CBMC
	uint32_t i;
	setup();
	PTV_ASSUME(i < g_n0);
	g_want = i;
	PTV_ASSUME(TY != 6 || ((float*)g_base)[i] == ((float*)g_base)[i]);
	if (PyPointlessPrimVector_subscript_priv(&g_v, i)) PTV_CHECK(MADE(i), "the object is the item");
	PTV_REACH();
#endif
}
H(h_check_index, { Py_ssize_t i; g_is_index = ptv_range(0, 1); g_index_fails = ptv_range(0, 1); PyPointlessPrimVector_check_index(&g_v, &g_ix, &i); })
H(h_item, { Py_ssize_t i; g_in = i; PyPointlessPrimVector_item(&g_v, i); })
#ifdef SUBSCRIPT
H(h_subscript, { g_nslice = 0; g_is_index = ptv_range(0, 1); g_index_fails = ptv_range(0, 1); g_slice_fails = ptv_range(0, 1); g_start = PTV_I64(); g_stop = PTV_I64(); g_step = PTV_I64(); PyPointlessPrimVector_subscript(&g_v, ptv_range(0, 1) ? &g_ix : &g_slice); })
#endif
H(h_pop, PyPointlessPrimVector_pop(&g_v))
H(h_pop_bulk, PyPointlessPrimVector_pop_bulk(&g_v, g_args))
H(h_clear, PyPointlessPrimVector_clear(&g_v))
H(h_getbuffer, { int f; g_fill_ret = ptv_range(0, 1) ? 0 : -1; g_v.ob_exports &= 0xFFFFFF; PointlessPrimVector_getbuffer(&g_v, ptv_range(0, 1) ? &g_view : 0, f); })
H(h_releasebuffer, { PTV_ASSUME(g_v.ob_exports > 0); PointlessPrimVector_releasebuffer(&g_v, &g_view); })
#if !defined(CALLER) && !defined(REMOVE)
H(h_index_f, { g_f = PTV_FLOAT(); PTV_ASSUME(g_f == g_f); PyPointlessPrimVector_index_f(&g_v, g_f); })
H(h_index_ii, { g_si = PTV_I64(); PTV_ASSUME(g_si < 0); PyPointlessPrimVector_index_i_i(&g_v, g_si); })
H(h_index_iu, { g_ui = PTV_U64(); PyPointlessPrimVector_index_i_u(&g_v, g_ui); })
#endif
#ifdef CALLER
static PyTypeObject g_tuple_type;
H(h_index_, { g_nsearch = 0; g_found = ptv_range(0, 1) ? SIZE_MAX : ptv_range(0, NMAX); g_tuple_type.tp_flags = Py_TPFLAGS_TUPLE_SUBCLASS; g_tuple.ob_base.ob_base.ob_type = &g_tuple_type; g_tuple.ob_base.ob_size = 1; g_tuple.ob_item[0] = &g_n; g_args = (PyObject*)&g_tuple; PyPointlessPrimVector_index_(&g_v, g_args, "index"); })
H(h_contains, { g_nsearch = 0; g_found = ptv_range(0, 1) ? SIZE_MAX : ptv_range(0, NMAX); PyPointlessPrimVector_contains(&g_v, &g_n); })
H(h_max, { g_min = PTV_U64(); g_max = PTV_U64(); PyPointlessPrimVector_max(&g_v); })
H(h_min, { g_min = PTV_U64(); g_max = PTV_U64(); PyPointlessPrimVector_min(&g_v); })
#endif
#ifdef REMOVE
static void rm_setup(void)
{
	PTV_ASSUME(g_n0 > 0);
	g_r = ptv_range(0, 1) ? SIZE_MAX - 1 : ptv_range(0, g_n0 - 1);
	PTV_ASSUME(gk <= NMAX);
	if (gk < g_n0) g_old_k = V(gk);
	if (gk + 1 < g_n0) g_old_k1 = V(gk + 1);
	if (g_r < g_n0) g_old_r = V(g_r);
	g_old_last = V(g_n0 - 1);
}
H(h_remove, { rm_setup(); PyPointlessPrimVector_remove(&g_v, g_args); })
H(h_fast_remove, { rm_setup(); PyPointlessPrimVector_fast_remove(&g_v, g_args); })
#endif
#if !defined(ANYTYPE) && !defined(CALLER)
H(h_min_max, { size_t a; size_t b; PyPointlessPrimVector_min_max(&g_v, &a, &b); })
#endif
#ifdef PUSH
H(h_slice, { g_npush = 0; g_num_at = 0; g_dst = &g_new.array; g_lo = PTV_I64(); g_hi = PTV_I64(); g_src = ITEM(TY, LOW(g_lo)); g_new_fails = ptv_range(0, 1); PyPointlessPrimVector_slice(&g_v, g_lo, g_hi); })
#endif
#ifdef BULK
H(h_append_bulk, {
	g_npush = 0; g_yield = 0; g_num_at = 0; g_dst = &g_v.array; g_iter_fails = ptv_range(0, 1);
	g_what = ptv_range(0, 2);
	g_other.ob_type = &py_other_type; g_other.ob_refcnt = g_iterator.ob_refcnt = _Py_IMMORTAL_REFCNT;
	g_o.ob_base.ob_type = &PyPointlessPrimVectorType; g_o.type = TY; g_o.array.n_items = ptv_range(0, NMAX); g_o.array.item_size = TSIZE(TY);
	g_p.ob_base.ob_type = &PyPointlessVectorType; g_p.pp = &g_pp; g_p.slice_i = PTV_U32(); g_p.slice_n = PTV_U32();
	PTV_ASSUME((uint64_t)g_p.slice_i + g_p.slice_n <= NMAX);
	g_p.v.type = TY == 0 ? POINTLESS_VECTOR_I8 : TY == 1 ? POINTLESS_VECTOR_U8 : TY == 2 ? POINTLESS_VECTOR_I16 : TY == 3 ? POINTLESS_VECTOR_U16 : TY == 4 ? POINTLESS_VECTOR_I32 : TY == 5 ? POINTLESS_VECTOR_U32 : TY == 6 ? POINTLESS_VECTOR_FLOAT : TY == 7 ? POINTLESS_VECTOR_I64 : POINTLESS_VECTOR_U64;
	g_stored = malloc(((size_t)g_p.slice_i + g_p.slice_n) * TSIZE(TY));
	g_o.array._data = malloc(g_o.array.n_items * TSIZE(TY));
	g_src = g_what == 1 ? g_o.array._data : (char*)g_stored + (size_t)g_p.slice_i * TSIZE(TY);
	g_arg = g_what == 1 ? (PyObject*)&g_o : g_what == 2 ? (PyObject*)&g_p : &g_other;
	PyPointlessPrimVector_append_bulk(&g_v, g_args); })
#endif
H(h_serialize, { PyPointlessPrimVector_serialize(&g_v); })
H(h_iternext, { g_it.vector = ptv_range(0, 1) ? &g_v : 0; g_it.iter_state = PTV_U32(); PyPointlessPrimVectorIter_iternext(&g_it); })
H(h_reviternext, { g_rit.vector = ptv_range(0, 1) ? &g_v : 0; g_rit.iter_state = PTV_U32(); PyPointlessPrimVectorRevIter_iternext(&g_rit); })
void h_table(void)
{
#if defined(PTV_CBMC) && defined(ANYTYPE)
	static const char* const names[] = {"i8", "u8", "i16", "u16", "i32", "u32", "f", "i64", "u64"};
	uint32_t i, seen = 0;
	PTV_CHECK(POINTLESS_PRIM_VECTOR_N_TYPES == 9, "nine types");
	for (i = 0; i < 9; i++) {
		uint32_t t = pointless_prim_vector_type_map[i].type, k;
		PTV_CHECK(t <= 8 && pointless_prim_vector_type_map[i].typesize == TSIZE(t), "size of the type");
		for (k = 0; k < 4; k++) {
			PTV_CHECK(pointless_prim_vector_type_map[i].s[k] == names[t][k], "name of the type");
			if (!names[t][k]) break;
		}
		seen |= 1u << t;
	}
	PTV_CHECK(seen == 0x1FF, "every type has an entry");
	for (i = 0; i <= 8; i++) { g_v.type = i; PTV_CHECK(PyPointlessPrimVector_type_size(&g_v) == TSIZE(i), "element size of the type"); }
	PTV_REACH();
#endif
}
void h_sort(void)
{
#if defined(PTV_CBMC) && defined(ANYTYPE)
	setup();
	g_nsort = 0;
	PTV_ASSUME(g_n0 <= INT_MAX);
	PTV_CHECK(PyPointlessPrimVector_sort(&g_v) == Py_None && g_nsort == 1 && g_sort_n == g_n0, "the whole vector is sorted");
#define PAIR(t, s) (TY != t || (g_sort_cmp == (void*)prim_sort_cmp_##s && g_sort_swap == (void*)prim_sort_swap_##s))
	PTV_CHECK(PAIR(0, i8) && PAIR(1, u8) && PAIR(2, i16) && PAIR(3, u16) && PAIR(4, i32) && PAIR(5, u32) && PAIR(6, f) && PAIR(7, i64) && PAIR(8, u64), "with the comparison and the exchange of its type");
	PTV_REACH();
#endif
}
void h_sort_cmp(void)
{
#if defined(PTV_CBMC) && defined(FN)
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
	int i, j, c;
	T_(TY) x, y, z;
	setup();
	PTV_ASSUME(i >= 0 && j >= 0 && i < g_n0 && j < g_n0);
	x = ((T_(TY)*)g_base)[i]; y = ((T_(TY)*)g_base)[j];
	if (gk < g_n0) z = ((T_(TY)*)g_base)[gk];
	PTV_ASSUME(x == x && y == y && (gk >= g_n0 || z == z));
	PTV_CHECK(CAT(prim_sort_cmp_, FN)(i, j, &c, &g_v) == 1, "comparison succeeds");
	PTV_CHECK(c == (x < y ? -1 : x > y ? 1 : 0), "comparison of the items");
	CAT(prim_sort_swap_, FN)(i, j, &g_v);
	PTV_CHECK(((T_(TY)*)g_base)[i] == y && ((T_(TY)*)g_base)[j] == x, "the items change places");
	PTV_CHECK(gk >= g_n0 || gk == i || gk == j || ((T_(TY)*)g_base)[gk] == z, "nothing else changes");
	PTV_REACH();
#endif
}

/*PTV
{
 "functions": ["parse_pyobject_number", "pypointless_parse_number", "PyPointlessPrimVector_append_item", "PyPointlessPrimVector_ass_item", "PyPointlessPrimVector_ass_subscript", "PyPointlessPrimVector_can_resize"],
 "assumptions": ["CPython is modelled by lib/py.h: PyLong_AsLongLong, PyLong_AsUnsignedLongLong, PyNumber_AsSsize_t and the 'f' format behave as documented; integers are of magnitude below 2^127 (larger ones fail the same conversions); reference counts are not modelled", "pointless_dynarray_push and pointless_dynarray_item_at by their contracts (property P14)"],
 "cflags": ["-I/usr/include/python3.12", "-I/repo"],
 "contracts": [
  {"id": "parse", "harness": "h_parse", "enforce": "parse_pyobject_number"},
  {"id": "number", "harness": "h_number", "enforce": "pypointless_parse_number", "replace": ["parse_pyobject_number"], "defs": ["NUMBER"]},
  {"id": "append_item", "harness": "h_append", "enforce": "PyPointlessPrimVector_append_item", "replace": ["pypointless_parse_number"], "defs": ["CALLER"]},
  {"id": "ass_item", "harness": "h_ass", "enforce": "PyPointlessPrimVector_ass_item", "replace": ["pypointless_parse_number"], "defs": ["CALLER"]},
  {"id": "ass_subscript", "harness": "h_sub", "enforce": "PyPointlessPrimVector_ass_subscript", "replace": ["PyPointlessPrimVector_ass_item"], "defs": ["CALLER", "SUBSCRIPT"]}
 ]
}
PTV*/
#include "ptv.h"
#ifdef PTV_CBMC
#include "py.h"

#include "prim.h"

static uint64_t g_buf[2];      /* one element, and what follows */
static PyPointlessPrimVector g_v;
static size_t g_at; static int g_nat, g_npush, g_push_ok;
#define pointless_dynarray_push(a, p) pv_push(a, p)
#define pointless_dynarray_item_at(a, i) pv_item_at(a, i)
static int pv_push(pointless_dynarray_t* a, void* p)
{
	PTV_CHECK(a == &g_v.array, "push to the vector");
	g_npush++;
	if (!g_push_ok) return 0;
	memcpy(g_buf, p, 8);
	a->n_items++;
	return 1;
}
static void* pv_item_at(pointless_dynarray_t* a, size_t i)
{
	PTV_CHECK(a == &g_v.array && i < a->n_items, "item inside the vector");
	g_at = i; g_nat++;
	return g_buf;
}
static void* elem_copy(void* d, const void* s, size_t n)
{
	PTV_CHECK(n == 1 || n == 2 || n == 4 || n == 8, "copies one element");
	if (n == 1) *(uint8_t*)d = *(const uint8_t*)s;
	if (n == 2) *(uint16_t*)d = *(const uint16_t*)s;
	if (n == 4) *(uint32_t*)d = *(const uint32_t*)s;
	if (n == 8) *(uint64_t*)d = *(const uint64_t*)s;
	return d;
}
#define memcpy elem_copy
#include "/repo/python/pointless_prim_vector.c"
#undef memcpy
#undef pointless_dynarray_push
#undef pointless_dynarray_item_at
#include "/repo/src/pointless_dynarray.c"
#ifndef NUMBER
#ifndef CALLER
static int parse_pyobject_number(PyObject* v, int* is_signed, int64_t* i, uint64_t* u)
	PTV_REQUIRES(v == &g_n && g_exc == 0)
	PTV_ASSIGNS(*is_signed, *i, *u, g_exc)
	PTV_ENSURES((PTV_RET == 1) == (g_kind == PY_LONG && g_num >= INT64_MIN && g_num <= UINT64_MAX))
	PTV_ENSURES(PTV_RET == 1 || PTV_RET == 0)
	PTV_ENSURES(PTV_RET ? g_exc == 0 && (*is_signed ? *i < 0 && *i == g_num : *u == g_num) && (*is_signed == 0 || *is_signed == 1) : g_exc == (g_kind == PY_LONG ? PyExc_ValueError : PyExc_TypeError));
#endif
#else
static int parse_pyobject_number(PyObject* v, int* is_signed, int64_t* i, uint64_t* u)
	PTV_REQUIRES(v == &g_n && g_exc == 0)
	PTV_ASSIGNS(*is_signed, *i, *u, g_exc)
	PTV_ENSURES((PTV_RET == 1) == (g_kind == PY_LONG && g_num >= INT64_MIN && g_num <= UINT64_MAX))
	PTV_ENSURES(PTV_RET == 1 || PTV_RET == 0)
	PTV_ENSURES(PTV_RET ? g_exc == 0 && (*is_signed ? *i < 0 && *i == g_num : *u == g_num) && (*is_signed == 0 || *is_signed == 1) : g_exc == (g_kind == PY_LONG ? PyExc_ValueError : PyExc_TypeError));
#endif
static int pypointless_parse_number(PyObject* n, pypointless_number_t* v, uint32_t t)
	PTV_REQUIRES(n == &g_n && g_exc == 0 && t <= 8)
	PTV_ASSIGNS(*v, g_exc)
	PTV_ENSURES(PTV_RET == 0 || PTV_RET == 1)
	PTV_ENSURES((PTV_RET == 1) == (OK(t)))
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 : g_exc == 0 && IS(t, v));

#ifdef SUBSCRIPT
static Py_ssize_t g_ai;
static int PyPointlessPrimVector_ass_item(PyPointlessPrimVector* self, Py_ssize_t i, PyObject* v)
	PTV_REQUIRES(self == &g_v && v == &g_n && g_exc == 0 && g_nat == 0)
	PTV_ASSIGNS(g_exc, g_ai, g_nat)
	PTV_ENSURES(PTV_RET == 0 || PTV_RET == -1)
	PTV_ENSURES(g_ai == i && g_nat == 1)
	PTV_ENSURES((PTV_RET == 0) == (i >= 0 && i < g_v.array.n_items && OK(g_v.type)) && (PTV_RET == 0) == (g_exc == 0));
#else
static int PyPointlessPrimVector_ass_item(PyPointlessPrimVector* self, Py_ssize_t i, PyObject* v)
	PTV_REQUIRES(self == &g_v && v == &g_n && g_exc == 0 && g_nat == 0)
	PTV_ASSIGNS(g_buf, g_exc, g_at, g_nat)
	PTV_ENSURES(PTV_RET == 0 || PTV_RET == -1)
	PTV_ENSURES((PTV_RET == 0) == (i >= 0 && i < g_v.array.n_items && OK(g_v.type)))
	PTV_ENSURES(PTV_RET != 0 || g_exc == 0)
	PTV_ENSURES(PTV_RET != 0 || g_at == i)
	PTV_ENSURES(PTV_RET != 0 || IS(g_v.type, g_buf))
	PTV_ENSURES(PTV_RET == 0 || g_exc != 0)
	PTV_ENSURES(PTV_RET == 0 || g_buf[0] == PTV_OLD(g_buf[0]))
	PTV_ENSURES(i < 0 || i >= g_v.array.n_items ? g_exc == PyExc_IndexError : 1)
	/* nothing after the element changes */
	PTV_ENSURES(g_buf[1] == PTV_OLD(g_buf[1]) && (g_v.type > 6 || ((uint32_t*)g_buf)[1] == PTV_OLD(((uint32_t*)g_buf)[1])))
	PTV_ENSURES((g_v.type > 3 || ((uint16_t*)g_buf)[1] == PTV_OLD(((uint16_t*)g_buf)[1])) && (g_v.type > 1 || ((uint8_t*)g_buf)[1] == PTV_OLD(((uint8_t*)g_buf)[1])));
#endif
static PyObject* PyPointlessPrimVector_append_item(PyPointlessPrimVector* self, PyObject* item)
	PTV_REQUIRES(self == &g_v && item == &g_n && g_exc == 0 && g_npush == 0)
	PTV_ASSIGNS(g_buf, g_exc, g_npush, g_v.array.n_items)
	PTV_ENSURES((PTV_RET != 0) == (g_v.ob_exports <= 0 && OK(g_v.type) && g_push_ok))
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 && g_v.array.n_items == PTV_OLD(g_v.array.n_items) : PTV_RET == Py_None && g_exc == 0 && g_npush == 1 && g_v.array.n_items == PTV_OLD(g_v.array.n_items) + 1 && IS(g_v.type, g_buf))
	PTV_ENSURES(g_v.ob_exports <= 0 || (g_npush == 0 && g_exc == PyExc_BufferError));
#ifdef SUBSCRIPT
/* where the index leads */
#define TARGET (g_num < 0 ? g_num + (num_t)g_v.array.n_items : g_num)
static num_t g_in;
#define IXOK (g_is_index && !g_index_fails && g_in >= -(num_t)g_v.array.n_items && g_in < (num_t)g_v.array.n_items)
static int PyPointlessPrimVector_ass_subscript(PyPointlessPrimVector* self, PyObject* item, PyObject* value)
	PTV_REQUIRES(self == &g_v && item == &g_ix && (value == &g_n || value == 0) && g_exc == 0 && g_nat == 0 && g_num == g_in)
	PTV_ASSIGNS(g_exc, g_ai, g_nat)
	PTV_ENSURES(PTV_RET == 0 || PTV_RET == -1)
	PTV_ENSURES(PTV_RET == 0 || g_exc != 0)
	PTV_ENSURES(PTV_RET != 0 || (g_exc == 0 && IXOK && OK(g_v.type) && value != 0 && g_nat == 1 && g_ai == (g_in < 0 ? g_in + (num_t)g_v.array.n_items : g_in)))
	PTV_ENSURES(value == 0 ? PTV_RET == -1 : PTV_RET == 0 || !(IXOK && OK(g_v.type)));
#endif
#endif

void ph_init(void)
{
#ifdef PTV_CBMC
	g_kind = ptv_range(1, 3);
	{ num_t n; __CPROVER_assume(n > -((num_t)1 << 126) && n < ((num_t)1 << 126)); g_num = n; }
	{ double d; g_dbl = d; __CPROVER_assume(d == d); }
	g_fbits = f32_bits(g_dbl);
	py_setup();
	g_push_ok = ptv_range(0, 1);
	{ int e; g_v.ob_exports = e; __CPROVER_assume(e >= 0); }
	g_v.type = ptv_range(0, 8);
	g_v.array.item_size = t_size(g_v.type);
	g_v.array.n_items = ptv_range(0, (uint64_t)1 << 40);
	g_buf[0] = ptv_nd(64); g_buf[1] = ptv_nd(64);
#endif
}
void h_parse(void)
{
#if defined(PTV_CBMC) && !defined(CALLER)
	int s; int64_t i; uint64_t u;
	ph_init();
	parse_pyobject_number(&g_n, &s, &i, &u);
	PTV_REACH();
#endif
}
void h_number(void)
{
#ifdef PTV_CBMC
	pypointless_number_t v;
	ph_init();
	pypointless_parse_number(&g_n, &v, g_v.type);
	PTV_REACH();
#endif
}
void h_append(void)
{
#ifdef PTV_CBMC
	ph_init();
	PyPointlessPrimVector_append_item(&g_v, &g_n);
	PTV_REACH();
#endif
}
void h_ass(void)
{
#ifdef PTV_CBMC
	Py_ssize_t i;
	ph_init();
	PyPointlessPrimVector_ass_item(&g_v, i, &g_n);
	PTV_REACH();
#endif
}
void h_sub(void)
{
#if defined(PTV_CBMC) && defined(SUBSCRIPT)
	ph_init();
	g_in = g_num; g_is_index = ptv_range(0, 1); g_index_fails = ptv_range(0, 1);
	g_kind = ptv_range(1, 3);
	PyPointlessPrimVector_ass_subscript(&g_v, &g_ix, ptv_range(0, 1) ? &g_n : 0);
	PTV_REACH();
#endif
}

/*PTV
{
 "functions": ["PyPointlessMap_length", "PyPointlessMap_contains_", "PyPointlessMap_contains", "PyPointlessMap_subscript", "PyPointlessMap_get", "PyPointlessMap_iter", "PyPointlessMap_keys", "PyPointlessMap_values", "PyPointlessMap_items", "PyPointlessMapKeyIter_iternext", "PyPointlessMapValueIter_iternext", "PyPointlessMapItemIter_iternext", "PyPointlessMap_New", "PyPointlessMap_eq_cb", "PyPointlessSet_length", "PyPointlessSet_contains", "PyPointlessSet_iter", "PyPointlessSetIter_iternext", "PyPointlessSet_New", "PyPointlessSet_eq_cb"],
 "assumptions": ["CPython is modelled by lib/py.h and the stubs of this unit; reference counts are not modelled", "pyobject_hash_32 and pypointless_cmp_eq decide the hash and equality of the key (property P31)", "the reader's lookups and iterations are those of properties P03, P25 and P07", "pypointless_value makes the object for a stored value (property P32)"],
 "cflags": ["-I/usr/include/python3.12", "-I/repo"],
 "contracts": [
  {"id": "map_length", "harness": "h_map_length", "enforce": "PyPointlessMap_length"},
  {"id": "map_contains", "harness": "h_map_contains", "enforce": "PyPointlessMap_contains_"},
  {"id": "map_contains_method", "harness": "h_map_has", "enforce": "PyPointlessMap_contains"},
  {"id": "map_subscript", "harness": "h_map_subscript", "enforce": "PyPointlessMap_subscript"},
  {"id": "map_get", "harness": "h_map_get", "enforce": "PyPointlessMap_get"},
  {"id": "map_eq_cb", "harness": "h_map_eq", "enforce": "PyPointlessMap_eq_cb"},
  {"id": "map_iter", "harness": "h_map_iter", "enforce": "PyPointlessMap_iter"},
  {"id": "map_keys", "harness": "h_map_keys", "enforce": "PyPointlessMap_keys"},
  {"id": "map_values", "harness": "h_map_values", "enforce": "PyPointlessMap_values"},
  {"id": "map_items", "harness": "h_map_items", "enforce": "PyPointlessMap_items"},
  {"id": "key_iternext", "harness": "h_key_next", "enforce": "PyPointlessMapKeyIter_iternext"},
  {"id": "value_iternext", "harness": "h_value_next", "enforce": "PyPointlessMapValueIter_iternext"},
  {"id": "item_iternext", "harness": "h_item_next", "enforce": "PyPointlessMapItemIter_iternext"},
  {"id": "map_new", "harness": "h_map_new", "enforce": "PyPointlessMap_New"},
  {"id": "set_length", "harness": "h_set_length", "enforce": "PyPointlessSet_length"},
  {"id": "set_contains", "harness": "h_set_contains", "enforce": "PyPointlessSet_contains"},
  {"id": "set_eq_cb", "harness": "h_set_eq", "enforce": "PyPointlessSet_eq_cb"},
  {"id": "set_iter", "harness": "h_set_iter", "enforce": "PyPointlessSet_iter"},
  {"id": "set_iternext", "harness": "h_set_next", "enforce": "PyPointlessSetIter_iternext"},
  {"id": "set_new", "harness": "h_set_new", "enforce": "PyPointlessSet_New"}
 ],
 "complete": [
  {"id": "map_type", "harness": "h_types"}
 ]
}
PTV*/
#include "ptv.h"
#ifdef PTV_CBMC
#include "py.h"
static PyPointlessMap g_m, g_newm; static PyPointlessSet g_s, g_news; static PyPointless g_pp;
static pointless_header_t g_header;
static pointless_value_t g_val, g_k, g_vv;          /* the container read; the key and value found */
static PyPointlessMapKeyIter g_ki, g_newki; static PyPointlessMapValueIter g_vi, g_newvi; static PyPointlessMapItemIter g_ii, g_newii; static PyPointlessSetIter g_si, g_newsi;
static PyObject g_key, g_default, g_tuple, g_bool1, g_bool0, g_kobj, g_vobj;
static uint32_t g_hash, g_n_items, g_cid;
static int g_hash_fails, g_look_fails, g_hit, g_more, g_k_fails, g_v_fails, g_build_fails, g_alloc_fails;
static int g_nhash, g_nlook, g_nnext, g_nset; static PyObject* g_seterr;

uint32_t pyobject_hash_32(PyObject* o, uint32_t version, const char** error)
{
	PTV_CHECK(o == &g_key && version == g_header.version && *error == 0, "the key is hashed");
	g_nhash++;
	if (g_hash_fails) { *error = "hash"; return nondet_ptv_u64(); }
	return g_hash;
}
/* equality with the key, asked for by the lookup about any stored value */
static pointless_complete_value_t g_cand; static int g_eq_fails; static uint32_t g_eq;
uint32_t pypointless_cmp_eq(pointless_t* p, pointless_complete_value_t* v, PyObject* o, const char** error)
{
	PTV_CHECK(p == &g_pp.p && v == &g_cand && o == &g_key, "the stored value is compared with the key");
	if (g_eq_fails) { *error = "eq"; return nondet_ptv_u64(); }
	return g_eq;
}
static void look(pointless_t* p, pointless_value_t* m, pointless_value_t* own, uint32_t hash, pointless_eq_cb cb, void* user, const char** error)
{
	const char* e = 0;
	uint32_t r;
	PTV_CHECK(p == &g_pp.p && m == own && g_nhash && !g_hash_fails && hash == g_hash && *error == 0, "the key is looked up with its hash");
	r = (*cb)(p, &g_cand, user, &e);
	PTV_CHECK((e != 0) == (g_eq_fails != 0) && (e || r == g_eq), "the lookup is told whether values equal the key");
	g_nlook++;
	if (g_look_fails) *error = "look";
}
void pointless_reader_map_lookup_ext(pointless_t* p, pointless_value_t* m, uint32_t hash, pointless_eq_cb cb, void* user, pointless_value_t** kk, pointless_value_t** vv, const char** error)
{
	look(p, m, &g_m.v, hash, cb, user, error);
	*kk = g_hit && !g_look_fails ? &g_k : 0; *vv = g_hit && !g_look_fails ? &g_vv : 0;
}
void pointless_reader_set_lookup_ext(pointless_t* p, pointless_value_t* s, uint32_t hash, pointless_eq_cb cb, void* user, pointless_value_t** kk, const char** error)
{
	look(p, s, &g_s.v, hash, cb, user, error);
	*kk = g_hit && !g_look_fails ? &g_k : 0;
}
/* the next entry, with the position advanced by any amount */
static uint32_t g_pos;
uint32_t pointless_reader_map_iter(pointless_t* p, pointless_value_t* m, pointless_value_t** k, pointless_value_t** v, uint32_t* state)
{
	PTV_CHECK(p == &g_pp.p && m == &g_m.v && g_nnext == 0, "the next entry");
	g_nnext++; *state = g_pos;
	if (!g_more) return 0;
	*k = &g_k; *v = &g_vv;
	return 1;
}
uint32_t pointless_reader_set_iter(pointless_t* p, pointless_value_t* s, pointless_value_t** k, uint32_t* state)
{
	PTV_CHECK(p == &g_pp.p && s == &g_s.v && g_nnext == 0, "the next member");
	g_nnext++; *state = g_pos;
	if (!g_more) return 0;
	*k = &g_k;
	return 1;
}
uint32_t pointless_reader_map_n_items(pointless_t* p, pointless_value_t* m) { PTV_CHECK(p == &g_pp.p && m == &g_m.v, "the length of the map"); return g_n_items; }
uint32_t pointless_reader_set_n_items(pointless_t* p, pointless_value_t* s) { PTV_CHECK(p == &g_pp.p && s == &g_s.v, "the length of the set"); return g_n_items; }
uint32_t pointless_container_id(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &g_pp.p && v->type == g_val.type && v->data.data_u32 == g_val.data.data_u32, "the identity of the container"); return g_cid; }
PyObject* pypointless_value(PyPointless* p, pointless_value_t* v)
{
	PTV_CHECK(p == &g_pp && (v == &g_k || v == &g_vv), "an object for the key or value found");
	if (v == &g_k ? g_k_fails : g_v_fails) { g_exc = PyExc_MemoryError; return 0; }
	return v == &g_k ? &g_kobj : &g_vobj;
}
static int g_nargs;
int PyArg_UnpackTuple(PyObject* a, const char* name, Py_ssize_t min, Py_ssize_t max, ...);
static int unpack(PyObject* a, Py_ssize_t min, Py_ssize_t max, PyObject** k, PyObject** d)
{
	PTV_CHECK(a == g_args && min == 1 && max == 2, "a key and a default");
	if (g_nargs < 1 || g_nargs > 2) { g_exc = PyExc_TypeError; return 0; }
	*k = &g_key;
	if (g_nargs == 2) *d = &g_default;
	return 1;
}
#undef PyArg_UnpackTuple
#define PyArg_UnpackTuple(a, name, min, max, k, d) unpack(a, min, max, k, d)
void PyErr_SetObject(PyObject* e, PyObject* v) { g_exc = e; g_nset++; g_seterr = v; }
PyObject* PyBool_FromLong(long v) { return v ? &g_bool1 : &g_bool0; }
static PyObject* build(const char* f, PyObject* a, PyObject* b)
{
	PTV_CHECK(f[0] == '(' && f[1] == 'N' && f[2] == 'N' && f[3] == ')' && a == &g_kobj && b == &g_vobj, "a pair of the key and its value");
	if (g_build_fails) { g_exc = PyExc_MemoryError; return 0; }
	return &g_tuple;
}
#define Py_BuildValue(f, a, b) build(f, a, b)
PyObject* PyTuple_Pack(Py_ssize_t n, ...) { return 0; }
#define PyTuple_Pack(n, a, b) build("(NN)", a, b)
PyObject* PyObject_SelfIter(PyObject* o) { return o; }
PyObject* _PyObject_New(PyTypeObject* t);
void _Py_Dealloc(PyObject* o) { }
#include "/repo/python/pointless_map.c"
#include "/repo/python/pointless_set.c"
PyObject* _PyObject_New(PyTypeObject* t)
{
	PyObject* o = t == &PyPointlessMapType ? (PyObject*)&g_newm : t == &PyPointlessSetType ? (PyObject*)&g_news : t == &PyPointlessMapKeyIterType ? (PyObject*)&g_newki : t == &PyPointlessMapValueIterType ? (PyObject*)&g_newvi : t == &PyPointlessMapItemIterType ? (PyObject*)&g_newii : (PyObject*)&g_newsi;
	if (g_alloc_fails) { g_exc = PyExc_MemoryError; return 0; }
	o->ob_refcnt = _Py_IMMORTAL_REFCNT; o->ob_type = t;
	return o;
}

/* ------------------------------------------------------------ contracts */
#define START (g_exc == 0 && g_nhash == 0 && g_nlook == 0 && g_nset == 0 && g_m.pp == &g_pp && g_s.pp == &g_pp && g_pp.p.header == &g_header)
#define LOOK_ASSIGNS PTV_ASSIGNS(g_exc, g_nhash, g_nlook, g_nset, g_seterr)
#define OK (!g_hash_fails && !g_look_fails)
static Py_ssize_t PyPointlessMap_length(PyPointlessSet* self)
	PTV_REQUIRES(self == (PyPointlessSet*)&g_m && START) PTV_ASSIGNS()
	PTV_ENSURES(PTV_RET == (Py_ssize_t)g_n_items);
static Py_ssize_t PyPointlessSet_length(PyPointlessSet* self)
	PTV_REQUIRES(self == &g_s && START) PTV_ASSIGNS()
	PTV_ENSURES(PTV_RET == (Py_ssize_t)g_n_items);
static int PyPointlessMap_contains_(PyPointlessMap* m, PyObject* key)
	PTV_REQUIRES(m == &g_m && key == &g_key && START) LOOK_ASSIGNS
	PTV_ENSURES(OK ? PTV_RET == (g_hit != 0) && g_exc == 0 : PTV_RET == -1 && g_exc != 0 && g_exc != PyExc_KeyError);
static int PyPointlessSet_contains(PyPointlessSet* s, PyObject* key)
	PTV_REQUIRES(s == &g_s && key == &g_key && START) LOOK_ASSIGNS
	PTV_ENSURES(OK ? PTV_RET == (g_hit != 0) && g_exc == 0 : PTV_RET == -1 && g_exc != 0 && g_exc != PyExc_KeyError);
static PyObject* PyPointlessMap_contains(PyPointlessMap* m, PyObject* k)
	PTV_REQUIRES(m == &g_m && k == &g_key && START) LOOK_ASSIGNS
	PTV_ENSURES(OK ? (PTV_RET == &g_bool1 || PTV_RET == Py_True) == (g_hit != 0) && (PTV_RET == &g_bool0 || PTV_RET == Py_False) == (g_hit == 0) && g_exc == 0 : PTV_RET == 0 && g_exc != 0);
static PyObject* PyPointlessMap_subscript(PyPointlessMap* m, PyObject* key)
	PTV_REQUIRES(m == &g_m && key == &g_key && START) LOOK_ASSIGNS
	PTV_ENSURES(OK || (PTV_RET == 0 && g_exc != 0 && g_exc != PyExc_KeyError))
	PTV_ENSURES(!OK || g_hit || (PTV_RET == 0 && g_exc == PyExc_KeyError && g_seterr == &g_key))
	PTV_ENSURES(!OK || !g_hit || (g_v_fails ? PTV_RET == 0 && g_exc == PyExc_MemoryError : PTV_RET == &g_vobj && g_exc == 0));
static PyObject* PyPointlessMap_get(PyPointlessMap* m, PyObject* args)
	PTV_REQUIRES(m == &g_m && args == g_args && START) LOOK_ASSIGNS
	PTV_ENSURES((OK && (g_nargs == 1 || g_nargs == 2)) || (PTV_RET == 0 && g_exc != 0))
	PTV_ENSURES(!OK || g_hit || g_nargs < 1 || g_nargs > 2 || (PTV_RET == (g_nargs == 2 ? &g_default : Py_None) && g_exc == 0))
	PTV_ENSURES(!OK || !g_hit || g_nargs < 1 || g_nargs > 2 || (g_v_fails ? PTV_RET == 0 && g_exc == PyExc_MemoryError : PTV_RET == &g_vobj && g_exc == 0));
static uint32_t PyPointlessMap_eq_cb(pointless_t* p, pointless_complete_value_t* v, void* user, const char** error)
	PTV_REQUIRES(p == &g_pp.p && v == &g_cand && user == (void*)&g_key && *error == 0) PTV_ASSIGNS(*error)
	PTV_ENSURES(g_eq_fails ? *error != 0 : *error == 0 && PTV_RET == g_eq);
static uint32_t PyPointlessSet_eq_cb(pointless_t* p, pointless_complete_value_t* v, void* user, const char** error)
	PTV_REQUIRES(p == &g_pp.p && v == &g_cand && user == (void*)&g_key && *error == 0) PTV_ASSIGNS(*error)
	PTV_ENSURES(g_eq_fails ? *error != 0 : *error == 0 && PTV_RET == g_eq);
/* iterators: each starts at the beginning; a step gives the key, value or pair found; the end is final */
#define ITER(f, P, p, n, it, field, own, type) static PyObject* f(P) \
	PTV_REQUIRES((PyObject*)p == (PyObject*)&own && g_exc == 0) PTV_ASSIGNS(it, g_exc) \
	PTV_ENSURES(g_alloc_fails ? PTV_RET == 0 && g_exc != 0 : PTV_RET == (PyObject*)&it && it.field == &own && it.iter_state == 0 && it.ob_base.ob_type == &type && g_exc == 0);
ITER(PyPointlessMap_iter, PyObject* map, map, , g_newki, map, g_m, PyPointlessMapKeyIterType)
ITER(PyPointlessMap_keys, PyPointlessMap* m, m, , g_newki, map, g_m, PyPointlessMapKeyIterType)
ITER(PyPointlessMap_values, PyPointlessMap* m, m, , g_newvi, map, g_m, PyPointlessMapValueIterType)
ITER(PyPointlessMap_items, PyPointlessMap* m, m, , g_newii, map, g_m, PyPointlessMapItemIterType)
ITER(PyPointlessSet_iter, PyObject* set, set, , g_newsi, set, g_s, PyPointlessSetIterType)
#define NEXT(f, T, it, field, own, fails, obj) static PyObject* f(T* iter) \
	PTV_REQUIRES(iter == &it && (it.field == 0 || it.field == &own) && START && g_nnext == 0) PTV_ASSIGNS(g_exc, g_nnext, it.field, it.iter_state) \
	PTV_ENSURES(PTV_OLD(it.field) != 0 || (PTV_RET == 0 && g_exc == 0 && g_nnext == 0 && it.field == 0)) \
	PTV_ENSURES(PTV_OLD(it.field) == 0 || g_more || (PTV_RET == 0 && g_exc == 0 && it.field == 0)) \
	PTV_ENSURES(PTV_OLD(it.field) == 0 || !g_more || (it.field == &own && g_nnext == 1 && it.iter_state == g_pos && ((fails) ? PTV_RET == 0 && g_exc != 0 : PTV_RET == &obj && g_exc == 0)));
NEXT(PyPointlessMapKeyIter_iternext, PyPointlessMapKeyIter, g_ki, map, g_m, g_k_fails, g_kobj)
NEXT(PyPointlessMapValueIter_iternext, PyPointlessMapValueIter, g_vi, map, g_m, g_v_fails, g_vobj)
NEXT(PyPointlessMapItemIter_iternext, PyPointlessMapItemIter, g_ii, map, g_m, g_k_fails || g_v_fails || g_build_fails, g_tuple)
NEXT(PyPointlessSetIter_iternext, PyPointlessSetIter, g_si, set, g_s, g_k_fails, g_kobj)
#define NEW(f, T, o, refs) T* f(PyPointless* pp, pointless_value_t* v) \
	PTV_REQUIRES(pp == &g_pp && v == &g_val && g_exc == 0 && g_pp.refs >= 0 && g_pp.refs < PY_SSIZE_T_MAX) PTV_ASSIGNS(o, g_exc, g_pp.refs) \
	PTV_ENSURES(g_alloc_fails ? PTV_RET == 0 && g_exc != 0 : PTV_RET == &o && o.pp == &g_pp && o.v.type == g_val.type && o.v.data.data_u32 == g_val.data.data_u32 && o.container_id == g_cid && g_exc == 0 && g_pp.refs == PTV_OLD(g_pp.refs) + 1);
NEW(PyPointlessMap_New, PyPointlessMap, g_newm, n_map_refs)
NEW(PyPointlessSet_New, PyPointlessSet, g_news, n_set_refs)

/* ------------------------------------------------------------ harnesses */
static void setup(void)
{
	py_setup();
	g_args = &g_tuple;
	g_m.ob_base.ob_type = &PyPointlessMapType; g_s.ob_base.ob_type = &PyPointlessSetType;
	PyPointlessMapType.tp_flags = PyPointlessSetType.tp_flags = 0;
	g_m.ob_base.ob_refcnt = g_s.ob_base.ob_refcnt = g_pp.ob_base.ob_refcnt = g_key.ob_refcnt = g_default.ob_refcnt = g_kobj.ob_refcnt = g_vobj.ob_refcnt = g_tuple.ob_refcnt = _Py_IMMORTAL_REFCNT;
	g_m.pp = g_s.pp = &g_pp; g_pp.p.header = &g_header;
	g_nhash = g_nlook = g_nnext = g_nset = 0; g_seterr = 0;
	g_ki.map = nondet_ptv_u64() & 1 ? &g_m : 0; g_vi.map = nondet_ptv_u64() & 1 ? &g_m : 0; g_ii.map = nondet_ptv_u64() & 1 ? &g_m : 0; g_si.set = nondet_ptv_u64() & 1 ? &g_s : 0;
}
static const char* g_errp;
void h_map_length(void) { setup(); PyPointlessMap_length((PyPointlessSet*)&g_m); PTV_REACH(); }
void h_set_length(void) { setup(); PyPointlessSet_length(&g_s); PTV_REACH(); }
void h_map_contains(void) { setup(); PyPointlessMap_contains_(&g_m, &g_key); PTV_REACH(); }
void h_set_contains(void) { setup(); PyPointlessSet_contains(&g_s, &g_key); PTV_REACH(); }
void h_map_has(void) { setup(); PyPointlessMap_contains(&g_m, &g_key); PTV_REACH(); }
void h_map_subscript(void) { setup(); PyPointlessMap_subscript(&g_m, &g_key); PTV_REACH(); }
void h_map_get(void) { setup(); PyPointlessMap_get(&g_m, g_args); PTV_REACH(); }
void h_map_eq(void) { setup(); g_errp = 0; PyPointlessMap_eq_cb(&g_pp.p, &g_cand, &g_key, &g_errp); PTV_REACH(); }
void h_set_eq(void) { setup(); g_errp = 0; PyPointlessSet_eq_cb(&g_pp.p, &g_cand, &g_key, &g_errp); PTV_REACH(); }
void h_map_iter(void) { setup(); PyPointlessMap_iter((PyObject*)&g_m); PTV_REACH(); }
void h_map_keys(void) { setup(); PyPointlessMap_keys(&g_m); PTV_REACH(); }
void h_map_values(void) { setup(); PyPointlessMap_values(&g_m); PTV_REACH(); }
void h_map_items(void) { setup(); PyPointlessMap_items(&g_m); PTV_REACH(); }
void h_set_iter(void) { setup(); PyPointlessSet_iter((PyObject*)&g_s); PTV_REACH(); }
void h_key_next(void) { setup(); PyPointlessMapKeyIter_iternext(&g_ki); PTV_REACH(); }
void h_value_next(void) { setup(); PyPointlessMapValueIter_iternext(&g_vi); PTV_REACH(); }
void h_item_next(void) { setup(); PyPointlessMapItemIter_iternext(&g_ii); PTV_REACH(); }
void h_set_next(void) { setup(); PyPointlessSetIter_iternext(&g_si); PTV_REACH(); }
void h_map_new(void) { setup(); PyPointlessMap_New(&g_pp, &g_val); PTV_REACH(); }
void h_set_new(void) { setup(); PyPointlessSet_New(&g_pp, &g_val); PTV_REACH(); }
/* the operators of the types lead to these functions */
void h_types(void)
{
	PTV_CHECK((void*)PyPointlessMapType.tp_as_mapping->mp_length == (void*)PyPointlessMap_length && (void*)PyPointlessMapType.tp_as_mapping->mp_subscript == (void*)PyPointlessMap_subscript && PyPointlessMapType.tp_as_mapping->mp_ass_subscript == 0, "len and item of a map");
	PTV_CHECK((void*)PyPointlessMapType.tp_as_sequence->sq_contains == (void*)PyPointlessMap_contains_ && (void*)PyPointlessMapType.tp_iter == (void*)PyPointlessMap_iter, "in and iter of a map");
	PTV_CHECK((void*)PyPointlessSetType.tp_as_mapping->mp_length == (void*)PyPointlessSet_length && PyPointlessSetType.tp_as_mapping->mp_subscript == 0, "len of a set");
	PTV_CHECK((void*)PyPointlessSetType.tp_as_sequence->sq_contains == (void*)PyPointlessSet_contains && (void*)PyPointlessSetType.tp_iter == (void*)PyPointlessSet_iter, "in and iter of a set");
	PTV_CHECK((void*)PyPointlessMapKeyIterType.tp_iternext == (void*)PyPointlessMapKeyIter_iternext && (void*)PyPointlessMapValueIterType.tp_iternext == (void*)PyPointlessMapValueIter_iternext && (void*)PyPointlessMapItemIterType.tp_iternext == (void*)PyPointlessMapItemIter_iternext && (void*)PyPointlessSetIterType.tp_iternext == (void*)PyPointlessSetIter_iternext, "next of the iterators");
	PTV_REACH();
}
#endif

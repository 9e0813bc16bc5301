/* What the contracts of the Python layer assume about CPython (verifier build only).
 *
 * One object stands for the Python number handed in: it is an integer of an arbitrary value, a float of an
 * arbitrary value, or something else.  The conversion functions follow their documentation.  The error
 * indicator is a ghost flag, and every object made from a number records that number.  Reference counts are
 * not modelled (all objects are immortal).
 */
#ifndef PTV_PY_H
#define PTV_PY_H
#include "../pointless_ext.h"

PyTypeObject PyLong_Type, PyFloat_Type, PyBool_Type, PySlice_Type, PyBaseObject_Type;
static PyTypeObject py_other_type;
PyObject _Py_NoneStruct;
struct _longobject _Py_TrueStruct, _Py_FalseStruct;
static PyObject py_exc[12];
PyObject *PyExc_TypeError, *PyExc_ValueError, *PyExc_IndexError, *PyExc_OverflowError, *PyExc_BufferError, *PyExc_SystemError, *PyExc_Exception, *PyExc_MemoryError, *PyExc_KeyError;

/* the error indicator: 0 is clear */
PyObject* g_exc;
void PyErr_SetString(PyObject* e, const char* s) { g_exc = e; }
void PyErr_Clear(void) { g_exc = 0; }
PyObject* PyErr_Occurred(void) { return g_exc; }
PyObject* PyErr_NoMemory(void) { g_exc = PyExc_MemoryError; return 0; }
void _PyErr_BadInternalCall(const char* f, int l) { g_exc = PyExc_SystemError; }
#undef PyErr_BadInternalCall
#define PyErr_BadInternalCall() (void)(g_exc = PyExc_SystemError)
#define PyErr_Format(e, ...) ((g_exc = (e)), (PyObject*)0)

/* the number handed in */
typedef __int128 num_t;
#define PY_LONG 1
#define PY_FLOAT 2
#define PY_OTHER 3
PyObject g_n;          /* the object */
int g_kind;            /* what it is */
num_t g_num;           /* its value, if an integer */
double g_dbl;          /* its value, if a float */
PyTypeObject* g_ntype;

int PyType_IsSubtype(PyTypeObject* a, PyTypeObject* b) { return a == b; }
long long PyLong_AsLongLong(PyObject* v)
{
	if (v == Py_True || v == Py_False) return v == Py_True;
	PTV_CHECK(v == &g_n && g_kind == PY_LONG, "PyLong_AsLongLong gets the integer");
	if (g_num < INT64_MIN || g_num > INT64_MAX) { g_exc = PyExc_OverflowError; return -1; }
	return (long long)g_num;
}
unsigned long long PyLong_AsUnsignedLongLong(PyObject* v)
{
	PTV_CHECK(v == &g_n && g_kind == PY_LONG, "PyLong_AsUnsignedLongLong gets the integer");
	if (g_num < 0 || g_num > UINT64_MAX) { g_exc = PyExc_OverflowError; return (unsigned long long)-1; }
	return (unsigned long long)g_num;
}
double PyFloat_AsDouble(PyObject* v)
{
	PTV_CHECK(v == &g_n && g_kind == PY_FLOAT, "PyFloat_AsDouble gets the float");
	return g_dbl;
}
/* PyArg_Parse(n, "f", p): variable arguments are outside the verifier's language */
static int py_arg_f(PyObject* v, const char* fmt, float* p)
{
	PTV_CHECK(fmt[0] == 'f' && fmt[1] == 0, "format");
	PTV_CHECK(v == &g_n, "PyArg_Parse gets the number");
	if (g_kind != PY_FLOAT) { g_exc = PyExc_TypeError; return 0; }
	*p = (float)g_dbl;
	return 1;
}
#undef PyArg_Parse
#define PyArg_Parse(n, fmt, p) py_arg_f((PyObject*)(n), fmt, (float*)(p))

/* PyArg_ParseTuple(args, fmt, p): the one argument is an object, a float or a long long */
PyObject* g_args; PyObject* g_arg; int g_arg_ok; long long g_arg_ll; float g_arg_f;
static int py_args(PyObject* a, const char* fmt, void* p)
{
	PTV_CHECK(a == g_args, "the arguments are parsed");
	if (!g_arg_ok) { g_exc = PyExc_TypeError; return 0; }
	if (fmt[0] == 'O') *(PyObject**)p = g_arg;
	else if (fmt[0] == 'L') *(long long*)p = g_arg_ll;
	else if (fmt[0] == 'f') *(float*)p = g_arg_f;
	else PTV_CHECK(0, "argument format");
	return 1;
}
#undef PyArg_ParseTuple
#define PyArg_ParseTuple(a, fmt, p, ...) py_args((PyObject*)(a), fmt, (void*)(p))

/* a slice: two bounds and a step, adjusted to a length as documented */
PyObject g_slice; int g_slice_fails; Py_ssize_t g_start, g_stop, g_step;
int PySlice_Unpack(PyObject* o, Py_ssize_t* start, Py_ssize_t* stop, Py_ssize_t* step)
{
	PTV_CHECK(o == &g_slice, "PySlice_Unpack gets the slice");
	if (g_slice_fails) { g_exc = PyExc_TypeError; return -1; }
	*start = g_start; *stop = g_stop; *step = g_step;
	return 0;
}
static Py_ssize_t py_clip(Py_ssize_t v, Py_ssize_t len, Py_ssize_t step)
{
	if (v < 0) { v += len; if (v < 0) v = step < 0 ? -1 : 0; }
	else if (v >= len) v = step < 0 ? len - 1 : len;
	return v;
}
Py_ssize_t PySlice_AdjustIndices(Py_ssize_t len, Py_ssize_t* start, Py_ssize_t* stop, Py_ssize_t step)
{
	Py_ssize_t n;
	*start = py_clip(*start, len, step); *stop = py_clip(*stop, len, step);
	n = nondet_ptv_u64();
	return n;
}

/* objects made from numbers */
PyObject g_made; int g_nmade; num_t g_made_num; double g_made_dbl; int g_made_kind; int g_fail_make;
static PyObject* py_make(int kind, num_t n, double d)
{
	g_nmade++; g_made_kind = kind; g_made_num = n; g_made_dbl = d;
	if (g_fail_make) { g_exc = PyExc_MemoryError; return 0; }
	return &g_made;
}
PyObject* PyLong_FromLong(long v) { return py_make(PY_LONG, v, 0); }
PyObject* PyLong_FromUnsignedLong(unsigned long v) { return py_make(PY_LONG, v, 0); }
PyObject* PyLong_FromLongLong(long long v) { return py_make(PY_LONG, v, 0); }
PyObject* PyLong_FromUnsignedLongLong(unsigned long long v) { return py_make(PY_LONG, v, 0); }
PyObject* PyLong_FromSize_t(size_t v) { return py_make(PY_LONG, v, 0); }
PyObject* PyLong_FromSsize_t(Py_ssize_t v) { return py_make(PY_LONG, v, 0); }
PyObject* PyFloat_FromDouble(double v) { return py_make(PY_FLOAT, 0, v); }

/* an index handed in: __index__ gives g_num (or another ghost), or fails */
#ifndef PY_IXNUM
#define PY_IXNUM g_num
#endif
int g_is_index, g_index_fails;
PyObject g_ix;
int PyIndex_Check(PyObject* o) { PTV_CHECK(o == &g_ix, "PyIndex_Check gets the index"); return g_is_index; }
Py_ssize_t PyNumber_AsSsize_t(PyObject* o, PyObject* e)
{
	PTV_CHECK(o == &g_ix && g_is_index, "PyNumber_AsSsize_t gets the index");
	if (g_index_fails) { g_exc = PyExc_TypeError; return -1; }
	if (PY_IXNUM < PY_SSIZE_T_MIN || PY_IXNUM > PY_SSIZE_T_MAX) { g_exc = e; return -1; }
	return (Py_ssize_t)PY_IXNUM;
}

/* static objects start out unconstrained in a contract proof */
static void py_setup(void)
{
	PyLong_Type.tp_flags = PyBool_Type.tp_flags = Py_TPFLAGS_LONG_SUBCLASS; PyFloat_Type.tp_flags = PySlice_Type.tp_flags = py_other_type.tp_flags = 0;
	_Py_NoneStruct.ob_refcnt = _Py_IMMORTAL_REFCNT; _Py_TrueStruct.ob_base.ob_refcnt = _Py_FalseStruct.ob_base.ob_refcnt = _Py_IMMORTAL_REFCNT;
	_Py_TrueStruct.ob_base.ob_type = _Py_FalseStruct.ob_base.ob_type = &PyBool_Type;
	PyExc_TypeError = &py_exc[0], PyExc_ValueError = &py_exc[1], PyExc_IndexError = &py_exc[2], PyExc_OverflowError = &py_exc[3],
	PyExc_BufferError = &py_exc[4], PyExc_SystemError = &py_exc[5], PyExc_Exception = &py_exc[6], PyExc_MemoryError = &py_exc[7], PyExc_KeyError = &py_exc[8];
	g_ntype = g_kind == PY_LONG ? &PyLong_Type : g_kind == PY_FLOAT ? &PyFloat_Type : &py_other_type;
	g_n.ob_type = g_ntype; g_n.ob_refcnt = _Py_IMMORTAL_REFCNT;
	g_ix.ob_type = &py_other_type; g_ix.ob_refcnt = _Py_IMMORTAL_REFCNT;
	g_made.ob_refcnt = _Py_IMMORTAL_REFCNT;
	g_slice.ob_type = &PySlice_Type; g_slice.ob_refcnt = _Py_IMMORTAL_REFCNT;
	g_exc = 0; g_nmade = 0;
}
#endif

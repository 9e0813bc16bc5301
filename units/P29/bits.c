/*PTV
{
 "functions": ["PyPointlessBitvector_n_items", "PyPointlessBitvector_length", "PyPointlessBitvector_check_index", "PyPointlessBitvector_is_set", "PyPointlessBitvector_subscript_priv", "PyPointlessBitvector_subscript", "PyPointlessBitvector_ass_subscript", "PyPointlessBitvector_richcompare", "PyPointlessBitvector_n_zero_prefix", "PyPointlessBitvector_n_zero_postfix", "PyPointlessBitvector_n_one_prefix", "PyPointlessBitvector_n_one_postfix", "PyPointlessBitvector_is_any_set", "next_size", "PyPointlessBitvector_extend_by", "PyPointlessBitvector_extend_", "PyPointlessBitvector_append", "PyPointlessBitvector_append_bulk", "PyPointlessBitvector_pop", "PyPointlessBitvector_copy", "PyPointlessBitvectorIter_iternext", "PyPointlessBitvector_init"],
 "assumptions": ["CPython is modelled by lib/py.h (documented behaviour of the number, index, argument and iterator functions; reference counts are not modelled)", "bm_set_, bm_reset_ and bm_is_set_ (proved by P04 and P05) are represented by their effect on one arbitrary bit and on the count of set bits", "pointless_reader_bitvector_is_set, _n_bits and pointless_bitvector_is_any_set by property P05", "the arguments of the constructor are parsed by an assumed PyArg_ParseTupleAndKeywords"],
 "cflags": ["-I/usr/include/python3.12", "-I/repo"],
 "contracts": [
  {"id": "check_index", "harness": "h_check_index", "enforce": "PyPointlessBitvector_check_index"},
  {"id": "is_set", "harness": "h_is_set", "enforce": "PyPointlessBitvector_is_set"},
  {"id": "subscript", "harness": "h_subscript", "enforce": "PyPointlessBitvector_subscript", "replace": ["PyPointlessBitvector_check_index", "PyPointlessBitvector_is_set"]},
  {"id": "ass_subscript", "harness": "h_ass", "enforce": "PyPointlessBitvector_ass_subscript", "replace": ["PyPointlessBitvector_check_index", "PyPointlessBitvector_is_set"]},
  {"id": "richcompare", "harness": "h_cmp", "enforce": "PyPointlessBitvector_richcompare", "loops": true, "defs": ["PAIR"]},
  {"id": "zero_prefix", "harness": "h_scan", "enforce": "PyPointlessBitvector_n_zero_prefix", "loops": true, "defs": ["SCAN=PyPointlessBitvector_n_zero_prefix", "STOP=1", "AT(i)=(i)"]},
  {"id": "zero_postfix", "harness": "h_scan", "enforce": "PyPointlessBitvector_n_zero_postfix", "loops": true, "defs": ["SCAN=PyPointlessBitvector_n_zero_postfix", "STOP=1", "AT(i)=(g_len-1-(i))"]},
  {"id": "one_prefix", "harness": "h_scan", "enforce": "PyPointlessBitvector_n_one_prefix", "loops": true, "defs": ["SCAN=PyPointlessBitvector_n_one_prefix", "STOP=0", "AT(i)=(i)"]},
  {"id": "one_postfix", "harness": "h_scan", "enforce": "PyPointlessBitvector_n_one_postfix", "loops": true, "defs": ["SCAN=PyPointlessBitvector_n_one_postfix", "STOP=0", "AT(i)=(g_len-1-(i))"]},
  {"id": "is_any_set", "harness": "h_any", "enforce": "PyPointlessBitvector_is_any_set"},
  {"id": "next_size", "harness": "h_next_size", "enforce": "next_size"},
  {"id": "extend_by", "harness": "h_extend_by", "enforce": "PyPointlessBitvector_extend_by", "replace": ["next_size"], "loops": true, "defs": ["SEQ"]},
  {"id": "extend_", "harness": "h_extend", "enforce": "PyPointlessBitvector_extend_", "replace": ["PyPointlessBitvector_extend_by"], "defs": ["CALLER"]},
  {"id": "append", "harness": "h_append", "enforce": "PyPointlessBitvector_append", "replace": ["PyPointlessBitvector_extend_by"], "defs": ["CALLER"]},
  {"id": "append_bulk", "harness": "h_bulk", "enforce": "PyPointlessBitvector_append_bulk", "replace": ["PyPointlessBitvector_extend_by"], "loops": true, "defs": ["CALLER", "BULK"]},
  {"id": "pop", "harness": "h_pop", "enforce": "PyPointlessBitvector_pop"},
  {"id": "copy", "harness": "h_copy", "enforce": "PyPointlessBitvector_copy", "loops": true, "defs": ["COPY"]},
  {"id": "init", "harness": "h_init", "enforce": "PyPointlessBitvector_init", "replace": ["PyPointlessBitvector_extend_by"], "loops": true, "defs": ["CALLER", "INIT"]},
  {"id": "iternext", "harness": "h_iternext", "enforce": "PyPointlessBitvectorIter_iternext", "replace": ["PyPointlessBitvector_is_set"]}
 ]
}
PTV*/
#include "ptv.h"
#ifdef PTV_CBMC
static __int128 g_in;
#define PY_IXNUM g_in
#include "py.h"
#if !defined(SEQ) && !defined(BULK) && !defined(INIT) && !defined(PAIR) && !defined(COPY)
#define PLAIN
#endif

/* The bitvector: g_v, of g_len bits.  The bits are known through one arbitrary position gk, which holds g_bk, and
 * through ghosts that follow the order in which they are visited. */
static PyPointlessBitvector g_v, g_o, g_new; static PyPointless g_pp;
static uint64_t g_len, g_len0; static size_t g_ones0;
static uint64_t gk; static int g_bk;      /* an arbitrary bit of the vector, and its value */
static uint64_t g_last; static int g_last_bit;   /* the bit read last */
static void* g_bits; static void* g_obits;
#define BIT(p) ((p) != 0)
#if defined(SEQ)
/* the bits are written in order, from the end on; g_cnt of them set */
static uint64_t g_next; static size_t g_cnt;
void bm_set_(void* p, uint64_t i) { PTV_CHECK(p == g_v.primitive_bits && i == g_next && i / 8 < g_v.primitive_n_bytes_alloc, "the next bit is set, inside the buffer"); g_next++; g_cnt++; if (i == gk) g_bk = 1; }
void bm_reset_(void* p, uint64_t i) { PTV_CHECK(p == g_v.primitive_bits && i == g_next && i / 8 < g_v.primitive_n_bytes_alloc, "the next bit is cleared, inside the buffer"); g_next++; if (i == gk) g_bk = 0; }
unsigned char bm_is_set_(void* p, uint64_t i) { PTV_CHECK(0, "no bit is read"); return 0; }
#elif defined(BULK)
/* the bits of the other vector, read in order, and those set in this one */
static uint64_t g_rd; static size_t g_cnt; static uint64_t g_m; static int g_pend; static uint64_t g_pos; static int g_self;
static int nextbit(uint64_t i, uint64_t n)
{
	int b;
	PTV_CHECK(i == g_rd && i < g_m && !g_pend, "the next bit of the other vector is read, the last one has been copied");
	if (g_self && i == gk) b = g_bk != 0; else b = nondet_ptv_u64() & 1;
	g_rd++; g_pend = b; g_pos = g_len0 + i;
	return b;
}
unsigned char bm_is_set_(void* p, uint64_t i) { PTV_CHECK(p == (g_self ? g_v.primitive_bits : g_obits), "bits of the other vector"); unsigned char r; __CPROVER_assume(r != 0); return nextbit(i, 0) ? r : 0; }
uint32_t pointless_reader_bitvector_is_set(pointless_t* p, pointless_value_t* v, uint32_t i) { PTV_CHECK(p == &g_pp.p && v == &g_o.v, "the stored vector"); return nextbit(i, 0); }
void bm_set_(void* p, uint64_t i) { PTV_CHECK(p == g_v.primitive_bits && g_pend && i == g_pos && i / 8 < g_v.primitive_n_bytes_alloc, "the bit just read is set at its place"); g_pend = 0; g_cnt++; }
void bm_reset_(void* p, uint64_t i) { PTV_CHECK(0, "no bit is cleared"); }
#elif defined(INIT)
static uint64_t g_set_at; static int g_nset;
void bm_set_(void* p, uint64_t i) { PTV_CHECK(p == g_v.primitive_bits && i / 8 < g_v.primitive_n_bytes_alloc && i + 1 == g_v.primitive_n_bits, "the last bit is set"); g_nset++; }
void bm_reset_(void* p, uint64_t i) { PTV_CHECK(0, "no bit is cleared"); }
unsigned char bm_is_set_(void* p, uint64_t i) { PTV_CHECK(0, "no bit is read"); return 0; }
#elif defined(PAIR)
static uint32_t g_na, g_nb; static int g_ba, g_bb; static uint64_t g_la, g_lb; static int g_lba, g_lbb; static int g_sa, g_sb;
static int bit2(int which, uint64_t i)
{
	int b;
	PTV_CHECK(i < (which ? g_nb : g_na), "reads inside the vector");
	if (i == gk) b = which ? g_bb : g_ba; else b = nondet_ptv_u64() & 1;
	if (which) { g_lb = i; g_lbb = b; } else { g_la = i; g_lba = b; }
	return b;
}
unsigned char bm_is_set_(void* p, uint64_t i) { unsigned char r; __CPROVER_assume(r != 0); PTV_CHECK(p == g_bits || p == g_obits, "the bits of the vectors"); return bit2(p == g_obits, i) ? r : 0; }
uint32_t pointless_reader_bitvector_is_set(pointless_t* p, pointless_value_t* v, uint32_t i) { PTV_CHECK(v == &g_v.v || v == &g_o.v, "the stored vectors"); return bit2(v == &g_o.v, i); }
void bm_set_(void* p, uint64_t i) { PTV_CHECK(0, "no bit changes"); }
void bm_reset_(void* p, uint64_t i) { PTV_CHECK(0, "no bit changes"); }
#elif defined(COPY)
static uint64_t g_rd, g_wr; static size_t g_cnt; static int g_pend; static int g_copied, g_counting;
uint32_t pointless_reader_bitvector_is_set(pointless_t* p, pointless_value_t* v, uint32_t i)
{
	int b; b = nondet_ptv_u64() & 1;
	PTV_CHECK(p == &g_pp.p && v == &g_v.v && i == g_rd && i < g_len && !g_pend, "the next bit is read, the last one has been copied");
	if (i == gk) b = g_bk;
	g_rd++; g_pend = b;
	return b;
}
void bm_set_(void* p, uint64_t i) { PTV_CHECK(p == g_bits && g_pend && i + 1 == g_rd, "the bit just read is set"); g_pend = 0; }
void bm_reset_(void* p, uint64_t i) { PTV_CHECK(0, "no bit is cleared"); }
unsigned char bm_is_set_(void* p, uint64_t i)
{
	int b; b = nondet_ptv_u64() & 1;
	unsigned char r; __CPROVER_assume(r != 0);
	PTV_CHECK(p == g_bits && i == g_wr && i < g_len, "the next bit of the copy is counted");
	g_wr++; g_cnt += b;
	return b ? r : 0;
}
#else
/* one bit is known; reading others gives anything */
static int bit1(uint64_t i)
{
	int b; b = nondet_ptv_u64() & 1;
	PTV_CHECK(i < g_len, "reads inside the vector");
	if (i == gk) b = g_bk;
	g_last = i; g_last_bit = b;
	return b;
}
unsigned char bm_is_set_(void* p, uint64_t i) { unsigned char r; __CPROVER_assume(r != 0); PTV_CHECK(p == g_bits, "the bits of the vector"); return bit1(i) ? r : 0; }
uint32_t pointless_reader_bitvector_is_set(pointless_t* p, pointless_value_t* v, uint32_t i) { PTV_CHECK(p == &g_pp.p && v == &g_v.v, "the stored vector"); return bit1(i); }
static uint64_t g_wpos; static int g_nwrite, g_wbit;
void bm_set_(void* p, uint64_t i) { PTV_CHECK(p == g_bits && i < g_len, "sets a bit of the vector"); g_wpos = i; g_nwrite++; g_wbit = 1; }
void bm_reset_(void* p, uint64_t i) { PTV_CHECK(p == g_bits && i < g_len, "clears a bit of the vector"); g_wpos = i; g_nwrite++; g_wbit = 0; }
#endif
uint32_t pointless_reader_bitvector_n_bits(pointless_t* p, pointless_value_t* v)
{
	PTV_CHECK(p == &g_pp.p, "the stored vector");
#ifdef PAIR
	return v == &g_o.v ? g_nb : g_na;
#elif defined(BULK)
	return g_m;
#else
	return g_len;
#endif
}
static uint32_t g_stored_any; static void* g_buffer;
#ifndef COPY
void* pointless_reader_bitvector_buffer(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &g_pp.p && v == &g_v.v && v->type == POINTLESS_BITVECTOR, "the buffer of the stored vector"); return g_buffer; }
uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, void* b) { PTV_CHECK(t == g_v.v.type && v == &g_v.v.data && b == (t == POINTLESS_BITVECTOR ? g_buffer : 0), "the stored vector"); return g_stored_any; }
#else
void* pointless_reader_bitvector_buffer(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &g_pp.p && v == &g_v.v && v->type == POINTLESS_BITVECTOR, "the buffer of the stored vector"); return g_buffer; }
uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, void* b) { return 0; }
#endif

static uint32_t g_by; static int g_true; static uint64_t g_nextend;
/* memory */
static uint64_t g_size;
#ifdef SEQ
void* pointless_realloc(void* p, size_t n) { void* r; PTV_CHECK(p == g_bits, "the bits are moved"); if (nondet_ptv_u64() & 1) return 0; r = malloc(n); __CPROVER_assume(r != 0); g_size = n; return r; }
#endif
static void* g_freed;
void pointless_free(void* p) { g_freed = p; }
#if defined(COPY) || defined(INIT)
static int g_nalloc;
void* pointless_calloc(size_t n, size_t m)
{
	char* r;
	PTV_CHECK(m == 1, "bytes");
	if (nondet_ptv_u64() & 1) return 0;
	g_nalloc++; g_size = n;
	r = malloc(1); __CPROVER_assume(r != 0);
	g_bits = r;
	return r;
}
#endif
PyObject* _PyObject_New(PyTypeObject* t) { g_new.ob_base.ob_refcnt = _Py_IMMORTAL_REFCNT; g_new.ob_base.ob_type = t; if (g_fail_make) { g_exc = PyExc_MemoryError; return 0; } return (PyObject*)&g_new; }
void _Py_Dealloc(PyObject* o) { }
#ifdef INIT
static PyObject *g_size_arg, *g_seq_arg, *g_print_arg; static PyObject g_seq, g_iterator; static int g_iter_fails; static int g_started;
static int kw(PyObject** size, PyObject** seq, PyObject** print) { if (!g_arg_ok) { g_exc = PyExc_TypeError; return 0; } *size = g_size_arg; *seq = g_seq_arg; *print = g_print_arg; return 1; }
#define PyArg_ParseTupleAndKeywords(args, kwds, f, k, size, seq, type, print) kw(size, seq, print)
PyObject* PyObject_GetIter(PyObject* o) { PTV_CHECK(o == &g_seq, "iterates over the argument"); if (g_iter_fails) { g_exc = PyExc_TypeError; return 0; } return &g_iterator; }
static uint64_t g_taken; static uint64_t g_oned;
/* the iterator yields booleans, numbers and other objects, ends, or raises.  It may also append to the vector and
 * remove from it: the number of bits and the set ones change, consistently */
PyObject* PyIter_Next(PyObject* o)
{
	PTV_CHECK(o == &g_iterator && g_exc == 0, "next of the iterator");
	PTV_CHECK(g_v.primitive_n_one == g_oned + g_nset, "the count is right when other code runs");
	{ uint32_t n; size_t o; __CPROVER_assume(n / 8 + (n % 8 != 0) <= g_v.primitive_n_bytes_alloc && o <= n); g_v.primitive_n_bits = n; g_oned = o; g_nset = 0; g_v.primitive_n_one = o; }
	switch (nondet_ptv_u64() % 5) {
	case 0: return Py_True;
	case 1: return Py_False;
	case 2: return &g_n;
	case 3: g_exc = PyExc_KeyError; return 0;
	}
	return 0;
}
#endif
/* the third argument of PyArg_ParseTuple */
static int bv_args(PyObject* a, const char* fmt, void* p, void* q)
{
	PTV_CHECK(a == g_args, "the arguments are parsed");
	if (!g_arg_ok) { g_exc = PyExc_TypeError; return 0; }
	if (fmt[0] == 'O' && fmt[1] == '!') *(PyObject**)q = g_arg;
	else if (fmt[0] == 'i') *(int*)p = (int)g_arg_ll;
	else PTV_CHECK(0, "argument format");
	return 1;
}
#undef PyArg_ParseTuple
#define PyArg_ParseTuple(a, fmt, p, ...) bv_args((PyObject*)(a), fmt, (void*)(p), ARG2(0, ##__VA_ARGS__, 0))
#define ARG2(a, b, ...) ((void*)(b))
static PyObject py_true, py_false;
PyObject* PyBool_FromLong(long v) { return v ? Py_True : Py_False; }
PyObject* PyUnicode_FromFormat(const char* f, ...) { return 0; }

#ifdef SCAN
#define SCANNED(i, n) __CPROVER_assigns(i, g_last, g_last_bit) __CPROVER_loop_invariant(i <= n && n == g_len && (gk >= g_len || AT(gk) >= i || g_bk == !STOP)) 
#define PTV_LOOP_bv_zero_prefix(i, n) SCANNED(i, n)
#define PTV_LOOP_bv_zero_postfix(i, n) SCANNED(i, n)
#define PTV_LOOP_bv_one_prefix(i, n) SCANNED(i, n)
#define PTV_LOOP_bv_one_postfix(i, n) SCANNED(i, n)
#endif
#ifdef PAIR
#define PTV_LOOP_bv_cmp(i, n_bits, x, y) __CPROVER_assigns(i, x, y, g_la, g_lb, g_lba, g_lbb) __CPROVER_loop_invariant(i <= n_bits && (gk >= i || g_ba == g_bb))
#endif
#ifdef SEQ
#define PTV_LOOP_bv_grow(n, want) __CPROVER_assigns(n) __CPROVER_loop_invariant(n >= __CPROVER_loop_entry(n) && n <= 600000000)
#define PTV_LOOP_bv_clear(i, n, p) __CPROVER_assigns(i, __CPROVER_object_whole(p)) __CPROVER_loop_invariant(i <= n && i >= g_v.primitive_n_bytes_alloc)
#define PTV_LOOP_bv_extend(i, n, t) __CPROVER_assigns(i, g_next, g_cnt, g_bk, g_v.primitive_n_one) \
	__CPROVER_loop_invariant(i <= n && g_next == g_len0 + i && g_cnt == (t ? i : 0) && g_v.primitive_n_one == g_ones0 + g_cnt && g_bk == (gk >= g_len0 && gk < g_next ? (t ? 1 : 0) : __CPROVER_loop_entry(g_bk)))
#endif
#ifdef BULK
#define PTV_LOOP_bv_bulk(i, m, n) __CPROVER_assigns(i, g_rd, g_pend, g_pos, g_cnt, g_v.primitive_n_one) \
	__CPROVER_loop_invariant(i <= m && g_rd == i && !g_pend && g_cnt <= i && g_v.primitive_n_one == g_ones0 + g_cnt)
#endif
#ifdef INIT
#define PTV_LOOP_bv_init(obj, is_error) __CPROVER_assigns(obj, is_error, g_exc, g_nextend, g_by, g_true, g_nset, g_oned, g_freed, g_v.primitive_n_bits, g_v.primitive_bits, g_v.primitive_n_bytes_alloc, g_v.primitive_n_one) \
	__CPROVER_loop_invariant(g_exc == 0 && is_error == 0 && g_v.primitive_n_bits <= 8 * (uint64_t)g_v.primitive_n_bytes_alloc && g_v.primitive_n_bytes_alloc <= ((uint32_t)1 << 29) + ((uint32_t)1 << 26) && g_v.primitive_n_one == g_oned + g_nset)
#endif
#ifdef COPY
#define PTV_LOOP_bv_copy(i, n, b) __CPROVER_assigns(i, g_rd, g_pend) __CPROVER_loop_invariant(i <= n && g_rd == i && !g_pend)
#define PTV_LOOP_bv_count(i, n, p) __CPROVER_assigns(i, g_wr, g_cnt, g_new.primitive_n_one) __CPROVER_loop_invariant(i <= n && g_wr == i && g_cnt <= i && g_new.primitive_n_one == g_cnt)
static void bv_memcpy(void* d, const void* s, size_t n) { PTV_CHECK(d == g_bits && s == (g_v.is_pointless ? (void*)((char*)g_buffer + 4) : g_obits) && n == g_len / 8 + (g_len % 8 != 0), "the bytes of the vector are copied"); g_copied++; }
#define memcpy bv_memcpy
#endif
#include "/repo/python/pointless_bitvector.c"
#undef memcpy

#define WF (g_v.is_pointless == 0 || g_v.is_pointless == 1)
#define IXOK (g_is_index && !g_index_fails && g_in >= -(num_t)g_len && g_in < (num_t)g_len)
#define TARGET ((Py_ssize_t)(g_in < 0 ? g_in + (num_t)g_len : g_in))
static int PyPointlessBitvector_check_index(PyPointlessBitvector* self, PyObject* item, Py_ssize_t* i)
	PTV_REQUIRES(self == &g_v && item == &g_ix && g_exc == 0)
	PTV_ASSIGNS(*i, g_exc)
	PTV_ENSURES(PTV_RET == (IXOK ? 1 : 0) && (PTV_RET ? *i == TARGET && g_exc == 0 : g_exc != 0))
	PTV_ENSURES(PTV_RET || !g_is_index || g_index_fails || g_exc == PyExc_IndexError);
#ifdef PLAIN
uint32_t PyPointlessBitvector_is_set(PyPointlessBitvector* self, uint32_t i)
	PTV_REQUIRES(self == &g_v && i < g_len)
	PTV_ASSIGNS(g_last, g_last_bit)
	PTV_ENSURES((PTV_RET == 0 || PTV_RET == 1) && g_last == i && g_last_bit == PTV_RET && (i != gk || PTV_RET == g_bk));
#endif
static PyObject* PyPointlessBitvector_subscript(PyPointlessBitvector* self, PyObject* item)
	PTV_REQUIRES(self == &g_v && item == &g_ix && g_exc == 0)
	PTV_ASSIGNS(g_exc, g_last, g_last_bit)
	PTV_ENSURES(IXOK ? PTV_RET == (g_last_bit ? Py_True : Py_False) && g_last == TARGET && g_exc == 0 : PTV_RET == 0 && g_exc != 0);
#ifdef PLAIN
/* exactly the bit asked for is written, and the count follows it */
static PyObject* g_val;
#define VAL (g_val == Py_True ? 1 : g_val == Py_False ? 0 : g_kind == PY_LONG && (g_num == 0 || g_num == 1) ? (int)g_num : -1)
static int PyPointlessBitvector_ass_subscript(PyPointlessBitvector* self, PyObject* item, PyObject* value)
	PTV_REQUIRES(self == &g_v && item == &g_ix && value == g_val && g_exc == 0 && g_nwrite == 0)
	PTV_ASSIGNS(g_exc, g_last, g_last_bit, g_nwrite, g_wpos, g_wbit, g_v.primitive_n_one)
	PTV_ENSURES((PTV_RET == 0) == (!g_v.is_pointless && g_val != 0 && IXOK && VAL >= 0))
	PTV_ENSURES(PTV_RET == 0 || (PTV_RET == -1 && g_exc != 0 && g_nwrite == 0 && g_v.primitive_n_one == PTV_OLD(g_v.primitive_n_one)))
	PTV_ENSURES(PTV_RET != 0 || (g_exc == 0 && g_nwrite == 1 && g_wpos == TARGET && g_wbit == VAL && g_last == TARGET && g_v.primitive_n_one == PTV_OLD(g_v.primitive_n_one) + VAL - g_last_bit));
static PyObject* PyPointlessBitvector_pop(PyPointlessBitvector* self)
	PTV_REQUIRES(self == &g_v && g_exc == 0 && (g_v.is_pointless || g_v.primitive_n_bits == g_len0) && g_len == g_len0)
	PTV_ASSIGNS(g_exc, g_last, g_last_bit, g_v.primitive_n_bits, g_v.primitive_n_one)
	PTV_ENSURES((PTV_RET != 0) == (!g_v.is_pointless && g_len0 > 0))
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 && g_v.primitive_n_bits == PTV_OLD(g_v.primitive_n_bits) && g_v.primitive_n_one == PTV_OLD(g_v.primitive_n_one)
		: g_last == g_len0 - 1 && PTV_RET == (g_last_bit ? Py_True : Py_False) && g_v.primitive_n_bits == g_len0 - 1 && g_v.primitive_n_one == PTV_OLD(g_v.primitive_n_one) - g_last_bit)
	PTV_ENSURES(g_len0 > 0 || g_v.is_pointless || g_exc == PyExc_IndexError);
static PyObject* PyPointlessBitvector_is_any_set(PyPointlessBitvector* self)
	PTV_REQUIRES(self == &g_v)
	PTV_ASSIGNS()
	PTV_ENSURES(PTV_RET == ((g_v.is_pointless ? g_stored_any != 0 : g_v.primitive_n_one != 0) ? Py_True : Py_False));
static PyPointlessBitvectorIter g_it;
static PyObject* PyPointlessBitvectorIter_iternext(PyPointlessBitvectorIter* iter)
	PTV_REQUIRES(iter == &g_it && (g_it.bitvector == 0 || g_it.bitvector == &g_v))
	PTV_ASSIGNS(g_it.bitvector, g_it.iter_state, g_last, g_last_bit)
	PTV_ENSURES((PTV_RET != 0) == (PTV_OLD(g_it.bitvector) != 0 && PTV_OLD(g_it.iter_state) < g_len))
	PTV_ENSURES(PTV_RET == 0 ? g_it.bitvector == 0 : g_last == PTV_OLD(g_it.iter_state) && PTV_RET == (g_last_bit ? Py_True : Py_False) && g_it.iter_state == PTV_OLD(g_it.iter_state) + 1 && g_it.bitvector == &g_v);
#endif
#ifdef SCAN
static PyObject* SCAN(PyPointlessBitvector* self)
	PTV_REQUIRES(self == &g_v && g_nmade == 0 && g_exc == 0)
	PTV_ASSIGNS(g_last, g_last_bit, g_nmade, g_made_kind, g_made_num, g_made_dbl, g_exc)
	PTV_ENSURES((PTV_RET == 0) == (g_fail_make != 0) && g_nmade == 1 && g_made_kind == PY_LONG)
	/* no bit before the result stops the scan, and the one at the result does */
	PTV_ENSURES(0 <= g_made_num && g_made_num <= g_len && (gk >= g_len || AT(gk) >= g_made_num || g_bk == !STOP))
	PTV_ENSURES(g_made_num == g_len || (g_last == AT(g_made_num) && g_last_bit == STOP));
#endif
#ifdef PAIR
static int g_op;
/* with i the first position where they differ, or the shorter length */
#define SAMEBITS (g_ret_eq)
static PyObject* PyPointlessBitvector_richcompare(PyObject* a, PyObject* b, int op)
	PTV_REQUIRES(a == (PyObject*)&g_v && b == (PyObject*)&g_o && 0 <= op && op <= 5)
	PTV_ASSIGNS(g_la, g_lb, g_lba, g_lbb)
	PTV_ENSURES(PTV_RET == Py_True || PTV_RET == Py_False)
	/* the arbitrary bit differs, or is beyond the shorter one: if equal or by length, every bit agrees */
	PTV_ENSURES(op != Py_EQ || PTV_RET == Py_False || (g_na == g_nb && (gk >= g_na || g_ba == g_bb)))
	PTV_ENSURES(op != Py_NE || PTV_RET == Py_True || (g_na == g_nb && (gk >= g_na || g_ba == g_bb)))
	/* unequal for a reason */
	PTV_ENSURES(op != Py_EQ || PTV_RET == Py_True || g_na != g_nb || (g_la == g_lb && g_lba != g_lbb))
	PTV_ENSURES(op != Py_NE || PTV_RET == Py_False || g_na != g_nb || (g_la == g_lb && g_lba != g_lbb))
	/* ordered by the first difference, if any, else by length */
	PTV_ENSURES(op == Py_EQ || op == Py_NE || (g_la == g_lb && g_la < g_na && g_la < g_nb && g_lba != g_lbb && (gk >= g_la || g_ba == g_bb) && (PTV_RET == Py_True) == (op == Py_LT || op == Py_LE ? g_lba < g_lbb : g_lba > g_lbb))
		|| ((gk >= g_na || gk >= g_nb || g_ba == g_bb) && (PTV_RET == Py_True) == (op == Py_LT ? g_na < g_nb : op == Py_LE ? g_na <= g_nb : op == Py_GT ? g_na > g_nb : g_na >= g_nb)));
#endif
static uint32_t next_size(uint32_t n_alloc)
	PTV_REQUIRES(n_alloc <= ((uint32_t)1 << 29))
	PTV_ASSIGNS()
	PTV_ENSURES(PTV_RET > n_alloc && PTV_RET <= n_alloc + n_alloc / 16 + 16);
#define NBYTES(n) ((uint64_t)(n) / 8 + ((n) % 8 != 0))
#if defined(SEQ) || defined(CALLER)
#ifdef SEQ
#define EXTRA g_next, g_cnt, g_bk, g_size
#else
#define EXTRA g_nextend, g_by, g_true
#endif
static int PyPointlessBitvector_extend_by(PyPointlessBitvector* self, uint32_t n, int is_true)
#ifdef SEQ
	PTV_REQUIRES(n == g_by && is_true == g_true && g_next == g_len0 && g_cnt == 0)
#else
	PTV_REQUIRES(!g_v.is_pointless)
#endif
	PTV_REQUIRES(self == &g_v && g_exc == 0 && g_v.primitive_n_bits <= 8 * (uint64_t)g_v.primitive_n_bytes_alloc && g_v.primitive_n_bytes_alloc <= ((uint32_t)1 << 29) + ((uint32_t)1 << 26))
	PTV_ASSIGNS(g_exc, EXTRA, g_v.primitive_n_bits, g_v.primitive_bits, g_v.primitive_n_bytes_alloc, g_v.primitive_n_one)
	PTV_ENSURES(PTV_RET == 0 || PTV_RET == 1)
	PTV_ENSURES(PTV_RET || (uint64_t)PTV_OLD(g_v.primitive_n_bits) + n > UINT32_MAX || g_exc == PyExc_MemoryError)
	PTV_ENSURES(g_v.primitive_n_bits <= 8 * (uint64_t)g_v.primitive_n_bytes_alloc && g_v.primitive_n_bytes_alloc <= ((uint32_t)1 << 29) + ((uint32_t)1 << 26))
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 && g_v.primitive_n_bits == PTV_OLD(g_v.primitive_n_bits) && g_v.primitive_n_one == PTV_OLD(g_v.primitive_n_one)
		: g_exc == 0 && g_v.primitive_n_bits == (uint64_t)PTV_OLD(g_v.primitive_n_bits) + n && g_v.primitive_n_one == PTV_OLD(g_v.primitive_n_one) + (is_true ? n : 0))
#ifdef SEQ
	/* every new bit has the value, every old one is as it was */
	PTV_ENSURES(PTV_RET == 0 || g_next == g_len0 + n)
	PTV_ENSURES(g_bk == (PTV_RET && gk >= g_len0 && gk < g_len0 + n ? (is_true != 0) : PTV_OLD(g_bk)))
#else
	PTV_ENSURES(g_nextend == PTV_OLD(g_nextend) + 1)
	PTV_ENSURES(g_by == n && g_true == (is_true != 0))
#endif
	;
#endif
#if defined(CALLER) && !defined(BULK) && !defined(INIT)
static PyObject* PyPointlessBitvector_extend_(PyPointlessBitvector* self, PyObject* args, int is_true)
	PTV_REQUIRES(self == &g_v && args == g_args && g_exc == 0 && g_nextend == 0 && is_true == g_true && g_v.primitive_n_bits == g_len0 && g_v.primitive_n_one == g_ones0 && (g_v.is_pointless || (g_len0 <= 8 * (uint64_t)g_v.primitive_n_bytes_alloc && g_v.primitive_n_bytes_alloc <= ((uint32_t)1 << 29) + ((uint32_t)1 << 26))))
	PTV_ASSIGNS(g_exc, EXTRA, g_v.primitive_n_bits, g_v.primitive_bits, g_v.primitive_n_bytes_alloc, g_v.primitive_n_one)
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 && g_v.primitive_n_bits == g_len0 && g_v.primitive_n_one == g_ones0
		: PTV_RET == Py_None && g_exc == 0 && !g_v.is_pointless && g_arg_ok && (int)g_arg_ll >= 0 && g_nextend == 1 && g_by == (uint32_t)(int)g_arg_ll && g_true == (is_true != 0) && g_v.primitive_n_bits == g_len0 + (int)g_arg_ll && g_v.primitive_n_one == g_ones0 + (is_true ? (int)g_arg_ll : 0))
	PTV_ENSURES(PTV_RET != 0 || g_v.is_pointless || !g_arg_ok || (int)g_arg_ll < 0 || g_nextend == 1);
static PyObject* PyPointlessBitvector_append(PyPointlessBitvector* self, PyObject* args)
	PTV_REQUIRES(self == &g_v && args == g_args && g_exc == 0 && g_nextend == 0 && (g_arg == Py_True || g_arg == Py_False) && g_true == (g_arg == Py_True) && g_by == 1 && g_v.primitive_n_bits == g_len0 && g_v.primitive_n_one == g_ones0 && (g_v.is_pointless || (g_len0 <= 8 * (uint64_t)g_v.primitive_n_bytes_alloc && g_v.primitive_n_bytes_alloc <= ((uint32_t)1 << 29) + ((uint32_t)1 << 26))))
	PTV_ASSIGNS(g_exc, EXTRA, g_v.primitive_n_bits, g_v.primitive_bits, g_v.primitive_n_bytes_alloc, g_v.primitive_n_one)
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 && g_v.primitive_n_bits == g_len0 && g_v.primitive_n_one == g_ones0
		: PTV_RET == Py_None && g_exc == 0 && !g_v.is_pointless && g_arg_ok && g_nextend == 1 && g_by == 1 && g_v.primitive_n_bits == g_len0 + 1 && g_v.primitive_n_one == g_ones0 + (g_arg == Py_True))
	PTV_ENSURES(PTV_RET != 0 || g_v.is_pointless || !g_arg_ok || g_nextend == 1);
#endif
#ifdef BULK
static PyObject* PyPointlessBitvector_append_bulk(PyPointlessBitvector* self, PyObject* args)
	PTV_REQUIRES(self == &g_v && args == g_args && g_exc == 0 && g_nextend == 0 && g_true == 0 && g_by == g_m && g_arg == (g_self ? (PyObject*)&g_v : (PyObject*)&g_o) && g_v.primitive_n_bits == g_len0 && g_v.primitive_n_one == g_ones0 && (g_v.is_pointless || (g_len0 <= 8 * (uint64_t)g_v.primitive_n_bytes_alloc && g_v.primitive_n_bytes_alloc <= ((uint32_t)1 << 29) + ((uint32_t)1 << 26))))
	PTV_REQUIRES(g_rd == 0 && g_cnt == 0 && g_pend == 0 && (!g_self || g_m == g_len0))
	PTV_ASSIGNS(g_exc, EXTRA, g_rd, g_cnt, g_pend, g_pos, g_v.primitive_n_bits, g_v.primitive_bits, g_v.primitive_n_bytes_alloc, g_v.primitive_n_one)
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 && g_v.primitive_n_bits == g_len0 && g_v.primitive_n_one == g_ones0 && g_rd == 0
		: PTV_RET == Py_None && g_exc == 0 && !g_v.is_pointless && g_arg_ok && g_nextend == 1 && g_by == g_m && g_true == 0 && g_v.primitive_n_bits == g_len0 + g_m && g_rd == g_m && !g_pend && g_v.primitive_n_one == g_ones0 + g_cnt)
	PTV_ENSURES(PTV_RET != 0 || g_v.is_pointless || !g_arg_ok || g_nextend == 1);
#endif
#ifdef COPY
static PyObject* PyPointlessBitvector_copy(PyPointlessBitvector* self)
	PTV_REQUIRES(self == &g_v && g_exc == 0 && g_rd == 0 && g_wr == 0 && g_cnt == 0 && g_pend == 0 && g_copied == 0 && g_nalloc == 0 && (g_v.is_pointless || g_v.primitive_n_bits == g_len))
	PTV_ASSIGNS(g_exc, g_rd, g_wr, g_cnt, g_pend, g_copied, g_nalloc, g_size, g_bits, g_freed, g_new)
	PTV_ENSURES(PTV_RET == 0 ? g_exc != 0 : PTV_RET == (PyObject*)&g_new && g_exc == 0)
	/* all the bits were copied into a buffer of their size, and counted */
	PTV_ENSURES(PTV_RET == 0 || (g_nalloc == 1 && g_size == NBYTES(g_len) && g_new.primitive_bits == g_bits && g_new.primitive_n_bytes_alloc == g_size && g_new.primitive_n_bits == g_len && g_new.is_pointless == 0 && g_new.pp == 0))
	PTV_ENSURES(PTV_RET == 0 || (g_copied == 1 && g_rd == 0) || (g_copied == 0 && g_rd == g_len && !g_pend && g_v.is_pointless && g_v.v.type != POINTLESS_BITVECTOR))
	PTV_ENSURES(PTV_RET == 0 || (g_wr == g_len && g_new.primitive_n_one == g_cnt));
#endif
#ifdef INIT
static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args, PyObject* kwds)
	PTV_REQUIRES(self == &g_v && g_exc == 0 && g_nextend == 0 && g_nalloc == 0 && g_nset == 0 && g_oned == 0)
	PTV_ASSIGNS(g_exc, EXTRA, g_v, g_nset, g_oned, g_nalloc, g_size, g_bits, g_freed, g_pp.n_bitvector_refs)
	PTV_ENSURES(PTV_RET == 0 || PTV_RET == -1)
	PTV_ENSURES((PTV_RET == 0) == (g_exc == 0) && g_v.is_pointless == 0 && g_v.pp == 0 && g_v.primitive_n_bits <= 8 * (uint64_t)g_v.primitive_n_bytes_alloc)
	PTV_ENSURES(PTV_RET == 0 || g_v.primitive_n_bits == 0)
	PTV_ENSURES(PTV_RET != 0 || g_v.primitive_n_one == g_oned + g_nset)
	PTV_ENSURES(PTV_RET != 0 || g_size_arg == 0 || (g_size_arg == &g_n && g_kind == PY_LONG && 0 <= g_num && g_num <= UINT32_MAX && g_seq_arg == 0 && g_v.primitive_n_bits == g_num && g_v.primitive_n_one == 0 && (g_num == 0 || g_size == NBYTES(g_v.primitive_n_bits))))
	PTV_ENSURES(PTV_RET != 0 || g_size_arg != 0 || g_seq_arg != 0 || (g_v.primitive_n_bits == 0 && g_v.primitive_n_one == 0));
#endif

static void setup(void)
{
	py_setup();
	g_len = ptv_range(0, UINT32_MAX); g_len0 = g_len; g_ones0 = PTV_U64(); PTV_ASSUME(g_ones0 <= g_len);
	gk = PTV_U64(); g_bk = ptv_range(0, 1);
	g_v.ob_base.ob_type = g_o.ob_base.ob_type = &PyPointlessBitvectorType; g_v.ob_base.ob_refcnt = g_o.ob_base.ob_refcnt = g_pp.ob_base.ob_refcnt = _Py_IMMORTAL_REFCNT;
	PyPointlessBitvectorType.tp_flags = py_other_type.tp_flags;
	g_v.is_pointless = ptv_range(0, 1);
	g_v.pp = g_v.is_pointless ? &g_pp : 0; g_v.v.type = PTV_U32();
	g_v.primitive_n_bits = g_v.is_pointless ? 0 : g_len; g_v.primitive_n_one = g_v.is_pointless ? 0 : g_ones0;
	g_bits = malloc(1); g_obits = malloc(1); g_buffer = malloc(8);
	__CPROVER_assume(g_bits != 0 && g_obits != 0 && g_buffer != 0);
	g_v.primitive_bits = g_v.is_pointless ? 0 : g_bits;
	g_in = PTV_I64(); if (ptv_range(0, 1)) g_in *= 4;
	{ num_t n; g_num = n; } g_kind = ptv_range(1, 3); py_setup();
	g_is_index = ptv_range(0, 1); g_index_fails = ptv_range(0, 1); g_fail_make = ptv_range(0, 1);
	g_arg_ok = ptv_range(0, 1); { PyObject* a; g_args = a; } g_arg_ll = PTV_I64();
	g_v.primitive_n_bytes_alloc = PTV_U32();
	PTV_ASSUME(g_v.is_pointless || (g_len <= 8 * (uint64_t)g_v.primitive_n_bytes_alloc && g_v.primitive_n_bytes_alloc <= ((uint32_t)1 << 29) + ((uint32_t)1 << 26)));
}
#endif
#define H(name, ...) void name(void) { PTV_CBMC_ONLY(setup(); __VA_ARGS__; PTV_REACH();) }
H(h_check_index, { Py_ssize_t i; PyPointlessBitvector_check_index(&g_v, &g_ix, &i); })
H(h_next_size, { next_size(PTV_U32()); })
#ifdef PLAIN
H(h_is_set, { PyPointlessBitvector_is_set(&g_v, PTV_U32()); })
H(h_subscript, { PyPointlessBitvector_subscript(&g_v, &g_ix); })
H(h_ass, { g_nwrite = 0; switch (ptv_range(0, 3)) { case 0: g_val = Py_True; break; case 1: g_val = Py_False; break; case 2: g_val = &g_n; break; default: g_val = 0; } PyPointlessBitvector_ass_subscript(&g_v, &g_ix, g_val); })
H(h_pop, { PyPointlessBitvector_pop(&g_v); })
H(h_any, { g_stored_any = PTV_U32(); PyPointlessBitvector_is_any_set(&g_v); })
H(h_iternext, { g_it.bitvector = ptv_range(0, 1) ? &g_v : 0; g_it.iter_state = PTV_U32(); PyPointlessBitvectorIter_iternext(&g_it); })
#endif
#ifdef SCAN
H(h_scan, { SCAN(&g_v); })
#endif
#ifdef PAIR
H(h_cmp, { g_na = PTV_U32(); g_nb = PTV_U32(); g_ba = ptv_range(0, 1); g_bb = ptv_range(0, 1);
	g_o.is_pointless = ptv_range(0, 1); g_o.pp = g_o.is_pointless ? &g_pp : 0; g_o.primitive_bits = g_obits; g_o.primitive_n_bits = g_nb; g_v.primitive_n_bits = g_na;
	g_op = ptv_range(0, 5); PyPointlessBitvector_richcompare((PyObject*)&g_v, (PyObject*)&g_o, g_op); })
#endif
#ifdef SEQ
H(h_extend_by, { g_by = PTV_U32(); g_true = ptv_range(0, 1); g_next = g_len0; g_cnt = 0; PTV_ASSUME(!g_v.is_pointless); PyPointlessBitvector_extend_by(&g_v, g_by, g_true); })
#endif
#if defined(CALLER) && !defined(BULK) && !defined(INIT)
H(h_extend, { g_nextend = 0; g_true = ptv_range(0, 1); g_by = (uint32_t)g_arg_ll; g_v.primitive_n_bits = g_len0; g_v.primitive_n_one = g_ones0; PyPointlessBitvector_extend_(&g_v, g_args, g_true); })
H(h_append, { g_nextend = 0; g_arg = ptv_range(0, 1) ? Py_True : Py_False; g_true = g_arg == Py_True; g_by = 1; g_v.primitive_n_bits = g_len0; g_v.primitive_n_one = g_ones0; PyPointlessBitvector_append(&g_v, g_args); })
#endif
#ifdef BULK
H(h_bulk, { g_nextend = 0; g_true = 0; g_self = ptv_range(0, 1); g_m = g_self ? g_len0 : PTV_U32(); g_by = g_m; g_rd = 0; g_cnt = 0; g_pend = 0;
	g_o.is_pointless = ptv_range(0, 1); g_o.pp = &g_pp; g_o.primitive_n_bits = g_m; g_o.primitive_bits = g_obits;
	g_v.primitive_n_bits = g_len0; g_v.primitive_n_one = g_ones0;
	g_arg = g_self ? (PyObject*)&g_v : (PyObject*)&g_o; PyPointlessBitvector_append_bulk(&g_v, g_args); })
#endif
#ifdef COPY
H(h_copy, { g_rd = g_wr = 0; g_cnt = 0; g_pend = 0; g_copied = 0; g_nalloc = 0; g_v.primitive_bits = g_obits; PyPointlessBitvector_copy(&g_v); })
#endif
#ifdef INIT
H(h_init, { g_nextend = 0; g_nalloc = 0; g_nset = 0; g_oned = 0; g_seq.ob_type = &py_other_type; g_seq.ob_refcnt = g_iterator.ob_refcnt = _Py_IMMORTAL_REFCNT; g_iter_fails = ptv_range(0, 1); PTV_ASSUME(g_pp.n_bitvector_refs > 0);
	g_size_arg = ptv_range(0, 1) ? &g_n : 0; g_seq_arg = ptv_range(0, 1) ? &g_seq : 0; g_print_arg = ptv_range(0, 1) ? Py_True : Py_False;
	PyPointlessBitvector_init(&g_v, g_args, 0); })
#endif

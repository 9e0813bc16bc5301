/*PTV
{
 "functions": ["pointless_dynarray_init", "pointless_dynarray_n_items", "pointless_dynarray_n_heap_bytes", "pointless_dynarray_pop", "pointless_dynarray_grow", "next_size", "pointless_dynarray_push", "pointless_dynarray_push_bulk", "pointless_dynarray_clear", "pointless_dynarray_destroy", "pointless_dynarray_item_at", "pointless_dynarray_buffer", "pointless_dynarray_swap", "pointless_dynarray_give_data"],
 "assumptions": ["realloc is modelled: it fails, or returns a new object which keeps the old contents (one arbitrary byte stands for all)", "an allocation is at most 2^48 bytes", "one proof per item size: 1, 4, 8, 12, 16 or 72 bytes (bulk push and growth are not proved for every size; other sizes only by execution)", "push_bulk is proved with pointless_dynarray_grow replaced by its contract, in which the data keep their address (a moved buffer is covered by the proof of grow and by execution)"],
 "contracts": [
  {"id": "grow", "harness": "h_grow", "enforce": "pointless_dynarray_grow", "timeout": 200, "unwind": 2, "variants": ["ISZ=1", "ISZ=4", "ISZ=8", "ISZ=12", "ISZ=72"]},
  {"id": "push_bulk", "harness": "h_push_bulk", "enforce": "pointless_dynarray_push_bulk", "replace": ["pointless_dynarray_grow"], "loops": true, "solver": "cadical", "variants": ["ISZ=1", "ISZ=4", "ISZ=8", "ISZ=12", "ISZ=16"], "defs": ["BULK"]},
  {"id": "push", "harness": "h_push", "enforce": "pointless_dynarray_push", "replace": ["pointless_dynarray_push_bulk"], "defs": ["ISZ=8", "PUSH"]},
  {"id": "pop", "harness": "h_pop", "enforce": "pointless_dynarray_pop", "defs": ["ISZ=8"]},
  {"id": "init", "harness": "h_init", "enforce": "pointless_dynarray_init", "defs": ["ISZ=8"]},
  {"id": "n_items", "harness": "h_n_items", "enforce": "pointless_dynarray_n_items", "defs": ["ISZ=8"]},
  {"id": "n_heap_bytes", "harness": "h_n_heap_bytes", "enforce": "pointless_dynarray_n_heap_bytes", "variants": ["ISZ=1", "ISZ=8", "ISZ=12"]},
  {"id": "buffer", "harness": "h_buffer", "enforce": "pointless_dynarray_buffer", "defs": ["ISZ=8"]},
  {"id": "item_at", "harness": "h_item_at", "enforce": "pointless_dynarray_item_at", "variants": ["ISZ=1", "ISZ=8", "ISZ=12"]},
  {"id": "destroy", "harness": "h_destroy", "enforce": "pointless_dynarray_destroy", "defs": ["ISZ=8"]},
  {"id": "clear", "harness": "h_clear", "enforce": "pointless_dynarray_clear", "defs": ["ISZ=8"]},
  {"id": "give_data", "harness": "h_give_data", "enforce": "pointless_dynarray_give_data", "defs": ["ISZ=8"]},
  {"id": "swap", "harness": "h_swap", "enforce": "pointless_dynarray_swap", "unwind": 73, "variants": ["ISZ=1", "ISZ=2", "ISZ=4", "ISZ=8", "ISZ=12", "ISZ=16"], "timeout": 150}
 ],
 "native": [{"harness": "h_ops", "secs": 2, "tag": "1", "defs": ["ISZ=1"]}, {"harness": "h_ops", "secs": 2, "tag": "2", "defs": ["ISZ=2"]}, {"harness": "h_ops", "secs": 2, "tag": "4", "defs": ["ISZ=4"]}, {"harness": "h_ops", "secs": 2, "tag": "8", "defs": ["ISZ=8"]}, {"harness": "h_ops", "secs": 2, "tag": "12", "defs": ["ISZ=12"]}, {"harness": "h_ops", "secs": 2, "tag": "72", "defs": ["ISZ=72"]}, {"harness": "h_overflow", "secs": 1, "defs": ["ISZ=8"]}],
 "src": ["src/pointless_int_ops.c"]
}
PTV*/
#include "ptv.h"
#ifndef ISZ
#define ISZ 8
#endif
#define CAPB ((size_t)1 << 48)                 /* largest allocation, bytes */

/* ------------------------------------------------ allocation stand-ins */
#include <pointless/pointless_malloc.h>
#include <pointless/pointless_dynarray.h>
pointless_dynarray_t* g_a;
static int g_fail_in;       /* the allocation which fails (0: none) */
size_t gk;                  /* an arbitrary byte offset */
uint8_t g_old;              /* the byte at that offset */
void* g_freed; int g_nfreed;
#ifdef PTV_CBMC
void* pointless_realloc(void* p, size_t n)
{
	uint8_t* r;
	PTV_CHECK(p == g_a->_data, "realloc gets the buffer");
	PTV_CHECK(n > 0, "realloc gets a size");
	if (nondet_ptv_u64() & 1 || n > CAPB) return 0;
	r = malloc(n);
	__CPROVER_assume(r != 0);
	if (gk < g_a->n_alloc * ISZ && gk < n) __CPROVER_assume(r[gk] == g_old);
	return r;
}
void pointless_free(void* p) { g_freed = p; g_nfreed++; }
#ifdef BULK
/* the copied range has to lie inside the allocation */
void* g_dst; size_t g_len; const void* g_src; int g_ncopy;
static void* ptv_memcpy(void* d, const void* s, size_t n)
{
	PTV_CHECK(n == 0 || (g_a->n_alloc * ISZ >= n && __CPROVER_POINTER_OFFSET(d) <= g_a->n_alloc * ISZ - n), "copy stays inside the allocation");
	PTV_CHECK(n == 0 || __CPROVER_same_object(d, g_a->_data), "copy into the array");
	g_dst = d; g_src = s; g_len = n; g_ncopy++;
	return d;
}
#define memcpy ptv_memcpy
#endif
#else
#include <errno.h>
static int g_allocs; static size_t g_cap = (size_t)1 << 26;
void* pointless_realloc(void* p, size_t n)
{
	if (++g_allocs == g_fail_in || n > g_cap) return 0;
	{ void* r = malloc(n); if (!r) return 0; /* always moves; the old buffer is poisoned and freed */
	  if (p) { size_t o = g_a->n_alloc * g_a->item_size; memcpy(r, p, o < n ? o : n); free(p); }
	  return r; }
}
void pointless_free(void* p) { free(p); }
#endif

/* ------------------------------------------------------------ contracts */
#define CAPN (CAPB / ISZ)
#define WF(a) ((a)->item_size == ISZ && (a)->n_items <= (a)->n_alloc && (a)->n_alloc <= CAPN)
#define SAME(a) ((a)->n_items == PTV_OLD((a)->n_items) && (a)->item_size == ISZ && (a)->_data == PTV_OLD((a)->_data) && (a)->n_alloc == PTV_OLD((a)->n_alloc))
#ifdef PTV_CBMC
#ifdef BULK
#define PTV_LOOP_dynarray_push_bulk(a) __CPROVER_assigns((a)->n_alloc) __CPROVER_loop_invariant(WF(a)) __CPROVER_decreases(SIZE_MAX - (a)->n_alloc)
#endif
static int pointless_dynarray_grow(pointless_dynarray_t* a)
	PTV_REQUIRES(a == g_a && WF(a))
#ifdef BULK
	PTV_ASSIGNS(a->n_alloc)
	PTV_ENSURES(WF(a) && (PTV_RET ? a->n_alloc > PTV_OLD(a->n_alloc) : SAME(a)));
#else
	PTV_ASSIGNS(a->n_alloc, a->_data)
	PTV_ENSURES(WF(a) && a->n_items == PTV_OLD(a->n_items))
	PTV_ENSURES(PTV_RET ? (a->n_alloc > PTV_OLD(a->n_alloc) && __CPROVER_rw_ok(a->_data, a->n_alloc * ISZ)) : SAME(a))
	PTV_ENSURES(!PTV_RET || gk >= PTV_OLD(a->n_alloc) * ISZ || ((uint8_t*)a->_data)[gk] == g_old);
#endif
#ifdef BULK
int pointless_dynarray_push_bulk(pointless_dynarray_t* a, void* i, size_t n_items)
	PTV_REQUIRES(a == g_a && WF(a) && g_ncopy == 0)
	PTV_ASSIGNS(a->n_alloc, a->n_items, g_dst, g_src, g_len, g_ncopy)
	PTV_ENSURES(WF(a))
	PTV_ENSURES(PTV_RET ? a->n_items - PTV_OLD(a->n_items) == n_items && a->n_items >= PTV_OLD(a->n_items)
		&& g_ncopy == 1 && g_src == i && g_len == n_items * ISZ && g_dst == (uint8_t*)a->_data + PTV_OLD(a->n_items) * ISZ
		: a->n_items == PTV_OLD(a->n_items) && g_ncopy == 0)
	PTV_ENSURES(PTV_RET || n_items > PTV_OLD(a->n_alloc) - PTV_OLD(a->n_items));
#else
void* g_i; int g_r; size_t g_pushed; int g_npush;
int pointless_dynarray_push_bulk(pointless_dynarray_t* a, void* i, size_t n_items)
	PTV_REQUIRES(a == g_a && i == g_i && n_items == 1 && g_npush == 0)
	PTV_ASSIGNS(g_npush)
	PTV_ENSURES(PTV_RET == g_r && g_npush == 1);
int pointless_dynarray_push(pointless_dynarray_t* a, void* i)
	PTV_REQUIRES(a == g_a && i == g_i && g_npush == 0)
	PTV_ASSIGNS(g_npush)
	PTV_ENSURES(PTV_RET == g_r && g_npush == 1);
#endif
void pointless_dynarray_pop(pointless_dynarray_t* a)
	PTV_REQUIRES(a == g_a && WF(a) && a->n_items > 0) PTV_ASSIGNS(a->n_items) PTV_ENSURES(a->n_items == PTV_OLD(a->n_items) - 1);
void pointless_dynarray_init(pointless_dynarray_t* a, size_t item_size)
	PTV_REQUIRES(a == g_a && item_size == ISZ) PTV_ASSIGNS(*a) PTV_ENSURES(WF(a) && a->n_items == 0 && a->n_alloc == 0 && a->_data == 0);
size_t pointless_dynarray_n_items(pointless_dynarray_t* a)
	PTV_REQUIRES(a == g_a) PTV_ASSIGNS() PTV_ENSURES(PTV_RET == a->n_items);
size_t pointless_dynarray_n_heap_bytes(pointless_dynarray_t* a)
	PTV_REQUIRES(a == g_a && WF(a)) PTV_ASSIGNS() PTV_ENSURES(PTV_RET == a->n_alloc * ISZ);
void* pointless_dynarray_buffer(pointless_dynarray_t* a)
	PTV_REQUIRES(a == g_a) PTV_ASSIGNS() PTV_ENSURES(PTV_RET == a->_data);
void* pointless_dynarray_item_at(pointless_dynarray_t* a, size_t i)
	PTV_REQUIRES(a == g_a && WF(a) && i < a->n_items) PTV_ASSIGNS() PTV_ENSURES(PTV_RET == (uint8_t*)a->_data + i * ISZ);
void pointless_dynarray_destroy(pointless_dynarray_t* a)
	PTV_REQUIRES(a == g_a && WF(a) && g_nfreed == 0) PTV_ASSIGNS(a->_data, a->n_items, a->n_alloc, g_freed, g_nfreed)
	PTV_ENSURES(WF(a) && a->n_items == 0 && a->n_alloc == 0 && a->_data == 0 && g_nfreed == 1 && g_freed == PTV_OLD(a->_data));
void pointless_dynarray_clear(pointless_dynarray_t* a)
	PTV_REQUIRES(a == g_a && WF(a) && g_nfreed == 0) PTV_ASSIGNS(*a, g_freed, g_nfreed)
	PTV_ENSURES(WF(a) && a->n_items == 0 && a->n_alloc == 0 && a->_data == 0 && g_nfreed == 1 && g_freed == PTV_OLD(a->_data));
void pointless_dynarray_give_data(pointless_dynarray_t* a, void* data, size_t n_items)
	PTV_REQUIRES(a == g_a && WF(a) && a->n_items == 0 && n_items <= CAPN && g_nfreed == 0) PTV_ASSIGNS(a->_data, a->n_items, a->n_alloc, g_freed, g_nfreed)
	PTV_ENSURES(WF(a) && a->n_items == n_items && a->n_alloc == n_items && a->_data == data && g_nfreed == 1 && g_freed == PTV_OLD(a->_data));
/* an arbitrary byte g = (element e, byte d): after swapping i and j it holds what was there in the other element */
size_t g_e, g_d, g_i_, g_j_; uint8_t g_vi, g_vj, g_ve;
void pointless_dynarray_swap(pointless_dynarray_t* a, size_t i, size_t j)
	PTV_REQUIRES(a == g_a && WF(a) && i == g_i_ && j == g_j_ && i < a->n_items && j < a->n_items && g_e < a->n_items && g_d < ISZ)
	PTV_ASSIGNS(__CPROVER_object_whole(a->_data))
	PTV_ENSURES(((uint8_t*)a->_data)[g_e * ISZ + g_d] == (g_e == g_i_ ? g_vj : (g_e == g_j_ ? g_vi : g_ve)));
#endif

#include "/repo/src/pointless_dynarray.c"
#undef memcpy

/* ------------------------------------------------------------ harnesses */
#ifdef PTV_CBMC
static pointless_dynarray_t A;
static void arbitrary(int with_data)
{
	A.item_size = ISZ; A.n_alloc = PTV_U64(); A.n_items = PTV_U64();
	PTV_ASSUME(WF(&A));
	A._data = 0;
	if (with_data) {
		A._data = malloc(A.n_alloc * ISZ);
		PTV_ASSUME(A._data != 0);
	}
	g_a = &A; g_nfreed = 0;
}
void h_grow(void)
{
	arbitrary(1);
	gk = PTV_U64();
	PTV_ASSUME(gk < CAPB);
	if (gk < A.n_alloc * ISZ) g_old = ((uint8_t*)A._data)[gk];
	pointless_dynarray_grow(&A);
	PTV_REACH();
}
void h_push_bulk(void)
{
#ifdef BULK
	static char src[1];
	arbitrary(0);
	{ size_t cap = PTV_U64(); PTV_ASSUME(cap >= CAPB && cap < CAPB + 16); A._data = malloc(cap); PTV_ASSUME(A._data != 0); }
	g_ncopy = 0;
	pointless_dynarray_push_bulk(&A, src, PTV_U64());
#endif
	PTV_REACH();
}
void h_push(void)
{
#ifndef BULK
	static char src[ISZ];
	arbitrary(0); g_i = src; g_r = PTV_BOOL(); g_npush = 0;
	pointless_dynarray_push(&A, src);
#endif
	PTV_REACH();
}
void h_pop(void) { arbitrary(0); PTV_ASSUME(A.n_items > 0); pointless_dynarray_pop(&A); PTV_REACH(); }
void h_init(void) { g_a = &A; A.n_items = PTV_U64(); A.n_alloc = PTV_U64(); pointless_dynarray_init(&A, ISZ); PTV_REACH(); }
void h_n_items(void) { arbitrary(0); pointless_dynarray_n_items(&A); PTV_REACH(); }
void h_n_heap_bytes(void) { arbitrary(0); pointless_dynarray_n_heap_bytes(&A); PTV_REACH(); }
void h_buffer(void) { arbitrary(1); pointless_dynarray_buffer(&A); PTV_REACH(); }
void h_item_at(void) { size_t i = PTV_U64(); arbitrary(1); PTV_ASSUME(i < A.n_items); pointless_dynarray_item_at(&A, i); PTV_REACH(); }
void h_destroy(void) { arbitrary(1); pointless_dynarray_destroy(&A); PTV_REACH(); }
void h_clear(void) { arbitrary(1); pointless_dynarray_clear(&A); PTV_REACH(); }
void h_give_data(void) { void* d = malloc(ISZ); size_t n = PTV_U64(); arbitrary(1); PTV_ASSUME(A.n_items == 0 && n <= CAPN); pointless_dynarray_give_data(&A, d, n); PTV_REACH(); }
void h_swap(void)
{
	arbitrary(1);
	g_i_ = PTV_U64(); g_j_ = PTV_U64(); g_e = PTV_U64(); g_d = PTV_U64();
	PTV_ASSUME(g_i_ < A.n_items && g_j_ < A.n_items && g_e < A.n_items && g_d < ISZ);
	g_vi = ((uint8_t*)A._data)[g_i_ * ISZ + g_d]; g_vj = ((uint8_t*)A._data)[g_j_ * ISZ + g_d]; g_ve = ((uint8_t*)A._data)[g_e * ISZ + g_d];
	pointless_dynarray_swap(&A, g_i_, g_j_);
	PTV_REACH();
}
#endif

/* operation sequences against a plain array model, with failing allocations (native, and bounded) */
#ifndef MAXOPS
#define MAXOPS 40
#define MAXBULK 20
#endif
typedef struct { uint8_t b[ISZ]; } item_t;
static item_t nd_item(void) { item_t x; size_t k; for (k = 0; k < ISZ; k++) x.b[k] = 0; x.b[0] = PTV_U8(); x.b[ISZ - 1] ^= (uint8_t)(x.b[0] * 7); return x; }
void h_ops(void)
{
	static item_t m[MAXOPS * MAXBULK + 1];
	item_t buf[MAXBULK];
	size_t n = 0, k, ops = ptv_range(1, MAXOPS);
	pointless_dynarray_t a;
	PTV_NATIVE_ONLY(g_allocs = 0; g_fail_in = ptv_range(0, 1) ? 0 : (int)ptv_range(1, 12);)
	g_a = &a;
	pointless_dynarray_init(&a, ISZ);
	while (ops--) {
		switch (ptv_range(0, 6)) {
			case 0: case 1: { item_t x = nd_item(); if (pointless_dynarray_push(&a, &x)) m[n++] = x; else PTV_NATIVE_ONLY(PTV_CHECK(g_fail_in && g_allocs == g_fail_in, "push fails only without memory")); break; }
			case 2: { size_t c = ptv_range(0, MAXBULK); for (k = 0; k < c; k++) buf[k] = nd_item();
				if (pointless_dynarray_push_bulk(&a, buf, c)) { for (k = 0; k < c; k++) m[n++] = buf[k]; } else PTV_NATIVE_ONLY(PTV_CHECK(g_fail_in && g_allocs == g_fail_in, "push fails only without memory")); break; }
			case 3: if (n) { pointless_dynarray_pop(&a); n--; } break;
			case 4: if (ptv_range(0, 4) == 0) { pointless_dynarray_clear(&a); n = 0; } break;
			case 5: if (n) { size_t i = ptv_range(0, n - 1), j = ptv_range(0, n - 1); item_t t = m[i]; m[i] = m[j]; m[j] = t; pointless_dynarray_swap(&a, i, j); } break;
			case 6: if (n && ptv_range(0, 3) == 0) { item_t* d = malloc(n * sizeof(item_t)); if (!d) break; for (k = 0; k < n; k++) d[k] = m[k]; pointless_dynarray_clear(&a); pointless_dynarray_give_data(&a, d, n); } break;
		}
		PTV_CHECK(pointless_dynarray_n_items(&a) == n, "number of items");
		PTV_CHECK(a.n_alloc >= n, "capacity");
		PTV_CHECK(pointless_dynarray_n_heap_bytes(&a) == a.n_alloc * ISZ, "heap bytes");
		for (k = 0; k < n; k++) {
			PTV_CHECK(pointless_dynarray_item_at(&a, k) == (uint8_t*)pointless_dynarray_buffer(&a) + k * ISZ, "address of an item");
			PTV_CHECK(memcmp(pointless_dynarray_item_at(&a, k), &m[k], ISZ) == 0, "contents");
		}
	}
	pointless_dynarray_destroy(&a);
	PTV_CHECK(pointless_dynarray_n_items(&a) == 0 && pointless_dynarray_buffer(&a) == 0, "destroyed");
	PTV_REACH();
}
/* a push whose count or byte size would wrap around fails and changes nothing */
void h_overflow(void)
{
	static uint8_t x[ISZ];
	pointless_dynarray_t a;
	size_t n = ptv_range(0, 5), k, c;
	PTV_NATIVE_ONLY(g_allocs = 0; g_fail_in = 0; g_cap = 1 << 14;)
	g_a = &a;
	pointless_dynarray_init(&a, ISZ);
	for (k = 0; k < n; k++) pointless_dynarray_push(&a, x);
	c = PTV_BOOL() ? (size_t)0 - ptv_range(1, 6) : (SIZE_MAX / ISZ) + ptv_range(0, 4) - 2;
	PTV_CHECK(!pointless_dynarray_push_bulk(&a, x, c), "a push which would overflow fails");
	PTV_CHECK(pointless_dynarray_n_items(&a) == n, "number of items");
	pointless_dynarray_destroy(&a);
	PTV_REACH();
}
#ifndef PTV_CBMC
#define E(h) void h(void) {}
E(h_grow) E(h_push_bulk) E(h_push) E(h_pop) E(h_init) E(h_n_items) E(h_n_heap_bytes) E(h_buffer) E(h_item_at) E(h_destroy) E(h_clear) E(h_give_data) E(h_swap)
#endif

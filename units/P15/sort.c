/*PTV
{
 "functions": ["bentley_sort_", "bentley_qsort_priv", "med3", "cmp_adapter"],
 "assumptions": ["bentley_qsort_priv: recursive calls satisfy its contract (they are on strictly shorter ranges, which is checked); the final jump back to the start with the upper part of the range is proved as a recursive call on it", "that the result is an ordered permutation is proved for every range of fewer than 7 elements, and checked with a bound or by execution for longer ranges; for every length it is proved that the sort terminates, compares and swaps only indices inside its range, and reports failure exactly when a comparison failed, whatever the comparison answers", "the swap callback has no way of reporting an error"],
 "contracts": [
  {"id": "range", "harness": "h_priv", "enforce": "bentley_qsort_priv", "rec": true, "replace": ["med3"], "loops": true, "solver": "cadical", "unwind": 2, "unwindset": "__CPROVER_contracts_write_set_check_assigns_clause_inclusion.0:8", "timeout": 250},
  {"id": "med3", "harness": "h_med3", "enforce": "med3"},
  {"id": "top", "harness": "h_top", "enforce": "bentley_sort_", "replace": ["bentley_qsort_priv"], "defs": ["TOP"]}
 ],
 "complete": [{"id": "short", "harness": "h_short", "unwind": 8, "solver": "cadical", "variants": ["NMAX=6 NMIN=6", "NMAX=5 NMIN=5", "NMAX=4 NMIN=4", "NMAX=3 NMIN=3", "NMAX=2 NMIN=2", "NMAX=1 NMIN=1", "NMAX=0 NMIN=0"], "defs": ["KEYS"], "timeout": 200}],
 "bounded": [{"id": "keys7", "harness": "h_short", "unwind": 9, "solver": "cadical", "bound": "7 elements", "defs": ["KEYS", "NMAX=7", "NMIN=7"], "timeout": 240, "fallback": true, "thorough": true}],
 "native": [{"harness": "h_random", "secs": 6, "defs": ["KEYS", "NMAX=1000"]}]
}
PTV*/
#include "ptv.h"
int ga, gn;          /* the range, as first called */
int gfail;           /* a comparison has failed */
#ifdef PTV_CBMC
#ifndef KEYS
static int bentley_qsort_priv(int a, int n, int (*cmp)(int, int, int*, void*), void (*swap)(int, int, void*), void* user);
#define PTV_LOOP_sort_presorted(a, n, pm, e, pre) __CPROVER_assigns(pm, e, gfail) __CPROVER_loop_invariant(a + 1 <= pm && pm <= a + n && e == 0 && gfail == 0 && pre == 1) __CPROVER_decreases(a + n - pm)
#define PINV(a, n, pa, pb, pc, pd, e) (a < pa && pd <= a + n - 1 && pc <= pd && pa <= pb && pb <= pd + 1 && pb - 2 <= pc && a <= pc && e == 0 && gfail == 0)
#define PTV_LOOP_sort_partition(a, n, pa, pb, pc, pd, r, e) __CPROVER_assigns(pa, pb, pc, pd, r, e, gfail) __CPROVER_loop_invariant(PINV(a, n, pa, pb, pc, pd, e)) __CPROVER_decreases(pc - pb + 1)
#define PTV_LOOP_sort_left(a, n, pa, pb, pc, pd, r, e) __CPROVER_assigns(pa, pb, r, e, gfail) __CPROVER_loop_invariant(PINV(a, n, pa, pb, pc, pd, e) && __CPROVER_loop_entry(pb) <= pb) __CPROVER_decreases(pc - pb + 1)
#define PTV_LOOP_sort_right(a, n, pa, pb, pc, pd, r, e) __CPROVER_assigns(pc, pd, r, e, gfail) __CPROVER_loop_invariant(PINV(a, n, pa, pb, pc, pd, e) && pc <= __CPROVER_loop_entry(pc)) __CPROVER_decreases(pc - pb + 1)
#define PTV_LOOP_sort_vecswap_a(a, n, pa, pb, pc, pd, r, i) __CPROVER_assigns(i) __CPROVER_loop_invariant(0 <= i && i <= r) __CPROVER_decreases(r - i)
#define PTV_LOOP_sort_vecswap_b(a, n, pa, pb, pc, pd, r, i) __CPROVER_assigns(i) __CPROVER_loop_invariant(0 <= i && i <= r) __CPROVER_decreases(r - i)
#define PTV_LOOP_sort_insert(a, n, pm, pl, e) __CPROVER_assigns(pm, pl, e, gfail) __CPROVER_loop_invariant(a + 1 <= pm && (n < 1 || pm <= a + n) && e == 0 && gfail == 0) __CPROVER_decreases(a + n - pm)
#define PTV_LOOP_sort_insert_down(a, n, pm, pl, e) __CPROVER_assigns(pl, e, gfail) __CPROVER_loop_invariant(a <= pl && pl <= pm && e == 0 && gfail == 0) __CPROVER_decreases(pl - a)
#define PTV_GHOST_sort_rec(a, n, r) PTV_CHECK(0 < (r) && (r) < (n), "the recursive call is on a shorter range");
#define PTV_GHOST_sort_tail(a2, r, n, cmp, swap, user) { PTV_CHECK(0 < (r) && (r) < (n), "the last call is on a shorter range"); int r_ = bentley_qsort_priv(a2, r, cmp, swap, user); return r_; }
#endif
#endif
#include <pointless/custom_sort.h>

#ifndef KEYS
#ifdef PTV_CBMC
#define INR(x) (ga <= (x) && (x) < ga + gn)
int cmp_(int a, int b, int* c, void* user)
{
	PTV_CHECK(INR(a) && INR(b), "compares inside the range");
	*c = (int)nondet_ptv_u64();
	if (nondet_ptv_u64() & 1) { gfail = 1; return 0; }
	return 1;
}
void swap_(int a, int b, void* user) { PTV_CHECK(INR(a) && INR(b), "swaps inside the range"); }
static int med3(int a, int b, int c, qsort_cmp_ cmp, void* user)
	PTV_REQUIRES(INR(a) && INR(b) && INR(c) && cmp == cmp_)
	PTV_ASSIGNS(gfail)
	PTV_ENSURES(PTV_RET == -1 ? gfail != 0 : gfail == PTV_OLD(gfail) && (PTV_RET == a || PTV_RET == b || PTV_RET == c));
static int bentley_qsort_priv(int a, int n, qsort_cmp_ cmp, qsort_swap_ swap, void* user)
	PTV_REQUIRES(ga <= a && 0 <= n && a <= ga + gn - n && cmp == cmp_ && swap == swap_ && gfail == 0)
	PTV_ASSIGNS(gfail)
	PTV_ENSURES((PTV_RET != 0) == (gfail == 0));
int bentley_sort_(int n, qsort_cmp_ cmp, qsort_swap_ swap, void* user)
	PTV_REQUIRES(ga == 0 && 0 <= n && n == gn && cmp == cmp_ && swap == swap_ && gfail == 0)
	PTV_ASSIGNS(gfail)
	PTV_ENSURES((PTV_RET != 0) == (gfail == 0));
#endif
#endif

#include "/repo/src/custom_sort.c"

#ifdef KEYS
#ifndef NMIN
#define NMIN 0
#endif
static int key[NMAX + 2], tag[NMAX + 2], N, left = -1, ncmp;
static int cmp_(int a, int b, int* c, void* user)
{
	PTV_CHECK(0 <= a && a < N && 0 <= b && b < N, "compares inside the range");
	ncmp++;
	if (left == 0) { gfail = 1; *c = ncmp % 3 - 1; return 0; }
	if (left > 0) left--;
	*c = key[a] < key[b] ? -1 : key[a] > key[b];
	return 1;
}
static void swap_(int a, int b, void* user)
{
	PTV_CHECK(0 <= a && a < N && 0 <= b && b < N, "swaps inside the range");
	int t = key[a]; key[a] = key[b]; key[b] = t;
	t = tag[a]; tag[a] = tag[b]; tag[b] = t;
}
#endif

#if defined(KEYS) && defined(PTV_CBMC)
void h_short(void)
{
	int old[NMAX + 1], i, k, r;
	N = NMAX;
	for (i = 0; i < NMAX; i++) { old[i] = key[i] = PTV_U8() & 7; tag[i] = i; }
	left = (int)ptv_range(0, 40) - 1;
	r = bentley_sort_(N, cmp_, swap_, 0);
	PTV_CHECK((r != 0) == (gfail == 0), "failure is reported");
	k = (int)ptv_range(0, NMAX);
	if (k < N) PTV_CHECK(tag[k] >= 0 && tag[k] < N && key[k] == old[tag[k]], "permutation");
	if (k + 1 < N && r) PTV_CHECK(key[k] <= key[k + 1], "ordered");
	if (k < N) { int j = (int)ptv_range(0, NMAX); if (j < N && j != k) PTV_CHECK(tag[j] != tag[k], "permutation, one to one"); }
	PTV_REACH();
}
#else
void h_short(void) {}
#endif

#if defined(KEYS) && !defined(PTV_CBMC)
void h_random(void)
{
	static int old[NMAX + 1], seen[NMAX + 1];
	int i, r, range, pat = (int)ptv_range(0, 8), lim;
	N = (int)ptv_range(0, ptv_nd(1) ? 12 : ptv_nd(1) ? 60 : NMAX);
	range = (int)ptv_range(1, ptv_nd(1) ? 4 : 1000000);
	for (i = 0; i < N; i++) {
		int v;
		switch (pat) {
			case 0: v = i; break;
			case 1: v = -i; break;
			case 2: v = i < N / 2 ? i : N - i; break;
			case 3: v = i % 7; break;
			case 4: v = i == N - 1 ? -1 : i; break;
			case 5: v = (i * 7919) % range; break;
			default: v = (int)ptv_range(0, range); break;
		}
		old[i] = key[i] = v; tag[i] = i; seen[i] = 0;
	}
	gfail = 0; ncmp = 0;
	left = ptv_nd(2) ? -1 : (int)ptv_range(0, 4 * N + 3);
	r = bentley_sort_(N, cmp_, swap_, 0);
	PTV_CHECK((r != 0) == (gfail == 0), "failure is reported, and only that");
	for (i = 0; i < N; i++) {
		PTV_CHECK(tag[i] >= 0 && tag[i] < N && !seen[tag[i]]++ && key[i] == old[tag[i]], "permutation");
		PTV_CHECK(!r || i == 0 || key[i - 1] <= key[i], "ordered");
	}
	PTV_REACH();
}
#else
void h_random(void) {}
#endif

#if defined(PTV_CBMC) && !defined(KEYS)
void h_priv(void)
{
	int a = PTV_I32(), n = PTV_I32();
	ga = PTV_I32(); gn = PTV_I32();
	PTV_ASSUME(0 <= ga && ga <= (1 << 29) && 0 <= gn && gn < (1 << 30));
	gfail = 0;
	bentley_qsort_priv(a, n, cmp_, swap_, 0);
	PTV_REACH();
}
void h_top(void)
{
	ga = 0; gn = PTV_I32();
	PTV_ASSUME(0 <= gn && gn < (1 << 30));
	gfail = 0;
	bentley_sort_(gn, cmp_, swap_, 0);
	PTV_REACH();
}
void h_med3(void)
{
	int a = PTV_I32(), b = PTV_I32(), c = PTV_I32();
	ga = PTV_I32(); gn = PTV_I32();
	PTV_ASSUME(0 <= ga && ga <= (1 << 29) && 0 <= gn && gn < (1 << 30));
	gfail = PTV_BOOL();
	med3(a, b, c, cmp_, 0);
	PTV_REACH();
}
#else
void h_med3(void) {}
void h_priv(void) {}
void h_top(void) {}
#endif

/*PTV
{
 "functions": ["pointless_reader_set_iter", "pointless_reader_map_iter", "pointless_reader_set_n_items", "pointless_reader_map_n_items", "pointless_reader_set_n_buckets", "pointless_reader_map_n_buckets"],
 "assumptions": ["header, vectors and values are laid out at fixed distinct offsets of one heap (the offset arithmetic is proved for arbitrary offsets in P07 and P12); header and vectors lie inside the heap and the vectors have equal lengths (what validation establishes: P10, P12)", "that every skipped bucket is empty is shown for an arbitrary position"],
 "contracts": [
  {"id": "iter", "harness": "h_iter", "enforce": "{F}", "loops": true, "solver": "cadical", "variants": ["F=pointless_reader_set_iter", "F=pointless_reader_map_iter MAP"]},
  {"id": "count", "harness": "h_count", "enforce": "{F}", "solver": "cadical", "unwind": 2, "variants": ["F=pointless_reader_set_n_items COUNT=gitems", "F=pointless_reader_map_n_items COUNT=gitems MAP", "F=pointless_reader_set_n_buckets COUNT=gn", "F=pointless_reader_map_n_buckets COUNT=gn MAP"]}
 ],
 "native": [{"harness": "h_iter", "secs": 2, "tag": "set", "defs": ["F=pointless_reader_set_iter"]}, {"harness": "h_iter", "secs": 2, "tag": "map", "defs": ["F=pointless_reader_map_iter", "MAP"]},
  {"harness": "h_count", "secs": 0.5, "tag": "set", "defs": ["F=pointless_reader_set_n_items", "COUNT=gitems"]}, {"harness": "h_count", "secs": 0.5, "tag": "map", "defs": ["F=pointless_reader_map_n_items", "COUNT=gitems", "MAP"]},
  {"harness": "h_all", "secs": 2, "tag": "set", "defs": ["F=pointless_reader_set_iter"]}, {"harness": "h_all", "secs": 2, "tag": "map", "defs": ["F=pointless_reader_map_iter", "MAP"]}],
 "src": ["src/pointless_value.c"],
 "nobody": ["mmap","munmap","fclose","fileno","fstat","fopen","pointless_validate","pointless_bitvector_n_bits","pointless_bitvector_is_set","pointless_hash_reader_32","pointless_hash_table_probe","pointless_hash_table_probe_ext","pointless_hash_table_probe_hash","pointless_hash_table_probe_hash_init","pointless_is_hashable","pointless_malloc","pointless_free"],
 "fulllib": true
}
PTV*/
#include "ptv.h"
#include "table.h"
pointless_value_t *gK, *gV; uint32_t gstate, gstate0, gk;

#define SKIPPED(e) (!(gstate0 <= gk && gk < (e)) || KV(gk)->type == POINTLESS_EMPTY_SLOT)
#ifdef POINTLESS_PTV
#define PTV_LOOP_iter_map(st, n, k, v) __CPROVER_assigns(gstate, gK, gV) __CPROVER_loop_invariant(gstate0 <= gstate && gstate <= gn && SKIPPED(gstate)) __CPROVER_decreases(gn - gstate)
#define PTV_LOOP_iter_set(st, n, k) __CPROVER_assigns(gstate, gK) __CPROVER_loop_invariant(gstate0 <= gstate && gstate <= gn && SKIPPED(gstate)) __CPROVER_decreases(gn - gstate)
#endif
#include "/repo/src/pointless_reader.c"

/* the next occupied bucket and nothing in between, or none is left */
#ifdef MAP
#define PAIRED (gV == VV(gstate - 1))
#else
#define PAIRED 1
#endif
#define POST(r) ((r) ? (gstate0 < gstate && gstate <= gn && gK == KV(gstate - 1) && gK->type != POINTLESS_EMPTY_SLOT && PAIRED && SKIPPED(gstate - 1)) : SKIPPED(gn))
#ifdef PTV_CBMC
#ifdef COUNT
uint32_t F(pointless_t* p, pointless_value_t* s)
PTV_REQUIRES(p == &gp && s == &gs)
PTV_ASSIGNS()
PTV_ENSURES(PTV_RET == COUNT);
#else
#ifdef MAP
uint32_t F(pointless_t* p, pointless_value_t* s, pointless_value_t** k, pointless_value_t** v, uint32_t* iter_state)
PTV_REQUIRES(p == &gp && s == &gs && k == &gK && v == &gV && iter_state == &gstate && gstate == gstate0)
PTV_ASSIGNS(gK, gV, gstate)
#else
uint32_t F(pointless_t* p, pointless_value_t* s, pointless_value_t** k, uint32_t* iter_state)
PTV_REQUIRES(p == &gp && s == &gs && k == &gK && iter_state == &gstate && gstate == gstate0)
PTV_ASSIGNS(gK, gstate)
#endif
PTV_ENSURES(POST(PTV_RET));
#endif
#endif

#ifdef MAP
#define CALL() F(&gp, &gs, &gK, &gV, &gstate)
#else
#define CALL() F(&gp, &gs, &gK, &gstate)
#endif

void h_iter(void)
{
#ifndef COUNT
	uint32_t r;
	setup();
	PTV_NATIVE_ONLY(fill();)
	gk = (uint32_t)ptv_range(0, PTV_CBMC_ONLY(UINT32_MAX) PTV_NATIVE_ONLY(gn ? gn - 1 : 0)); PTV_ASSUME(gk < gn);
	gstate = gstate0 = (uint32_t)ptv_range(0, PTV_CBMC_ONLY(UINT32_MAX) PTV_NATIVE_ONLY(gn));
	PTV_ASSUME(gstate0 <= gn);
	r = CALL();
	PTV_CHECK(POST(r), "the next occupied bucket with its value");
	if (r) PTV_REACH();
	done();
#endif
}

void h_count(void)
{
#ifdef COUNT
	setup();
	PTV_CHECK(F(&gp, &gs) == COUNT, "the stored count");
	PTV_REACH();
	done();
#endif
}

void h_all(void)
{
#if !defined(PTV_CBMC) && !defined(COUNT)
	uint32_t b = 0;
	setup(); fill();
	gstate = 0;
	while (CALL()) {
		while (b < gn && KV(b)->type == POINTLESS_EMPTY_SLOT) b++;
		PTV_CHECK(b < gn && gK == KV(b), "every entry, in order, once");
#ifdef MAP
		PTV_CHECK(gV == VV(b), "with its own value");
#endif
		b++;
	}
	while (b < gn && KV(b)->type == POINTLESS_EMPTY_SLOT) b++;
	PTV_CHECK(b == gn, "none is left out");
	PTV_REACH();
	done();
#endif
}

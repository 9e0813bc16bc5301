/*PTV
{
 "functions": ["pointless_hash_table_probe_hash_init", "pointless_hash_table_probe_hash", "pointless_hash_table_probe_hash_is_revisit", "pointless_reader_set_iter_hash_init", "pointless_reader_map_iter_hash_init", "pointless_reader_set_iter_hash", "pointless_reader_map_iter_hash"],
 "assumptions": ["tables have 1 to 2^30 buckets, a power of two, one of them empty and hence on every probe path (termination only, as in P08)", "lemma: once the perturbation is zero, the positions i, 5i+1, ... are distinct modulo 2^k until all have occurred; so a bucket has been visited before exactly when it was visited up to the first step without perturbation", "the visit of buckets is specified for one arbitrary bucket and the step of its first visit", "vectors at fixed distinct offsets of the heap, as in iter.c"],
 "contracts": [
  {"id": "revisit", "harness": "h_revisit", "enforce": "pointless_hash_table_probe_hash_is_revisit", "solver": "cadical", "unwind": 9, "defs": ["W=1"], "soft": true},
  {"id": "init", "harness": "h_init", "enforce": "{F}", "solver": "cadical", "unwind": 2, "variants": ["W=2 F=pointless_reader_set_iter_hash_init", "W=2 F=pointless_reader_map_iter_hash_init MAP"]},
  {"id": "iter", "harness": "h_iter", "enforce": "{F}", "replace": ["pointless_hash_table_probe_hash_is_revisit"], "loops": true, "solver": "cadical", "variants": ["W=3 F=pointless_reader_set_iter_hash", "W=3 F=pointless_reader_map_iter_hash MAP"]}
 ],
 "native": [{"harness": "h_all", "secs": 3, "tag": "set", "defs": ["W=3", "F=pointless_reader_set_iter_hash"]}, {"harness": "h_all", "secs": 3, "tag": "map", "defs": ["W=3", "F=pointless_reader_map_iter_hash", "MAP"]}],
 "src": ["src/pointless_value.c"],
 "nobody": ["mmap","munmap","fclose","fileno","fstat","fopen","pointless_validate","pointless_bitvector_n_bits","pointless_bitvector_is_set","pointless_hash_reader_32","pointless_is_hashable","pointless_malloc","pointless_free","pointless_cmp_create","pointless_cmp_reader"],
 "fulllib": true
}
PTV*/
#include "ptv.h"
#include "table.h"
pointless_value_t *gK, *gV; pointless_hash_iter_state_t gst; uint32_t gh;
/* the probe path: position and perturbation at step gt; an arbitrary bucket gq and the step of its first visit gF; an empty bucket gEb at step gE */
uint32_t gI, gP, gq, gEb, gI0; uint64_t gt, gt0, gF, gE; int gret_q;
#define MASK (gn - 1)
#define BKT (gI & MASK)
#define DEF ((!(gt == gE) || BKT == gEb) && (!(gt < gF) || BKT != gq) && (!(gt == gF) || BKT == gq))
#ifdef POINTLESS_PTV
#define ATSTEP (gst.i == gI && gst.perturb == gP && gst.mask == MASK && gst.hash == gh)
/* a bucket of its first visit is handed out unless its hash is another one; none is handed out at a later visit */
#define PASSED (!(gt0 <= gF && gF < gt) || *HV(gq) != gh)
#define PTV_LOOP_probe_hash(st) __CPROVER_assigns(gst.i, gst.perturb, gI, gP, gt) __CPROVER_loop_invariant(ATSTEP && __CPROVER_loop_entry(gt) <= gt && gt0 <= gt && gt <= gE && DEF && PASSED) __CPROVER_decreases(gE - gt)
#define PTV_LOOP_iter_hash(b) __CPROVER_assigns(b, gst.i, gst.perturb, gI, gP, gt) __CPROVER_loop_invariant(ATSTEP && gt0 <= gt && gt <= gE && DEF && PASSED) __CPROVER_decreases(gE - gt)
#define PTV_GHOST_probe_hash_step(st) gI = 5 * gI + gP + 1; gP = gP / 32; gt = gt + 1; __CPROVER_assume(DEF);
#endif
#include "/repo/src/pointless_reader.c"
#include "/repo/src/pointless_hash_table.c"

#if W == 1
/* the state is at some step of the path of gh: one of the first, or a later one without perturbation */
uint32_t gpi[9], gpp[9]; uint32_t gz;
#define SEEN(s) ((s) < gt && (s) <= gz && (gpi[s] & MASK) == (gst.i & MASK))
#define ANYSEEN (SEEN(0) || SEEN(1) || SEEN(2) || SEEN(3) || SEEN(4) || SEEN(5) || SEEN(6) || SEEN(7))
#endif

#ifdef PTV_CBMC
#if W == 1
uint32_t pointless_hash_table_probe_hash_is_revisit(pointless_hash_iter_state_t* state)
PTV_REQUIRES(state == &gst)
PTV_ASSIGNS()
PTV_ENSURES((PTV_RET != 0) == ANYSEEN);
#elif W == 2
void F(pointless_t* p, pointless_value_t* s, uint32_t hash, pointless_hash_iter_state_t* st)
PTV_REQUIRES(p == &gp && s == &gs && hash == gh && st == &gst)
PTV_ASSIGNS(gst)
PTV_ENSURES(gst.i == gh && gst.perturb == gh && gst.mask == gn - 1 && gst.hash == gh);
#else
uint32_t pointless_hash_table_probe_hash_is_revisit(pointless_hash_iter_state_t* state)
PTV_REQUIRES(state == &gst && gst.i == gI && gst.perturb == gP && gst.mask == MASK && gst.hash == gh)
PTV_ASSIGNS()
PTV_ENSURES(BKT != gq || (PTV_RET != 0) == (gt != gF));
#ifdef MAP
uint32_t F(pointless_t* p, pointless_value_t* s, uint32_t hash, pointless_value_t** k, pointless_value_t** v, pointless_hash_iter_state_t* st)
PTV_REQUIRES(v == &gV &&
#define PAIRED(b) (gV == VV(b))
#else
uint32_t F(pointless_t* p, pointless_value_t* s, uint32_t hash, pointless_value_t** k, pointless_hash_iter_state_t* st)
PTV_REQUIRES(
#define PAIRED(b) 1
#endif
p == &gp && s == &gs && hash == gh && k == &gK && st == &gst && ATSTEP)
PTV_ASSIGNS(gK, gV, gst.i, gst.perturb, gI, gP, gt)
#define AT(b) (gK == KV(b) && PAIRED(b))
/* an entry is returned with its own value; the arbitrary bucket is returned exactly by the call that passes its first visit, if it has the hash; at the end an empty bucket is reached */
#define X ((uint64_t)((uint8_t*)gK - (uint8_t*)KV(0)))
PTV_ENSURES(ATSTEP && gt0 <= gt)
PTV_ENSURES(!PTV_RET || (X < 8 * (uint64_t)gn && X % 8 == 0 && gK->type != POINTLESS_EMPTY_SLOT))
PTV_ENSURES(!PTV_RET || *HV(X / 8) == gh)
PTV_ENSURES(!PTV_RET || PAIRED(X / 8))
PTV_ENSURES(!PTV_RET || (gt > gt0 && (!(gK == KV(gq)) || gF == gt - 1) && (!(gt0 <= gF && gF < gt) || *HV(gq) != gh || gK == KV(gq))))
PTV_ENSURES(PTV_RET || (KV(BKT)->type == POINTLESS_EMPTY_SLOT && PASSED));
#endif
#endif

void h_revisit(void)
{
#if defined(PTV_CBMC) && W == 1
	uint32_t s, lg = (uint32_t)ptv_range(0, 30);
	gn = (uint32_t)1 << lg; gh = PTV_U32();
	gpi[0] = gpp[0] = gh; gz = gh ? 8 : 0;
	for (s = 0; s < 8; s++) { gpi[s + 1] = 5 * gpi[s] + gpp[s] + 1; gpp[s + 1] = gpp[s] / 32; if (gpp[s + 1] == 0 && gz == 8) gz = s + 1; }
	gt = PTV_U64();
	gst.hash = gh; gst.mask = gn - 1;
	if (gt <= gz) { gst.i = gpi[gt & 7]; gst.perturb = gpp[gt & 7]; }
	else { gst.i = PTV_U32(); gst.perturb = 0; PTV_ASSUME(gst.i != gpi[gz]); }
	PTV_REACH();
	pointless_hash_table_probe_hash_is_revisit(&gst);
#endif
}

void h_init(void)
{
#if defined(PTV_CBMC) && W == 2
	setup(); gh = PTV_U32();
	F(&gp, &gs, gh, &gst);
	PTV_REACH();
#endif
}

void h_iter(void)
{
#if defined(PTV_CBMC) && W == 3
	uint32_t r;
	setup();
	PTV_ASSUME(gn > 0 && (gn & (gn - 1)) == 0 && gn <= (uint32_t)1 << 30);
	gh = PTV_U32(); gI = PTV_U32(); gP = PTV_U32(); gt = gt0 = ptv_range(0, (uint64_t)1 << 33);
	gst.i = gI; gst.perturb = gP; gst.mask = MASK; gst.hash = gh;
	gE = PTV_U64(); gEb = PTV_U32(); PTV_ASSUME(gE >= gt && gEb < gn && KV(gEb)->type == POINTLESS_EMPTY_SLOT);
	gF = PTV_U64(); gq = PTV_U32(); PTV_ASSUME(gq < gn && DEF);
#ifdef MAP
	r = F(&gp, &gs, gh, &gK, &gV, &gst);
#else
	r = F(&gp, &gs, gh, &gK, &gst);
#endif
	if (r) PTV_REACH();
	if (!r) PTV_REACH();
#endif
}

/* a table laid out by the library; every hash value is iterated */
void h_all(void)
{
#ifndef PTV_CBMC
	uint32_t n = (uint32_t)ptv_range(0, 30), nb, j, b, x, mode = (uint32_t)ptv_range(0, 4), m = PTV_U32(), hs[64], ks[64], h[64], keys[64]; static pointless_create_t c; const char* err = 0; uint32_t empty;
	nb = pointless_hash_compute_n_buckets(n);
	if (nb > 64) ptv_skip();
	pointless_create_begin_64(&c);
	empty = pointless_create_empty_slot(&c);
	for (j = 0; j < n; j++) { keys[j] = pointless_create_u32(&c, j); h[j] = mode == 0 ? m : mode == 1 ? m + j % 3 : mode == 2 ? PTV_U32() : mode == 3 ? (PTV_U8() & 7) * nb * 4 + (m & 31) : PTV_U8() & 3; }
	for (b = 0; b < nb; b++) { hs[b] = 0; ks[b] = empty; }
	PTV_CHECK(pointless_hash_table_populate(&c, h, keys, 0, n, hs, ks, 0, nb, empty, &err) && !err, "populated");
	/* stored form */
	gso = 4; gho = gso + sizeof(hd_t); gko = gho + 4 + 4 * nb; gvo = gko + 4 + 8 * nb; ghl = gvo + 4 + 8 * nb; gn = nb;
	gheap = ptv_malloc(ghl); memset(gheap, 0, ghl);
	ghd.n_set = ghd.n_map = 1; ghd.n_vector = 3;
	gp.header = &ghd; gp.heap_ptr = gheap; gp.heap_len = ghl; gp.vector_offsets_64 = offs; gp.set_offsets_64 = gp.map_offsets_64 = soff;
	soff[0] = gso; offs[0] = gho; offs[1] = gko; offs[2] = gvo;
	HD->n_items = n; HD->hash_vector.type = POINTLESS_VECTOR_U32; HD->hash_vector.data.data_u32 = 0; HD->key_vector.type = POINTLESS_VECTOR_VALUE_HASHABLE; HD->key_vector.data.data_u32 = 1;
#ifdef MAP
	HD->value_vector.type = POINTLESS_VECTOR_VALUE; HD->value_vector.data.data_u32 = 2; gs.type = POINTLESS_MAP_VALUE_VALUE;
#else
	gs.type = POINTLESS_SET_VALUE;
#endif
	gs.data.data_u32 = 0;
	*(uint32_t*)(gheap + gho) = *(uint32_t*)(gheap + gko) = *(uint32_t*)(gheap + gvo) = nb;
	for (b = 0; b < nb; b++) {
		*HV(b) = hs[b];
		for (j = 0; j < n && keys[j] != ks[b]; j++) ;
		*KV(b) = *VV(b) = pointless_value_create_as_read_empty_slot();
		if (ks[b] != empty) { *KV(b) = pointless_value_create_as_read_u32(j); *VV(b) = pointless_value_create_as_read_u32(j + 500); }
	}
	for (x = 0; x < n + 2; x++) {
		uint32_t hh = x < n ? h[x] : PTV_U32(), met[64], steps = 0; uint32_t expect = 0, got = 0;
		memset(met, 0, sizeof met);
		for (j = 0; j < n; j++) expect += h[j] == hh;
#ifdef MAP
		pointless_reader_map_iter_hash_init(&gp, &gs, hh, &gst);
		while (F(&gp, &gs, hh, &gK, &gV, &gst)) { PTV_CHECK(gV == VV(gK - KV(0)), "with its own value");
#else
		pointless_reader_set_iter_hash_init(&gp, &gs, hh, &gst);
		while (F(&gp, &gs, hh, &gK, &gst)) {
#endif
			PTV_CHECK(gK->type == POINTLESS_U32 && gK->data.data_u32 < n && h[gK->data.data_u32] == hh, "an entry with the hash");
			PTV_CHECK(++met[gK->data.data_u32] == 1, "each entry once");
			got++; PTV_CHECK(++steps <= 100, "the iteration ends");
		}
		PTV_CHECK(got == expect, "every entry with the hash");
	}
	pointless_create_end(&c);
	PTV_REACH();
#endif
}

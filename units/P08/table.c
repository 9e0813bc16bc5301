/*PTV
{
 "functions": ["pointless_hash_table_populate", "pointless_hash_table_probe", "pointless_hash_table_probe_ext", "pointless_hash_table_probe_priv"],
 "assumptions": ["tables have at most 2^30 buckets", "the comparison of keys is an arbitrary function of the keys (its own contracts: P01, P02, P05)", "at least one bucket is empty, hence on every probe path (lemma: the recurrence i = 5i+1 visits all residues modulo 2^k, once the perturbation has died out after 7 steps); the lemma is used for termination only", "the probe path of a key is named by functions of the step, its recurrence instantiated at the step of the loop by a ghost assumption", "the facts about the probe path and about the other buckets are specified at an arbitrary step and an arbitrary bucket"],
 "contracts": [
  {"id": "populate", "harness": "h_populate", "enforce": "pointless_hash_table_populate", "loops": true, "solver": "cadical", "variants": ["W=1 MAP", "W=1"]},
  {"id": "probe", "harness": "h_probe", "enforce": "pointless_hash_table_probe", "loops": true, "solver": "cadical", "defs": ["W=2"]},
  {"id": "probe_ext", "harness": "h_probe", "enforce": "pointless_hash_table_probe_ext", "loops": true, "solver": "cadical", "defs": ["W=2", "EXT"]}
 ],
 "native": [{"harness": "h_native", "secs": 3, "tag": "map", "defs": ["MAP", "W=0"]}, {"harness": "h_native", "secs": 3, "tag": "set", "defs": ["W=0"]}],
 "src": ["src/pointless_value.c"],
 "fulllib": true
}
PTV*/
#include "ptv.h"
#include <pointless/pointless.h>

uint32_t *ghash, *gkeys, *gvals, *ghs, *gks, *gvs; uint32_t gnk, gnb, gempty; const char* gerr;
/* arbitrary key, arbitrary step of its path, arbitrary bucket */
uint32_t gk, gq; uint64_t gs;
/* ghost: step at which the key was stored, owner of the bucket, step counter, step at which the current path meets an empty bucket */
uint64_t gT, gt, gE; uint32_t gown;
pointless_value_t *gkv, gval; pointless_create_t gc; pointless_t gp; uint32_t gh; int gmode, gcmperr;
#define MASK (gnb - 1)

#ifdef PTV_CBMC
/* ghost: the probe path of the current key (position and perturbation, by the recurrence), the bucket it has at step gE and, for the
 * arbitrary key, at the arbitrary step gs; the bucket where the arbitrary key was stored; what was seen at step gs; the last comparison */
uint32_t gI, gP, gEb, gSb, gTb, gSk, gSh; int gPass; uint32_t glastA, glastB; int glast;
#define START(h) gI = (h); gP = (h); gt = 0;
#define STEP gI = 5 * gI + gP + 1; gP = gP / 32; gt = gt + 1;

#if W == 1
int32_t pointless_cmp_create(pointless_create_t* c, uint32_t a, uint32_t b, const char** error)
{
	uint64_t r = nondet_ptv_u64();
	PTV_CHECK(c == &gc && error == &gerr, "arguments of the comparison");
	glastA = a; glastB = b; glast = r & 1;
	if (r & 2) { gerr = "cmp"; return 0; }
	return glast ? (r & 4) ? 1 : -1 : 0;
}

#define STORED (gTb < gnb && gks[gTb] == gkeys[gk] && ghs[gTb] == ghash[gk] && (!gvs || gvs[gTb] == gvals[gk]))
#define PASSED (!(gs < gT) || (gPass && gSb < gnb && gks[gSb] == gSk && gSk != gempty && ghs[gSb] == gSh))
#define BUCKET(n) (gks[gq] == gempty ? ghs[gq] == 0 && (!gvs || gvs[gq] == gempty) : gown < (n) && gks[gq] == gkeys[gown] && ghs[gq] == ghash[gown] && (!gvs || gvs[gq] == gvals[gown]))
/* definitions of gEb and gSb, at the current step */
#define DEF(j) ((!(gt == gE) || (gI & MASK) == gEb) && (!((j) == gk && gt == gs) || (gI & MASK) == gSb))
#ifdef POINTLESS_PTV
#define PTV_LOOP_populate_keys(j) __CPROVER_assigns(j, gerr) __CPROVER_loop_invariant(j <= gnk && gerr == 0 && (!(gk < j) || gkeys[gk] != gempty)) __CPROVER_decreases(gnk - j)
#define PTV_LOOP_populate_buckets(j) __CPROVER_assigns(j, gerr) __CPROVER_loop_invariant(j <= gnb && gerr == 0 && (!(gq < j) || (gks[gq] == gempty && ghs[gq] == 0 && (!gvs || gvs[gq] == gempty)))) __CPROVER_decreases(gnb - j)
#define PTV_LOOP_populate_all(j, i, perturb, bucket, cmp, value_hash, error) \
	__CPROVER_assigns(j, i, perturb, bucket, cmp, value_hash, gerr, GHOSTS, __CPROVER_object_whole(ghs), __CPROVER_object_whole(gks); gvs != 0: __CPROVER_object_whole(gvs)) \
	__CPROVER_loop_invariant(j <= gnk && gerr == 0 && (!(gk < j) || (STORED && PASSED)) && BUCKET(j)) __CPROVER_decreases(gnk - j)
/* keys are not the empty marker: shown by the first loop for an arbitrary index; an empty bucket lies on the path: lemma */
#define PTV_GHOST_populate_begin(j) __CPROVER_assume(gkeys[j] != gempty); START(ghash[j]) gE = nondet_ptv_u64(); gEb = nondet_ptv_u64(); __CPROVER_assume(gE <= ((uint64_t)1 << 32) && gEb < gnb && gks[gEb] == gempty && DEF(j));
#define PTV_LOOP_populate_probe(j, i, perturb, bucket, cmp, error) \
	__CPROVER_assigns(i, perturb, bucket, cmp, gerr, gt, gI, gP, gPass, gSk, gSh, glastA, glastB, glast) \
	__CPROVER_loop_invariant(gt <= gE && i == gI && perturb == gP && gerr == 0 && DEF(j) && (!(j == gk && gs < gt) || (gPass && gks[gSb] == gSk && gSk != gempty && ghs[gSb] == gSh)) && (j == gk || (gPass == __CPROVER_loop_entry(gPass) && gSk == __CPROVER_loop_entry(gSk) && gSh == __CPROVER_loop_entry(gSh)))) \
	__CPROVER_decreases(gE - gt)
/* moving on from step gs of the arbitrary key: the bucket holds a key, with another hash or comparing different */
#define PTV_GHOST_populate_step(j) if ((j) == gk && gt == gs) { gSk = gks[gSb]; gSh = ghs[gSb]; gPass = gSh != ghash[gk] || (glastA == gSk && glastB == gkeys[gk] && glast != 0); } STEP __CPROVER_assume(DEF(j));
#define PTV_GHOST_populate_store(j, b) __CPROVER_assert((b) == (gI & MASK), "stored at a bucket of its path"); if ((j) == gk) { gT = gt; gTb = (b); } if ((b) == gq) gown = (j);
#endif
#endif
#define GHOSTS gT, gt, gE, gown, gI, gP, gEb, gTb, gSk, gSh, gPass, glastA, glastB, glast

#if W == 2
/* gmode: the key is stored at step gE of its path and every earlier bucket holds another key (what populate ensures); otherwise step gE is an empty bucket.
 * The hypothesis on the comparison of the keys on the path is put into the comparison itself. */
static int cmp_at(uint32_t type, uint32_t data)
{
	uint64_t r = nondet_ptv_u64();
	PTV_CHECK(type == gkv[gI & MASK].type && data == gkv[gI & MASK].data.data_u32, "with the key of the bucket");
	glastA = type; glastB = data; glast = gmode ? gt == gE : r & 1;
	if (gcmperr && (r & 2)) gerr = "cmp";
	return glast;
}
int32_t pointless_cmp_reader(pointless_t* pa, pointless_complete_value_t* a, pointless_t* pb, pointless_complete_value_t* b, const char** error)
{
	PTV_CHECK(pa == &gp && pb == &gp && error == &gerr && a->type == gval.type && a->complete_data.data_u32 == gval.data.data_u32, "the sought key is compared");
	return cmp_at(b->type, b->complete_data.data_u32) ? 0 : (nondet_ptv_u64() & 1) ? 1 : -1;
}
uint32_t gcb(pointless_t* p, pointless_complete_value_t* v, void* user, const char** error)
{
	PTV_CHECK(p == &gp && user == &gval && error == &gerr, "the callback gets its argument");
	return cmp_at(v->type, v->complete_data.data_u32) ? 1 + (uint32_t)(nondet_ptv_u64() & 1) : 0;
}
#define DEF ((!(gt == gE) || (gI & MASK) == gEb) && (!gmode || !(gt < gE) || gkv[gI & MASK].type != POINTLESS_EMPTY_SLOT))
#define HIT (gEb < gnb && (gmode ? gkv[gEb].type != POINTLESS_EMPTY_SLOT && ghs[gEb] == gh : gkv[gEb].type == POINTLESS_EMPTY_SLOT))
#define FOUND(r) ((r) < gnb && gkv[r].type != POINTLESS_EMPTY_SLOT && ghs[r] == gh && glast && glastA == gkv[r].type && glastB == gkv[r].data.data_u32)
#define POST(r) (gerr != 0 ? gcmperr && (r) == POINTLESS_HASH_TABLE_PROBE_ERROR : gmode ? (r) == gEb : (((r) == POINTLESS_HASH_TABLE_PROBE_MISS && gkv[gI & MASK].type == POINTLESS_EMPTY_SLOT) || FOUND(r)))
#ifdef POINTLESS_PTV
#define PTV_GHOST_probe_begin(i, perturb) START(gh) __CPROVER_assume(DEF);
#define PTV_LOOP_probe(i, perturb, bucket, error) __CPROVER_assigns(i, perturb, bucket, gerr, gt, gI, gP, glastA, glastB, glast) \
	__CPROVER_loop_invariant(gt <= gE && i == gI && perturb == gP && gerr == 0 && DEF) __CPROVER_decreases(gE - gt)
#define PTV_GHOST_probe_step(i, perturb) STEP __CPROVER_assume(DEF);
#endif
#endif
#endif

#include "/repo/src/pointless_hash_table.c"

#ifdef PTV_CBMC
#if W == 1
int pointless_hash_table_populate(pointless_create_t* c, uint32_t* hash_vector, uint32_t* keys_vector, uint32_t* values_vector, uint32_t n_keys, uint32_t* hash_serialize, uint32_t* keys_serialize, uint32_t* values_serialize, uint32_t n_buckets, uint32_t empty_slot_handle, const char** error)
PTV_REQUIRES(c == &gc && hash_vector == ghash && keys_vector == gkeys && values_vector == gvals && n_keys == gnk && hash_serialize == ghs && keys_serialize == gks && values_serialize == gvs && n_buckets == gnb && empty_slot_handle == gempty && error == &gerr && gerr == 0)
PTV_ASSIGNS(gerr, GHOSTS, __CPROVER_object_whole(ghs), __CPROVER_object_whole(gks); gvs != 0: __CPROVER_object_whole(gvs))
PTV_ENSURES((PTV_RET != 0) == (gerr == 0) && (!PTV_RET || (STORED && PASSED && BUCKET(gnk) && gkeys[gk] != gempty)));
#else
#if W == 2
#ifdef EXT
uint32_t pointless_hash_table_probe_ext(pointless_t* p, uint32_t value_hash, pointless_eq_cb cb, void* user, uint32_t n_buckets, uint32_t* hash_vector, pointless_value_t* key_vector, const char** error)
PTV_REQUIRES(cb == gcb && user == &gval &&
#else
uint32_t pointless_hash_table_probe(pointless_t* p, uint32_t value_hash, pointless_value_t* value, uint32_t n_buckets, uint32_t* hash_vector, pointless_value_t* key_vector, const char** error)
PTV_REQUIRES(value == &gval &&
#endif
p == &gp && value_hash == gh && n_buckets == gnb && hash_vector == ghs && key_vector == gkv && error == &gerr && gerr == 0)
PTV_ASSIGNS(gerr, gt, gI, gP, glastA, glastB, glast)
PTV_ENSURES(POST(PTV_RET));
#endif
#endif
#endif

void h_populate(void)
{
#if defined(PTV_CBMC) && W == 1
	uint32_t lg = (uint32_t)ptv_range(0, 30); int r;
	gnb = (uint32_t)1 << lg;
	gnk = PTV_U32(); PTV_ASSUME(gnk < gnb && gnk > 0);
	ghash = malloc(sizeof(uint32_t) * (size_t)gnk); PTV_ASSUME(ghash != 0);
	gkeys = malloc(sizeof(uint32_t) * (size_t)gnk); PTV_ASSUME(gkeys != 0);
	ghs = malloc(sizeof(uint32_t) * (size_t)gnb); PTV_ASSUME(ghs != 0);
	gks = malloc(sizeof(uint32_t) * (size_t)gnb); PTV_ASSUME(gks != 0);
#ifdef MAP
	gvals = malloc(sizeof(uint32_t) * (size_t)gnk); PTV_ASSUME(gvals != 0);
	gvs = malloc(sizeof(uint32_t) * (size_t)gnb); PTV_ASSUME(gvs != 0);
#else
	gvals = gvs = 0;
#endif
	gempty = PTV_U32(); gerr = 0;
	gk = PTV_U32(); PTV_ASSUME(gk < gnk); gq = PTV_U32(); PTV_ASSUME(gq < gnb); gs = PTV_U64(); gSb = PTV_U32(); PTV_ASSUME(gSb < gnb);
	r = pointless_hash_table_populate(&gc, ghash, gkeys, gvals, gnk, ghs, gks, gvs, gnb, gempty, &gerr);
	if (r) PTV_REACH();
	if (!r) PTV_REACH();
#endif
}

void h_probe(void)
{
#if defined(PTV_CBMC) && W == 2
	uint32_t lg = (uint32_t)ptv_range(0, 30), r;
	gnb = (uint32_t)1 << lg;
	ghs = malloc(sizeof(uint32_t) * (size_t)gnb); PTV_ASSUME(ghs != 0);
	gkv = malloc(sizeof(pointless_value_t) * (size_t)gnb); PTV_ASSUME(gkv != 0);
	gh = PTV_U32(); gval.type = PTV_U32(); gval.data.data_u32 = PTV_U32(); gerr = 0;
	gmode = PTV_BOOL(); gcmperr = PTV_BOOL(); gE = PTV_U64(); PTV_ASSUME(gE <= (uint64_t)1 << 32);
	gEb = PTV_U32(); PTV_ASSUME(HIT);
#ifdef EXT
	r = pointless_hash_table_probe_ext(&gp, gh, gcb, &gval, gnb, ghs, gkv, &gerr);
#else
	r = pointless_hash_table_probe(&gp, gh, &gval, gnb, ghs, gkv, &gerr);
#endif
	if (r == POINTLESS_HASH_TABLE_PROBE_MISS) PTV_REACH();
	if (r == POINTLESS_HASH_TABLE_PROBE_ERROR) PTV_REACH();
	if (gmode && r < gnb) PTV_REACH();
#endif
}

PTV_NATIVE_ONLY(
static uint32_t ncb(pointless_t* p, pointless_complete_value_t* v, void* user, const char** error) { return pointless_cmp_reader(p, v, p, (pointless_complete_value_t*)user, error) == 0; }
)

/* the real comparison on real keys; hashes chosen freely (the table does not care whether they are those of the keys) */
void h_native(void)
{
#ifndef PTV_CBMC
	uint32_t n = (uint32_t)ptv_range(0, PTV_BOOL() ? 6 : 60), nb = pointless_hash_compute_n_buckets(n), j, b, used = 0, m, mode;
	static pointless_create_t c; const char* err = 0; pointless_header_t hd; int r;
	uint32_t *h = ptv_malloc(4 * n + 4), *keys = ptv_malloc(4 * n + 4), *vals = ptv_malloc(4 * n + 4), *hs = ptv_malloc(4 * (size_t)nb), *ks = ptv_malloc(4 * (size_t)nb), *vs = ptv_malloc(4 * (size_t)nb), *raw = ptv_malloc(4 * n + 4), empty;
	pointless_value_t* kv = ptv_malloc(8 * (size_t)nb), *vv = ptv_malloc(8 * (size_t)nb);
	PTV_CHECK(nb > n && (nb & (nb - 1)) == 0, "a power of two with room for an empty bucket");
	pointless_create_begin_64(&c);
	empty = pointless_create_empty_slot(&c);
	mode = (uint32_t)ptv_range(0, 5);
	m = PTV_U32();
	for (j = 0; j < n; j++) {
		raw[j] = j * 7 + 1;
		h[j] = mode == 0 ? m : mode == 1 ? (PTV_U8() & 3) * nb : mode == 2 ? PTV_U32() : mode == 3 ? j * 32 + m : mode == 4 ? m + j % 3 : raw[j];
		keys[j] = PTV_BOOL() ? pointless_create_u32(&c, raw[j]) : pointless_create_float(&c, (float)raw[j]);
		vals[j] = pointless_create_u32(&c, 1000 + j);
	}
	for (b = 0; b < nb; b++) { hs[b] = 0; ks[b] = vs[b] = empty; }
#ifdef MAP
	r = pointless_hash_table_populate(&c, h, keys, vals, n, hs, ks, vs, nb, empty, &err);
#else
	r = pointless_hash_table_populate(&c, h, keys, 0, n, hs, ks, 0, nb, empty, &err);
#endif
	PTV_CHECK(r && !err, "distinct keys are stored");
	memset(&gp, 0, sizeof gp); memset(&hd, 0, sizeof hd); gp.header = &hd;
	for (b = 0; b < nb; b++) {
		kv[b] = vv[b] = pointless_value_create_as_read_empty_slot();
		if (ks[b] == empty) { PTV_CHECK(hs[b] == 0 && vs[b] == empty, "an empty bucket is empty"); continue; }
		used++;
		for (j = 0; j < n && keys[j] != ks[b]; j++) ;
		PTV_CHECK(j < n && hs[b] == h[j], "a bucket holds a key and its hash");
#ifdef MAP
		PTV_CHECK(vs[b] == vals[j], "and its value");
#endif
		kv[b] = pointless_value_create_as_read_u32(raw[j]); vv[b] = pointless_value_create_as_read_u32(1000 + j);
	}
	PTV_CHECK(used == n, "each key is stored once");
	for (j = 0; j < n + 4; j++) {
		pointless_value_t k = pointless_value_create_as_read_u32(j < n ? raw[j] : 3 + 7 * (j - n)); pointless_complete_value_t ck; uint32_t hh = j < n ? h[j] : n ? h[j % n] : m, p1, p2;
		ck = pointless_value_to_complete(&k);
		p1 = pointless_hash_table_probe(&gp, hh, &k, nb, hs, kv, &err);
		PTV_CHECK(!err, "no error");
		p2 = pointless_hash_table_probe_ext(&gp, hh, ncb, &ck, nb, hs, kv, &err);
		PTV_CHECK(!err && p1 == p2, "both probes agree");
		if (j < n) PTV_CHECK(p1 < nb && kv[p1].data.data_u32 == raw[j] && hs[p1] == h[j], "a stored key is found");
		else PTV_CHECK(p1 == POINTLESS_HASH_TABLE_PROBE_MISS, "a key that is not stored is not found");
		if (j < n) {
			/* iteration over one hash value meets the key, and ends */
			pointless_hash_iter_state_t st; uint32_t out, steps = 0, met = 0;
			pointless_hash_table_probe_hash_init(&gp, hh, nb, &st);
			while (pointless_hash_table_probe_hash(&gp, hs, kv, &st, &out)) { PTV_CHECK(out < nb && steps++ < 100000, "iteration in bounds, and ends"); if (kv[out].data.data_u32 == raw[j]) met++; }
			PTV_CHECK(met >= 1, "the iteration meets the key");
		}
	}
	/* duplicates are refused */
	if (n > 1 && mode < 2) {
		for (b = 0; b < nb; b++) { hs[b] = 0; ks[b] = vs[b] = empty; }
		j = (uint32_t)ptv_range(1, n - 1); b = (uint32_t)ptv_range(0, j - 1);
		keys[j] = pointless_create_u32(&c, raw[b]); h[j] = h[b];
		r = pointless_hash_table_populate(&c, h, keys, 0, n, hs, ks, 0, nb, empty, &err);
		PTV_CHECK(!r && err, "a duplicate key is refused");
	}
	pointless_create_end(&c);
	PTV_REACH();
#endif
}

/*PTV
{
 "functions": ["pointless_reader_set_lookup", "pointless_reader_map_lookup", "pointless_reader_set_lookup_ext", "pointless_reader_map_lookup_ext"],
 "assumptions": ["the probe of the hash table returns the bucket of an equal key, or a miss when there is none (P08)", "vectors at fixed distinct offsets of the heap, as in P09; they have equal lengths (P10, P12)"],
 "contracts": [
  {"id": "lookup", "harness": "h_lookup", "enforce": "W", "solver": "cadical", "unwind": 2, "variants": ["CALL=pointless_reader_set_lookup(&gp,&gs,&gkey,&gK,&gerr)", "MAP CALL=pointless_reader_map_lookup(&gp,&gs,&gkey,&gK,&gV,&gerr)", "EXT CALL=pointless_reader_set_lookup_ext(&gp,&gs,gh,mycb,&gkey,&gK,&gerr)", "EXT MAP CALL=pointless_reader_map_lookup_ext(&gp,&gs,gh,mycb,&gkey,&gK,&gV,&gerr)"]}
 ],
 "src": ["src/pointless_value.c"],
 "nobody": ["mmap","munmap","fclose","fileno","fstat","fopen","pointless_validate","pointless_bitvector_n_bits","pointless_bitvector_is_set","pointless_hash_table_probe_hash","pointless_hash_table_probe_hash_init","pointless_is_hashable","pointless_malloc","pointless_free"],
 "fulllib": true
}
PTV*/
#include "ptv.h"
#include "../P09/table.h"
#define PTV_LOOP_iter_map(...)
#define PTV_LOOP_iter_set(...)
#define PTV_LOOP_iter_hash(...)
#define PTV_LOOP_probe_hash(...)
#define PTV_GHOST_probe_hash_step(...)
#include "/repo/src/pointless_reader.c"
pointless_value_t *gK, *gV, gkey; uint32_t gh, ghashable, gprobe; const char* gerr; const char gmsg[2];
#ifdef PTV_CBMC
static uint32_t mycb(pointless_t* p, pointless_complete_value_t* v, void* user, const char** error) { return 0; }
uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &gp && v == &gkey, "the key given"); return ghashable; }
uint32_t pointless_hash_reader_32(pointless_t* p, pointless_value_t* v) { PTV_CHECK(p == &gp && v == &gkey && ghashable, "a hashable key"); return gh; }
static uint32_t probe(uint32_t n, uint32_t* hv, pointless_value_t* kv, const char** error)
{
	PTV_CHECK(n == gn && hv == HV(0) && kv == KV(0) && error == &gerr, "the vectors of the container");
	if (gprobe == POINTLESS_HASH_TABLE_PROBE_ERROR) *error = gmsg;
	return gprobe;
}
uint32_t pointless_hash_table_probe(pointless_t* p, uint32_t hash, pointless_value_t* k, uint32_t n, uint32_t* hv, pointless_value_t* kv, const char** error)
{
	PTV_CHECK(p == &gp && hash == gh && k == &gkey, "the key given, with its hash");
	return probe(n, hv, kv, error);
}
uint32_t pointless_hash_table_probe_ext(pointless_t* p, uint32_t hash, pointless_eq_cb cb, void* user, uint32_t n, uint32_t* hv, pointless_value_t* kv, const char** error)
{
	PTV_CHECK(p == &gp && hash == gh && (void*)cb == (void*)mycb && user == &gkey, "the comparison given");
	return probe(n, hv, kv, error);
}
#ifdef MAP
#define VALUE(x) (gV == (x))
#else
#define VALUE(x) 1
#endif
#define FAILED (gprobe == POINTLESS_HASH_TABLE_PROBE_ERROR || gprobe == POINTLESS_HASH_TABLE_PROBE_MISS)
static int W(void)
PTV_REQUIRES(gK == 0 && gV == 0 && gerr == 0 && (FAILED || gprobe < gn))
PTV_ASSIGNS(gK, gV, gerr)
PTV_ENSURES(!ghashable ? gK == 0 && gV == 0 && gerr != 0 : FAILED ? gK == 0 && gV == 0 && (gerr != 0) == (gprobe == POINTLESS_HASH_TABLE_PROBE_ERROR) : gK == KV(gprobe) && VALUE(VV(gprobe)) && gerr == 0);
static int W(void) { CALL; return 1; }
#endif
void h_lookup(void)
{
#ifdef PTV_CBMC
	setup();
	gh = PTV_U32(); gprobe = PTV_U32(); PTV_ASSUME(FAILED || gprobe < gn);
	gK = gV = 0; gerr = 0;
#ifdef EXT
	ghashable = 1;
#else
	ghashable = (uint32_t)PTV_BOOL();
#endif
	gkey.type = PTV_U32(); gkey.data.data_u32 = PTV_U32();
	W();
	PTV_REACH();
#endif
}

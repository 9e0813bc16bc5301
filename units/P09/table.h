/* a stored set or map: header, hash, key and value vectors somewhere in one heap */
#include <pointless/pointless.h>
pointless_t gp; pointless_header_t ghd; pointless_value_t gs; uint64_t ghl, gso, gho, gko, gvo; uint8_t* gheap; uint64_t offs[4], soff[1]; uint32_t gn, gitems; int ghidx, gkidx, gvidx;
#ifdef MAP
typedef pointless_map_header_t hd_t;
#else
typedef pointless_set_header_t hd_t;
#endif
#define HD ((hd_t*)(gheap + gso))
#define KV(i) (((pointless_value_t*)(gheap + gko + 4)) + (i))
#define VV(i) (((pointless_value_t*)(gheap + gvo + 4)) + (i))
#define HV(i) (((uint32_t*)(gheap + gho + 4)) + (i))
#define ROOMY(o, n) ((o) <= ghl && ghl - (o) >= (n))
static void setup(void)
{
	uint64_t top;
#ifdef NB
	gn = NB;
#else
	gn = (uint32_t)ptv_range(0, PTV_CBMC_ONLY(UINT32_MAX) PTV_NATIVE_ONLY(40));
#endif
	PTV_CBMC_ONLY(ghl = ptv_range((uint64_t)1 << 38, (uint64_t)1 << 40); gso = 24; gho = 96; gko = (uint64_t)1 << 35; gvo = (uint64_t)1 << 37;)
	PTV_NATIVE_ONLY(gso = 4 * ptv_range(0, 3); gho = gso + sizeof(hd_t) + 4 * ptv_range(0, 2); gko = gho + 4 + 4 * (uint64_t)gn; gvo = gko + 4 + 8 * (uint64_t)gn; ghl = gvo + 4 + 8 * (uint64_t)gn;)
	PTV_ASSUME(ROOMY(gso, sizeof(hd_t)) && ROOMY(gho, 4 + 4 * (uint64_t)gn) && ROOMY(gko, 4 + 8 * (uint64_t)gn) && ROOMY(gvo, 4 + 8 * (uint64_t)gn));
	/* disjoint, in this order */
	PTV_ASSUME(gso + sizeof(hd_t) <= gho && gho + 4 + 4 * (uint64_t)gn <= gko && gko + 4 + 8 * (uint64_t)gn <= gvo);
	(void)top;
	gheap = malloc(ghl); PTV_ASSUME(gheap != 0);
	PTV_NATIVE_ONLY(memset(gheap, 0, ghl);)
	ghd.n_set = ghd.n_map = 1; ghd.n_vector = 3;
	gp.header = &ghd; gp.heap_ptr = gheap; gp.heap_len = ghl; gp.vector_offsets_64 = offs; gp.set_offsets_64 = gp.map_offsets_64 = soff; gp.string_unicode_offsets_64 = gp.bitvector_offsets_64 = 0;
	soff[0] = gso; offs[0] = gho; offs[1] = gko; offs[2] = gvo;
	gitems = PTV_U32();
	HD->n_items = gitems;
	HD->hash_vector.type = POINTLESS_VECTOR_U32; HD->hash_vector.data.data_u32 = 0;
	HD->key_vector.type = POINTLESS_VECTOR_VALUE_HASHABLE; HD->key_vector.data.data_u32 = 1;
#ifdef MAP
	HD->value_vector.type = PTV_BOOL() ? POINTLESS_VECTOR_VALUE_HASHABLE : POINTLESS_VECTOR_VALUE; HD->value_vector.data.data_u32 = 2;
	gs.type = POINTLESS_MAP_VALUE_VALUE;
#else
	gs.type = POINTLESS_SET_VALUE;
#endif
	gs.data.data_u32 = 0;
	*(uint32_t*)(gheap + gho) = *(uint32_t*)(gheap + gko) = *(uint32_t*)(gheap + gvo) = gn;
}
static void fill(void)
{
#ifndef PTV_CBMC
	uint32_t i, m = (uint32_t)ptv_range(0, 4);
	for (i = 0; i < gn; i++) {
		KV(i)->type = m == 0 ? POINTLESS_EMPTY_SLOT : m == 1 || PTV_BOOL() ? POINTLESS_U32 : POINTLESS_EMPTY_SLOT;
		KV(i)->data.data_u32 = KV(i)->type == POINTLESS_EMPTY_SLOT ? 0 : i;
		VV(i)->type = KV(i)->type; VV(i)->data.data_u32 = KV(i)->data.data_u32 + 1000;
	}
#endif
}
static void done(void) { PTV_NATIVE_ONLY(free(gheap); gheap = 0;) }

/*PTV
{
 "functions": ["pointless_hash_compute_n_buckets", "next_power_of_2"],
 "assumptions": [],
 "contracts": [
  {"id": "nb", "harness": "h_nb", "enforce": "pointless_hash_compute_n_buckets", "unwind": 66, "solver": "cadical"}
 ],
 "native": [{"harness": "h_nb", "secs": 1}],
 "src": ["src/pointless_value.c"],
 "nobody": ["pointless_cmp_create", "pointless_cmp_reader"],
 "fulllib": true
}
PTV*/
#include "ptv.h"
#include "/repo/src/pointless_hash_table.c"
#define NEED(n) ((uint64_t)(n) + (n) / 2)
/* the smallest power of two that fits one and a half times the items, with an empty bucket; 0 when there is none */
#define POST(n, r) ((r) == 0 ? NEED(n) > (uint64_t)1 << 31 : ((r) & ((r) - 1)) == 0 && (r) > (n) && NEED(n) <= (r) && ((n) <= 1 || (uint64_t)(r) / 2 < NEED(n)) && (r) <= 2 * (NEED(n) + 1))
#ifdef PTV_CBMC
uint32_t pointless_hash_compute_n_buckets(uint32_t n_items)
PTV_REQUIRES(1)
PTV_ASSIGNS()
PTV_ENSURES(POST(n_items, PTV_RET));
#endif
void h_nb(void)
{
	uint32_t n = PTV_U32(), r = pointless_hash_compute_n_buckets(n);
	PTV_CHECK(POST(n, r), "power of two, room for an empty bucket, smallest");
	PTV_REACH();
}

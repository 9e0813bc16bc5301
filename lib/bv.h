/* The specification of a bitvector value: n bits, bit i, per storage form.  gbuf: the heap buffer (POINTLESS_BITVECTOR only) */
static inline uint32_t spec_n(uint32_t t, const pointless_value_data_t* v, const void* buf)
{
	uint32_t w = 0;
	switch (t) {
		case POINTLESS_BITVECTOR: w = *(const uint32_t*)buf; return w;
		case POINTLESS_BITVECTOR_0: case POINTLESS_BITVECTOR_1: return v->data_u32;
		case POINTLESS_BITVECTOR_01: case POINTLESS_BITVECTOR_10: return (v->data_u32 & 0xffff) + (v->data_u32 >> 16);
		default: return v->data_u32 & 31;
	}
}
static inline uint32_t spec_bit(uint32_t t, const pointless_value_data_t* v, const void* buf, uint32_t i)
{
	switch (t) {
		case POINTLESS_BITVECTOR: return (((const uint8_t*)buf)[4 + i / 8] >> (i % 8)) & 1;
		case POINTLESS_BITVECTOR_0: return 0;
		case POINTLESS_BITVECTOR_1: return 1;
		case POINTLESS_BITVECTOR_01: return i >= (v->data_u32 & 0xffff);
		case POINTLESS_BITVECTOR_10: return i < (v->data_u32 & 0xffff);
		default: return (v->data_u32 >> (5 + i)) & 1;
	}
}
#ifndef PTV_CBMC
/* a random sequence of bits, and a random storage form for it (buf: exactly as long as needed) */
static uint8_t bv_bits[5000]; static uint32_t bv_n;
static void bv_random(void)
{
	uint32_t i, k = (uint32_t)ptv_range(0, 5), a;
	bv_n = (uint32_t)(ptv_range(0, 3) ? ptv_range(0, 40) : ptv_range(0, 300));
	a = (uint32_t)ptv_range(0, bv_n);
	for (i = 0; i < bv_n; i++) bv_bits[i] = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? i >= a : k == 3 ? i < a : k == 4 ? (i == a) : PTV_BOOL();
}
static int bv_fits(uint32_t t)
{
	uint32_t i, ch = 0;
	for (i = 1; i < bv_n; i++) ch += bv_bits[i] != bv_bits[i - 1];
	switch (t) {
		case POINTLESS_BITVECTOR: return 1;
		case POINTLESS_BITVECTOR_0: return ch == 0 && (bv_n == 0 || !bv_bits[0]);
		case POINTLESS_BITVECTOR_1: return ch == 0 && (bv_n == 0 || bv_bits[0]);
		case POINTLESS_BITVECTOR_01: return ch == 0 || (ch == 1 && !bv_bits[0]);
		case POINTLESS_BITVECTOR_10: return ch == 0 || (ch == 1 && bv_bits[0]);
		default: return bv_n <= 27;
	}
}
static const uint32_t bv_types[6] = { POINTLESS_BITVECTOR, POINTLESS_BITVECTOR_0, POINTLESS_BITVECTOR_1, POINTLESS_BITVECTOR_01, POINTLESS_BITVECTOR_10, POINTLESS_BITVECTOR_PACKED };
static uint8_t* bv_raw(void)
{
	uint32_t i; uint8_t* r = ptv_malloc((bv_n + 7) / 8);
	for (i = 0; i < (bv_n + 7) / 8; i++) r[i] = PTV_U8();
	for (i = 0; i < bv_n; i++) r[i / 8] = (uint8_t)((r[i / 8] & ~(1 << (i % 8))) | (bv_bits[i] << (i % 8)));
	return r;
}
/* storage form t of the current bits */
static void bv_encode(uint32_t t, pointless_value_data_t* v, uint8_t** buf)
{
	uint32_t i, n1 = 0;
	for (i = 0; i < bv_n; i++) n1 += bv_bits[i];
	*buf = 0; v->data_u32 = 0;
	switch (t) {
		case POINTLESS_BITVECTOR: { uint8_t* r = bv_raw(); *buf = ptv_malloc(4 + (bv_n + 7) / 8); memcpy(*buf, &bv_n, 4); memcpy(*buf + 4, r, (bv_n + 7) / 8); break; }
		case POINTLESS_BITVECTOR_0: case POINTLESS_BITVECTOR_1: v->data_u32 = bv_n; break;
		case POINTLESS_BITVECTOR_01: v->data_u32 = (bv_n - n1) | (n1 << 16); break;
		case POINTLESS_BITVECTOR_10: v->data_u32 = n1 | ((bv_n - n1) << 16); break;
		default: v->data_u32 = bv_n; for (i = 0; i < bv_n; i++) v->data_u32 |= (uint32_t)bv_bits[i] << (5 + i);
	}
}
static uint32_t bv_pick(void) { uint32_t t; do t = bv_types[ptv_range(0, 5)]; while (!bv_fits(t)); return t; }
#endif

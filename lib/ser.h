/* The output of serialization as a sequence of bytes: an arbitrary position gb of it, what was written there (gbyte), the length so far
 * (gpos), and whether a write failed. */
#ifdef PTV_CBMC
#ifndef SER_H
#define SER_H
static uint64_t gpos, gb; static uint8_t gbyte; static int gfailed, galigned; static const char* gerr; static int guser;
static int ser_write(void* data, size_t n, void* user, const char** error)
{
	PTV_CHECK(user == &guser && !gfailed && !galigned, "written in sequence, nothing after a failure");
	PTV_CHECK(n == 0 || __CPROVER_r_ok(data, n), "the bytes written exist");
	if (nondet_ptv_u64() & 1) { gfailed = 1; *error = "write"; return 0; }
	if (gpos <= gb && gb - gpos < n) gbyte = ((const uint8_t*)data)[gb - gpos];
	gpos += n;
	return 1;
}
static int ser_align(void* user, const char** error)
{
	PTV_CHECK(user == &guser && !gfailed && !galigned, "aligned once, at the end");
	if (nondet_ptv_u64() & 1) { gfailed = 1; *error = "align"; return 0; }
	galigned = 1;
	return 1;
}
#define SER_ASSIGNS gpos, gbyte, gfailed, galigned, gerr
#define SER_REQUIRES (gpos == 0 && !gfailed && !galigned && error == &gerr)
/* success exactly when no write failed; then the object is complete: its length, and the byte at the arbitrary position */
#define SER_ENSURES(len, byte) PTV_ENSURES((PTV_RET != 0) == !gfailed) PTV_ENSURES(!PTV_RET || (galigned && gpos == (len))) PTV_ENSURES(!PTV_RET || gb >= (len) || gbyte == (uint8_t)(byte))
#define BYTE_OF(x, k) ((uint8_t)((x) >> (8 * (k))))
#define SER_CB(cb) do { (cb).write = ser_write; (cb).align_4 = ser_align; (cb).user = &guser; } while (0)
static void ser_make(void) { gpos = 0; gb = PTV_U64(); gbyte = PTV_U8(); gfailed = galigned = 0; gerr = 0; }
#endif
#endif

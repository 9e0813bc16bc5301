/*PTV
{
 "functions": ["pointless_init", "_pointless_open_b", "pointless_open_b", "pointless_open_b_skip_validate", "pointless_root"],
 "assumptions": ["pointless_validate is replaced by an arbitrary answer (what it establishes: P10, P12)", "opening by file name maps the file and calls the same pointless_init (checked by execution)", "memcpy in open_b is modelled as copying the bytes the specification speaks of"],
 "contracts": [
  {"id": "init", "harness": "h_init", "enforce": "pointless_init", "solver": "cadical", "unwind": 2, "defs": ["KIND=1"]},
  {"id": "open", "harness": "h_open", "enforce": "_pointless_open_b", "replace": ["pointless_init", "pointless_close"], "solver": "cadical", "unwind": 2, "defs": ["KIND=2"]},
  {"id": "public", "harness": "h_public", "enforce": "{F}", "replace": ["_pointless_open_b"], "solver": "cadical", "unwind": 2, "defs": ["KIND=3"], "variants": ["F=pointless_open_b CHECKED=1", "F=pointless_open_b_skip_validate CHECKED=0"]}
 ],
 "native": [{"harness": "h_bytes", "secs": 3}, {"harness": "h_file", "secs": 2}, {"harness": "h_corrupt", "secs": 8}],
 "src": [],
 "nobody": ["mmap","munmap","fclose","fileno","fstat","fopen","pointless_.*", "assert"],
 "fulllib": true
}
PTV*/
#include "ptv.h"
#include <pointless/pointless.h>
#include <unistd.h>
#include <sys/stat.h>
#ifndef KIND
#define KIND 0
#endif
pointless_t gp; uint8_t* gbuf; uint64_t gn; int gdoval; const char* gerr;
int gvalidated, ganswer; const void* gsrc; uint64_t gk; uint8_t gkb; void* gcopy; int gfreed;
#define HDR ((pointless_header_t*)gbuf)
#define NEED (sizeof(pointless_header_t) + 8 * ((uint64_t)HDR->n_string_unicode + HDR->n_vector + HDR->n_bitvector + HDR->n_set + HDR->n_map))
#define TAB(f, before) ((uint8_t*)gp.f == gbuf + sizeof(pointless_header_t) + 8 * (uint64_t)(before))
#define ACCEPTABLE (gn >= sizeof(pointless_header_t) && HDR->version == POINTLESS_FF_VERSION_OFFSET_64_NEWHASH && NEED <= gn)
#define LAYOUT ((uint8_t*)gp.header == gbuf && TAB(string_unicode_offsets_64, 0) && TAB(vector_offsets_64, HDR->n_string_unicode) && \
 TAB(bitvector_offsets_64, (uint64_t)HDR->n_string_unicode + HDR->n_vector) && TAB(set_offsets_64, (uint64_t)HDR->n_string_unicode + HDR->n_vector + HDR->n_bitvector) && \
 TAB(map_offsets_64, (uint64_t)HDR->n_string_unicode + HDR->n_vector + HDR->n_bitvector + HDR->n_set) && \
 (uint8_t*)gp.heap_ptr == gbuf + NEED && gp.heap_len == gn - NEED)
#ifdef PTV_CBMC
int32_t pointless_validate(pointless_validate_context_t* context, const char** error)
{
	PTV_CHECK(KIND == 1 && gdoval && context->p == &gp && LAYOUT, "validation sees the accepted layout");
	gvalidated = 1;
	if (!ganswer) *error = "validation";
	return ganswer;
}
#if KIND == 1
static int pointless_init(pointless_t* p, void* buf, uint64_t buflen, int do_validate, const char** error)
PTV_REQUIRES(p == &gp && buf == gbuf && buflen == gn && do_validate == gdoval && error == &gerr)
PTV_ASSIGNS(gp, gerr, gvalidated)
/* accepted exactly when the header is present, of the supported version, its tables fit, and (if asked for) validation accepts */
PTV_ENSURES((PTV_RET != 0) == (ACCEPTABLE && (!gdoval || ganswer)))
PTV_ENSURES(!PTV_RET || (LAYOUT && gvalidated == (gdoval != 0)))
PTV_ENSURES(PTV_RET || gerr != 0);
#elif KIND == 2
static int pointless_init(pointless_t* p, void* buf, uint64_t buflen, int do_validate, const char** error)
PTV_REQUIRES(p == &gp && buf == gcopy && buflen == gn && do_validate == gdoval && error == &gerr && gp.buf == gcopy && gp.buflen == gn && gp.fd == 0 && gp.fd_ptr == 0 && gp.fd_len == 0 && (gk >= gn || ((uint8_t*)gcopy)[gk] == gkb))
PTV_ASSIGNS(gp.header, gerr)
PTV_ENSURES(PTV_RET == ganswer && (PTV_RET || gerr != 0));
void pointless_close(pointless_t* p)
PTV_REQUIRES(p == &gp && !gfreed && !ganswer && gp.buf == gcopy && gp.fd == 0 && gp.fd_ptr == 0)
PTV_ASSIGNS(gfreed)
PTV_ENSURES(gfreed == 1);
static int _pointless_open_b(pointless_t* p, const void* buffer, size_t n_buffer, int do_validate, const char** error)
PTV_REQUIRES(p == &gp && buffer == gsrc && n_buffer == gn && do_validate == gdoval && error == &gerr && gfreed == 0 && gcopy == 0)
PTV_ASSIGNS(gp, gerr, gcopy, gfreed)
PTV_ENSURES((PTV_RET != 0) == (gcopy != 0 && ganswer != 0))
PTV_ENSURES(PTV_RET || (gerr != 0 && (gcopy == 0 || gfreed)))
PTV_ENSURES(!PTV_RET || (!gfreed && gp.buf == gcopy && gp.buflen == gn && gp.fd == 0 && gp.fd_ptr == 0 && (gk >= gn || ((uint8_t*)gcopy)[gk] == gkb)));
void* pointless_malloc(size_t n)
{
	if (n != gn || (nondet_ptv_u64() & 1)) return 0;
	return gcopy = malloc(n * sizeof(uint8_t));
}
static void* ptv_memcpy(void* dst, const void* src, size_t n)
{
	PTV_CHECK(dst == gcopy && src == gsrc && n == gn, "the whole buffer is copied");
	if (gk < n) ((uint8_t*)dst)[gk] = ((uint8_t*)src)[gk];
	return dst;
}
#define memcpy ptv_memcpy
#else
static int _pointless_open_b(pointless_t* p, const void* buffer, size_t n_buffer, int do_validate, const char** error)
PTV_REQUIRES(p == &gp && buffer == gsrc && n_buffer == gn && (do_validate != 0) == CHECKED && error == &gerr)
PTV_ASSIGNS() PTV_ENSURES(PTV_RET == ganswer);
int F(pointless_t* p, const void* buffer, size_t n_buffer, const char** error)
PTV_REQUIRES(p == &gp && buffer == gsrc && n_buffer == gn && error == &gerr)
PTV_ASSIGNS() PTV_ENSURES(PTV_RET == ganswer);
#endif
#endif
#include "/repo/src/pointless_reader.c"
#undef memcpy

#ifdef PTV_CBMC
static void make(void)
{
	gn = PTV_U64(); PTV_ASSUME(gn < ((uint64_t)1 << 45));
	gbuf = malloc(gn * sizeof(uint8_t));
	PTV_ASSUME(gbuf != 0);
	gdoval = PTV_BOOL(); ganswer = PTV_BOOL(); gvalidated = 0; gerr = 0; gsrc = gbuf; gk = PTV_U64();
}
#endif
void h_init(void)
{
#if KIND == 1
	make();
	if (pointless_init(&gp, gbuf, gn, gdoval, &gerr)) PTV_REACH();
#endif
}
void h_open(void)
{
#if KIND == 2
	make(); gcopy = 0; gfreed = 0;
	if (gk < gn) gkb = gbuf[gk];
	if (_pointless_open_b(&gp, gbuf, gn, gdoval, &gerr)) PTV_REACH();
#endif
}
void h_public(void)
{
#if KIND == 3
	make();
	F(&gp, gbuf, gn, &gerr);
	PTV_REACH();
#endif
}
#ifndef PTV_CBMC
static void random_header(int small)
{
	uint32_t *w, i, n = (uint32_t)ptv_range(0, small ? 8 : 60); uint64_t need;
	gn = ptv_range(0, 2) ? sizeof(pointless_header_t) + n * 8 + ptv_range(0, 9) : ptv_range(0, 64);
	gbuf = ptv_malloc(gn);
	for (i = 0; i < gn; i++) gbuf[i] = PTV_BOOL() ? 0 : PTV_U8();
	if (gn < sizeof(pointless_header_t)) return;
	if (ptv_range(0, 7)) HDR->version = POINTLESS_FF_VERSION_OFFSET_64_NEWHASH; else HDR->version = (uint32_t)ptv_range(0, 5);
	need = n;
	for (w = &HDR->n_string_unicode, i = 0; i < 5; i++) {
		uint32_t x = (uint32_t)(ptv_range(0, 20) ? ptv_range(0, need) : ptv_range(0, 3) ? PTV_U32() : (uint32_t)1 << 29);
		need -= x <= need ? x : need;
		switch (i) { case 0: HDR->n_string_unicode = x; break; case 1: HDR->n_vector = x; break; case 2: HDR->n_bitvector = x; break; case 3: HDR->n_set = x; break; default: HDR->n_map = x; }
	}
	(void)w;
}
void h_bytes(void)
{
	int r;
	random_header(0);
	gerr = 0;
	r = pointless_open_b_skip_validate(&gp, gbuf, gn, &gerr);
	PTV_CHECK((r != 0) == ACCEPTABLE, "accepted exactly when the header fits");
	PTV_CHECK(r || gerr, "an error is reported");
	if (r) {
		uint8_t* o = gbuf; gbuf = gp.buf;
		PTV_CHECK(gp.buf != (void*)o && gp.buflen == gn && memcmp(gp.buf, o, gn) == 0, "a copy");
		PTV_CHECK(LAYOUT, "tables and heap are where the header says");
		PTV_CHECK(pointless_root(&gp) == &HDR->root, "root");
		PTV_REACH();
		pointless_close(&gp);
	}
}
void h_file(void)
{
	char name[64]; FILE* f; int r;
	random_header(1);
	snprintf(name, sizeof(name), "/tmp/ptv_p11_%d", (int)getpid());
	f = fopen(name, "wb"); fwrite(gbuf, 1, gn, f); fclose(f);
	gerr = 0;
	r = pointless_open_f_skip_validate(&gp, name, &gerr);
	PTV_CHECK((r != 0) == ACCEPTABLE, "accepted exactly when the header fits");
	PTV_CHECK(r || gerr, "an error is reported");
	if (r) {
		gbuf = gp.fd_ptr;
		PTV_CHECK(LAYOUT && gp.fd_len == gn, "tables and heap are where the header says");
		pointless_close(&gp);
		PTV_REACH();
	}
	unlink(name);
	gerr = 0;
	PTV_CHECK(!pointless_open_f(&gp, name, &gerr) && gerr, "a missing file is an error");
}
#include "graph.h"
/* a valid file with a few bytes changed, cut or extended: opening (with validation) and walking everything stays inside */
void h_corrupt(void)
{
	void* b; size_t n; uint8_t* c; uint32_t i, m; int r;
	gr_random(); gr_write(&b, &n);
	gn = n; if (!ptv_range(0, 3)) gn = ptv_range(0, 3) ? ptv_range(n > 40 ? n - 40 : 0, n) : ptv_range(0, n);
	c = ptv_malloc(gn); memcpy(c, b, gn); pointless_free(b);
	m = (uint32_t)ptv_range(0, 4);
	for (i = 0; i < m && gn >= 4; i++) {
		uint64_t at = ptv_range(0, 3) ? ptv_range(0, gn / 4 - 1) * 4 : ptv_range(0, gn - 4); uint32_t w;
		memcpy(&w, c + at, 4);
		switch (ptv_range(0, 6)) { case 0: w = PTV_U32(); break; case 1: w += 1; break; case 2: w -= 1; break; case 3: w ^= (uint32_t)1 << ptv_range(0, 31); break; case 4: w = (uint32_t)ptv_range(0, 40); break; case 5: w = 0xfffffff0u + (uint32_t)ptv_range(0, 15); break; default: memcpy(&w, c + ptv_range(0, gn / 4 - 1) * 4, 4); }
		memcpy(c + at, &w, 4);
	}
	gerr = 0;
	r = pointless_open_b(&gp, c, gn, &gerr);
	PTV_CHECK(r || m || gn != n, "a file as written is accepted");
	if (r) { gr_touch(&gp, pointless_root(&gp), 0); pointless_close(&gp); PTV_REACH(); }
	else PTV_CHECK(gerr, "an error is reported");
}
#endif

/*PTV
{
 "functions": ["pointless_create_output_and_end_f", "file_write", "file_align_4", "pointless_serialize_string", "pointless_serialize_unicode", "pointless_serialize_bitvector", "pointless_serialize_vector_outside", "pointless_serialize_set", "pointless_serialize_map"],
 "assumptions": ["system and library calls (mkstemp, fdopen, fwrite, ftell, fflush, fsync, fchmod, fclose, close, rename, unlink) are stubs that fail at any call and record what happened; their own behaviour is trusted", "pointless_create_output_and_end_ is assumed to fail when one of its writes fails (each function writing a heap value is proved to; the driver loop is checked by execution with failures injected at every call)"],
 "contracts": [
  {"id": "file", "harness": "h_outf", "enforce": "pointless_create_output_and_end_f", "replace": ["pointless_create_output_and_end_", "pointless_create_end"], "solver": "cadical", "unwind": 16, "defs": ["KIND=1"]},
  {"id": "write", "harness": "h_fw", "enforce": "file_write", "solver": "cadical", "unwind": 2, "defs": ["KIND=2"]},
  {"id": "align", "harness": "h_fa", "enforce": "file_align_4", "solver": "cadical", "unwind": 4, "defs": ["KIND=3"]}
 ],
 "native": [{"harness": "h_inject", "secs": 8}],
 "src": [],
 "nobody": ["pointless_.*", "Judy.*", "assert", "mkstemp", "bentley_sort_.*", "hash_table.*", "bm_.*"],
 "fulllib": true, "judy": true
}
PTV*/
#define _GNU_SOURCE 1
#include "ptv.h"
#include <pointless/pointless.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <dirent.h>
#include <errno.h>
#include <time.h>
#ifndef KIND
#define KIND 0
#endif
#define PTV_LOOP_bv_all_1(...)
#define PTV_LOOP_bv_all_0(...)
#define PTV_LOOP_bv_01(...)
#define PTV_LOOP_bv_10(...)
#define PTV_LOOP_bv_packed(...)

#ifdef PTV_CBMC
/* what has happened so far */
static pointless_create_t gc; static FILE* gfile; static char* gname; static size_t glen; static char* gtemp; static const char* gerr; static int gfd;
static int gcreated, gopened, gwritten, gflushed, gsynced, gclosed, gfdclosed, grenamed, gunlinked, gpartial;
static uint64_t gpos, gwrites; static int gwfail, gnonzero; static const void* gwbuf; static uint64_t gwn;
/* every call may fail for any reason */
static int gerrno;
static int ptv_fails(void) { if ((nondet_ptv_u64() & 1) == 0) return 0; gerrno = (int)(nondet_ptv_u64() % 133) + 1; return 1; }
#define FAILS ptv_fails()
#undef errno
#define errno gerrno
#if KIND == 1
int pointless_create_output_and_end_f(pointless_create_t* c, const char* fname, const char** error)
PTV_REQUIRES(c == &gc && fname == gname && error == &gerr)
PTV_REQUIRES(gcreated == 0 && gopened == 0 && gwritten == 0 && gpartial == 0 && gflushed == 0 && gsynced == 0 && gclosed == 0 && gfdclosed == 0 && grenamed == 0 && gunlinked == 0 && gtemp == 0)
PTV_ASSIGNS(gerrno, gerr, gcreated, gopened, gwritten, gpartial, gflushed, gsynced, gclosed, gfdclosed, grenamed, gunlinked, gtemp)
/* success: the complete contents are in place under the given name (the stub of rename checks flushed, synced and closed) */
PTV_ENSURES(!PTV_RET || (grenamed == 1 && gunlinked == 0))
/* failure: the name was not touched and the temporary file, if it was made, is gone and closed */
PTV_ENSURES(PTV_RET || (grenamed == 0 && gerr != 0 && gunlinked == gcreated && gfdclosed == gcreated));
void pointless_create_end(pointless_create_t* c)
PTV_REQUIRES(c == &gc) PTV_ASSIGNS();
void* pointless_malloc(size_t n)
{
	if (FAILS) return 0;
	gtemp = malloc(n * sizeof(char));
	return gtemp;
}
void pointless_free(void* p) { if (p) { PTV_CHECK(p == gtemp, "freed"); } }
static size_t ptv_strlen(const char* s) { PTV_CHECK(s == gname, "length of the name"); return glen; }
static int ptv_sprintf(char* d, const char* f, const char* s)
{
	size_t k = 0;
	while (f[k]) k++;
	PTV_CHECK(s == gname && __CPROVER_w_ok(d, glen + k - 1), "the name fits");
	return (int)0;
}
static int ptv_mkstemp(char* t)
{
	PTV_CHECK(t == gtemp && t != 0, "a temporary file of its own name");
	if (FAILS) return -1;
	gcreated = 1;
	return gfd;
}
static FILE* ptv_fdopen(int fd, const char* m)
{
	PTV_CHECK(gcreated && fd == gfd && !gfdclosed && m[0] == 'w', "opened for writing");
	if (FAILS) return 0;
	gopened = 1;
	return gfile;
}
static int ptv_fflush(FILE* f) { PTV_CHECK(gopened && f == gfile && !gfdclosed, "flush"); if (FAILS) { gpartial = 1; return EOF; } gflushed = 1; return 0; }
static int ptv_fsync(int fd) { PTV_CHECK(gcreated && fd == gfd && !gfdclosed, "sync"); if (FAILS) return -1; if (gflushed) gsynced = 1; return 0; }
static int ptv_fdatasync(int fd) { return ptv_fsync(fd); }
static int ptv_fchmod(int fd, mode_t m) { PTV_CHECK(gcreated && fd == gfd && !gfdclosed, "chmod"); return FAILS ? -1 : 0; }
static int ptv_fileno(FILE* f) { PTV_CHECK(gopened && f == gfile && !gfdclosed, "fileno"); return gfd; }
static int ptv_fclose(FILE* f)
{
	PTV_CHECK(gopened && f == gfile && !gfdclosed, "closed once");
	gfdclosed = 1;
	if (FAILS) return EOF;
	gclosed = 1;
	return 0;
}
static int ptv_close(int fd) { PTV_CHECK(gcreated && fd == gfd && !gfdclosed, "closed once"); gfdclosed = 1; return FAILS ? -1 : 0; }
static int ptv_rename(const char* a, const char* b)
{
	PTV_CHECK(a == gtemp && b == gname && gcreated && !gunlinked && !grenamed, "the temporary file becomes the file");
	PTV_CHECK(gwritten && !gpartial, "everything was written before the rename");
	PTV_CHECK(gflushed && gsynced, "flushed and synced before the rename");
	PTV_CHECK(gclosed, "closed successfully before the rename");
	if (FAILS) return -1;
	grenamed = 1;
	return 0;
}
static int ptv_unlink(const char* a)
{
	PTV_CHECK(a == gtemp && a != gname && gcreated && !grenamed && !gunlinked, "only the temporary file is removed");
	gunlinked = 1;
	return FAILS ? -1 : 0;
}
static int ptv_print(void) { return 0; }
#define strlen ptv_strlen
#define sprintf(...) ptv_sprintf(__VA_ARGS__)
#define mkstemp ptv_mkstemp
#define fdopen ptv_fdopen
#define fflush ptv_fflush
#define fsync ptv_fsync
#define fdatasync ptv_fdatasync
#define fileno ptv_fileno
#define fchmod ptv_fchmod
#define fclose ptv_fclose
#define close ptv_close
#define rename ptv_rename
#define unlink ptv_unlink
#define fprintf(...) ptv_print()
#else
static int file_write(void* buf, size_t buflen, void* user, const char** error)
PTV_REQUIRES(user == gfile && error == &gerr && gwfail == 0 && gwrites == 0 && buf == gwbuf && buflen == gwn)
PTV_ASSIGNS(gerrno, gpos, gwrites, gwfail, gerr, gnonzero)
/* either all bytes were handed to the stream or the call fails */
PTV_ENSURES(!PTV_RET || (!gwfail && gpos == PTV_OLD(gpos) + buflen))
PTV_ENSURES(PTV_RET || (gwfail && gerr != 0));
static int file_align_4(void* user, const char** error)
PTV_REQUIRES(user == gfile && error == &gerr && gwfail == 0 && gwrites == 0 && gnonzero == 0 && gpos <= (uint64_t)1 << 60)
PTV_ASSIGNS(gerrno, gpos, gwrites, gwfail, gerr, gnonzero)
PTV_ENSURES(!PTV_RET || (!gwfail && gpos % 4 == 0 && gpos >= PTV_OLD(gpos) && gpos - PTV_OLD(gpos) < 4 && !gnonzero))
PTV_ENSURES(PTV_RET || (gwfail && gerr != 0));
static size_t ptv_fwrite(const void* b, size_t z, size_t m, FILE* f)
{
	PTV_CHECK(f == gfile && z != 0 && m != 0 && m <= SIZE_MAX / z && __CPROVER_r_ok(b, z * m), "the bytes written exist");
	if (KIND == 2) PTV_CHECK(b == gwbuf && z * m == gwn, "all of the bytes given");
	if (KIND == 3) { PTV_CHECK(z * m < 4, "padding"); for (size_t k = 0; k < 3; k++) if (k < z * m && ((const uint8_t*)b)[k]) gnonzero = 1; }
	gwrites++;
	if (FAILS) { gwfail = 1; gpos += nondet_ptv_u64() & 3; return m - 1; }
	gpos += z * m;
	return m;
}
static long ptv_ftell(FILE* f) { PTV_CHECK(f == gfile, "ftell"); if (FAILS) { gwfail = 1; return -1; } return (long)gpos; }
#define fwrite ptv_fwrite
#define ftell ptv_ftell
#endif
#else
/* natively: the real calls, the gfailat-th of them failing */
static int gcall, gfailat, gfd_; static char gseq[4096];
static const int gerrs[] = {EIO, ENOSPC, EINVAL, EROFS, EDQUOT, EBADF, EAGAIN, ENOMEM, EACCES, EPERM, EEXIST, EISDIR, EBUSY, EFBIG, ENOTSUP, ENOSYS, EXDEV, EMFILE};
static const char* gtarget;
static int ptv_due(char w) { if (gcall < 4000) gseq[gcall] = w; if (gcall++ != gfailat) return 0; errno = gerrs[ptv_range(0, sizeof(gerrs) / sizeof(gerrs[0]) - 1)]; return 1; }
#include <stdarg.h>
static int ptv_mkstemp(char* t) { if (ptv_due('m')) return -1; return mkstemp(t); }
static FILE* ptv_fdopen(int fd, const char* m) { if (ptv_due('o')) return 0; return fdopen(fd, m); }
static size_t ptv_fwrite(const void* b, size_t z, size_t m, FILE* f) { if (ptv_due('w')) return 0; return fwrite(b, z, m, f); }
static int ptv_fflush(FILE* f) { if (ptv_due('f')) { return EOF; } return fflush(f); }
static int ptv_fsync(int fd) { if (ptv_due('s')) return -1; return 0; }
static int ptv_fchmod(int fd, mode_t m) { if (ptv_due('p')) return -1; return fchmod(fd, m); }
static int ptv_fclose(FILE* f) { int r = ptv_due('c'); if (fclose(f) == EOF) return EOF; return r ? EOF : 0; }
static long ptv_ftell(FILE* f) { if (ptv_due('t')) return -1; return ftell(f); }
static int ptv_rename(const char* a, const char* b)
{
	int i, s = 0, f = 0, c = 0;
	for (i = 0; i < gcall && i < 4000; i++) { if (gseq[i] == 'w') s = f = 0; if (gseq[i] == 'f') f = 1; if (gseq[i] == 's') s = f; if (gseq[i] == 'c') c = 1; }
	PTV_CHECK(f && s && c, "flushed, synced and closed before the rename");
	if (ptv_due('r')) return -1;
	return rename(a, b);
}
#define mkstemp ptv_mkstemp
#define fdopen ptv_fdopen
#define fwrite ptv_fwrite
#define fflush ptv_fflush
#define fsync ptv_fsync
#define fdatasync ptv_fsync
#define fchmod ptv_fchmod
#define fclose ptv_fclose
#define ftell ptv_ftell
#define rename ptv_rename
#endif
#include "/repo/src/pointless_create.c"
#undef strlen
#undef sprintf
#undef fprintf
#undef mkstemp
#undef fdopen
#undef fwrite
#undef fflush
#undef fsync
#undef fdatasync
#undef fchmod
#undef fclose
#undef close
#undef ftell
#undef rename
#undef unlink
#undef fileno
#if defined(PTV_CBMC) && KIND == 1
static int pointless_create_output_and_end_(pointless_create_t* c, pointless_create_cb_t* cb, const char** error)
PTV_REQUIRES(c == &gc && cb->user == gfile && error == &gerr && gopened && !gfdclosed && !gwritten)
PTV_ASSIGNS(gerrno, gerr, gwritten, gflushed, gsynced)
PTV_ENSURES(gwritten == (PTV_RET != 0) && gflushed == 0 && gsynced == 0 && (PTV_RET || gerr != 0));
#endif
#ifdef PTV_CBMC
static void make(void)
{
	gfile = malloc(sizeof(FILE)); PTV_ASSUME(gfile != 0);
	glen = PTV_U64(); PTV_ASSUME(glen < ((uint64_t)1 << 40));
	gname = malloc((glen + 1) * sizeof(char)); PTV_ASSUME(gname != 0);
	gerr = 0; gtemp = 0; gfd = (int)ptv_range(0, INT_MAX);
	gcreated = gopened = gwritten = gpartial = gflushed = gsynced = gclosed = gfdclosed = grenamed = gunlinked = 0;
	gwfail = 0; gwrites = 0; gnonzero = 0; gpos = PTV_U64();
}
#endif
void h_outf(void)
{
#if KIND == 1
	make();
	if (pointless_create_output_and_end_f(&gc, gname, &gerr)) PTV_REACH();
#endif
}
void h_fw(void)
{
#if KIND == 2
	make(); PTV_ASSUME(gpos < ((uint64_t)1 << 60));
	gwn = glen; gwbuf = gname;
	if (file_write((void*)gwbuf, gwn, gfile, &gerr)) PTV_REACH();
#endif
}
void h_fa(void)
{
#if KIND == 3
	make();
	if (file_align_4(gfile, &gerr)) PTV_REACH();
#endif
}
#ifndef PTV_CBMC
#include "graph.h"
static int others(const char* dir, const char* name)
{
	DIR* d = opendir(dir); struct dirent* e; int n = 0;
	while ((e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && strcmp(e->d_name, name)) n++;
	closedir(d);
	return n;
}
/* write a graph to a file over an old one, with one failing call; then the same graph without */
void h_inject(void)
{
	char dir[80], name[120]; pointless_create_t c; const char* error = 0; FILE* f; int r, old = PTV_BOOL(), n; pointless_t p; uint8_t b[8];
	snprintf(dir, sizeof(dir), "/tmp/ptv_p22_%d", (int)getpid());
	snprintf(name, sizeof(name), "%s/%s", dir, "file.map");
	mkdir(dir, 0700);
	if (old) { f = fopen(name, "wb"); fwrite("old", 1, 3, f); fclose(f); }
	gr_random_ext(8, 1);
	gcall = 0; gfailat = PTV_BOOL() ? (int)ptv_range(0, 12) : ptv_range(0, 4) ? (int)ptv_range(0, 70) : -1;
	pointless_create_begin_64(&c);
	gr_build(&c);
	r = pointless_create_output_and_end_f(&c, name, &error);
	PTV_CHECK(!r == (gfailat >= 0 && gfailat < gcall), "fails exactly when a call fails");
	PTV_CHECK(r || error, "an error is reported");
	PTV_CHECK(others(dir, "file.map") == 0, "no temporary file is left");
	if (!r) {
		f = fopen(name, "rb");
		PTV_CHECK((f != 0) == old, "the old file is still there, or still missing");
		if (f) { n = (int)fread(b, 1, 8, f); fclose(f); PTV_CHECK(n == 3 && !memcmp(b, "old", 3), "the old file is untouched"); }
	} else {
		error = 0;
		PTV_CHECK(pointless_open_f(&p, name, &error), "the file written is accepted");
		gr_compare(&p);
		pointless_close(&p);
	}
	PTV_REACH();
	unlink(name); rmdir(dir);
}
#endif

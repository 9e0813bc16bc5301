/* native driver: replays logged inputs, or searches randomly */
#include "ptv.h"
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <sanitizer/common_interface_defs.h>

typedef struct { const char* name; void (*fn)(void); } ptv_harness_t;
extern ptv_harness_t ptv_harnesses[];

static jmp_buf ptv_env;
#define MAXV 400000
static uint64_t vals[MAXV]; static size_t n_vals;      /* values consumed in this run */
static uint64_t rvals[MAXV]; static size_t n_rvals, i_rvals; static int replay;
static uint64_t rng = 88172645463325252ull;
static const char* out_path; static const char* cur; 
static int reached; static unsigned long n_iter, n_skip, n_reach;
static void* allocs[200000]; static size_t n_allocs;

static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 2685821657736338717ull; }

static void note(uint64_t v) { if (n_vals < MAXV) vals[n_vals++] = v; }

static uint64_t gen(int bits)
{
	uint64_t r = rnd() >> 11; uint64_t v;
	unsigned k = r % 20; r >>= 5;
	if (k < 5) v = r % 8;
	else if (k < 9) {
		static const int ps[] = {0, 7, 8, 15, 16, 23, 24, 25, 31, 32, 33, 53, 62, 63, 64};
		int p = ps[r % 15]; r >>= 4;
		v = (p == 64) ? 0 : ((uint64_t)1 << p);
		v += (uint64_t)((int64_t)(r % 5) - 2);
		if ((r >> 5) & 1) v = -v;
	} else if (k < 13 && n_vals > 0) {
		size_t w = n_vals < 24 ? n_vals : 24;
		v = vals[n_vals - 1 - r % w]; r >>= 6;
		if (r % 4 == 0) v += (uint64_t)((int64_t)((r >> 2) % 5) - 2);
		if (r % 16 == 1) v = -v;
	} else if (k < 16) v = rnd() >> (rnd() % 64);
	else v = rnd();
	if (bits < 64) v &= (((uint64_t)1 << bits) - 1);
	return v;
}

uint64_t ptv_nd(int bits)
{
	uint64_t v;
	if (replay) { v = i_rvals < n_rvals ? rvals[i_rvals++] : 0; if (bits < 64) v &= (((uint64_t)1 << bits) - 1); }
	else v = gen(bits);
	note(v);
	return v;
}

uint64_t ptv_range(uint64_t lo, uint64_t hi)
{
	uint64_t v;
	if (replay) { v = i_rvals < n_rvals ? rvals[i_rvals++] : lo; if (!(lo <= v && v <= hi)) ptv_skip(); }
	else if (lo == 0 && hi == UINT64_MAX) v = gen(64);
	else {
		uint64_t span = hi - lo + 1; unsigned k = rnd() % 16;
		if (k == 0) v = lo; else if (k == 1) v = hi;
		else if (k < 5) { v = gen(64); v = (lo <= v && v <= hi) ? v : lo + v % span; }
		else if (k < 7) { uint64_t s = span > 6 ? 6 : span; v = lo + rnd() % s; }
		else v = lo + rnd() % span;
	}
	note(v);
	return v;
}

static void dump(const char* what)
{
	FILE* f = out_path ? fopen(out_path, "w") : 0; size_t i;
	if (!f) return;
	fprintf(f, "# harness %s\n# %s\n", cur, what);
	for (i = 0; i < n_vals; i++) fprintf(f, "%llu\n", (unsigned long long)vals[i]);
	fclose(f);
}

void ptv_skip(void) { longjmp(ptv_env, 1); }
void ptv_reached(void) { reached = 1; }
void ptv_fail(const char* msg, const char* file, int line)
{
	char b[1000]; snprintf(b, sizeof b, "obligation failed: %s (%s:%d)", msg, file, line);
	printf("PTV-FAIL %s\n", b); fflush(stdout);
	dump(b); _exit(10);
}
static void on_death(void) { dump("sanitizer report / crash"); }
static void on_alarm(int s) { (void)s; dump("no termination within the time limit"); { static const char m[] = "PTV-FAIL hang\n"; ssize_t r = write(1, m, sizeof m - 1); (void)r; } _exit(11); }
static void on_segv(int s) { (void)s; dump("crash (signal)"); { static const char m[] = "PTV-FAIL crash\n"; ssize_t r = write(1, m, sizeof m - 1); (void)r; } _exit(12); }
void* ptv_malloc(size_t n)
{
	void* p = malloc(n);
	if (!p) ptv_skip();
	if (n_allocs < 200000) allocs[n_allocs++] = p;
	return p;
}
static void free_all(void) { while (n_allocs) free(allocs[--n_allocs]); }

static int run_once(void (*fn)(void))
{
	int r = 0;
	n_vals = 0; reached = 0;
	if (setjmp(ptv_env) == 0) fn(); else r = 1;
	free_all();
	return r;
}

/* usage: prog <harness> replay FILE OUT | prog <harness> search ITERS SECS SEED OUT */
int main(int argc, char** argv)
{
	void (*fn)(void) = 0; ptv_harness_t* h;
	if (argc < 4) return 2;
	cur = argv[1];
	for (h = ptv_harnesses; h->name; h++) if (!strcmp(h->name, cur)) fn = h->fn;
	if (!fn) { printf("no harness %s\n", cur); return 2; }
	__sanitizer_set_death_callback(on_death);
	signal(SIGALRM, on_alarm); signal(SIGABRT, on_segv); signal(SIGFPE, on_segv);
	if (!strcmp(argv[2], "replay")) {
		char line[256]; FILE* f = fopen(argv[3], "r");
		out_path = argc > 4 ? argv[4] : 0;
		if (!f) return 2;
		while (fgets(line, sizeof line, f)) if (line[0] != '#' && n_rvals < MAXV) rvals[n_rvals++] = strtoull(line, 0, 10);
		fclose(f);
		replay = 1; alarm(60);
		if (run_once(fn)) { printf("PTV-SKIP\n"); return 3; }
		printf("PTV-OK reached=%d\n", reached);
		return 0;
	} else {
		unsigned long iters = strtoul(argv[3], 0, 10); double secs = atof(argv[4]);
		unsigned long long seed = strtoull(argv[5], 0, 10);
		struct timespec t0, t; 
		out_path = argv[6];
		rng ^= seed * 0x9E3779B97F4A7C15ull; { const char* c; for (c = cur; *c; c++) rng = (rng ^ (uint64_t)*c) * 1099511628211ull; } if (!rng) rng = 1;
		{ int i; for (i = 0; i < 20; i++) rnd(); }
		clock_gettime(CLOCK_MONOTONIC, &t0);
		for (n_iter = 0; n_iter < iters; n_iter++) {
			alarm(30);
			n_skip += run_once(fn);
			n_reach += reached;
			if ((n_iter & 15) == 15 || 1) {
				clock_gettime(CLOCK_MONOTONIC, &t);
				if ((t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > secs) { n_iter++; break; }
			}
		}
		printf("PTV-DONE iters=%lu skipped=%lu reached=%lu\n", n_iter, n_skip, n_reach);
		return 0;
	}
}

/*PTV
{
 "functions": ["intop_eval_E", "intop_eval_Em", "intop_eval_T", "intop_eval_Tm", "intop_eval_F", "intop_eval_push"],
 "assumptions": ["the value, end and well-formedness of the nonterminal starting at each token (vE, eE, kE, ...) are uninterpreted functions which satisfy the grammar's defining equations, assumed at the position at hand: the grammar is deterministic, so that the equations define them by recursion on the position", "for the parser, the effect of a push on the values of the program so far (the ghost stack gs) is by definition that of running the pushed token; intop_eval_push itself is proved to append it, intop_eval_eval to run it"],
 "complete": [
  {"id": "push", "harness": "h_push", "defs": ["KIND=1"], "flags": ["--arrays-uf-always"]},
  {"id": "E", "harness": "h_E", "defs": ["KIND=2"], "flags": ["--arrays-uf-always"]},
  {"id": "Em", "harness": "h_Em", "defs": ["KIND=2"], "flags": ["--arrays-uf-always"]},
  {"id": "T", "harness": "h_T", "defs": ["KIND=2"], "flags": ["--arrays-uf-always"]},
  {"id": "Tm", "harness": "h_Tm", "defs": ["KIND=2"], "flags": ["--arrays-uf-always"]},
  {"id": "F", "harness": "h_F", "defs": ["KIND=2"], "flags": ["--arrays-uf-always"]}
 ],
 "native": [{"harness": "h_text", "secs": 8}]
}
PTV*/
#include "ptv.h"
#ifndef KIND
#define KIND 0
#endif
#define PTV_LOOP_intop_scan(...)
#define PTV_LOOP_intop_digits(...)
#define PTV_LOOP_intop_eval(...)
#define PTV_GHOST_intop_scan_begin(...)
#define PTV_GHOST_intop_scan_end(...)
#define PTV_GHOST_intop_eval_begin(...)
#define PTV_GHOST_intop_eval_end(...)
#include <pointless/pointless_int_ops.h>
#if defined(PTV_CBMC) && KIND == 2
/* calls of the parser's functions go to their contracts (ptv_X), their definitions stay (real_X) */
static void ptv_E(intop_eval_context_t* c); static void ptv_T(intop_eval_context_t* c); static void ptv_F(intop_eval_context_t* c); static void ptv_Em(intop_eval_context_t* c); static void ptv_Tm(intop_eval_context_t* c);
static void ptv_push(intop_eval_context_t* c, intop_eval_token_t* t);
#define PTV_E_c ptv_E(c
#define PTV_E_intop_eval_context_t real_E(intop_eval_context_t
#define intop_eval_E(a) PTV_E_##a)
#define PTV_Em_c ptv_Em(c
#define PTV_Em_intop_eval_context_t real_Em(intop_eval_context_t
#define intop_eval_Em(a) PTV_Em_##a)
#define PTV_T_c ptv_T(c
#define PTV_T_intop_eval_context_t real_T(intop_eval_context_t
#define intop_eval_T(a) PTV_T_##a)
#define PTV_Tm_c ptv_Tm(c
#define PTV_Tm_intop_eval_context_t real_Tm(intop_eval_context_t
#define intop_eval_Tm(a) PTV_Tm_##a)
#define PTV_F_c ptv_F(c
#define PTV_F_intop_eval_context_t real_F(intop_eval_context_t
#define intop_eval_F(a) PTV_F_##a)
#define PTV_P_c ptv_push(c
#define PTV_P_intop_eval_context_t real_push(intop_eval_context_t
#define intop_eval_push(a, b) PTV_P_##a, b)
#endif
#include "/repo/src/pointless_int_ops.c"

#ifdef PTV_CBMC
static intop_eval_context_t gc;
static int gty; /* the type of the token at the position at hand */
#define TOK(p, a, b) ((p) < gc.n && (gty == (a) || gty == (b)))
static void context(void)
{
	static const char e[2] = "e";
	__CPROVER_havoc_object(&gc);
	PTV_ASSUME(gc.n >= 1 && gc.n <= INTOP_EVAL_MAX_N && gc.i >= 0 && gc.i <= gc.n && gc.s_n >= 0 && gc.s_n <= INTOP_EVAL_MAX_N);
	gc.s_error = 0; if (PTV_BOOL()) gc.s_error = e;
}
#if KIND == 1
void h_push(void)
{
	int k, j, n, ei; const char* e; intop_eval_token_t t, o, u;
	context();
	k = (int)ptv_range(0, INTOP_EVAL_MAX_N - 1); j = (int)ptv_range(0, INTOP_EVAL_MAX_N - 1);
	t = gc.tokens[k]; o = gc.stack[j]; n = gc.s_n; e = gc.s_error; ei = gc.i;
	intop_eval_push(&gc, &gc.tokens[k]);
	u = gc.stack[j];
	PTV_CHECK(gc.i == ei, "the position stays");
	if (n == INTOP_EVAL_MAX_N) PTV_CHECK(gc.s_error != 0 && gc.s_n == n, "a full stack is an error");
	else {
		PTV_CHECK(gc.s_n == n + 1 && gc.s_error == e, "one more");
		if (j == n) PTV_CHECK(u.type == t.type && u.number.value == t.number.value && u.number.is_overflow == t.number.is_overflow, "the token is appended");
	}
	if (j < n) PTV_CHECK(u.type == o.type && u.number.value == o.number.value && u.number.is_overflow == o.number.is_overflow, "what was pushed before stays");
	PTV_REACH();
}
#else
void h_push(void) {}
#endif
#if KIND == 2
#define UF __CPROVER_uninterpreted_
/* the value, the end and the well-formedness of the nonterminal which starts at each token */
uint8_t __CPROVER_uninterpreted_vE(int), __CPROVER_uninterpreted_vT(int), __CPROVER_uninterpreted_vF(int);
int __CPROVER_uninterpreted_eE(int), __CPROVER_uninterpreted_eT(int), __CPROVER_uninterpreted_eF(int);
_Bool __CPROVER_uninterpreted_kE(int), __CPROVER_uninterpreted_kT(int), __CPROVER_uninterpreted_kF(int);
/* the sum (product) before each token, and the value, end and well-formedness of the sum (product) it continues */
uint8_t __CPROVER_uninterpreted_aE(int), __CPROVER_uninterpreted_aT(int), __CPROVER_uninterpreted_rE(int), __CPROVER_uninterpreted_rT(int);
int __CPROVER_uninterpreted_gE(int), __CPROVER_uninterpreted_gT(int);
_Bool __CPROVER_uninterpreted_qE(int), __CPROVER_uninterpreted_qT(int);
/* the operands of the operator at each token, and its result */
uint8_t __CPROVER_uninterpreted_vL(int), __CPROVER_uninterpreted_vR(int), __CPROVER_uninterpreted_vO(int);
#define vE __CPROVER_uninterpreted_vE
#define vT __CPROVER_uninterpreted_vT
#define vF __CPROVER_uninterpreted_vF
#define eE __CPROVER_uninterpreted_eE
#define eT __CPROVER_uninterpreted_eT
#define eF __CPROVER_uninterpreted_eF
#define kE __CPROVER_uninterpreted_kE
#define kT __CPROVER_uninterpreted_kT
#define kF __CPROVER_uninterpreted_kF
#define aE __CPROVER_uninterpreted_aE
#define aT __CPROVER_uninterpreted_aT
#define rE __CPROVER_uninterpreted_rE
#define rT __CPROVER_uninterpreted_rT
#define gE __CPROVER_uninterpreted_gE
#define gT __CPROVER_uninterpreted_gT
#define qE __CPROVER_uninterpreted_qE
#define qT __CPROVER_uninterpreted_qT
#define vL __CPROVER_uninterpreted_vL
#define vR __CPROVER_uninterpreted_vR
#define vO __CPROVER_uninterpreted_vO
/* the stack of values of the program so far */
/* (gn values; a window around its top at the start, GS(0) being the top: nothing outside it may be touched, and values are only moved, so that a few bits stand for them) */
static uint8_t gw[8]; static int gn, gr;
#define GS(d) gw[(gr + (d)) & 7]
#define WINDOW() PTV_CHECK(gr >= 2 && gr < 7, "near the top")
/* the measure of the function under proof: position, then nonterminal */
static int gi0, grank;

/* precondition and postcondition of the five functions; LOW: takes the sum so far from the stack */
#define PRE(RANK, LOW) \
	PTV_CHECK(c == &gc && c->n >= 1 && c->n <= INTOP_EVAL_MAX_N && c->i >= 0 && c->i <= c->n && c->s_n >= 0 && c->s_n <= INTOP_EVAL_MAX_N, "within the tables"); \
	if (c->s_error) return; \
	PTV_CHECK(c->s_n <= c->i && gn >= LOW && gn <= c->s_n, "at most one push for each token passed"); \
	PTV_CHECK(c->i > gi0 || (c->i == gi0 && (RANK) < grank), "every call is further on, or for a smaller nonterminal");
static void ptv_step(intop_eval_context_t* c, int lo, int end, uint8_t v, _Bool ok, int low)
{
	int i0 = c->i, s0 = c->s_n; static const char e[2] = "e";
	c->i = (int)nondet_ptv_u64(); c->s_n = (int)nondet_ptv_u64(); c->i_error = (int)nondet_ptv_u64();
	PTV_ASSUME(c->i >= i0 + lo && c->i <= c->n && c->s_n >= 0 && c->s_n <= INTOP_EVAL_MAX_N);
	if (!ok) { c->s_error = e; return; }
	PTV_ASSUME(c->i == end && c->s_n >= s0 + 1 - low && c->s_n - s0 <= c->i - i0);
	gn = gn + 1 - low; gr = gr + 1 - low; WINDOW(); PTV_ASSUME(gn <= c->s_n);
	GS(0) = v;
}
static void ptv_E(intop_eval_context_t* c) { PRE(5, 0) ptv_step(c, kE(c->i) ? 1 : 0, eE(c->i), vE(c->i), kE(c->i), 0); }
static void ptv_T(intop_eval_context_t* c) { PRE(4, 0) ptv_step(c, kT(c->i) ? 1 : 0, eT(c->i), vT(c->i), kT(c->i), 0); }
static void ptv_F(intop_eval_context_t* c) { PRE(3, 0) ptv_step(c, kF(c->i) ? 1 : 0, eF(c->i), vF(c->i), kF(c->i), 0); }
static void ptv_Em(intop_eval_context_t* c) { PRE(2, 1) PTV_CHECK(GS(0) == aE(c->i), "the sum so far"); ptv_step(c, 0, gE(c->i), rE(c->i), qE(c->i), 1); }
static void ptv_Tm(intop_eval_context_t* c) { PRE(1, 1) PTV_CHECK(GS(0) == aT(c->i), "the product so far"); ptv_step(c, 0, gT(c->i), rT(c->i), qT(c->i), 1); }
static void ptv_push(intop_eval_context_t* c, intop_eval_token_t* t)
{
	int p, ty; static const char e[2] = "e";
	PTV_CHECK(c == &gc && t >= c->tokens && t < c->tokens + INTOP_EVAL_MAX_N, "pushes a token");
	if (c->s_error) { if (c->s_n < INTOP_EVAL_MAX_N) c->s_n++; else c->s_error = e; return; }
	p = (int)(t - c->tokens); ty = c->tokens[p].type;
	PTV_CHECK(p < c->n && c->s_n < INTOP_EVAL_MAX_N && gn <= c->s_n, "there is room");
	PTV_CHECK(ty != INTOP_EVAL_LPAREN && ty != INTOP_EVAL_RPAREN, "parentheses are not pushed");
	c->s_n++;
	if (ty == INTOP_EVAL_NUMBER || ty == INTOP_EVAL_VARIABLE) { gn++; gr++; WINDOW(); GS(0) = vO(p); }
	else {
		PTV_CHECK(gn >= 2 && GS(-1) == vL(p) && GS(0) == vR(p), "an operator follows its two operands");
		gn--; gr--; WINDOW(); GS(0) = vO(p);
	}
}
#define IN(x, lo) PTV_ASSUME((x) >= (lo) && (x) <= gc.n)
static void start(int rank)
{
	int p;
	context();
	__CPROVER_havoc_object(gw); gr = 4;
	gn = (int)ptv_range(0, INTOP_EVAL_MAX_N);
	PTV_ASSUME(gc.s_error != 0 || (gc.s_n <= gc.i && gn <= gc.s_n));
	p = gi0 = gc.i; grank = rank; if (p < gc.n) gty = gc.tokens[p].type;
	/* F := number | variable | ( E ) ; ends never lie past the last token (a postcondition of every function) */
	if (kE(p + 1)) IN(eE(p + 1), p + 2);
	PTV_ASSUME(kF(p) == (p < gc.n && (TOK(p, INTOP_EVAL_NUMBER, INTOP_EVAL_VARIABLE) || (TOK(p, INTOP_EVAL_LPAREN, INTOP_EVAL_LPAREN) && kE(p + 1) && eE(p + 1) < gc.n && gc.tokens[eE(p + 1)].type == INTOP_EVAL_RPAREN))));
	if (kF(p)) {
		if (TOK(p, INTOP_EVAL_LPAREN, INTOP_EVAL_LPAREN)) PTV_ASSUME(vF(p) == vE(p + 1) && eF(p) == eE(p + 1) + 1);
		else PTV_ASSUME(vF(p) == vO(p) && eF(p) == p + 1);
		IN(eF(p), p + 1);
	}
	/* T := F T' */
	PTV_ASSUME(kT(p) == (kF(p) && qT(eF(p))));
	if (kF(p)) PTV_ASSUME(aT(eF(p)) == vF(p));
	if (kT(p)) { PTV_ASSUME(vT(p) == rT(eF(p)) && eT(p) == gT(eF(p))); IN(eT(p), eF(p)); }
	/* T' := * F T' | / F T' | e */
	if (TOK(p, INTOP_EVAL_MUL, INTOP_EVAL_DIV)) {
		if (kF(p + 1)) { IN(eF(p + 1), p + 2); PTV_ASSUME(vL(p) == aT(p) && vR(p) == vF(p + 1) && aT(eF(p + 1)) == vO(p)); }
		PTV_ASSUME(qT(p) == (kF(p + 1) && qT(eF(p + 1))));
		if (qT(p)) PTV_ASSUME(rT(p) == rT(eF(p + 1)) && gT(p) == gT(eF(p + 1)));
	} else PTV_ASSUME(qT(p) && rT(p) == aT(p) && gT(p) == p);
	/* E := T E' */
	PTV_ASSUME(kE(p) == (kT(p) && qE(eT(p))));
	if (kT(p)) PTV_ASSUME(aE(eT(p)) == vT(p));
	if (kE(p)) PTV_ASSUME(vE(p) == rE(eT(p)) && eE(p) == gE(eT(p)));
	/* E' := + T E' | - T E' | e */
	if (TOK(p, INTOP_EVAL_ADD, INTOP_EVAL_SUB)) {
		if (kT(p + 1)) { IN(eT(p + 1), p + 2); PTV_ASSUME(vL(p) == aE(p) && vR(p) == vT(p + 1) && aE(eT(p + 1)) == vO(p)); }
		PTV_ASSUME(qE(p) == (kT(p + 1) && qE(eT(p + 1))));
		if (qE(p)) PTV_ASSUME(rE(p) == rE(eT(p + 1)) && gE(p) == gE(eT(p + 1)));
	} else PTV_ASSUME(qE(p) && rE(p) == aE(p) && gE(p) == p);
}
#define H(X, RANK, VAL, END, OK, LOW, TOP) void h_##X(void) \
{ \
	int p, n0, s0, k; uint8_t o; const char* e; \
	start(RANK); \
	p = gc.i; n0 = gn; s0 = gc.s_n; e = gc.s_error; \
	if (!e && LOW) PTV_ASSUME(gn >= 1 && GS(0) == TOP(p)); \
	k = (int)ptv_range(0, 4); o = gw[k]; \
	real_##X(&gc); \
	PTV_CHECK(gc.i >= p && gc.i <= gc.n && gc.s_n >= 0 && gc.s_n <= INTOP_EVAL_MAX_N, "within the tables"); \
	PTV_CHECK((gc.s_error != 0) == (e != 0 || !OK(p)), "an error exactly for text which is not of the grammar"); \
	if (!gc.s_error) { \
		PTV_CHECK(gc.i == END(p) && gc.i >= p + 1 - LOW, "stops at the end of the nonterminal"); \
		PTV_CHECK(gn == n0 + 1 - LOW && GS(0) == VAL(p), "its value is on the stack"); \
		PTV_CHECK(gr == 5 - LOW && (k > 4 - LOW || gw[k] == o), "the values below stay"); \
		PTV_CHECK(gc.s_n >= s0 + 1 - LOW && gc.s_n - s0 <= gc.i - p && gn <= gc.s_n, "at most one push for each token passed"); \
		PTV_REACH(); \
	} \
}
H(E, 5, vE, eE, kE, 0, vE) H(T, 4, vT, eT, kT, 0, vT) H(F, 3, vF, eF, kF, 0, vF) H(Em, 2, rE, gE, qE, 1, aE) H(Tm, 1, rT, gT, qT, 1, aT)
#endif
#endif
#if !defined(PTV_CBMC) || KIND != 2
void h_E(void) {}
void h_T(void) {}
void h_F(void) {}
void h_Em(void) {}
void h_Tm(void) {}
#endif
#ifndef PTV_CBMC
void h_push(void) {}
#endif

#ifndef PTV_CBMC
/* the reference: value, or bad (malformed, too large, negative, division by zero) */
typedef unsigned __int128 nat;
static const char* tp; static int tbad, tmal, ttok, tvar;
static void ws(void) { while (*tp == ' ' || *tp == '\t') tp++; }
static nat rsum(int);
static nat rfac(int dep)
{
	nat v = 0;
	ws();
	if (*tp == '(') { tp++; ttok++; v = rsum(dep + 1); ws(); if (*tp != ')') { tmal = 1; return 0; } tp++; ttok++; return v; }
	if (*tp == 'x') { tp++; ttok++; tvar = 1; return 0; }
	if (*tp < '0' || *tp > '9') { tmal = 1; return 0; }
	ttok++;
	while (*tp >= '0' && *tp <= '9') { if (v <= UINT64_MAX) v = v * 10 + (nat)(*tp - '0'); tp++; }
	if (v > UINT64_MAX) tbad = 1;
	return v;
}
static nat rprod(int dep)
{
	nat a = rfac(dep), b; char op;
	for (;;) {
		ws(); op = *tp;
		if (tmal || (op != '*' && op != '/')) return a;
		tp++; ttok++; b = rfac(dep);
		if (tbad || tmal) { a = 0; continue; }
		if (op == '/') { if (b == 0) tbad = 1; else a /= b; } else { a *= b; if (a > UINT64_MAX) { tbad = 1; a = 0; } }
	}
}
static nat rsum(int dep)
{
	nat a = rprod(dep), b; char op;
	for (;;) {
		ws(); op = *tp;
		if (tmal || (op != '+' && op != '-')) return a;
		tp++; ttok++; b = rprod(dep);
		if (tbad || tmal) { a = 0; continue; }
		if (op == '-') { if (b > a) { tbad = 1; a = 0; } else a -= b; } else { a += b; if (a > UINT64_MAX) { tbad = 1; a = 0; } }
	}
}
#define TN 6000
static char tbuf[TN + 100]; static int tn, tdig;
static void put(char ch) { if (tn < TN) tbuf[tn++] = ch; }
static void num(void)
{
	static const uint64_t big[] = {0, 1, 2, 3, 7, 9, 10, 99, 255, 256, 4294967295u, 4294967296u, INT64_MAX, (uint64_t)INT64_MAX + 1, UINT64_MAX - 1, UINT64_MAX, 6074001000u, 4294967297u};
	char b[64]; int i, k = (int)ptv_range(0, 15);
	if (k == 0) { put('x'); return; }
	if (k == 1) { int n = (int)ptv_range(1, 40); if (n >= 31) tdig = 1; for (i = 0; i < n; i++) put((char)('0' + ptv_range(0, 9))); return; }
	if (k == 2) { strcpy(b, PTV_BOOL() ? "18446744073709551616" : "18446744073709551615"); for (i = 0; b[i]; i++) put(b[i]); return; }
	if (k == 3) { int n = (int)ptv_range(1, 10); for (i = 0; i < n; i++) put('0'); }
	if (k < 8) sprintf(b, "%llu", (unsigned long long)big[ptv_range(0, sizeof(big) / sizeof(big[0]) - 1)]);
	else sprintf(b, "%llu", (unsigned long long)(ptv_nd(64) >> ptv_range(0, 63)));
	for (i = 0; b[i]; i++) put(b[i]);
}
static void sp(void) { if (!ptv_range(0, 5)) put(PTV_BOOL() ? ' ' : '\t'); }
static void gen(int dep)
{
	int i, n;
	if (dep <= 0) { sp(); if (!ptv_range(0, 4)) { put('('); sp(); num(); sp(); put(')'); } else num(); sp(); return; }
	n = (int)ptv_range(1, 4);
	for (i = 0; i < n; i++) {
		if (i) put("+-*/+*"[ptv_range(0, 5)]);
		if (PTV_BOOL()) { sp(); put('('); gen(dep - 1); put(')'); sp(); } else gen(dep - 1);
	}
}
void h_text(void)
{
	static intop_eval_context_t* c; const char* error = 0; uint64_t r = 77; int i, k = (int)ptv_range(0, 9), ok; nat v; char* text;
	if (!c) c = malloc(sizeof(*c));
	tn = 0; tdig = 0;
	if (k < 6) gen((int)ptv_range(0, 3));
	else if (k == 6) { int n = (int)ptv_range(0, 12); for (i = 0; i < n; i++) put("0123456789x+-*/() \t"[ptv_range(0, 18)]); }
	else if (k == 7) { int n = (int)ptv_range(0, 8); for (i = 0; i < n; i++) put((char)ptv_range(1, 255)); }
	else if (k == 8) { /* around the limits of the tables */ int d = (int)ptv_range(0, 300), n = (int)ptv_range(0, 300); for (i = 0; i < d; i++) put('('); put('1'); for (i = 0; i < n; i++) { put("+*"[i & 1]); put((char)('0' + (i % 3))); } for (i = 0; i < d; i++) put(')'); }
	else { int n = (int)ptv_range(200, 530); for (i = 0; i < n; i++) { if (i) put('+'); put('1'); } }
	if (!ptv_range(0, 3) && tn) { /* a slip of the pen */ int at = (int)ptv_range(0, tn - 1); if (PTV_BOOL()) tbuf[at] = "0x+-*/() \t1aA.,\n"[ptv_range(0, 15)]; else { memmove(tbuf + at, tbuf + at + 1, (size_t)(tn - at - 1)); tn--; } }
	text = malloc((size_t)tn + 1); memcpy(text, tbuf, (size_t)tn); text[tn] = 0;
	{ int run = 0; tdig = 0; for (i = 0; i < tn; i++) { run = (text[i] >= '0' && text[i] <= '9') ? run + 1 : 0; if (run >= 31) tdig = 1; } }
	tp = text; tbad = tmal = ttok = tvar = 0;
	v = rsum(0); ws(); if (*tp) tmal = 1;
	memset(c, 0xa5, sizeof(*c));
	ok = intop_eval_compile(text, c, &error);
	PTV_CHECK(ok || error, "an error is reported");
	PTV_CHECK(!ok || !tmal, "malformed text is refused");
	/* tables of 512 tokens, numbers of up to 30 digits */
	if (!ok) PTV_CHECK(tmal || tbad || tdig || ttok > 500, "well-formed text is accepted");
	if (ok) {
		for (i = 0; i < 2; i++) {
			error = 0; r = 77;
			int e = intop_eval_eval(c, &r, &error);
			PTV_CHECK(e || error, "an error is reported");
			PTV_CHECK(!e == (tbad || tvar), "fails exactly when an intermediate result is not representable");
			PTV_CHECK(!e || r == (uint64_t)v, "the exact value");
		}
	}
	free(text);
	PTV_REACH();
}
#endif

/*PTV
{
 "functions": ["intop_eval_eval"],
 "assumptions": ["the program is one which intop_eval_compile makes: every operator follows its two operands and one value remains (proved of the parser in rpn.c, as the depth of the ghost stack); assumed here of the instruction at hand", "intop_u64_add and intop_u64_mult are stubs (their own contracts are proved under P16)", "of a quotient, the proof covers when it fails and where it is stored; that the machine's unsigned division is exact is checked by execution only", "the loop is cut by hand: an arbitrary iteration from an arbitrary state which satisfies the invariant, then an arbitrary final state; what the body may write is checked to be the values and their number"],
 "complete": [
  {"id": "eval", "harness": "h_eval", "loops": true, "flags": ["--arrays-uf-always"], "unwind": 3, "defs": ["KIND=1"], "variants": ["OP=INTOP_EVAL_NUMBER", "OP=INTOP_EVAL_VARIABLE", "OP=INTOP_EVAL_ADD", "OP=INTOP_EVAL_SUB", "OP=INTOP_EVAL_MUL", "OP=INTOP_EVAL_DIV"]}
 ]
}
PTV*/
#include "ptv.h"
#define PTV_LOOP_intop_scan(...)
#define PTV_LOOP_intop_digits(...)
#define PTV_LOOP_intop_eval(...)
#define PTV_GHOST_intop_scan_begin(...)
#define PTV_GHOST_intop_scan_end(...)
#if defined(PTV_CBMC) && KIND == 1
#define PTV_GHOST_intop_eval_begin(i) i = ptv_begin(c, i);
#define PTV_GHOST_intop_eval_end(i) i = ptv_end(c, i);
#else
#define PTV_GHOST_intop_eval_begin(i)
#define PTV_GHOST_intop_eval_end(i)
#endif
#include <pointless/pointless_int_ops.h>
#if defined(PTV_CBMC) && KIND == 1
static int ptv_begin(intop_eval_context_t* c, int i);
static int ptv_end(intop_eval_context_t* c, int i);
static intop_u64_t ptv_sum(intop_u64_t a, intop_u64_t b);
static intop_u64_t ptv_product(intop_u64_t a, intop_u64_t b);
/* calls go to the stubs, the definitions stay */
#define PTV_A_a ptv_sum(a
#define PTV_A_intop_u64_t real_sum(intop_u64_t
#define PTV_M_a ptv_product(a
#define PTV_M_intop_u64_t real_product(intop_u64_t
#define intop_u64_add(x, y) PTV_A_##x, y)
#define intop_u64_mult(x, y) PTV_M_##x, y)
#endif
#include "/repo/src/pointless_int_ops.c"
#if defined(PTV_CBMC) && KIND == 1
typedef struct { int type, bad; uint64_t v; } val;
static intop_eval_context_t gc; static val gt, ga, gb, gx, gy; static int gd, gk, gstep, gi, gop, gsn; static intop_u64_t gres; static const char* gerr; static uint64_t gr;
static val take(const intop_eval_token_t* t) { val v; v.type = t->type; v.bad = t->number.is_overflow; v.v = t->number.value; return v; }
/* the sum or product of the operands at hand, exact or flagged */
static intop_u64_t ptv_op(intop_u64_t a, intop_u64_t b, int op)
{
	PTV_CHECK(gt.type == op && a.value == ga.v && !a.is_overflow == !ga.bad && b.value == gb.v && !b.is_overflow == !gb.bad, "the operator is applied to its operands");
	gop++;
	return gres;
}
static intop_u64_t ptv_sum(intop_u64_t a, intop_u64_t b) { return ptv_op(a, b, INTOP_EVAL_ADD); }
static intop_u64_t ptv_product(intop_u64_t a, intop_u64_t b) { return ptv_op(a, b, INTOP_EVAL_MUL); }
static int ptv_begin(intop_eval_context_t* c, int i)
{
	PTV_CHECK(gstep != 0 || (i == 0 && c->e_n == 0), "starts with no values");
	PTV_CHECK(gstep == 0, "the instructions are run once, in order");
	gstep = 1;
	/* an arbitrary iteration */
	gd = (int)ptv_range(0, INTOP_EVAL_MAX_N); gi = (int)ptv_range(0, INTOP_EVAL_MAX_N - 1);
	PTV_ASSUME(gi < c->s_n && gd <= gi);
	c->e_n = gd;
	gt = take(&c->stack[gi]);
	PTV_ASSUME(gt.type == OP && (OP == INTOP_EVAL_NUMBER || OP == INTOP_EVAL_VARIABLE || gd >= 2) && (OP != INTOP_EVAL_NUMBER || !gt.bad));
	if (gd >= 2) { ga = take(&c->eval[gd - 2]); gb = take(&c->eval[gd - 1]); PTV_ASSUME(ga.type == INTOP_EVAL_NUMBER && gb.type == INTOP_EVAL_NUMBER); }
	if (gk < gd) gx = take(&c->eval[gk]);
	return gi;
}
static int ptv_end(intop_eval_context_t* c, int i)
{
	PTV_CHECK(gstep == 1 && i == gi && c->s_n == gsn, "one instruction after the other");
	if (gk < gd - 2 || (gk < gd && OP == INTOP_EVAL_NUMBER)) { gy = take(&c->eval[gk]); PTV_CHECK(gy.type == gx.type && gy.bad == gx.bad && gy.v == gx.v, "the values below stay"); }
	PTV_CHECK(OP != INTOP_EVAL_VARIABLE, "variables are refused");
	PTV_CHECK(c->e_n == gd + (OP == INTOP_EVAL_NUMBER ? 1 : -1), "a number adds a value, an operator takes two and leaves one");
	gy = take(&c->eval[c->e_n - 1]);
	PTV_CHECK(gy.type == INTOP_EVAL_NUMBER, "the result is a number");
	if (OP == INTOP_EVAL_NUMBER) PTV_CHECK(!gy.bad && gy.v == gt.v, "the number itself");
	if (OP == INTOP_EVAL_ADD || OP == INTOP_EVAL_MUL) PTV_CHECK(gop == 1 && !gy.bad == !gres.is_overflow && gy.v == gres.value, "the sum or product, or the overflow");
	if (OP == INTOP_EVAL_SUB) PTV_CHECK(!gy.bad == (!ga.bad && !gb.bad) && (gy.bad || (ga.v >= gb.v && gy.v == ga.v - gb.v)), "the exact difference, or an overflow before it");
	if (OP == INTOP_EVAL_DIV) PTV_CHECK(!gy.bad == (!ga.bad && !gb.bad) && (gy.bad || (gb.v != 0 && gy.v <= ga.v && (gb.v != 1 || gy.v == ga.v) && (gb.v <= ga.v || gy.v == 0) && (gb.v != ga.v || gy.v == 1))), "the exact quotient, or an overflow before it");
	/* the state after the last instruction */
	gstep = 2;
	c->e_n = (int)ptv_range(0, INTOP_EVAL_MAX_N);
	return gsn - 1;
}
void h_eval(void)
{
	int r; uint64_t r0; val f;
	__CPROVER_havoc_object(&gc);
	PTV_ASSUME(gc.s_n >= 0 && gc.s_n <= INTOP_EVAL_MAX_N);
	gsn = gc.s_n; gk = (int)ptv_range(0, INTOP_EVAL_MAX_N - 1); gres.is_overflow = PTV_BOOL(); gres.value = PTV_U64();
	gr = r0 = PTV_U64(); gstep = 0; gop = 0; gerr = 0;
	r = intop_eval_eval(&gc, &gr, &gerr);
	if (r) {
		f = take(&gc.eval[0]);
		PTV_CHECK(gstep == 2 && gc.e_n == 1 && f.type == INTOP_EVAL_NUMBER && !f.bad && gr == f.v, "the one value left, which did not overflow");
	} else {
		PTV_CHECK(gerr != 0 && gr == r0, "an error, and no result");
		/* no failure without a reason */
		if (gstep == 1) PTV_CHECK(OP == INTOP_EVAL_VARIABLE || (OP == INTOP_EVAL_SUB && (ga.bad || gb.bad || gb.v > ga.v)) || (OP == INTOP_EVAL_DIV && (ga.bad || gb.bad || gb.v == 0)), "fails for a negative difference, a divisor of zero or a variable");
		if (gstep == 2) { f = take(&gc.eval[0]); PTV_CHECK(gc.e_n != 1 || f.type != INTOP_EVAL_NUMBER || f.bad, "fails for an overflow"); }
	}
	if (gstep >= 1) PTV_REACH();
}
#else
void h_eval(void) {}
#endif

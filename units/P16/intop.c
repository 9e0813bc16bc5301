/*PTV
{
 "functions": ["intop_sizet_mult", "intop_u64_mult", "intop_u32_mult", "intop_sizet_add", "intop_u32_add", "intop_u64_add", "intop_sizet_init", "intop_u32_init", "intop_u64_init"],
 "assumptions": ["multiplication: 'not representable' is stated as b > MAX / a for a > 0, which for natural numbers is a * b > MAX (mult_lemma.smt2, discharged by z3; also checked by execution against 128-bit arithmetic)"],
 "contracts": [
  {"id": "add_sizet", "harness": "h_add_sizet", "enforce": "intop_sizet_add"},
  {"id": "add_u32", "harness": "h_add_u32", "enforce": "intop_u32_add"},
  {"id": "add_u64", "harness": "h_add_u64", "enforce": "intop_u64_add"},
  {"id": "mult_sizet", "harness": "h_mult_sizet", "enforce": "intop_sizet_mult", "timeout": 100, "solver": "cvc5"},
  {"id": "mult_u32", "harness": "h_mult_u32", "enforce": "intop_u32_mult", "timeout": 100, "solver": "cvc5"},
  {"id": "mult_u64", "harness": "h_mult_u64", "enforce": "intop_u64_mult", "timeout": 100, "solver": "cvc5"},
  {"id": "init_sizet", "harness": "h_init_sizet", "enforce": "intop_sizet_init"},
  {"id": "init_u32", "harness": "h_init_u32", "enforce": "intop_u32_init"},
  {"id": "init_u64", "harness": "h_init_u64", "enforce": "intop_u64_init"}
 ],
 "native": [{"harness": "h_add_sizet", "secs": 2}, {"harness": "h_add_u32", "secs": 2}, {"harness": "h_add_u64", "secs": 2}, {"harness": "h_mult_sizet", "secs": 3}, {"harness": "h_mult_u32", "secs": 3}, {"harness": "h_mult_u64", "secs": 3}, {"harness": "h_init_sizet", "secs": 1}, {"harness": "h_init_u32", "secs": 1}, {"harness": "h_init_u64", "secs": 1}]
}
PTV*/
#include "ptv.h"
#include "/repo/src/pointless_int_ops.c"

#define MAX_sizet SIZE_MAX
#define MAX_u32 UINT32_MAX
#define MAX_u64 UINT64_MAX
typedef unsigned __int128 nat;

/* sticky flag, exact value otherwise */
#define ADD_OK(S, a, b, r) ((!!r.is_overflow == (a.is_overflow || b.is_overflow || (nat)a.value + b.value > MAX_##S)) && (r.is_overflow || r.value == (nat)a.value + b.value))
/* a product is not representable iff b > MAX / a, equivalently a > MAX / b */
#define MULT_OK(S, a, b, r) ((!!r.is_overflow == (a.is_overflow || b.is_overflow || (a.value != 0 && b.value > MAX_##S / a.value) || (b.value != 0 && a.value > MAX_##S / b.value))) && (r.is_overflow || r.value == a.value * b.value))
#ifdef PTV_CBMC
#define C(S, OP) intop_##S##_t intop_##S##_##OP(intop_##S##_t a, intop_##S##_t b) PTV_ASSIGNS()
C(sizet, add) PTV_ENSURES(ADD_OK(sizet, a, b, PTV_RET));
C(u32, add) PTV_ENSURES(ADD_OK(u32, a, b, PTV_RET));
C(u64, add) PTV_ENSURES(ADD_OK(u64, a, b, PTV_RET));
C(sizet, mult) PTV_ENSURES(MULT_OK(sizet, a, b, PTV_RET));
C(u32, mult) PTV_ENSURES(MULT_OK(u32, a, b, PTV_RET));
C(u64, mult) PTV_ENSURES(MULT_OK(u64, a, b, PTV_RET));
intop_sizet_t intop_sizet_init(size_t v) PTV_ASSIGNS() PTV_ENSURES(!PTV_RET.is_overflow && PTV_RET.value == v);
intop_u32_t intop_u32_init(uint32_t v) PTV_ASSIGNS() PTV_ENSURES(!PTV_RET.is_overflow && PTV_RET.value == v);
intop_u64_t intop_u64_init(uint64_t v) PTV_ASSIGNS() PTV_ENSURES(!PTV_RET.is_overflow && PTV_RET.value == v);
#endif

#define H(S) \
void h_add_##S(void) { intop_##S##_t a, b, r; a.value = PTV_U64(); b.value = PTV_U64(); a.is_overflow = PTV_BOOL(); b.is_overflow = PTV_BOOL(); \
	r = intop_##S##_add(a, b); PTV_CHECK(ADD_OK(S, a, b, r), "sum is exact or flagged"); PTV_REACH(); } \
void h_mult_##S(void) { intop_##S##_t a, b, r; a.value = PTV_U64(); b.value = PTV_U64(); a.is_overflow = PTV_BOOL(); b.is_overflow = PTV_BOOL(); \
	r = intop_##S##_mult(a, b); \
	PTV_NATIVE_ONLY(PTV_CHECK(MULT_OK(S, a, b, r), "product is exact or flagged"); PTV_CHECK(a.is_overflow || b.is_overflow || !!r.is_overflow == ((nat)a.value * b.value > MAX_##S), "product is flagged iff it is too large");) PTV_REACH(); } \
void h_init_##S(void) { intop_##S##_t r; uint64_t v = PTV_U64(); r = intop_##S##_init(v); PTV_NATIVE_ONLY(PTV_CHECK(!r.is_overflow && r.value == (nat)v % ((nat)MAX_##S + 1), "value");) PTV_REACH(); }
H(sizet)
H(u32)
H(u64)

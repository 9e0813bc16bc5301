/* Element types of the primitive vectors, for the contracts of properties P27 and P28. */
#ifndef PTV_PRIM_H
#define PTV_PRIM_H
static size_t t_size(uint32_t t) { return t <= 1 ? 1 : t <= 3 ? 2 : t <= 6 ? 4 : 8; }
#define TSIZE(t) ((size_t)((t) <= 1 ? 1 : (t) <= 3 ? 2 : (t) <= 6 ? 4 : 8))
#define LO(t) ((t) == 0 ? (num_t)INT8_MIN : (t) == 2 ? (num_t)INT16_MIN : (t) == 4 ? (num_t)INT32_MIN : (t) == 7 ? (num_t)INT64_MIN : (num_t)0)
#define HI(t) ((t) == 0 ? (num_t)INT8_MAX : (t) == 1 ? (num_t)UINT8_MAX : (t) == 2 ? (num_t)INT16_MAX : (t) == 3 ? (num_t)UINT16_MAX : (t) == 4 ? (num_t)INT32_MAX : (t) == 5 ? (num_t)UINT32_MAX : (t) == 7 ? (num_t)INT64_MAX : (num_t)UINT64_MAX)
/* may the number handed in be stored in a vector of type t */
#define OK(t) ((t) == POINTLESS_PRIM_VECTOR_TYPE_FLOAT ? g_kind == PY_FLOAT : g_kind == PY_LONG && LO(t) <= g_num && g_num <= HI(t))
/* the integer an element of type t at p reads back as */
#define RD(t, p) ((t) == 0 ? (num_t)*(int8_t*)(p) : (t) == 1 ? (num_t)*(uint8_t*)(p) : (t) == 2 ? (num_t)*(int16_t*)(p) : (t) == 3 ? (num_t)*(uint16_t*)(p) : (t) == 4 ? (num_t)*(int32_t*)(p) : (t) == 5 ? (num_t)*(uint32_t*)(p) : (t) == 7 ? (num_t)*(int64_t*)(p) : (num_t)*(uint64_t*)(p))
#define F32(p) (*(uint32_t*)(p))
static uint32_t f32_bits(double d) { union { float f; uint32_t u; } u; u.f = (float)d; return u.u; }
static uint32_t g_fbits;
/* the element at p is the number handed in */
#define IS(t, p) ((t) == POINTLESS_PRIM_VECTOR_TYPE_FLOAT ? F32(p) == g_fbits : RD(t, p) == g_num)
#define T_0 int8_t
#define T_1 uint8_t
#define T_2 int16_t
#define T_3 uint16_t
#define T_4 int32_t
#define T_5 uint32_t
#define T_6 float
#define T_7 int64_t
#define T_8 uint64_t
#define T__(x) T_##x
#define T_(x) T__(x)
#endif

/*PTV
{
 "functions": ["pointless_value_create_i32", "pointless_value_create_as_read_i32", "pointless_complete_value_create_i32", "pointless_complete_value_create_as_read_i32", "pointless_value_create_u32", "pointless_value_create_as_read_u32", "pointless_complete_value_create_u32", "pointless_complete_value_create_as_read_u32", "pointless_value_create_float", "pointless_value_create_as_read_float", "pointless_complete_value_create_float", "pointless_complete_value_create_as_read_float", "pointless_complete_value_create_i64", "pointless_complete_value_create_as_read_i64", "pointless_complete_value_create_u64", "pointless_complete_value_create_as_read_u64", "pointless_value_create_bool_false", "pointless_value_create_as_read_bool_false", "pointless_value_create_bool_true", "pointless_value_create_as_read_bool_true", "pointless_value_create_null", "pointless_value_create_as_read_null", "pointless_value_create_empty_slot", "pointless_value_create_as_read_empty_slot", "pointless_complete_value_create_as_read_null", "pointless_value_get_i32", "pointless_value_get_u32", "pointless_value_get_bool", "pointless_value_get_float", "pointless_get_int_as_int64", "pointless_create_value_get_i32", "pointless_create_value_get_u32", "pointless_create_value_get_float", "pointless_create_get_int_as_int64", "pointless_complete_value_get_as_i64", "pointless_complete_value_get_as_u64", "pointless_complete_value_get_float", "pointless_value_to_complete", "pointless_value_from_complete", "pointless_create_value_to_complete", "pointless_create_value_from_complete", "pointless_is_vector_type", "pointless_is_integer_type", "pointless_is_bitvector_type"],
 "assumptions": ["payloads of floats are compared as bit patterns"],
 "contracts": [
  {"id": "v", "harness": "h_all", "enforce": "{F}", "variants": ["F=pointless_value_create_i32", "F=pointless_value_create_as_read_i32", "F=pointless_complete_value_create_i32", "F=pointless_complete_value_create_as_read_i32", "F=pointless_value_create_u32", "F=pointless_value_create_as_read_u32", "F=pointless_complete_value_create_u32", "F=pointless_complete_value_create_as_read_u32", "F=pointless_value_create_float", "F=pointless_value_create_as_read_float", "F=pointless_complete_value_create_float", "F=pointless_complete_value_create_as_read_float", "F=pointless_complete_value_create_i64", "F=pointless_complete_value_create_as_read_i64", "F=pointless_complete_value_create_u64", "F=pointless_complete_value_create_as_read_u64", "F=pointless_value_create_bool_false", "F=pointless_value_create_as_read_bool_false", "F=pointless_value_create_bool_true", "F=pointless_value_create_as_read_bool_true", "F=pointless_value_create_null", "F=pointless_value_create_as_read_null", "F=pointless_value_create_empty_slot", "F=pointless_value_create_as_read_empty_slot", "F=pointless_complete_value_create_as_read_null", "F=pointless_value_get_i32", "F=pointless_value_get_u32", "F=pointless_value_get_bool", "F=pointless_value_get_float", "F=pointless_get_int_as_int64", "F=pointless_create_value_get_i32", "F=pointless_create_value_get_u32", "F=pointless_create_value_get_float", "F=pointless_create_get_int_as_int64", "F=pointless_complete_value_get_as_i64", "F=pointless_complete_value_get_as_u64", "F=pointless_complete_value_get_float", "F=pointless_value_to_complete", "F=pointless_value_from_complete", "F=pointless_create_value_to_complete", "F=pointless_create_value_from_complete", "F=pointless_is_vector_type", "F=pointless_is_integer_type", "F=pointless_is_bitvector_type"]}
 ],
 "native": [{"harness": "h_all", "secs": 3}],
 "src": []
}
PTV*/
#include "ptv.h"
#include <pointless/pointless.h>
/* bit pattern of a float */
static inline uint32_t FB(float f) { union { float f; uint32_t u; } x; x.f = f; return x.u; }

/* ------------------------------------------------ specifications and contracts */
#define SPEC_pointless_value_create_i32(R, v) ((R).header.type_29 == POINTLESS_I32 && (R).data.data_i32 == v && (R).header.is_compressed_vector == 0 && (R).header.is_outside_vector == 0 && (R).header.is_set_map_vector == 0)
#define SPEC_pointless_value_create_as_read_i32(R, v) ((R).type == POINTLESS_I32 && (R).data.data_i32 == v)
#define SPEC_pointless_complete_value_create_i32(R, v) ((R).header.type_29 == POINTLESS_I32 && (R).complete_data.data_i32 == v && (R).header.is_compressed_vector == 0 && (R).header.is_outside_vector == 0 && (R).header.is_set_map_vector == 0)
#define SPEC_pointless_complete_value_create_as_read_i32(R, v) ((R).type == POINTLESS_I32 && (R).complete_data.data_i32 == v)
#define SPEC_pointless_value_create_u32(R, v) ((R).header.type_29 == POINTLESS_U32 && (R).data.data_u32 == v && (R).header.is_compressed_vector == 0 && (R).header.is_outside_vector == 0 && (R).header.is_set_map_vector == 0)
#define SPEC_pointless_value_create_as_read_u32(R, v) ((R).type == POINTLESS_U32 && (R).data.data_u32 == v)
#define SPEC_pointless_complete_value_create_u32(R, v) ((R).header.type_29 == POINTLESS_U32 && (R).complete_data.data_u32 == v && (R).header.is_compressed_vector == 0 && (R).header.is_outside_vector == 0 && (R).header.is_set_map_vector == 0)
#define SPEC_pointless_complete_value_create_as_read_u32(R, v) ((R).type == POINTLESS_U32 && (R).complete_data.data_u32 == v)
#define SPEC_pointless_value_create_float(R, v) ((R).header.type_29 == POINTLESS_FLOAT && (R).data.data_u32 == FB(v) && (R).header.is_compressed_vector == 0 && (R).header.is_outside_vector == 0 && (R).header.is_set_map_vector == 0)
#define SPEC_pointless_value_create_as_read_float(R, v) ((R).type == POINTLESS_FLOAT && (R).data.data_u32 == FB(v))
#define SPEC_pointless_complete_value_create_float(R, v) ((R).header.type_29 == POINTLESS_FLOAT && (R).complete_data.data_u32 == FB(v) && (R).header.is_compressed_vector == 0 && (R).header.is_outside_vector == 0 && (R).header.is_set_map_vector == 0)
#define SPEC_pointless_complete_value_create_as_read_float(R, v) ((R).type == POINTLESS_FLOAT && (R).complete_data.data_u32 == FB(v))
#define SPEC_pointless_complete_value_create_i64(R, v) ((R).header.type_29 == POINTLESS_I64 && (R).complete_data.data_i64 == v && (R).header.is_compressed_vector == 0 && (R).header.is_outside_vector == 0 && (R).header.is_set_map_vector == 0)
#define SPEC_pointless_complete_value_create_as_read_i64(R, v) ((R).type == POINTLESS_I64 && (R).complete_data.data_i64 == v)
#define SPEC_pointless_complete_value_create_u64(R, v) ((R).header.type_29 == POINTLESS_U64 && (R).complete_data.data_u64 == v && (R).header.is_compressed_vector == 0 && (R).header.is_outside_vector == 0 && (R).header.is_set_map_vector == 0)
#define SPEC_pointless_complete_value_create_as_read_u64(R, v) ((R).type == POINTLESS_U64 && (R).complete_data.data_u64 == v)
#define SPEC_pointless_value_create_bool_false(R) ((R).header.type_29 == POINTLESS_BOOLEAN && (R).data.data_u32 == 0 && (R).header.is_compressed_vector == 0 && (R).header.is_outside_vector == 0 && (R).header.is_set_map_vector == 0)
#define SPEC_pointless_value_create_as_read_bool_false(R) ((R).type == POINTLESS_BOOLEAN && (R).data.data_u32 == 0)
#define SPEC_pointless_value_create_bool_true(R) ((R).header.type_29 == POINTLESS_BOOLEAN && (R).data.data_u32 == 1 && (R).header.is_compressed_vector == 0 && (R).header.is_outside_vector == 0 && (R).header.is_set_map_vector == 0)
#define SPEC_pointless_value_create_as_read_bool_true(R) ((R).type == POINTLESS_BOOLEAN && (R).data.data_u32 == 1)
#define SPEC_pointless_value_create_null(R) ((R).header.type_29 == POINTLESS_NULL && (R).data.data_u32 == 0 && (R).header.is_compressed_vector == 0 && (R).header.is_outside_vector == 0 && (R).header.is_set_map_vector == 0)
#define SPEC_pointless_value_create_as_read_null(R) ((R).type == POINTLESS_NULL && (R).data.data_u32 == 0)
#define SPEC_pointless_value_create_empty_slot(R) ((R).header.type_29 == POINTLESS_EMPTY_SLOT && (R).data.data_u32 == 0 && (R).header.is_compressed_vector == 0 && (R).header.is_outside_vector == 0 && (R).header.is_set_map_vector == 0)
#define SPEC_pointless_value_create_as_read_empty_slot(R) ((R).type == POINTLESS_EMPTY_SLOT && (R).data.data_u32 == 0)
#define SPEC_pointless_complete_value_create_as_read_null(R) ((R).type == POINTLESS_NULL && (R).complete_data.data_u32 == 0)
#define SPEC_pointless_value_get_i32(R, t, d) ((R) == d->data_i32)
#define SPEC_pointless_value_get_u32(R, t, d) ((R) == d->data_u32)
#define SPEC_pointless_value_get_bool(R, t, d) ((R) == d->data_u32)
#define SPEC_pointless_value_get_float(R, t, d) (FB(R) == d->data_u32)
#define SPEC_pointless_get_int_as_int64(R, t, d) ((R) == (t == POINTLESS_I32 ? (int64_t)d->data_i32 : (int64_t)d->data_u32))
#define SPEC_pointless_create_value_get_i32(R, c) ((R) == c->data.data_i32)
#define SPEC_pointless_create_value_get_u32(R, c) ((R) == c->data.data_u32)
#define SPEC_pointless_create_value_get_float(R, c) (FB(R) == c->data.data_u32)
#define SPEC_pointless_create_get_int_as_int64(R, c) ((R) == (c->header.type_29 == POINTLESS_I32 ? (int64_t)c->data.data_i32 : (int64_t)c->data.data_u32))
#define SPEC_pointless_complete_value_get_as_i64(R, t, e) ((R) == (t == POINTLESS_I32 ? (int64_t)e->data_i32 : t == POINTLESS_BOOLEAN ? (int64_t)e->data_u32 : e->data_i64))
#define SPEC_pointless_complete_value_get_as_u64(R, t, e) ((R) == (t == POINTLESS_U64 ? e->data_u64 : (uint64_t)e->data_u32))
#define SPEC_pointless_complete_value_get_float(R, t, e) (FB(R) == e->data_u32)
#define SPEC_pointless_value_to_complete(R, a) ((R).type == a->type && (R).complete_data.data_u32 == a->data.data_u32)
#define SPEC_pointless_value_from_complete(R, b) ((R).type == b->type && (R).data.data_u32 == b->complete_data.data_u32)
#define SPEC_pointless_create_value_to_complete(R, c) ((R).header.type_29 == c->header.type_29 && (R).header.is_compressed_vector == c->header.is_compressed_vector && (R).header.is_outside_vector == c->header.is_outside_vector && (R).header.is_set_map_vector == c->header.is_set_map_vector && (R).complete_data.data_u32 == c->data.data_u32)
#define SPEC_pointless_create_value_from_complete(R, f) ((R).header.type_29 == f->header.type_29 && (R).header.is_compressed_vector == f->header.is_compressed_vector && (R).header.is_outside_vector == f->header.is_outside_vector && (R).header.is_set_map_vector == f->header.is_set_map_vector && (R).data.data_u32 == f->complete_data.data_u32)
#define SPEC_pointless_is_vector_type(R, t) (((R) != 0) == (t <= POINTLESS_VECTOR_EMPTY || t == POINTLESS_VECTOR_I64 || t == POINTLESS_VECTOR_U64))
#define SPEC_pointless_is_integer_type(R, t) (((R) != 0) == (t == POINTLESS_I32 || t == POINTLESS_U32 || t == POINTLESS_I64 || t == POINTLESS_U64))
#define SPEC_pointless_is_bitvector_type(R, t) (((R) != 0) == (t >= POINTLESS_BITVECTOR && t <= POINTLESS_BITVECTOR_PACKED))
static pointless_value_t g_a;
static pointless_complete_value_t g_b;
static pointless_create_value_t g_c;
static pointless_value_data_t g_d;
static pointless_complete_value_data_t g_e;
static pointless_complete_create_value_t g_f;
#ifdef PTV_CBMC
pointless_create_value_t pointless_value_create_i32(int32_t v)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_create_i32(PTV_RET, v));
pointless_value_t pointless_value_create_as_read_i32(int32_t v)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_create_as_read_i32(PTV_RET, v));
pointless_complete_create_value_t pointless_complete_value_create_i32(int32_t v)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_complete_value_create_i32(PTV_RET, v));
pointless_complete_value_t pointless_complete_value_create_as_read_i32(int32_t v)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_complete_value_create_as_read_i32(PTV_RET, v));
pointless_create_value_t pointless_value_create_u32(uint32_t v)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_create_u32(PTV_RET, v));
pointless_value_t pointless_value_create_as_read_u32(uint32_t v)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_create_as_read_u32(PTV_RET, v));
pointless_complete_create_value_t pointless_complete_value_create_u32(uint32_t v)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_complete_value_create_u32(PTV_RET, v));
pointless_complete_value_t pointless_complete_value_create_as_read_u32(uint32_t v)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_complete_value_create_as_read_u32(PTV_RET, v));
pointless_create_value_t pointless_value_create_float(float v)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_create_float(PTV_RET, v));
pointless_value_t pointless_value_create_as_read_float(float v)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_create_as_read_float(PTV_RET, v));
pointless_complete_create_value_t pointless_complete_value_create_float(float v)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_complete_value_create_float(PTV_RET, v));
pointless_complete_value_t pointless_complete_value_create_as_read_float(float v)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_complete_value_create_as_read_float(PTV_RET, v));
pointless_complete_create_value_t pointless_complete_value_create_i64(int64_t v)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_complete_value_create_i64(PTV_RET, v));
pointless_complete_value_t pointless_complete_value_create_as_read_i64(int64_t v)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_complete_value_create_as_read_i64(PTV_RET, v));
pointless_complete_create_value_t pointless_complete_value_create_u64(uint64_t v)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_complete_value_create_u64(PTV_RET, v));
pointless_complete_value_t pointless_complete_value_create_as_read_u64(uint64_t v)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_complete_value_create_as_read_u64(PTV_RET, v));
pointless_create_value_t pointless_value_create_bool_false(void)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_create_bool_false(PTV_RET));
pointless_value_t pointless_value_create_as_read_bool_false(void)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_create_as_read_bool_false(PTV_RET));
pointless_create_value_t pointless_value_create_bool_true(void)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_create_bool_true(PTV_RET));
pointless_value_t pointless_value_create_as_read_bool_true(void)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_create_as_read_bool_true(PTV_RET));
pointless_create_value_t pointless_value_create_null(void)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_create_null(PTV_RET));
pointless_value_t pointless_value_create_as_read_null(void)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_create_as_read_null(PTV_RET));
pointless_create_value_t pointless_value_create_empty_slot(void)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_create_empty_slot(PTV_RET));
pointless_value_t pointless_value_create_as_read_empty_slot(void)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_create_as_read_empty_slot(PTV_RET));
pointless_complete_value_t pointless_complete_value_create_as_read_null(void)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_complete_value_create_as_read_null(PTV_RET));
int32_t pointless_value_get_i32(uint32_t t, pointless_value_data_t* d)
	PTV_REQUIRES(d == &g_d && (t == POINTLESS_I32)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_get_i32(PTV_RET, t, d));
uint32_t pointless_value_get_u32(uint32_t t, pointless_value_data_t* d)
	PTV_REQUIRES(d == &g_d && (t == POINTLESS_U32)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_get_u32(PTV_RET, t, d));
uint32_t pointless_value_get_bool(uint32_t t, pointless_value_data_t* d)
	PTV_REQUIRES(d == &g_d && (t == POINTLESS_BOOLEAN)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_get_bool(PTV_RET, t, d));
float pointless_value_get_float(uint32_t t, pointless_value_data_t* d)
	PTV_REQUIRES(d == &g_d && (t == POINTLESS_FLOAT)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_get_float(PTV_RET, t, d));
int64_t pointless_get_int_as_int64(uint32_t t, pointless_value_data_t* d)
	PTV_REQUIRES(d == &g_d && (t == POINTLESS_I32 || t == POINTLESS_U32)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_get_int_as_int64(PTV_RET, t, d));
int32_t pointless_create_value_get_i32(pointless_create_value_t* c)
	PTV_REQUIRES(c == &g_c && (c->header.type_29 == POINTLESS_I32)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_create_value_get_i32(PTV_RET, c));
uint32_t pointless_create_value_get_u32(pointless_create_value_t* c)
	PTV_REQUIRES(c == &g_c && (c->header.type_29 == POINTLESS_U32)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_create_value_get_u32(PTV_RET, c));
float pointless_create_value_get_float(pointless_create_value_t* c)
	PTV_REQUIRES(c == &g_c && (c->header.type_29 == POINTLESS_FLOAT)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_create_value_get_float(PTV_RET, c));
int64_t pointless_create_get_int_as_int64(pointless_create_value_t* c)
	PTV_REQUIRES(c == &g_c && (c->header.type_29 == POINTLESS_I32 || c->header.type_29 == POINTLESS_U32)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_create_get_int_as_int64(PTV_RET, c));
int64_t pointless_complete_value_get_as_i64(uint32_t t, pointless_complete_value_data_t* e)
	PTV_REQUIRES(e == &g_e && (t == POINTLESS_I32 || t == POINTLESS_BOOLEAN || t == POINTLESS_I64)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_complete_value_get_as_i64(PTV_RET, t, e));
uint64_t pointless_complete_value_get_as_u64(uint32_t t, pointless_complete_value_data_t* e)
	PTV_REQUIRES(e == &g_e && (t == POINTLESS_U32 || t == POINTLESS_BOOLEAN || t == POINTLESS_U64)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_complete_value_get_as_u64(PTV_RET, t, e));
float pointless_complete_value_get_float(uint32_t t, pointless_complete_value_data_t* e)
	PTV_REQUIRES(e == &g_e && (t == POINTLESS_FLOAT)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_complete_value_get_float(PTV_RET, t, e));
pointless_complete_value_t pointless_value_to_complete(pointless_value_t* a)
	PTV_REQUIRES(a == &g_a && (1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_to_complete(PTV_RET, a));
pointless_value_t pointless_value_from_complete(pointless_complete_value_t* b)
	PTV_REQUIRES(b == &g_b && (b->type != POINTLESS_I64 && b->type != POINTLESS_U64)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_value_from_complete(PTV_RET, b));
pointless_complete_create_value_t pointless_create_value_to_complete(pointless_create_value_t* c)
	PTV_REQUIRES(c == &g_c && (1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_create_value_to_complete(PTV_RET, c));
pointless_create_value_t pointless_create_value_from_complete(pointless_complete_create_value_t* f)
	PTV_REQUIRES(f == &g_f && (f->header.type_29 != POINTLESS_I64 && f->header.type_29 != POINTLESS_U64)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_create_value_from_complete(PTV_RET, f));
int32_t pointless_is_vector_type(uint32_t t)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_is_vector_type(PTV_RET, t));
int32_t pointless_is_integer_type(uint32_t t)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_is_integer_type(PTV_RET, t));
int32_t pointless_is_bitvector_type(uint32_t t)
	PTV_REQUIRES((1)) PTV_ASSIGNS()
	PTV_ENSURES(SPEC_pointless_is_bitvector_type(PTV_RET, t));
#endif
#include "/repo/src/pointless_value.c"

/* ------------------------------------------------------------ harnesses */
static pointless_create_value_header_t nd_header(void) { pointless_create_value_header_t h; h.type_29 = PTV_BOOL() ? PTV_U8() % 32 : PTV_U32(); h.is_compressed_vector = PTV_BOOL(); h.is_set_map_vector = PTV_BOOL(); h.is_outside_vector = PTV_BOOL(); return h; }
static void H_pointless_value_create_i32(void)
{
	int32_t v = PTV_I32();
	PTV_ASSUME(1);
	{ pointless_create_value_t r = pointless_value_create_i32(v); PTV_CHECK(SPEC_pointless_value_create_i32(r, v), "pointless_value_create_i32"); }
	PTV_REACH();
}
static void H_pointless_value_create_as_read_i32(void)
{
	int32_t v = PTV_I32();
	PTV_ASSUME(1);
	{ pointless_value_t r = pointless_value_create_as_read_i32(v); PTV_CHECK(SPEC_pointless_value_create_as_read_i32(r, v), "pointless_value_create_as_read_i32"); }
	PTV_REACH();
}
static void H_pointless_complete_value_create_i32(void)
{
	int32_t v = PTV_I32();
	PTV_ASSUME(1);
	{ pointless_complete_create_value_t r = pointless_complete_value_create_i32(v); PTV_CHECK(SPEC_pointless_complete_value_create_i32(r, v), "pointless_complete_value_create_i32"); }
	PTV_REACH();
}
static void H_pointless_complete_value_create_as_read_i32(void)
{
	int32_t v = PTV_I32();
	PTV_ASSUME(1);
	{ pointless_complete_value_t r = pointless_complete_value_create_as_read_i32(v); PTV_CHECK(SPEC_pointless_complete_value_create_as_read_i32(r, v), "pointless_complete_value_create_as_read_i32"); }
	PTV_REACH();
}
static void H_pointless_value_create_u32(void)
{
	uint32_t v = (PTV_BOOL() ? PTV_U32() : (uint32_t)PTV_U8() % 32);
	PTV_ASSUME(1);
	{ pointless_create_value_t r = pointless_value_create_u32(v); PTV_CHECK(SPEC_pointless_value_create_u32(r, v), "pointless_value_create_u32"); }
	PTV_REACH();
}
static void H_pointless_value_create_as_read_u32(void)
{
	uint32_t v = (PTV_BOOL() ? PTV_U32() : (uint32_t)PTV_U8() % 32);
	PTV_ASSUME(1);
	{ pointless_value_t r = pointless_value_create_as_read_u32(v); PTV_CHECK(SPEC_pointless_value_create_as_read_u32(r, v), "pointless_value_create_as_read_u32"); }
	PTV_REACH();
}
static void H_pointless_complete_value_create_u32(void)
{
	uint32_t v = (PTV_BOOL() ? PTV_U32() : (uint32_t)PTV_U8() % 32);
	PTV_ASSUME(1);
	{ pointless_complete_create_value_t r = pointless_complete_value_create_u32(v); PTV_CHECK(SPEC_pointless_complete_value_create_u32(r, v), "pointless_complete_value_create_u32"); }
	PTV_REACH();
}
static void H_pointless_complete_value_create_as_read_u32(void)
{
	uint32_t v = (PTV_BOOL() ? PTV_U32() : (uint32_t)PTV_U8() % 32);
	PTV_ASSUME(1);
	{ pointless_complete_value_t r = pointless_complete_value_create_as_read_u32(v); PTV_CHECK(SPEC_pointless_complete_value_create_as_read_u32(r, v), "pointless_complete_value_create_as_read_u32"); }
	PTV_REACH();
}
static void H_pointless_value_create_float(void)
{
	float v = PTV_FLOAT();
	PTV_ASSUME(1);
	{ pointless_create_value_t r = pointless_value_create_float(v); PTV_CHECK(SPEC_pointless_value_create_float(r, v), "pointless_value_create_float"); }
	PTV_REACH();
}
static void H_pointless_value_create_as_read_float(void)
{
	float v = PTV_FLOAT();
	PTV_ASSUME(1);
	{ pointless_value_t r = pointless_value_create_as_read_float(v); PTV_CHECK(SPEC_pointless_value_create_as_read_float(r, v), "pointless_value_create_as_read_float"); }
	PTV_REACH();
}
static void H_pointless_complete_value_create_float(void)
{
	float v = PTV_FLOAT();
	PTV_ASSUME(1);
	{ pointless_complete_create_value_t r = pointless_complete_value_create_float(v); PTV_CHECK(SPEC_pointless_complete_value_create_float(r, v), "pointless_complete_value_create_float"); }
	PTV_REACH();
}
static void H_pointless_complete_value_create_as_read_float(void)
{
	float v = PTV_FLOAT();
	PTV_ASSUME(1);
	{ pointless_complete_value_t r = pointless_complete_value_create_as_read_float(v); PTV_CHECK(SPEC_pointless_complete_value_create_as_read_float(r, v), "pointless_complete_value_create_as_read_float"); }
	PTV_REACH();
}
static void H_pointless_complete_value_create_i64(void)
{
	int64_t v = PTV_I64();
	PTV_ASSUME(1);
	{ pointless_complete_create_value_t r = pointless_complete_value_create_i64(v); PTV_CHECK(SPEC_pointless_complete_value_create_i64(r, v), "pointless_complete_value_create_i64"); }
	PTV_REACH();
}
static void H_pointless_complete_value_create_as_read_i64(void)
{
	int64_t v = PTV_I64();
	PTV_ASSUME(1);
	{ pointless_complete_value_t r = pointless_complete_value_create_as_read_i64(v); PTV_CHECK(SPEC_pointless_complete_value_create_as_read_i64(r, v), "pointless_complete_value_create_as_read_i64"); }
	PTV_REACH();
}
static void H_pointless_complete_value_create_u64(void)
{
	uint64_t v = PTV_U64();
	PTV_ASSUME(1);
	{ pointless_complete_create_value_t r = pointless_complete_value_create_u64(v); PTV_CHECK(SPEC_pointless_complete_value_create_u64(r, v), "pointless_complete_value_create_u64"); }
	PTV_REACH();
}
static void H_pointless_complete_value_create_as_read_u64(void)
{
	uint64_t v = PTV_U64();
	PTV_ASSUME(1);
	{ pointless_complete_value_t r = pointless_complete_value_create_as_read_u64(v); PTV_CHECK(SPEC_pointless_complete_value_create_as_read_u64(r, v), "pointless_complete_value_create_as_read_u64"); }
	PTV_REACH();
}
static void H_pointless_value_create_bool_false(void)
{
	PTV_ASSUME(1);
	{ pointless_create_value_t r = pointless_value_create_bool_false(); PTV_CHECK(SPEC_pointless_value_create_bool_false(r), "pointless_value_create_bool_false"); }
	PTV_REACH();
}
static void H_pointless_value_create_as_read_bool_false(void)
{
	PTV_ASSUME(1);
	{ pointless_value_t r = pointless_value_create_as_read_bool_false(); PTV_CHECK(SPEC_pointless_value_create_as_read_bool_false(r), "pointless_value_create_as_read_bool_false"); }
	PTV_REACH();
}
static void H_pointless_value_create_bool_true(void)
{
	PTV_ASSUME(1);
	{ pointless_create_value_t r = pointless_value_create_bool_true(); PTV_CHECK(SPEC_pointless_value_create_bool_true(r), "pointless_value_create_bool_true"); }
	PTV_REACH();
}
static void H_pointless_value_create_as_read_bool_true(void)
{
	PTV_ASSUME(1);
	{ pointless_value_t r = pointless_value_create_as_read_bool_true(); PTV_CHECK(SPEC_pointless_value_create_as_read_bool_true(r), "pointless_value_create_as_read_bool_true"); }
	PTV_REACH();
}
static void H_pointless_value_create_null(void)
{
	PTV_ASSUME(1);
	{ pointless_create_value_t r = pointless_value_create_null(); PTV_CHECK(SPEC_pointless_value_create_null(r), "pointless_value_create_null"); }
	PTV_REACH();
}
static void H_pointless_value_create_as_read_null(void)
{
	PTV_ASSUME(1);
	{ pointless_value_t r = pointless_value_create_as_read_null(); PTV_CHECK(SPEC_pointless_value_create_as_read_null(r), "pointless_value_create_as_read_null"); }
	PTV_REACH();
}
static void H_pointless_value_create_empty_slot(void)
{
	PTV_ASSUME(1);
	{ pointless_create_value_t r = pointless_value_create_empty_slot(); PTV_CHECK(SPEC_pointless_value_create_empty_slot(r), "pointless_value_create_empty_slot"); }
	PTV_REACH();
}
static void H_pointless_value_create_as_read_empty_slot(void)
{
	PTV_ASSUME(1);
	{ pointless_value_t r = pointless_value_create_as_read_empty_slot(); PTV_CHECK(SPEC_pointless_value_create_as_read_empty_slot(r), "pointless_value_create_as_read_empty_slot"); }
	PTV_REACH();
}
static void H_pointless_complete_value_create_as_read_null(void)
{
	PTV_ASSUME(1);
	{ pointless_complete_value_t r = pointless_complete_value_create_as_read_null(); PTV_CHECK(SPEC_pointless_complete_value_create_as_read_null(r), "pointless_complete_value_create_as_read_null"); }
	PTV_REACH();
}
static void H_pointless_value_get_i32(void)
{
	uint32_t t = PTV_BOOL() ? PTV_U32() : (uint32_t)(PTV_U8() % 32);
	pointless_value_data_t* d = &g_d; g_d.data_u32 = PTV_U32();
	PTV_ASSUME(t == POINTLESS_I32);
	{ int32_t r = pointless_value_get_i32(t, d); PTV_CHECK(SPEC_pointless_value_get_i32(r, t, d), "pointless_value_get_i32"); }
	PTV_REACH();
}
static void H_pointless_value_get_u32(void)
{
	uint32_t t = PTV_BOOL() ? PTV_U32() : (uint32_t)(PTV_U8() % 32);
	pointless_value_data_t* d = &g_d; g_d.data_u32 = PTV_U32();
	PTV_ASSUME(t == POINTLESS_U32);
	{ uint32_t r = pointless_value_get_u32(t, d); PTV_CHECK(SPEC_pointless_value_get_u32(r, t, d), "pointless_value_get_u32"); }
	PTV_REACH();
}
static void H_pointless_value_get_bool(void)
{
	uint32_t t = PTV_BOOL() ? PTV_U32() : (uint32_t)(PTV_U8() % 32);
	pointless_value_data_t* d = &g_d; g_d.data_u32 = PTV_U32();
	PTV_ASSUME(t == POINTLESS_BOOLEAN);
	{ uint32_t r = pointless_value_get_bool(t, d); PTV_CHECK(SPEC_pointless_value_get_bool(r, t, d), "pointless_value_get_bool"); }
	PTV_REACH();
}
static void H_pointless_value_get_float(void)
{
	uint32_t t = PTV_BOOL() ? PTV_U32() : (uint32_t)(PTV_U8() % 32);
	pointless_value_data_t* d = &g_d; g_d.data_u32 = PTV_U32();
	PTV_ASSUME(t == POINTLESS_FLOAT);
	{ float r = pointless_value_get_float(t, d); PTV_CHECK(SPEC_pointless_value_get_float(r, t, d), "pointless_value_get_float"); }
	PTV_REACH();
}
static void H_pointless_get_int_as_int64(void)
{
	uint32_t t = PTV_BOOL() ? PTV_U32() : (uint32_t)(PTV_U8() % 32);
	pointless_value_data_t* d = &g_d; g_d.data_u32 = PTV_U32();
	PTV_ASSUME(t == POINTLESS_I32 || t == POINTLESS_U32);
	{ int64_t r = pointless_get_int_as_int64(t, d); PTV_CHECK(SPEC_pointless_get_int_as_int64(r, t, d), "pointless_get_int_as_int64"); }
	PTV_REACH();
}
static void H_pointless_create_value_get_i32(void)
{
	pointless_create_value_t* c = &g_c; g_c.header = nd_header(); g_c.data.data_u32 = PTV_U32();
	PTV_ASSUME(c->header.type_29 == POINTLESS_I32);
	{ int32_t r = pointless_create_value_get_i32(c); PTV_CHECK(SPEC_pointless_create_value_get_i32(r, c), "pointless_create_value_get_i32"); }
	PTV_REACH();
}
static void H_pointless_create_value_get_u32(void)
{
	pointless_create_value_t* c = &g_c; g_c.header = nd_header(); g_c.data.data_u32 = PTV_U32();
	PTV_ASSUME(c->header.type_29 == POINTLESS_U32);
	{ uint32_t r = pointless_create_value_get_u32(c); PTV_CHECK(SPEC_pointless_create_value_get_u32(r, c), "pointless_create_value_get_u32"); }
	PTV_REACH();
}
static void H_pointless_create_value_get_float(void)
{
	pointless_create_value_t* c = &g_c; g_c.header = nd_header(); g_c.data.data_u32 = PTV_U32();
	PTV_ASSUME(c->header.type_29 == POINTLESS_FLOAT);
	{ float r = pointless_create_value_get_float(c); PTV_CHECK(SPEC_pointless_create_value_get_float(r, c), "pointless_create_value_get_float"); }
	PTV_REACH();
}
static void H_pointless_create_get_int_as_int64(void)
{
	pointless_create_value_t* c = &g_c; g_c.header = nd_header(); g_c.data.data_u32 = PTV_U32();
	PTV_ASSUME(c->header.type_29 == POINTLESS_I32 || c->header.type_29 == POINTLESS_U32);
	{ int64_t r = pointless_create_get_int_as_int64(c); PTV_CHECK(SPEC_pointless_create_get_int_as_int64(r, c), "pointless_create_get_int_as_int64"); }
	PTV_REACH();
}
static void H_pointless_complete_value_get_as_i64(void)
{
	uint32_t t = PTV_BOOL() ? PTV_U32() : (uint32_t)(PTV_U8() % 32);
	pointless_complete_value_data_t* e = &g_e; g_e.data_u64 = PTV_U64();
	PTV_ASSUME(t == POINTLESS_I32 || t == POINTLESS_BOOLEAN || t == POINTLESS_I64);
	{ int64_t r = pointless_complete_value_get_as_i64(t, e); PTV_CHECK(SPEC_pointless_complete_value_get_as_i64(r, t, e), "pointless_complete_value_get_as_i64"); }
	PTV_REACH();
}
static void H_pointless_complete_value_get_as_u64(void)
{
	uint32_t t = PTV_BOOL() ? PTV_U32() : (uint32_t)(PTV_U8() % 32);
	pointless_complete_value_data_t* e = &g_e; g_e.data_u64 = PTV_U64();
	PTV_ASSUME(t == POINTLESS_U32 || t == POINTLESS_BOOLEAN || t == POINTLESS_U64);
	{ uint64_t r = pointless_complete_value_get_as_u64(t, e); PTV_CHECK(SPEC_pointless_complete_value_get_as_u64(r, t, e), "pointless_complete_value_get_as_u64"); }
	PTV_REACH();
}
static void H_pointless_complete_value_get_float(void)
{
	uint32_t t = PTV_BOOL() ? PTV_U32() : (uint32_t)(PTV_U8() % 32);
	pointless_complete_value_data_t* e = &g_e; g_e.data_u64 = PTV_U64();
	PTV_ASSUME(t == POINTLESS_FLOAT);
	{ float r = pointless_complete_value_get_float(t, e); PTV_CHECK(SPEC_pointless_complete_value_get_float(r, t, e), "pointless_complete_value_get_float"); }
	PTV_REACH();
}
static void H_pointless_value_to_complete(void)
{
	pointless_value_t* a = &g_a; g_a.type = PTV_U8() % 32; g_a.data.data_u32 = PTV_U32();
	PTV_ASSUME(1);
	{ pointless_complete_value_t r = pointless_value_to_complete(a); PTV_CHECK(SPEC_pointless_value_to_complete(r, a), "pointless_value_to_complete"); }
	PTV_REACH();
}
static void H_pointless_value_from_complete(void)
{
	pointless_complete_value_t* b = &g_b; g_b.type = PTV_U8() % 32; g_b.complete_data.data_u64 = PTV_U64();
	PTV_ASSUME(b->type != POINTLESS_I64 && b->type != POINTLESS_U64);
	{ pointless_value_t r = pointless_value_from_complete(b); PTV_CHECK(SPEC_pointless_value_from_complete(r, b), "pointless_value_from_complete"); }
	PTV_REACH();
}
static void H_pointless_create_value_to_complete(void)
{
	pointless_create_value_t* c = &g_c; g_c.header = nd_header(); g_c.data.data_u32 = PTV_U32();
	PTV_ASSUME(1);
	{ pointless_complete_create_value_t r = pointless_create_value_to_complete(c); PTV_CHECK(SPEC_pointless_create_value_to_complete(r, c), "pointless_create_value_to_complete"); }
	PTV_REACH();
}
static void H_pointless_create_value_from_complete(void)
{
	pointless_complete_create_value_t* f = &g_f; g_f.header = nd_header(); g_f.complete_data.data_u64 = PTV_U64();
	PTV_ASSUME(f->header.type_29 != POINTLESS_I64 && f->header.type_29 != POINTLESS_U64);
	{ pointless_create_value_t r = pointless_create_value_from_complete(f); PTV_CHECK(SPEC_pointless_create_value_from_complete(r, f), "pointless_create_value_from_complete"); }
	PTV_REACH();
}
static void H_pointless_is_vector_type(void)
{
	uint32_t t = PTV_BOOL() ? PTV_U32() : (uint32_t)(PTV_U8() % 32);
	PTV_ASSUME(1);
	{ int32_t r = pointless_is_vector_type(t); PTV_CHECK(SPEC_pointless_is_vector_type(r, t), "pointless_is_vector_type"); }
	PTV_REACH();
}
static void H_pointless_is_integer_type(void)
{
	uint32_t t = PTV_BOOL() ? PTV_U32() : (uint32_t)(PTV_U8() % 32);
	PTV_ASSUME(1);
	{ int32_t r = pointless_is_integer_type(t); PTV_CHECK(SPEC_pointless_is_integer_type(r, t), "pointless_is_integer_type"); }
	PTV_REACH();
}
static void H_pointless_is_bitvector_type(void)
{
	uint32_t t = PTV_BOOL() ? PTV_U32() : (uint32_t)(PTV_U8() % 32);
	PTV_ASSUME(1);
	{ int32_t r = pointless_is_bitvector_type(t); PTV_CHECK(SPEC_pointless_is_bitvector_type(r, t), "pointless_is_bitvector_type"); }
	PTV_REACH();
}
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void h_all(void)
{
#ifdef F
	CAT(H_, F)();
#else
	static void (*const hs[])(void) = {H_pointless_value_create_i32, H_pointless_value_create_as_read_i32, H_pointless_complete_value_create_i32, H_pointless_complete_value_create_as_read_i32, H_pointless_value_create_u32, H_pointless_value_create_as_read_u32, H_pointless_complete_value_create_u32, H_pointless_complete_value_create_as_read_u32, H_pointless_value_create_float, H_pointless_value_create_as_read_float, H_pointless_complete_value_create_float, H_pointless_complete_value_create_as_read_float, H_pointless_complete_value_create_i64, H_pointless_complete_value_create_as_read_i64, H_pointless_complete_value_create_u64, H_pointless_complete_value_create_as_read_u64, H_pointless_value_create_bool_false, H_pointless_value_create_as_read_bool_false, H_pointless_value_create_bool_true, H_pointless_value_create_as_read_bool_true, H_pointless_value_create_null, H_pointless_value_create_as_read_null, H_pointless_value_create_empty_slot, H_pointless_value_create_as_read_empty_slot, H_pointless_complete_value_create_as_read_null, H_pointless_value_get_i32, H_pointless_value_get_u32, H_pointless_value_get_bool, H_pointless_value_get_float, H_pointless_get_int_as_int64, H_pointless_create_value_get_i32, H_pointless_create_value_get_u32, H_pointless_create_value_get_float, H_pointless_create_get_int_as_int64, H_pointless_complete_value_get_as_i64, H_pointless_complete_value_get_as_u64, H_pointless_complete_value_get_float, H_pointless_value_to_complete, H_pointless_value_from_complete, H_pointless_create_value_to_complete, H_pointless_create_value_from_complete, H_pointless_is_vector_type, H_pointless_is_integer_type, H_pointless_is_bitvector_type};
	hs[ptv_range(0, sizeof(hs) / sizeof(hs[0]) - 1)]();
#endif
}

/*PTV
{
 "fulllib": true,
 "functions": [
  "pointless_reader_vector_value_case",
  "pointless_reader_vector_base_ptr",
  "pointless_reader_unicode_value",
  "pointless_reader_vector_value",
  "pointless_reader_vector_i8",
  "pointless_reader_vector_u8",
  "pointless_reader_vector_i16",
  "pointless_reader_vector_u16",
  "pointless_reader_vector_i32",
  "pointless_reader_vector_u32",
  "pointless_reader_vector_float",
  "pointless_reader_vector_i64",
  "pointless_reader_vector_u64",
  "pointless_reader_string_value_ascii",
  "pointless_reader_unicode_value_ucs4",
  "pointless_reader_vector_n_items",
  "pointless_reader_string_len",
  "pointless_reader_unicode_len",
  "pointless_value_to_complete",
  "pointless_complete_value_create_as_read_*"
 ],
 "assumptions": [
  "heap shorter than 2^40 bytes",
  "the vector lies inside the heap and the index below its length (what P12 proves validation to establish and the callers check)"
 ],
 "contracts": [
  {
   "id": "case",
   "harness": "h_case",
   "enforce": "pointless_reader_vector_value_case",
   "solver": "cadical",
   "unwind": 2,
   "variants": [
    "T=0",
    "T=1",
    "T=2",
    "T=3",
    "T=4",
    "T=5",
    "T=6",
    "T=7",
    "T=8",
    "T=25",
    "T=26"
   ]
  },
  {
   "id": "acc",
   "harness": "h_acc",
   "enforce": "{F}",
   "solver": "cadical",
   "unwind": 2,
   "variants": [
    "T=0 F=pointless_reader_vector_value R=pointless_value_t*",
    "T=1 F=pointless_reader_vector_value R=pointless_value_t*",
    "T=2 F=pointless_reader_vector_i8 R=int8_t*",
    "T=3 F=pointless_reader_vector_u8 R=uint8_t*",
    "T=4 F=pointless_reader_vector_i16 R=int16_t*",
    "T=5 F=pointless_reader_vector_u16 R=uint16_t*",
    "T=6 F=pointless_reader_vector_i32 R=int32_t*",
    "T=7 F=pointless_reader_vector_u32 R=uint32_t*",
    "T=8 F=pointless_reader_vector_float R=float*",
    "T=25 F=pointless_reader_vector_i64 R=int64_t*",
    "T=26 F=pointless_reader_vector_u64 R=uint64_t*",
    "T=29 F=pointless_reader_string_value_ascii R=uint8_t*",
    "T=10 F=pointless_reader_unicode_value_ucs4 R=uint32_t*",
    "T=9 F=pointless_reader_vector_value R=pointless_value_t*"
   ]
  },
  {
   "id": "len",
   "harness": "h_len",
   "enforce": "{F}",
   "solver": "cadical",
   "unwind": 2,
   "variants": [
    "T=0 F=pointless_reader_vector_n_items LEN",
    "T=1 F=pointless_reader_vector_n_items LEN",
    "T=2 F=pointless_reader_vector_n_items LEN",
    "T=3 F=pointless_reader_vector_n_items LEN",
    "T=4 F=pointless_reader_vector_n_items LEN",
    "T=5 F=pointless_reader_vector_n_items LEN",
    "T=6 F=pointless_reader_vector_n_items LEN",
    "T=7 F=pointless_reader_vector_n_items LEN",
    "T=8 F=pointless_reader_vector_n_items LEN",
    "T=25 F=pointless_reader_vector_n_items LEN",
    "T=26 F=pointless_reader_vector_n_items LEN",
    "T=9 F=pointless_reader_vector_n_items LEN",
    "T=29 F=pointless_reader_string_len LEN",
    "T=10 F=pointless_reader_unicode_len LEN"
   ]
  }
 ],
 "native": [
  {
   "harness": "h_case",
   "secs": 0.5,
   "tag": "0",
   "defs": [
    "T=0"
   ]
  },
  {
   "harness": "h_case",
   "secs": 0.5,
   "tag": "1",
   "defs": [
    "T=1"
   ]
  },
  {
   "harness": "h_case",
   "secs": 0.5,
   "tag": "2",
   "defs": [
    "T=2"
   ]
  },
  {
   "harness": "h_case",
   "secs": 0.5,
   "tag": "3",
   "defs": [
    "T=3"
   ]
  },
  {
   "harness": "h_case",
   "secs": 0.5,
   "tag": "4",
   "defs": [
    "T=4"
   ]
  },
  {
   "harness": "h_case",
   "secs": 0.5,
   "tag": "5",
   "defs": [
    "T=5"
   ]
  },
  {
   "harness": "h_case",
   "secs": 0.5,
   "tag": "6",
   "defs": [
    "T=6"
   ]
  },
  {
   "harness": "h_case",
   "secs": 0.5,
   "tag": "7",
   "defs": [
    "T=7"
   ]
  },
  {
   "harness": "h_case",
   "secs": 0.5,
   "tag": "8",
   "defs": [
    "T=8"
   ]
  },
  {
   "harness": "h_case",
   "secs": 0.5,
   "tag": "25",
   "defs": [
    "T=25"
   ]
  },
  {
   "harness": "h_case",
   "secs": 0.5,
   "tag": "26",
   "defs": [
    "T=26"
   ]
  },
  {
   "harness": "h_acc",
   "secs": 0.2,
   "tag": "T=0_F=pointless_reader_vector_value_R=pointless_value_t",
   "defs": [
    "T=0",
    "F=pointless_reader_vector_value",
    "R=pointless_value_t*"
   ]
  },
  {
   "harness": "h_acc",
   "secs": 0.2,
   "tag": "T=8_F=pointless_reader_vector_float_R=float",
   "defs": [
    "T=8",
    "F=pointless_reader_vector_float",
    "R=float*"
   ]
  },
  {
   "harness": "h_acc",
   "secs": 0.2,
   "tag": "T=26_F=pointless_reader_vector_u64_R=uint64_t",
   "defs": [
    "T=26",
    "F=pointless_reader_vector_u64",
    "R=uint64_t*"
   ]
  }
 ],
 "src": [
  "src/pointless_value.c"
 ],
 "nobody": [
  "mmap",
  "munmap",
  "fclose",
  "fileno",
  "fstat",
  "fopen",
  "pointless_validate",
  "pointless_bitvector_n_bits",
  "pointless_bitvector_is_set",
  "pointless_hash_reader_32",
  "pointless_hash_table_probe",
  "pointless_hash_table_probe_ext",
  "pointless_hash_table_probe_hash",
  "pointless_hash_table_probe_hash_init",
  "pointless_is_hashable",
  "pointless_malloc",
  "pointless_free"
 ]
}
PTV*/
#include "ptv.h"
#include <pointless/pointless_reader.h>

pointless_t gp; pointless_header_t gh; pointless_value_t gv; uint64_t goff, ghl, gn, gi, gw; uint8_t* gheap; uint64_t* goffs;
#define IS (T == 0 || T == 1 || T == 25 || T == 26 ? 8 : T == 2 || T == 3 || T == 29 ? 1 : T == 4 || T == 5 ? 2 : 4)
#define ELEM (gheap + goff + 4 + gi * IS)

#include "/repo/src/pointless_reader.c"

/* the 64 payload bits of a 32-bit payload are those of the union; only the first 32 are meaningful */
#define LOW(r) ((uint32_t)(r).complete_data.data_u32)
#if T == 0 || T == 1
/* a value: type word, then payload word */
#define CASE(r) ((r).type == (uint32_t)gw && LOW(r) == (uint32_t)(gw >> 32))
#elif T == 2
#define CASE(r) ((r).type == POINTLESS_I32 && (r).complete_data.data_i32 == (int8_t)gw)
#elif T == 3
#define CASE(r) ((r).type == POINTLESS_U32 && (r).complete_data.data_u32 == (uint8_t)gw)
#elif T == 4
#define CASE(r) ((r).type == POINTLESS_I32 && (r).complete_data.data_i32 == (int16_t)gw)
#elif T == 5
#define CASE(r) ((r).type == POINTLESS_U32 && (r).complete_data.data_u32 == (uint16_t)gw)
#elif T == 6
#define CASE(r) ((r).type == POINTLESS_I32 && (r).complete_data.data_i32 == (int32_t)gw)
#elif T == 7
#define CASE(r) ((r).type == POINTLESS_U32 && (r).complete_data.data_u32 == (uint32_t)gw)
#elif T == 8
#define CASE(r) ((r).type == POINTLESS_FLOAT && (LOW(r) == (uint32_t)gw || (gw & 0x7f800000) == 0x7f800000))
#elif T == 25
#define CASE(r) ((r).type == POINTLESS_I64 && (r).complete_data.data_i64 == (int64_t)gw)
#elif T == 26
#define CASE(r) ((r).type == POINTLESS_U64 && (r).complete_data.data_u64 == gw)
#else
#define CASE(r) 1
#endif
#define ADDR(r) ((uint8_t*)(r) == (T == 9 ? (uint8_t*)0 : gheap + goff + 4))
#define LENOK(r) ((r) == (T == 9 ? 0 : (uint32_t)gn))

#ifdef PTV_CBMC
pointless_complete_value_t pointless_reader_vector_value_case(pointless_t* p, pointless_value_t* v, uint32_t i)
PTV_REQUIRES(p == &gp && v == &gv && i == gi)
PTV_ASSIGNS()
PTV_ENSURES(CASE(PTV_RET));
#ifdef F
#ifdef LEN
uint32_t F(pointless_t* p, pointless_value_t* v)
PTV_REQUIRES(p == &gp && v == &gv)
PTV_ASSIGNS()
PTV_ENSURES(LENOK(PTV_RET));
#else
R F(pointless_t* p, pointless_value_t* v)
PTV_REQUIRES(p == &gp && v == &gv)
PTV_ASSIGNS()
PTV_ENSURES(ADDR(PTV_RET));
#endif
#endif
#endif

static void setup(void)
{
	gp.header = &gh;
	gh.n_string_unicode = PTV_U32(); gh.n_vector = PTV_U32(); gh.n_bitvector = PTV_U32(); gh.n_set = PTV_U32(); gh.n_map = PTV_U32();
	gv.type = T; gv.data.data_u32 = (uint32_t)ptv_range(0, PTV_CBMC_ONLY(UINT32_MAX - 1) PTV_NATIVE_ONLY(3));
	PTV_ASSUME(gv.data.data_u32 < UINT32_MAX);
	goffs = malloc(sizeof(uint64_t) * ((uint64_t)gv.data.data_u32 + 1)); PTV_ASSUME(goffs != 0);
	ghl = ptv_range(4 + 8, PTV_CBMC_ONLY((uint64_t)1 << 40) PTV_NATIVE_ONLY(200));
	gheap = malloc(ghl); PTV_ASSUME(gheap != 0);
	goff = ptv_range(0, PTV_CBMC_ONLY((uint64_t)1 << 40) PTV_NATIVE_ONLY(ghl - 4)); 
	gn = ptv_range(0, PTV_CBMC_ONLY(UINT32_MAX) PTV_NATIVE_ONLY((ghl - goff - 4) / IS));
	PTV_ASSUME(goff <= ghl && ghl - goff >= 4 + gn * IS + (T == 10 || T == 29 ? IS : 0));
	goffs[gv.data.data_u32] = goff;
	*(uint32_t*)(gheap + goff) = (uint32_t)gn;
	gp.string_unicode_offsets_64 = T == 10 || T == 29 ? goffs : 0; gp.vector_offsets_64 = T == 10 || T == 29 ? 0 : goffs; gp.bitvector_offsets_64 = gp.set_offsets_64 = gp.map_offsets_64 = 0;
	gp.heap_ptr = gheap; gp.heap_len = ghl;
}

static void done(void) { PTV_NATIVE_ONLY(free(goffs); free(gheap);) }

void h_case(void)
{
#if !defined(F)
	pointless_complete_value_t r; uint64_t w;
	setup();
	PTV_ASSUME(gn > 0);
	gi = ptv_range(0, PTV_CBMC_ONLY(UINT32_MAX) PTV_NATIVE_ONLY(gn - 1)); PTV_ASSUME(gi < gn);
	gw = PTV_U64();
	if (IS == 8) *(uint64_t*)ELEM = gw; else if (IS == 4) *(uint32_t*)ELEM = (uint32_t)gw; else if (IS == 2) *(uint16_t*)ELEM = (uint16_t)gw; else *(uint8_t*)ELEM = (uint8_t)gw;
	r = pointless_reader_vector_value_case(&gp, &gv, (uint32_t)gi);
	PTV_CHECK(CASE(r), "the element at the index is read with its type and value");
	PTV_REACH();
	done();
#endif
}

void h_acc(void)
{
#if defined(F) && !defined(LEN)
	setup();
	PTV_CHECK(ADDR(F(&gp, &gv)), "elements start right after the count");
	PTV_REACH();
	done();
#endif
}

void h_len(void)
{
#if defined(F) && defined(LEN)
	setup();
	PTV_CHECK(LENOK(F(&gp, &gv)), "the stored count is returned");
	PTV_REACH();
	done();
#endif
}

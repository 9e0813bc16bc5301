/* Random value graphs (native harnesses only): a model of the values, building them with the creation functions, and comparing what is
 * read back from a file with the model. */
#ifndef PTV_CBMC
#ifndef GRAPH_H
#define GRAPH_H
#include <pointless/pointless.h>
enum { G_NULL, G_BOOL, G_I32, G_U32, G_FLOAT, G_STR, G_UNI, G_BITV, G_VEC, G_NVEC, G_SET, G_MAP };
#define GR_MAX 64
#define GR_KIDS 40
typedef struct {
	int kind; int hashable;
	int64_t i; float f;                       /* numbers */
	uint32_t n; uint32_t s[24];               /* strings: code points; bitvectors: bits as 0/1 */
	uint32_t vt; uint8_t raw[8 * 24]; int own; /* typed vectors: element type, elements, whose buffer */
	uint32_t k[GR_KIDS], v[GR_KIDS];          /* children; values of a map */
	uint32_t h;                               /* creation handle */
} gr_node;
static gr_node gN[GR_MAX]; static uint32_t gCount, gRoot;
static int gr_no_nan = 1;

static uint32_t gr_elsize(uint32_t t)
{
	switch (t) {
		case POINTLESS_VECTOR_I8: case POINTLESS_VECTOR_U8: return 1;
		case POINTLESS_VECTOR_I16: case POINTLESS_VECTOR_U16: return 2;
		case POINTLESS_VECTOR_I64: case POINTLESS_VECTOR_U64: return 8;
		default: return 4;
	}
}
typedef struct { int cls; long double x; const gr_node* n; } gr_val;   /* cls: 0 null, 1 number, 2 string, 3 bitvector, 4 vector, 5 set, 6 map */
static gr_val gr_of(uint32_t a)
{
	gr_val r; const gr_node* n = &gN[a];
	r.n = n; r.x = 0;
	switch (n->kind) {
		case G_NULL: r.cls = 0; break;
		case G_BOOL: case G_I32: case G_U32: r.cls = 1; r.x = n->i; break;
		case G_FLOAT: r.cls = 1; r.x = n->f; break;
		case G_STR: case G_UNI: r.cls = 2; break;
		case G_BITV: r.cls = 3; break;
		case G_VEC: case G_NVEC: r.cls = 4; break;
		case G_SET: r.cls = 5; break;
		default: r.cls = 6;
	}
	return r;
}
static gr_val gr_elem(const gr_node* n, uint32_t i)
{
	gr_val r; r.cls = 1; r.n = 0; r.x = 0;
	if (n->kind == G_VEC) return gr_of(n->k[i]);
	switch (n->vt) {
		case POINTLESS_VECTOR_I8: r.x = ((const int8_t*)n->raw)[i]; break;
		case POINTLESS_VECTOR_U8: r.x = ((const uint8_t*)n->raw)[i]; break;
		case POINTLESS_VECTOR_I16: r.x = ((const int16_t*)n->raw)[i]; break;
		case POINTLESS_VECTOR_U16: r.x = ((const uint16_t*)n->raw)[i]; break;
		case POINTLESS_VECTOR_I32: r.x = ((const int32_t*)n->raw)[i]; break;
		case POINTLESS_VECTOR_U32: r.x = ((const uint32_t*)n->raw)[i]; break;
		case POINTLESS_VECTOR_I64: r.x = ((const int64_t*)n->raw)[i]; break;
		case POINTLESS_VECTOR_U64: r.x = ((const uint64_t*)n->raw)[i]; break;
		default: r.x = ((const float*)n->raw)[i];
	}
	return r;
}
/* equality of hashable (acyclic) values */
static int gr_eqv(gr_val a, gr_val b)
{
	uint32_t i;
	if (a.cls != b.cls) return 0;
	switch (a.cls) {
		case 0: return 1;
		case 1: return a.x == b.x;
		case 2: case 3: return a.n->n == b.n->n && memcmp(a.n->s, b.n->s, a.n->n * sizeof(uint32_t)) == 0;
		case 4:
			if (a.n->n != b.n->n) return 0;
			for (i = 0; i < a.n->n; i++) if (!gr_eqv(gr_elem(a.n, i), gr_elem(b.n, i))) return 0;
			return 1;
		default: return a.n == b.n;
	}
}
static int gr_eq(uint32_t a, uint32_t b) { return gr_eqv(gr_of(a), gr_of(b)); }

static const int32_t gr_ints[] = { 0, 1, -1, 2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, INT32_MAX, INT32_MIN, 16777216, 16777217 };
static int32_t gr_int(void) { return ptv_range(0, 1) ? (int32_t)ptv_range(0, 6) - 2 : ptv_range(0, 1) ? gr_ints[ptv_range(0, 19)] : PTV_I32(); }
static float gr_float(void)
{
	float f;
	switch (ptv_range(0, 4)) { case 0: f = (float)gr_int(); break; case 1: f = (float)ptv_range(0, 7) - 2; break; case 2: f = -0.0f; break; case 3: f = (float)ptv_range(0, 100) / 8; break; default: f = PTV_FLOAT(); }
	if (gr_no_nan && f != f) f = 1.5f;
	return f;
}
static uint32_t gr_char(int wide)
{
	uint32_t c = (uint32_t)(ptv_range(0, 1) ? ptv_range(97, 99) : ptv_range(0, 2) ? ptv_range(1, 255) : ptv_range(0, 1) ? ptv_range(1, 0xffff) : ptv_range(1, 0x10ffff));
	if (!wide && c > 255) c = (uint32_t)ptv_range(1, 255);
	return c;
}
static void gr_raw(gr_node* n)
{
	uint32_t i, z = gr_elsize(n->vt);
	for (i = 0; i < n->n; i++) {
		int64_t x = gr_int(); uint8_t* e = n->raw + i * z;
		if (z == 8 && PTV_BOOL()) x = PTV_I64();
		if (n->vt == POINTLESS_VECTOR_FLOAT) { float f = gr_float(); memcpy(e, &f, 4); }
		else memcpy(e, &x, z);
	}
}
/* a leaf or container over earlier nodes */
static void gr_make(uint32_t a, int kind)
{
	gr_node* n = &gN[a]; uint32_t i, j, m;
	static const uint32_t vts[] = { POINTLESS_VECTOR_I8, POINTLESS_VECTOR_U8, POINTLESS_VECTOR_I16, POINTLESS_VECTOR_U16, POINTLESS_VECTOR_I32, POINTLESS_VECTOR_U32, POINTLESS_VECTOR_I64, POINTLESS_VECTOR_U64, POINTLESS_VECTOR_FLOAT };
	memset(n, 0, sizeof(*n));
	n->kind = kind; n->hashable = 1;
	switch (kind) {
		case G_NULL: break;
		case G_BOOL: n->i = PTV_BOOL(); break;
		case G_I32: n->i = gr_int(); break;
		case G_U32: n->i = (uint32_t)gr_int(); break;
		case G_FLOAT: n->f = gr_float(); break;
		case G_STR: case G_UNI:
			n->n = (uint32_t)ptv_range(0, ptv_range(0, 3) ? 3 : 20);
			for (i = 0; i < n->n; i++) n->s[i] = gr_char(kind == G_UNI && PTV_BOOL());
			break;
		case G_BITV:
			m = (uint32_t)ptv_range(0, 4);
			n->n = (uint32_t)ptv_range(0, 24);
			j = (uint32_t)ptv_range(0, n->n);
			for (i = 0; i < n->n; i++) n->s[i] = m == 0 ? 0 : m == 1 ? 1 : m == 2 ? i < j : m == 3 ? i >= j : (uint32_t)PTV_BOOL();
			break;
		case G_NVEC:
			n->vt = vts[ptv_range(0, 8)]; n->own = PTV_BOOL();
			n->n = (uint32_t)ptv_range(0, ptv_range(0, 3) ? 4 : 24);
			gr_raw(n);
			break;
		case G_VEC:
			m = (uint32_t)ptv_range(0, ptv_range(0, 3) ? 4 : 20);
			j = (uint32_t)ptv_range(0, 3);
			for (i = 0; i < m && a; i++) {
				uint32_t c = (uint32_t)ptv_range(0, a - 1);
				/* mostly numbers of one kind: compressible */
				if (j == 1 && gN[c].kind != G_I32 && gN[c].kind != G_U32) continue;
				if (j == 2 && gN[c].kind != G_FLOAT) continue;
				n->k[n->n++] = c;
				if (!gN[c].hashable) n->hashable = 0;
			}
			break;
		default:
			n->hashable = 0;
			m = (uint32_t)ptv_range(0, ptv_range(0, 3) ? 5 : 30);
			for (i = 0; i < m && a; i++) {
				uint32_t c = (uint32_t)ptv_range(0, a - 1);
				if (!gN[c].hashable || !gr_eq(c, c)) continue;   /* NaN is no key */
				for (j = 0; j < n->n && !gr_eq(n->k[j], c); j++) ;
				if (j < n->n) continue;
				n->k[n->n] = c; n->v[n->n++] = (uint32_t)ptv_range(0, a - 1);
			}
	}
}
/* the kinds in use; cycles: vectors and maps may also refer to later nodes */
static void gr_random_ext(uint32_t max, int cycles)
{
	uint32_t i; int leaf;
	gCount = (uint32_t)ptv_range(1, max);
	for (i = 0; i < gCount; i++) {
		leaf = !i || ptv_range(0, 2);
		gr_make(i, (int)(leaf ? ptv_range(0, 7) : ptv_range(0, 3) ? ptv_range(G_VEC, G_MAP) : G_VEC));
	}
	if (cycles && ptv_range(0, 2) == 0)
		for (i = 0; i < 3; i++) {
			gr_node* n = &gN[ptv_range(0, gCount - 1)]; uint32_t c = (uint32_t)ptv_range(0, gCount - 1), j;
			if ((n->kind == G_VEC || n->kind == G_MAP) && n->n && (n->kind == G_MAP || !n->hashable)) {
				j = (uint32_t)ptv_range(0, n->n - 1);
				if (n->kind == G_VEC) n->k[j] = c; else n->v[j] = c;
			}
		}
	gRoot = ptv_range(0, 3) ? gCount - 1 : (uint32_t)ptv_range(0, gCount - 1);
}
static void gr_random(void) { gr_random_ext(ptv_range(0, 3) ? 14 : 40, 1); }

static uint32_t gr_leaf(pointless_create_t* c, gr_node* n)
{
	uint32_t i, h, z; uint8_t bits[8]; const char* error = 0; uint16_t s2[25]; uint8_t s1[25]; uint32_t s4[25]; int fits1 = 1, fits2 = 1;
	switch (n->kind) {
		case G_NULL: return pointless_create_null(c);
		case G_BOOL: return PTV_BOOL() ? pointless_create_boolean(c, (int32_t)n->i) : n->i ? pointless_create_boolean_true(c) : pointless_create_boolean_false(c);
		case G_I32: return pointless_create_i32(c, (int32_t)n->i);
		case G_U32: return pointless_create_u32(c, (uint32_t)n->i);
		case G_FLOAT: return pointless_create_float(c, n->f);
		case G_STR: case G_UNI:
			for (i = 0; i <= n->n; i++) {
				uint32_t x = i < n->n ? n->s[i] : 0;
				s1[i] = (uint8_t)x; s2[i] = (uint16_t)x; s4[i] = x;
				if (x > 255) fits1 = 0;
				if (x > 65535) fits2 = 0;
			}
			if (n->kind == G_STR) switch (ptv_range(0, 2)) {
				case 0: return pointless_create_string_ascii(c, s1);
				case 1: return pointless_create_string_ucs2(c, s2);
				default: return pointless_create_string_ucs4(c, s4);
			}
			if (fits1 && PTV_BOOL()) return pointless_create_unicode_ascii(c, (const char*)s1, &error);
			if (fits2 && PTV_BOOL()) return pointless_create_unicode_ucs2(c, s2);
			return pointless_create_unicode_ucs4(c, s4);
		case G_BITV:
			memset(bits, PTV_U8(), sizeof(bits));
			for (i = 0; i < n->n; i++) bits[i / 8] = (uint8_t)((bits[i / 8] & ~(1 << (i % 8))) | (n->s[i] << (i % 8)));
			return ptv_range(0, 3) ? pointless_create_bitvector(c, bits, n->n) : pointless_create_bitvector_no_normalize(c, bits, n->n);
		default:
			z = gr_elsize(n->vt);
#define NV(T, X, ty) case POINTLESS_VECTOR_##T: \
			if (n->own) { ty* b = ptv_malloc(n->n * z); memcpy(b, n->raw, n->n * z); return pointless_create_vector_##X##_owner(c, b, n->n); } \
			h = pointless_create_vector_##X(c); \
			for (i = 0; i < n->n && h != POINTLESS_CREATE_VALUE_FAIL; i++) if (pointless_create_vector_##X##_append(c, h, ((ty*)n->raw)[i]) == POINTLESS_CREATE_VALUE_FAIL) return POINTLESS_CREATE_VALUE_FAIL; \
			return h;
			switch (n->vt) {
				NV(I8, i8, int8_t) NV(U8, u8, uint8_t) NV(I16, i16, int16_t) NV(U16, u16, uint16_t) NV(I32, i32, int32_t) NV(U32, u32, uint32_t) NV(I64, i64, int64_t) NV(U64, u64, uint64_t) NV(FLOAT, float, float)
			}
			return POINTLESS_CREATE_VALUE_FAIL;
	}
}
/* containers first (empty), then their contents: allows cycles */
static void gr_build(pointless_create_t* c)
{
	uint32_t i, j;
	for (i = 0; i < gCount; i++) {
		gr_node* n = &gN[i];
		n->h = n->kind == G_VEC ? pointless_create_vector_value(c) : n->kind == G_SET ? pointless_create_set(c) : n->kind == G_MAP ? pointless_create_map(c) : gr_leaf(c, n);
		PTV_CHECK(n->h != POINTLESS_CREATE_VALUE_FAIL, "value created");
	}
	for (i = 0; i < gCount; i++) {
		gr_node* n = &gN[i];
		for (j = 0; j < n->n; j++) {
			uint32_t r = n->kind == G_VEC ? pointless_create_vector_value_append(c, n->h, gN[n->k[j]].h) : n->kind == G_SET ? pointless_create_set_add(c, n->h, gN[n->k[j]].h) :
				n->kind == G_MAP ? pointless_create_map_add(c, n->h, gN[n->k[j]].h, gN[n->v[j]].h) : 0;
			PTV_CHECK(r != POINTLESS_CREATE_VALUE_FAIL, "value added");
		}
	}
	pointless_create_set_root(c, gN[gRoot].h);
}
static void gr_write(void** b, size_t* n)
{
	pointless_create_t c; const char* error = 0;
	pointless_create_begin_64(&c);
	gr_build(&c);
	PTV_CHECK(pointless_create_output_and_end_b(&c, b, n, &error), "written");
}

/* ---------------------------------------------------------------- reading back */
static uint8_t gr_seen[GR_MAX]; static pointless_value_t gr_at[GR_MAX];
static long double gr_number(pointless_complete_value_t* v, int* ok)
{
	*ok = 1;
	switch (v->type) {
		case POINTLESS_I32: return v->complete_data.data_i32;
		case POINTLESS_U32: return v->complete_data.data_u32;
		case POINTLESS_I64: return v->complete_data.data_i64;
		case POINTLESS_U64: return v->complete_data.data_u64;
		case POINTLESS_FLOAT: return v->complete_data.data_f;
	}
	*ok = 0;
	return 0;
}
static int gr_fsame(float a, float b) { return a == b ? (1 / a == 1 / b || a != 0) : (a != a && b != b); }
static void gr_same(pointless_t* p, pointless_complete_value_t* cv, uint32_t a);
static void gr_same_v(pointless_t* p, pointless_value_t* v, uint32_t a) { pointless_complete_value_t c = pointless_value_to_complete(v); gr_same(p, &c, a); }
static int gr_key_is(pointless_t* p, pointless_value_t* v, uint32_t a);
static void gr_same(pointless_t* p, pointless_complete_value_t* cv, uint32_t a)
{
	gr_node* n = &gN[a]; uint32_t i, j, it, m; int ok; long double x; pointless_value_t vv, *v = &vv, *kk, *vl; uint8_t used[GR_KIDS];
	vv.type = cv->type; vv.data.data_u32 = cv->complete_data.data_u32;
	switch (n->kind) {
		case G_NULL: PTV_CHECK(v->type == POINTLESS_NULL, "null"); return;
		case G_BOOL: PTV_CHECK(v->type == POINTLESS_BOOLEAN && v->data.data_u32 == (uint32_t)n->i, "boolean"); return;
		case G_I32: case G_U32:
			x = gr_number(cv, &ok);
			PTV_CHECK(ok && v->type != POINTLESS_FLOAT && x == n->i, "integer"); return;
		case G_FLOAT: PTV_CHECK(v->type == POINTLESS_FLOAT && gr_fsame(cv->complete_data.data_f, n->f), "float"); return;
		case G_STR:
			PTV_CHECK(v->type == POINTLESS_STRING_ && pointless_reader_string_len(p, v) == n->n, "string");
			{ uint8_t* s = pointless_reader_string_value_ascii(p, v); for (i = 0; i <= n->n; i++) PTV_CHECK(s[i] == (i < n->n ? n->s[i] : 0), "string character"); }
			return;
		case G_UNI:
			PTV_CHECK(v->type == POINTLESS_UNICODE_ && pointless_reader_unicode_len(p, v) == n->n, "unicode string");
			{ uint32_t* s = pointless_reader_unicode_value_ucs4(p, v); for (i = 0; i <= n->n; i++) PTV_CHECK(s[i] == (i < n->n ? n->s[i] : 0), "unicode character"); }
			return;
		case G_BITV:
			PTV_CHECK(pointless_is_bitvector_type(v->type) && pointless_reader_bitvector_n_bits(p, v) == n->n, "bitvector");
			for (i = 0; i < n->n; i++) PTV_CHECK(pointless_reader_bitvector_is_set(p, v, i) == n->s[i], "bit");
			return;
		case G_NVEC:
			PTV_CHECK(v->type == (n->n ? n->vt : POINTLESS_VECTOR_EMPTY) && pointless_reader_vector_n_items(p, v) == n->n, "typed vector");
			for (i = 0; i < n->n; i++) {
				pointless_complete_value_t e = pointless_reader_vector_value_case(p, v, i);
				x = gr_number(&e, &ok);
				if (n->vt == POINTLESS_VECTOR_FLOAT) PTV_CHECK(e.type == POINTLESS_FLOAT && gr_fsame(e.complete_data.data_f, ((float*)n->raw)[i]), "float element");
				else PTV_CHECK(ok && e.type != POINTLESS_FLOAT && x == gr_elem(n, i).x, "integer element");
			}
			return;
	}
	if (gr_seen[a] && gr_at[a].type == v->type && gr_at[a].data.data_u32 == v->data.data_u32) return;
	gr_seen[a] = 1; gr_at[a] = vv;
	if (n->kind == G_VEC) {
		PTV_CHECK(pointless_is_vector_type(v->type) && pointless_reader_vector_n_items(p, v) == n->n, "vector");
		for (i = 0; i < n->n; i++) { pointless_complete_value_t e = pointless_reader_vector_value_case(p, v, i); gr_same(p, &e, n->k[i]); }
		return;
	}
	memset(used, 0, sizeof(used));
	it = 0; m = 0;
	if (n->kind == G_SET) {
		PTV_CHECK(v->type == POINTLESS_SET_VALUE && pointless_reader_set_n_items(p, v) == n->n, "set");
		while (pointless_reader_set_iter(p, v, &kk, &it)) {
			for (j = 0; j < n->n && (used[j] || !gr_key_is(p, kk, n->k[j])); j++) ;
			PTV_CHECK(j < n->n, "a member that was added, once");
			used[j] = 1; m++;
			gr_same_v(p, kk, n->k[j]);
		}
	} else {
		PTV_CHECK(v->type == POINTLESS_MAP_VALUE_VALUE && pointless_reader_map_n_items(p, v) == n->n, "map");
		while (pointless_reader_map_iter(p, v, &kk, &vl, &it)) {
			for (j = 0; j < n->n && (used[j] || !gr_key_is(p, kk, n->k[j])); j++) ;
			PTV_CHECK(j < n->n, "a key that was added, once");
			used[j] = 1; m++;
			gr_same_v(p, kk, n->k[j]);
			gr_same_v(p, vl, n->v[j]);
		}
	}
	PTV_CHECK(m == n->n, "every entry");
}
/* is the stored key equal to node a (hashable, acyclic) */
static int gr_key_eq(pointless_t* p, pointless_complete_value_t* cv, gr_val a)
{
	uint32_t i; int ok; long double x; pointless_value_t vv, *v = &vv;
	vv.type = cv->type; vv.data.data_u32 = cv->complete_data.data_u32;
	switch (a.cls) {
		case 0: return v->type == POINTLESS_NULL;
		case 1:
			if (v->type == POINTLESS_BOOLEAN) return a.x == v->data.data_u32;
			x = gr_number(cv, &ok);
			return ok && x == a.x;
		case 2:
			if (v->type == POINTLESS_STRING_) {
				uint8_t* s = pointless_reader_string_value_ascii(p, v);
				if (pointless_reader_string_len(p, v) != a.n->n) return 0;
				for (i = 0; i < a.n->n; i++) if (s[i] != a.n->s[i]) return 0;
				return 1;
			}
			if (v->type == POINTLESS_UNICODE_) {
				uint32_t* s = pointless_reader_unicode_value_ucs4(p, v);
				if (pointless_reader_unicode_len(p, v) != a.n->n) return 0;
				for (i = 0; i < a.n->n; i++) if (s[i] != a.n->s[i]) return 0;
				return 1;
			}
			return 0;
		case 3:
			if (!pointless_is_bitvector_type(v->type) || pointless_reader_bitvector_n_bits(p, v) != a.n->n) return 0;
			for (i = 0; i < a.n->n; i++) if (pointless_reader_bitvector_is_set(p, v, i) != a.n->s[i]) return 0;
			return 1;
		case 4:
			if (!pointless_is_vector_type(v->type) || pointless_reader_vector_n_items(p, v) != a.n->n) return 0;
			for (i = 0; i < a.n->n; i++) { pointless_complete_value_t e = pointless_reader_vector_value_case(p, v, i); if (!gr_key_eq(p, &e, gr_elem(a.n, i))) return 0; }
			return 1;
	}
	return 0;
}
static int gr_key_is(pointless_t* p, pointless_value_t* v, uint32_t a) { pointless_complete_value_t c = pointless_value_to_complete(v); return gr_key_eq(p, &c, gr_of(a)); }
static void gr_compare(pointless_t* p) { memset(gr_seen, 0, sizeof(gr_seen)); gr_same_v(p, pointless_root(p), gRoot); }

/* ---------------------------------------------------------------- read everything reachable (the address sanitizer watches) */
static volatile uint32_t gr_sink; static uint32_t gr_budget; static struct { uint32_t t, r; } gr_vis[4096]; static uint32_t gr_nvis;
static void gr_touch_rec(pointless_t* p, pointless_value_t* v, uint32_t depth)
{
	uint32_t i, n, it = 0; pointless_value_t *kk, *vl;
	if (gr_budget == 0 || depth > 200) return;
	gr_budget--;
	if (pointless_is_hashable_reader(p, v)) gr_sink += pointless_hash_reader_32(p, v);
	switch (v->type) {
		case POINTLESS_STRING_: { uint8_t* s = pointless_reader_string_value_ascii(p, v); n = pointless_reader_string_len(p, v); for (i = 0; i < n; i++) gr_sink += s[i]; PTV_CHECK(s[n] == 0, "terminated"); return; }
		case POINTLESS_UNICODE_: { uint32_t* s = pointless_reader_unicode_value_ucs4(p, v); n = pointless_reader_unicode_len(p, v); for (i = 0; i < n; i++) gr_sink += s[i]; PTV_CHECK(s[n] == 0, "terminated"); return; }
	}
	if (pointless_is_bitvector_type(v->type)) { n = pointless_reader_bitvector_n_bits(p, v); if (v->type != POINTLESS_BITVECTOR && n > 200) n = 200; for (i = 0; i < n; i++) gr_sink += pointless_reader_bitvector_is_set(p, v, i); return; }
	if (pointless_is_vector_type(v->type) || v->type == POINTLESS_SET_VALUE || v->type == POINTLESS_MAP_VALUE_VALUE) {
		for (i = 0; i < gr_nvis; i++) if (gr_vis[i].t == v->type && gr_vis[i].r == v->data.data_u32) return;
		if (gr_nvis == 4096) return;
		gr_vis[gr_nvis].t = v->type; gr_vis[gr_nvis++].r = v->data.data_u32;
	}
	if (pointless_is_vector_type(v->type)) {
		n = pointless_reader_vector_n_items(p, v);
		for (i = 0; i < n; i++) {
			pointless_complete_value_t e = pointless_reader_vector_value_case(p, v, i);
			gr_sink += e.complete_data.data_u32;
			if (v->type == POINTLESS_VECTOR_VALUE || v->type == POINTLESS_VECTOR_VALUE_HASHABLE) gr_touch_rec(p, pointless_reader_vector_value(p, v) + i, depth + 1);
		}
	} else if (v->type == POINTLESS_SET_VALUE) {
		n = 0;
		while (pointless_reader_set_iter(p, v, &kk, &it)) {
			pointless_value_t* k2 = 0; n++;
			gr_touch_rec(p, kk, depth + 1);
			pointless_reader_set_lookup(p, v, kk, &k2, &(const char*){0});
		}
		PTV_CHECK(n == pointless_reader_set_n_items(p, v), "as many members as the header says");
	} else if (v->type == POINTLESS_MAP_VALUE_VALUE) {
		n = 0;
		while (pointless_reader_map_iter(p, v, &kk, &vl, &it)) {
			pointless_value_t *k2 = 0, *v2 = 0; n++;
			gr_touch_rec(p, kk, depth + 1);
			gr_touch_rec(p, vl, depth + 1);
			pointless_reader_map_lookup(p, v, kk, &k2, &v2, &(const char*){0});
		}
		PTV_CHECK(n == pointless_reader_map_n_items(p, v), "as many entries as the header says");
	}
}
static void gr_touch(pointless_t* p, pointless_value_t* v, uint32_t depth) { gr_budget = 3000; gr_nvis = 0; gr_touch_rec(p, v, depth); }
#endif
#endif

/*PTV
{
 "functions": ["pointless_hash_table_validate (files with damaged tables, against an independent definition)"],
 "native": [{"harness": "h_files", "secs": 12, "tag": "n"}],
 "fulllib": true
}
PTV*/
#include "ptv.h"
#include "graph.h"
#ifndef PTV_CBMC
static uint64_t nb(uint64_t n) { uint64_t m = n + n / 2, p = 1; if (n == 1) return 2; while (p < m) p *= 2; return p; }
static int hashable(pointless_t* p, pointless_value_t* v, int d)
{
	uint32_t i;
	switch (v->type) {
		case POINTLESS_SET_VALUE: case POINTLESS_MAP_VALUE_VALUE: case POINTLESS_VECTOR_VALUE: return 0;
		case POINTLESS_VECTOR_VALUE_HASHABLE:
			for (i = 0; i < pointless_reader_vector_n_items(p, v); i++) if (d > 100 || !hashable(p, pointless_reader_vector_value(p, v) + i, d + 1)) return 0;
	}
	return 1;
}
static int equal(pointless_t* p, pointless_value_t* a, pointless_value_t* b)
{
	const char* e = 0; pointless_complete_value_t x = pointless_value_to_complete(a), y = pointless_value_to_complete(b);
	int32_t c = pointless_cmp_reader(p, &x, p, &y, &e);
	return c == 0 && !e;
}
/* a table as it is documented: recomputed from scratch */
static int table_ok(pointless_t* p, uint32_t n_items, uint32_t n, uint32_t* h, pointless_value_t* k, pointless_value_t* v)
{
	uint32_t i, used = 0;
	if (nb(n_items) != n) return 0;
	for (i = 0; i < n; i++) {
		if (k[i].type != POINTLESS_EMPTY_SLOT) used++;
		else if (v && v[i].type != POINTLESS_EMPTY_SLOT) return 0;
	}
	if (used != n_items || used >= n) return 0;
	for (i = 0; i < n; i++) if (!hashable(p, &k[i], 0) || pointless_hash_reader_32(p, &k[i]) != h[i]) return 0;
	for (i = 0; i < n; i++) {
		uint32_t pos = h[i], per = h[i];
		if (k[i].type == POINTLESS_EMPTY_SLOT) continue;
		for (;;) {
			uint32_t b = pos % n;
			if (k[b].type == POINTLESS_EMPTY_SLOT) return 0;
			if (h[b] == h[i] && equal(p, &k[i], &k[b])) { if (b != i) return 0; break; }
			pos = 5 * pos + per + 1; per /= 32;
		}
	}
	return 1;
}
static pointless_value_t at(uint32_t type, uint32_t i) { pointless_value_t v; v.type = type; v.data.data_u32 = i; return v; }
static uint8_t seen[3][1024];
static void reach(pointless_t* p, pointless_value_t* v, int d)
{
	uint32_t i, t = v->type == POINTLESS_SET_VALUE ? 1 : v->type == POINTLESS_MAP_VALUE_VALUE ? 2 : 0, id = v->data.data_u32;
	if (v->type != POINTLESS_SET_VALUE && v->type != POINTLESS_MAP_VALUE_VALUE && v->type != POINTLESS_VECTOR_VALUE && v->type != POINTLESS_VECTOR_VALUE_HASHABLE) return;
	PTV_ASSUME(id < 1024);
	if (seen[t][id]) return;
	seen[t][id] = 1;
	if (t == 0) for (i = 0; i < pointless_reader_vector_n_items(p, v); i++) reach(p, pointless_reader_vector_value(p, v) + i, d + 1);
	if (t == 1) reach(p, &((pointless_set_header_t*)PC_HEAP_OFFSET(p, set_offsets, id))->key_vector, d);
	if (t == 2) { reach(p, &((pointless_map_header_t*)PC_HEAP_OFFSET(p, map_offsets, id))->key_vector, d); reach(p, &((pointless_map_header_t*)PC_HEAP_OFFSET(p, map_offsets, id))->value_vector, d); }
}
static int parts(pointless_t* p, uint32_t c, uint32_t** items, uint32_t* n, uint32_t** h, pointless_value_t** k, pointless_value_t** v)
{
	pointless_value_t hv, kv, vv;
	if (c < p->header->n_set) {
		pointless_set_header_t* s = (pointless_set_header_t*)PC_HEAP_OFFSET(p, set_offsets, c);
		*items = &s->n_items; hv = s->hash_vector; kv = s->key_vector; *v = 0;
	} else {
		pointless_map_header_t* s = (pointless_map_header_t*)PC_HEAP_OFFSET(p, map_offsets, c - p->header->n_set);
		*items = &s->n_items; hv = s->hash_vector; kv = s->key_vector; vv = s->value_vector; *v = pointless_reader_vector_value(p, &vv);
	}
	*n = pointless_reader_vector_n_items(p, &kv); *h = pointless_reader_vector_u32(p, &hv); *k = pointless_reader_vector_value(p, &kv);
	return 1;
}
#endif
void h_files(void)
{
#ifndef PTV_CBMC
	void* buf; size_t n; pointless_t p; const char* e = 0; uint32_t c, i, j, nc, m, *items, nbk, *h; pointless_value_t *k, *v; int ok, r, len = 0, allok, odd = 0; uint32_t cc;
	(void)at;
	gr_random();
	/* more often: containers at the top */
	if (gCount < GR_MAX - 2 && ptv_range(0, 2)) { gRoot = gCount++; gr_make(gRoot, PTV_BOOL() ? G_SET : G_MAP); }
	gr_write(&buf, &n);
	PTV_CHECK(pointless_open_b(&p, buf, n, &e), "a file as written is accepted");
	nc = p.header->n_set + p.header->n_map;
	for (c = 0; c < nc; c++) {
		parts(&p, c, &items, &nbk, &h, &k, &v);
		e = 0;
		PTV_CHECK(table_ok(&p, *items, nbk, h, k, v) && pointless_hash_table_validate(&p, *items, nbk, h, k, v, &e) && !e, "tables as written are accepted");
	}
	PTV_ASSUME(nc > 0);
	c = (uint32_t)ptv_range(0, nc - 1);
	parts(&p, c, &items, &nbk, &h, &k, &v);
	PTV_ASSUME(nbk > 0);
	for (m = (uint32_t)ptv_range(1, 2); m > 0; m--) {
		i = (uint32_t)ptv_range(0, nbk - 1); j = (uint32_t)ptv_range(0, nbk - 1);
		switch (ptv_range(0, 11)) {
			case 0: { uint32_t t = h[i]; pointless_value_t x = k[i]; h[i] = h[j]; h[j] = t; k[i] = k[j]; k[j] = x; if (v) { x = v[i]; v[i] = v[j]; v[j] = x; } break; }
			case 1: { pointless_value_t x = k[i]; k[i] = k[j]; k[j] = x; break; }
			case 2: k[i] = k[j]; h[i] = h[j]; if (v) v[i] = v[j]; break;
			case 3: k[i] = at(POINTLESS_EMPTY_SLOT, 0); if (PTV_BOOL()) h[i] = pointless_hash_reader_32(&p, &k[i]); if (v && PTV_BOOL()) v[i] = k[i]; break;
			case 4: h[i] ^= (uint32_t)1 << ptv_range(0, 31); break;
			case 5: h[i] += nbk; break;
			case 6: *items += PTV_BOOL() ? 1 : -1; break;
			case 7: if (v) v[i] = at(PTV_BOOL() ? POINTLESS_EMPTY_SLOT : POINTLESS_NULL, 0); break;
			case 8: k[i] = at(POINTLESS_I32, (uint32_t)ptv_range(0, 5)); if (PTV_BOOL()) h[i] = pointless_hash_reader_32(&p, &k[i]); break;
			case 9: if (k[i].type == POINTLESS_VECTOR_VALUE_HASHABLE && pointless_reader_vector_n_items(&p, &k[i]) > 0 && p.header->n_set > 0) {
				/* an element that is a set, or one vector deeper */
				pointless_value_t* el = pointless_reader_vector_value(&p, &k[i]) + ptv_range(0, pointless_reader_vector_n_items(&p, &k[i]) - 1);
				if (el->type == POINTLESS_VECTOR_VALUE_HASHABLE && pointless_reader_vector_n_items(&p, el) > 0 && PTV_BOOL()) el = pointless_reader_vector_value(&p, el);
				odd = 1; *el = at(POINTLESS_SET_VALUE, (uint32_t)ptv_range(0, p.header->n_set - 1));
				break;
			}
			/* fall through */
			case 10: if (!len) { uint32_t* w = (uint32_t*)(PTV_BOOL() && v ? (void*)v : (void*)h) - 1; if (*w > 0) { *w -= 1; len = 1; } } break;
			default: { uint32_t b = 0; k[i] = k[j]; h[i] = h[j]; if (v) v[i] = v[j]; while (b < nbk && k[b].type != POINTLESS_EMPTY_SLOT) b++; if (b < nbk && PTV_BOOL()) { k[b] = k[i]; h[b] = h[i]; if (v) v[b] = v[i]; *items += 1; } }
		}
	}
	ok = table_ok(&p, *items, nbk, h, k, v); e = 0;
	r = pointless_hash_table_validate(&p, *items, nbk, h, k, v, &e);
	PTV_CHECK((r != 0) == ok, "a table is accepted iff it is well-formed");
	PTV_CHECK((r != 0) == (e == 0), "an error exactly when refused");
	/* vectors of different lengths */
	if (len) ok = 0;
	for (allok = ok, cc = 0; cc < nc; cc++) { parts(&p, cc, &items, &nbk, &h, &k, &v); allok = allok && table_ok(&p, *items, nbk, h, k, v); }
	memset(seen, 0, sizeof(seen));
	reach(&p, pointless_root(&p), 0);
	i = c < p.header->n_set ? seen[1][c] : seen[2][c - p.header->n_set];
	memcpy(buf, p.buf, n);
	pointless_close(&p);
	e = 0;
	r = pointless_open_b(&p, buf, n, &e);
	if (!ok && i) PTV_CHECK(!r && e, "a file with a damaged table is refused");
	if (allok && !odd) PTV_CHECK(r, "a file with well-formed tables is accepted");
	if (r) pointless_close(&p);
	free(buf);
	PTV_REACH();
#endif
}

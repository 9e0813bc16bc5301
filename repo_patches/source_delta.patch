From 6a292d98b6e13257b701f8073fc7225f3f936798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 01/69] fix: compare bitvectors using the encoding of each
 operand

---
 src/pointless_bitvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_bitvector.c b/src/pointless_bitvector.c
index ad263cb..607ce02 100644
--- a/src/pointless_bitvector.c
+++ b/src/pointless_bitvector.c
@@ -163,7 +163,7 @@ int32_t pointless_bitvector_cmp_buffer_buffer(uint32_t t_a, pointless_value_data
 
 	for (i = 0; i < n_bits; i++) {
 		ba = pointless_bitvector_is_set(t_a, v_a, buffer_a, i);
-		bb = pointless_bitvector_is_set(t_a, v_b, buffer_b, i);
+		bb = pointless_bitvector_is_set(t_b, v_b, buffer_b, i);
 
 		if (ba != bb)
 			return SIMPLE_CMP(ba, bb);
-- 
2.43.0


From 454595b9f5402b328f5c05476708ff7972619c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 02/69] fix: an unsigned integer is greater than any negative
 integer

---
 src/pointless_cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 8c39b66..cc87fd1 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -201,7 +201,7 @@ static int32_t pointless_cmp_int_float(uint32_t t_a, pointless_complete_value_da
 			int64_t _b = pointless_int_value_signed(t_b, v_b);
 
 			if (_b < 0)
-				return -1;
+				return +1;
 
 			return SIMPLE_CMP(_a, (uint64_t)_b);
 		}
-- 
2.43.0


From cae7fda75b7341d854f462abdc1e641d8445a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 03/69] fix: select create-time comparison function from both
 operands

---
 src/pointless_cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index cc87fd1..cbe581b 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -523,7 +523,7 @@ static int32_t pointless_cmp_create_rec_priv(pointless_create_t* c, pointless_co
 
 	// find the comparison func for these two
 	pointless_cmp_create_cb cmp_a = pointless_cmp_create_func(v_a->header.type_29);
-	pointless_cmp_create_cb cmp_b = pointless_cmp_create_func(v_a->header.type_29);
+	pointless_cmp_create_cb cmp_b = pointless_cmp_create_func(v_b->header.type_29);
 
 	// different type groups, just cmp on type ID
 	if (cmp_a != cmp_b)
-- 
2.43.0


From eb68b78f1854e6cad4fc44fa87286d4430cf5307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 04/69] fix: create-time comparison of 64-bit integer vector
 items

---
 src/pointless_cmp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index cbe581b..6c9aa34 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -456,6 +456,8 @@ static pointless_cmp_create_cb pointless_cmp_create_func(uint32_t t)
 			return pointless_cmp_create_string_unicode;
 		case POINTLESS_I32:
 		case POINTLESS_U32:
+		case POINTLESS_I64:
+		case POINTLESS_U64:
 		case POINTLESS_BOOLEAN:
 		case POINTLESS_FLOAT:
 			return pointless_cmp_create_int_float;
-- 
2.43.0


From ed856113104b41424cf9004658981e329dc0d581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 05/69] fix: pointless_cmp_reader_acyclic() must not write
 through a null error pointer

---
 src/pointless_cmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 6c9aa34..e01f953 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -361,7 +361,7 @@ static int32_t pointless_cmp_reader_vector(pointless_t* p_a, pointless_complete_
 
 		cc = pointless_cmp_reader_rec(p_a, &c_a, p_b, &c_b, depth + 1, error);
 
-		if (cc != 0 || *error != 0)
+		if (cc != 0 || (error && *error != 0))
 			return cc;
 	}
 
@@ -393,9 +393,9 @@ static int32_t pointless_cmp_create_vector(pointless_create_t* c, pointless_comp
 
 // map/set not implemented yet
 static int32_t pointless_cmp_reader_set(pointless_t* p_a, pointless_complete_value_t* a, pointless_t* p_b, pointless_complete_value_t* b, uint32_t depth, const char** error)
-	{ *error = "set comparison not implemented yet"; return 0; }
+	{ if (error) *error = "set comparison not implemented yet"; return 0; }
 static int32_t pointless_cmp_reader_map(pointless_t* p_a, pointless_complete_value_t* a, pointless_t* p_b, pointless_complete_value_t* b, uint32_t depth, const char** error)
-	{ *error = "map comparison not implemented yet"; return 0; }
+	{ if (error) *error = "map comparison not implemented yet"; return 0; }
 static int32_t pointless_cmp_create_set(pointless_create_t* c, pointless_complete_create_value_t* a, pointless_complete_create_value_t* b, uint32_t depth, const char** error)
 	{ *error = "set comparison not implemented yet"; return 0; }
 static int32_t pointless_cmp_create_map(pointless_create_t* c, pointless_complete_create_value_t* a, pointless_complete_create_value_t* b, uint32_t depth, const char** error)
-- 
2.43.0


From 2ea7cd2b6f5832ae34eb613f9e53d1a20caa0e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 06/69] fix: refuse to open files with 32-bit offsets

---
 src/pointless_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 1c0bec6..4612536 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -17,7 +17,7 @@ static int pointless_init(pointless_t* p, void* buf, uint64_t buflen, int do_val
 			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_32_NEWHASH:
 			*error = "32-bit offset files no longer supported";
-			break;
+			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_64_NEWHASH:
 			break;
 		default:
-- 
2.43.0


From 5ee5fa2d32499da34b373cdde32c7883954e93bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 07/69] fix: create-time hash and comparison of empty vectors

---
 src/pointless_cmp.c  | 16 ++++++++++++++--
 src/pointless_hash.c |  5 ++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index e01f953..9785ec6 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -368,13 +368,25 @@ static int32_t pointless_cmp_reader_vector(pointless_t* p_a, pointless_complete_
 	return SIMPLE_CMP(n_items_a, n_items_b);
 }
 
+static uint32_t pointless_cmp_create_vector_n_items(pointless_create_t* c, pointless_create_value_t* v)
+{
+	// empty vectors do not refer to any vector
+	if (v->header.type_29 == POINTLESS_VECTOR_EMPTY)
+		return 0;
+
+	if (v->header.is_outside_vector)
+		return cv_get_outside_vector(v)->n_items;
+
+	return pointless_dynarray_n_items(&cv_get_priv_vector(v)->vector);
+}
+
 static int32_t pointless_cmp_create_vector(pointless_create_t* c, pointless_complete_create_value_t* a, pointless_complete_create_value_t* b, uint32_t depth, const char** error)
 {
 	pointless_create_value_t _a = pointless_create_value_from_complete(a);
 	pointless_create_value_t _b = pointless_create_value_from_complete(b);
 
-	uint32_t n_items_a = a->header.is_outside_vector ? cv_get_outside_vector(&_a)->n_items : pointless_dynarray_n_items(&cv_get_priv_vector(&_a)->vector);
-	uint32_t n_items_b = b->header.is_outside_vector ? cv_get_outside_vector(&_b)->n_items : pointless_dynarray_n_items(&cv_get_priv_vector(&_b)->vector);
+	uint32_t n_items_a = pointless_cmp_create_vector_n_items(c, &_a);
+	uint32_t n_items_b = pointless_cmp_create_vector_n_items(c, &_b);
 	uint32_t i, n_items = (n_items_a < n_items_b ? n_items_a : n_items_b);
 	int32_t cc;
 
diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 6ae3caf..58fa2b8 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -282,7 +282,10 @@ static uint32_t pointless_hash_create_vector_32(pointless_create_t* c, pointless
 	void* items;
 	pointless_create_value_t* vv;
 
-	if (v->header.is_outside_vector) {
+	if (v->header.type_29 == POINTLESS_VECTOR_EMPTY) {
+		items = 0;
+		n_items = 0;
+	} else if (v->header.is_outside_vector) {
 		items = cv_get_outside_vector(v)->items;
 		n_items = cv_get_outside_vector(v)->n_items;
 	} else {
-- 
2.43.0


From 6a7382b602cebef0f06bc2d708602a3d928aadbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 08/69] fix: create-time comparison of library-owned typed
 vectors

---
 src/pointless_cmp.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 9785ec6..b29916d 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -293,8 +293,13 @@ static pointless_complete_create_value_t pointless_cmp_vector_value_create(point
 	pointless_complete_create_value_t vi;
 	pointless_create_value_t _v = pointless_create_value_from_complete(v);
 
-	// outside vectors are the hardest
-	if (v->header.is_outside_vector) {
+	// is this a vector of value references
+	int is_value = (v->header.type_29 == POINTLESS_VECTOR_VALUE || v->header.type_29 == POINTLESS_VECTOR_VALUE_HASHABLE || v->header.is_compressed_vector);
+
+	// native vectors are the hardest
+	if (!is_value) {
+		void* items = v->header.is_outside_vector ? cv_get_outside_vector(&_v)->items : pointless_dynarray_buffer(&cv_get_priv_vector(&_v)->vector);
+
 		// reset the value
 		vi.header.type_29 = POINTLESS_NULL;
 		vi.header.is_outside_vector = v->header.is_outside_vector;
@@ -305,31 +310,31 @@ static pointless_complete_create_value_t pointless_cmp_vector_value_create(point
 
 		switch (v->header.type_29) {
 			case POINTLESS_VECTOR_I8:
-				vi = pointless_complete_value_create_i32(((int8_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i32(((int8_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U8:
-				vi = pointless_complete_value_create_u32(((uint8_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u32(((uint8_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_I16:
-				vi = pointless_complete_value_create_i32(((int16_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i32(((int16_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U16:
-				vi = pointless_complete_value_create_u32(((uint16_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u32(((uint16_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_I32:
-				vi = pointless_complete_value_create_i32(((int32_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i32(((int32_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U32:
-				vi = pointless_complete_value_create_u32(((uint32_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u32(((uint32_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_I64:
-				vi = pointless_complete_value_create_i64(((int64_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i64(((int64_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U64:
-				vi = pointless_complete_value_create_u64(((uint64_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u64(((uint64_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_FLOAT:
-				vi = pointless_complete_value_create_float(((float*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_float(((float*)items)[i]);
 				break;
 			default:
 				assert(0);
-- 
2.43.0


From 95cd4ff34f24ebfc727e0c6b44eaaa4f4b803a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 09/69] fix: vectors of integers which fit no 32-bit range are
 stored uncompressed

---
 src/pointless_create.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 4096504..c5a0cfa 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -676,9 +676,8 @@ static uint32_t pointless_create_vector_compression(pointless_create_t* c, uint3
 	else if (INT32_MIN <= min_int && max_int <= INT32_MAX)
 		return POINTLESS_VECTOR_I32;
 
-	// we must have hit something here already
-	assert(0);
-	return 0;
+	// no 32-bit integer type covers the range, so the items must be stored as values
+	return compression;
 }
 
 static int pointless_create_output_and_end_(pointless_create_t* c, pointless_create_cb_t* cb, const char** error)
-- 
2.43.0


From 60628b630f7fc497260e629d37b765b0738e2332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 10/69] fix: heap offsets must not wrap around for vectors of 4
 GiB or more

---
 src/pointless_create.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index c5a0cfa..a5863b8 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -903,7 +903,7 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 			assert(cv_value_data_u32(i) == debug_n_string_unicode);
 
 			PC_WRITE_OFFSET();
-			PC_INCREMENT_OFFSET(sizeof(uint32_t) + (*((uint32_t*)cv_unicode_at(i)) + 1) * sizeof(pointless_unicode_char_t));
+			PC_INCREMENT_OFFSET(sizeof(uint32_t) + ((uint64_t)*((uint32_t*)cv_unicode_at(i)) + 1) * sizeof(pointless_unicode_char_t));
 			PC_ALIGN_OFFSET();
 			debug_n_string_unicode += 1;
 		}
@@ -912,7 +912,7 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 			assert(cv_value_data_u32(i) == debug_n_string_unicode);
 
 			PC_WRITE_OFFSET();
-			PC_INCREMENT_OFFSET(sizeof(uint32_t) + (*((uint32_t*)cv_string_at(i)) + 1) * sizeof(uint8_t));
+			PC_INCREMENT_OFFSET(sizeof(uint32_t) + ((uint64_t)*((uint32_t*)cv_string_at(i)) + 1) * sizeof(uint8_t));
 			PC_ALIGN_OFFSET();
 			debug_n_string_unicode += 1;
 		}
@@ -933,7 +933,7 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 		if (cv_value_type(i) == POINTLESS_VECTOR_EMPTY)
 			continue;
 
-		uint32_t vector_heap_size = 0;
+		uint64_t vector_heap_size = 0;
 		uint32_t n_items = pointless_dynarray_n_items(&cv_priv_vector_at(i)->vector);
 
 		switch (cv_value_type(i)) {
@@ -994,7 +994,7 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 		if (cv_value_type(i) == POINTLESS_VECTOR_EMPTY)
 			continue;
 
-		uint32_t vector_heap_size = 0;
+		uint64_t vector_heap_size = 0;
 		uint32_t n_items = cv_outside_vector_at(i)->n_items;
 
 		switch (cv_value_type(i)) {
-- 
2.43.0


From 965d94c3157144a047281a5487f53d47f6fa6d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 11/69] fix: use-after-free of temporary file name when writing
 fails

---
 src/pointless_create.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index a5863b8..a9c80c0 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1320,9 +1320,6 @@ int pointless_create_output_and_end_f(pointless_create_t* c, const char* fname,
 
 cleanup:
 
-	pointless_free(temp_fname);
-	temp_fname = 0;
-
 	pointless_create_end(c);
 
 	if (f) {
-- 
2.43.0


From 0197baf1a876b9e0a14e30938c4c6c7726808e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 12/69] fix: bentley_sort_() must report every comparison
 failure

---
 src/custom_sort.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/custom_sort.c b/src/custom_sort.c
index da54f81..993c6a9 100644
--- a/src/custom_sort.c
+++ b/src/custom_sort.c
@@ -40,6 +40,9 @@ loop:
 
 				(*swap)(pl, pl - 1, user);
 			}
+
+			if (is_error)
+				return 0;
 		}
 
 		return 1;
@@ -55,6 +58,9 @@ loop:
 			presorted = 0;
 			break;
 		}
+
+		if (is_error)
+			return 0;
 	}
 
 	if (presorted)
@@ -100,6 +106,9 @@ loop:
 			pb += 1;
 		}
 
+		if (is_error)
+			return 0;
+
 		while (pb <= pc && (r = cmp_adapter(pc, a, cmp, user, &is_error)) >= 0) {
 			if (is_error)
 				return 0;
@@ -112,6 +121,9 @@ loop:
 			pc -= 1;
 		}
 
+		if (is_error)
+			return 0;
+
 		if (pb > pc)
 			break;
 
-- 
2.43.0


From 5ad1218c02ca868ac7a722c6c9f976826782c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 13/69] fix: pointless_dynarray_push_bulk() must check for item
 count overflow

---
 src/pointless_dynarray.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pointless_dynarray.c b/src/pointless_dynarray.c
index 809f56a..f27d7c9 100644
--- a/src/pointless_dynarray.c
+++ b/src/pointless_dynarray.c
@@ -63,6 +63,10 @@ int pointless_dynarray_push(pointless_dynarray_t* a, void* i)
 
 int pointless_dynarray_push_bulk(pointless_dynarray_t* a, void* i, size_t n_items)
 {
+	// total number of items must not overflow
+	if (n_items > SIZE_MAX - a->n_items)
+		return 0;
+
 	while (a->n_items + n_items > a->n_alloc) {
 		if (!pointless_dynarray_grow(a))
 			return 0;
-- 
2.43.0


From 6bdb84fdfbc0e8506a95172e30ad9e156ce025f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 14/69] fix: intop_u32_mult() was declared but defined under
 another name

---
 src/pointless_int_ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index 90a77bd..2d1ffec 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -32,7 +32,7 @@ intop_u64_t intop_u64_mult(intop_u64_t a, intop_u64_t b)
 	return c;
 }
 
-intop_u32_t uintop_32_mult(intop_u32_t a, intop_u32_t b)
+intop_u32_t intop_u32_mult(intop_u32_t a, intop_u32_t b)
 {
 	intop_u32_t c;
 
-- 
2.43.0


From 3c45f7c2cc4034654c33a544840199b5f7f57907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 15/69] fix: number of hash table buckets must not overflow

---
 src/pointless_create.c     |  5 +++++
 src/pointless_hash_table.c | 12 ++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index a9c80c0..19669d6 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -75,6 +75,11 @@ static int pointless_hash_table_create(pointless_create_t* c, uint32_t hash_tabl
 	// number of buckets
 	n_buckets = pointless_hash_compute_n_buckets(n_keys);
 
+	if (n_buckets == 0) {
+		*error = "too many keys in set/map";
+		goto cleanup;
+	}
+
 	// allocate output vectors
 	hash_serialize = (uint32_t*)pointless_malloc(sizeof(uint32_t) * n_buckets);
 	keys_serialize = (uint32_t*)pointless_malloc(sizeof(uint32_t) * n_buckets);
diff --git a/src/pointless_hash_table.c b/src/pointless_hash_table.c
index ddad488..e9559cf 100644
--- a/src/pointless_hash_table.c
+++ b/src/pointless_hash_table.c
@@ -1,13 +1,17 @@
 #include <pointless/pointless_hash_table.h>
 
-static uint32_t next_power_of_2(uint32_t n)
+static uint32_t next_power_of_2(uint64_t n)
 {
-	uint32_t p = 1;
+	uint64_t p = 1;
 
 	while (p < n)
 		p <<= 1;
 
-	return p;
+	// no valid number of buckets exists
+	if (p > UINT32_MAX)
+		return 0;
+
+	return (uint32_t)p;
 }
 
 uint32_t pointless_hash_compute_n_buckets(uint32_t n_items)
@@ -17,7 +21,7 @@ uint32_t pointless_hash_compute_n_buckets(uint32_t n_items)
 	if (n_items == 1)
 		return 2;
 
-	return next_power_of_2(n_items + n_items / 2);
+	return next_power_of_2((uint64_t)n_items + n_items / 2);
 }
 
 static uint32_t pointless_hash_table_probe_priv(pointless_t* p, uint32_t value_hash, pointless_value_t* value, uint32_t n_buckets, uint32_t* hash_vector, pointless_value_t* key_vector, pointless_eq_cb cb, void* user, const char** error)
-- 
2.43.0


From 395e5abe3bb612842af3391404f2fefb6e6d0cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 16/69] fix: integers and floats are compared without rounding
 the integer

---
 src/pointless_cmp.c | 51 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index b29916d..1485e91 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -157,6 +157,49 @@ static uint64_t pointless_int_value_unsigned(uint32_t t, pointless_complete_valu
 	return 0;
 }
 
+// compare float to integer, without rounding the integer to the precision of the float
+static int32_t pointless_cmp_float_i64(float f, int64_t i)
+{
+	if (f != f)
+		return +1;
+
+	// 2**63
+	if (f >= 9223372036854775808.0f)
+		return +1;
+
+	if (f < -9223372036854775808.0f)
+		return -1;
+
+	int64_t t = (int64_t)f;
+
+	if (t != i)
+		return (t < i) ? -1 : +1;
+
+	// integer parts are the same, so only the fraction matters
+	return SIMPLE_CMP(f, (float)t);
+}
+
+static int32_t pointless_cmp_float_u64(float f, uint64_t i)
+{
+	if (f != f)
+		return +1;
+
+	// 2**64
+	if (f >= 18446744073709551616.0f)
+		return +1;
+
+	if (f < 0.0f)
+		return -1;
+
+	uint64_t t = (uint64_t)f;
+
+	if (t != i)
+		return (t < i) ? -1 : +1;
+
+	// integer parts are the same, so only the fraction matters
+	return SIMPLE_CMP(f, (float)t);
+}
+
 static int32_t pointless_cmp_int_float(uint32_t t_a, pointless_complete_value_data_t* v_a, uint32_t t_b, pointless_complete_value_data_t* v_b)
 {
 	// float, float
@@ -165,15 +208,15 @@ static int32_t pointless_cmp_int_float(uint32_t t_a, pointless_complete_value_da
 	// float, int
 	} else if (t_a == POINTLESS_FLOAT) {
 		if (pointless_is_signed(t_b))
-			return SIMPLE_CMP(v_a->data_f, (float)pointless_int_value_signed(t_b, v_b));
+			return pointless_cmp_float_i64(v_a->data_f, pointless_int_value_signed(t_b, v_b));
 		else
-			return SIMPLE_CMP(v_a->data_f, (float)pointless_int_value_unsigned(t_b, v_b));
+			return pointless_cmp_float_u64(v_a->data_f, pointless_int_value_unsigned(t_b, v_b));
 	// int, float
 	} else if (t_b == POINTLESS_FLOAT) {
 		if (pointless_is_signed(t_a))
-			return SIMPLE_CMP((float)pointless_int_value_signed(t_a, v_a), v_b->data_f);
+			return -pointless_cmp_float_i64(v_b->data_f, pointless_int_value_signed(t_a, v_a));
 		else
-			return SIMPLE_CMP((float)pointless_int_value_unsigned(t_a, v_a), v_b->data_f);
+			return -pointless_cmp_float_u64(v_b->data_f, pointless_int_value_unsigned(t_a, v_a));
 	// int, int
 	} else {
 		// ss
-- 
2.43.0


From 88daedf7f48cec6de376a8fd0537180bca4c6ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 17/69] fix: 64-bit integers must hash like the equal 32-bit
 integers

---
 src/pointless_hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 58fa2b8..bfe46b7 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -84,12 +84,12 @@ uint32_t pointless_hash_i64_32(int64_t v)
 	} h;
 
 	h.i = v;
-	return (uint32_t)(h.u % UINT32_MAX);
+	return (uint32_t)h.u;
 }
 
 uint32_t pointless_hash_u64_32(uint64_t v)
 {
-	return (uint32_t)(v % UINT32_MAX);
+	return (uint32_t)v;
 }
 
 uint32_t pointless_hash_bool_true_32()
-- 
2.43.0


From 613a3153048c7233268a88093987df19f09e6572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 18/69] fix: unicode lookups must use the unicode hash function

---
 src/pointless_reader_helpers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointless_reader_helpers.c b/src/pointless_reader_helpers.c
index f70553b..38651a4 100644
--- a/src/pointless_reader_helpers.c
+++ b/src/pointless_reader_helpers.c
@@ -290,13 +290,13 @@ int pointless_get_mapping_string_n_to_value(pointless_t* p, pointless_value_t* m
 
 int pointless_get_mapping_unicode_to_value(pointless_t* p, pointless_value_t* map, uint32_t* key, pointless_value_t* value)
 {
-	uint32_t hash = pointless_hash_string_v1_32((uint8_t*)key);
+	uint32_t hash = pointless_hash_unicode_ucs4_v1_32(key);
 	return pointless_get_map_(p, map, hash, check_unicode, (void*)key, get_value, 0, (void*)value);
 }
 
 int pointless_get_mapping_unicode_to_u32(pointless_t* p, pointless_value_t* map, uint32_t* key, uint32_t* value)
 {
-	uint32_t hash = pointless_hash_string_v1_32((uint8_t*)key);
+	uint32_t hash = pointless_hash_unicode_ucs4_v1_32(key);
 	return pointless_get_map_(p, map, hash, check_unicode, (void*)key, check_and_get_u32, 0, (void*)value);
 }
 
-- 
2.43.0


From a40374b107127f482b8965ab42effd79a0197166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 19/69] fix: reject files with set/map keys which can not be
 hashed

---
 src/pointless_validate_hash_table.c | 30 ++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/pointless_validate_hash_table.c b/src/pointless_validate_hash_table.c
index 9b3c5b6..b5103df 100644
--- a/src/pointless_validate_hash_table.c
+++ b/src/pointless_validate_hash_table.c
@@ -1,5 +1,31 @@
 #include <pointless/pointless_validate.h>
 
+// all the items of a hashable vector must be hashable as well, and hashing recurses into them
+static int32_t pointless_validate_hashable(pointless_t* p, pointless_value_t* v, uint32_t depth, const char** error)
+{
+	if (depth >= POINTLESS_MAX_DEPTH) {
+		*error = "maximum depth exceeded by key in set/map";
+		return 0;
+	}
+
+	if (!pointless_is_hashable(v->type)) {
+		*error = "key in set/map is not hashable";
+		return 0;
+	}
+
+	if (v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
+		uint32_t i, n_items = pointless_reader_vector_n_items(p, v);
+		pointless_value_t* items = pointless_reader_vector_value(p, v);
+
+		for (i = 0; i < n_items; i++) {
+			if (!pointless_validate_hashable(p, &items[i], depth + 1, error))
+				return 0;
+		}
+	}
+
+	return 1;
+}
+
 int32_t pointless_hash_table_validate(pointless_t* p, uint32_t n_items, uint32_t n_buckets, uint32_t* hash_vector, pointless_value_t* key_vector, pointless_value_t* value_vector, const char** error)
 {
 	if (pointless_hash_compute_n_buckets(n_items) != n_buckets) {
@@ -36,10 +62,8 @@ int32_t pointless_hash_table_validate(pointless_t* p, uint32_t n_items, uint32_t
 	// make sure hashes match the given object
 	for (i = 0; i < n_buckets; i++) {
 		// make sure it is hashable
-		if (!pointless_is_hashable(key_vector[i].type)) {
-			*error = "key in set/map is not hashable";
+		if (!pointless_validate_hashable(p, &key_vector[i], 0, error))
 			return 0;
-		}
 
 		// just compute the hash, even for empty slots
 		uint32_t h = pointless_hash_reader_32(p, &key_vector[i]);
-- 
2.43.0


From 733627c640b640dd79fec32bb26907487297ca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 20/69] fix: cycle marker must give each container a unique
 pre-order number

---
 src/pointless_cycle_marker.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/pointless_cycle_marker.c b/src/pointless_cycle_marker.c
index 1823c1a..fdae8d0 100644
--- a/src/pointless_cycle_marker.c
+++ b/src/pointless_cycle_marker.c
@@ -50,6 +50,9 @@ typedef struct {
 	const char* error;
 	void* cycle_marker;
 
+	// next pre-order number
+	Word_t count;
+
 	Pvoid_t visited_judy;
 	Pvoid_t component_judy;
 	Pvoid_t root_judy;
@@ -57,7 +60,7 @@ typedef struct {
 	pointless_dynarray_t stack;
 } pointless_cycle_marker_state_t;
 
-static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, Word_t count, uint32_t depth);
+static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, uint32_t depth);
 
 //static void print_depth(uint32_t depth)
 //{
@@ -66,7 +69,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 //		printf("   ");
 //}
 
-static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id, uint64_t w, Word_t count, uint32_t depth)
+static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id, uint64_t w, uint32_t depth)
 {
 	if (!(*state->cb_info->fn_is_container)(state->cb_info->user, w))
 		return;
@@ -80,7 +83,7 @@ static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id,
 	if (PValue == 0) {
 		//print_depth(depth); printf(" w is not in visited, so visit(w = %u, count = %llu)\n", (unsigned int)w_id, (unsigned long long)count);
 
-		pointless_cycle_marker_visit(state, w, count, depth + 1);
+		pointless_cycle_marker_visit(state, w, depth + 1);
 
 		if (state->error)
 			return;
@@ -137,8 +140,11 @@ static void _unpack_map_and_vector(uint64_t v, uint32_t* owner, uint32_t* value)
 //	return buffer;
 //}
 
-static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, Word_t count, uint32_t depth)
+static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, uint32_t depth)
 {
+	// each container gets its own pre-order number
+	Word_t count = state->count++;
+
 	assert((*state->cb_info->fn_is_container)(state->cb_info->user, v));
 
 	if (depth >= POINTLESS_MAX_DEPTH) {
@@ -212,7 +218,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 			}
 		}
 
-		process_child(state, v_id, child, count + 1, depth + 1);
+		process_child(state, v_id, child, depth + 1);
 
 		if (state->error)
 			return;
@@ -289,6 +295,7 @@ void* pointless_cycle_marker(cycle_marker_info_t* info, const char** error)
 	state.cb_info = info;
 	state.error = 0;
 	state.cycle_marker = pointless_calloc(ICEIL(n_nodes, 8), 1);
+	state.count = 0;
 	state.visited_judy = 0;
 	state.component_judy = 0;
 	state.root_judy = 0;
@@ -302,7 +309,7 @@ void* pointless_cycle_marker(cycle_marker_info_t* info, const char** error)
 	root = (*info->fn_get_root)(state.cb_info->user);
 
 	if ((*info->fn_is_container)(state.cb_info->user, root))
-		pointless_cycle_marker_visit(&state, root, 0, 0);
+		pointless_cycle_marker_visit(&state, root, 0);
 
 	if (state.error)
 		goto error_cleanup;
-- 
2.43.0


From 51f4cea91ae7e0c93aafaae5bfabd857f1f65f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 21/69] fix: integer expressions with subtraction and division

---
 src/pointless_int_ops.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index 2d1ffec..c2b61d8 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -200,7 +200,7 @@ static int intop_check_error(intop_eval_context_t* c)
 
 static int intop_eval_check_bounds(intop_eval_context_t* c)
 {
-	return (c->i < INTOP_EVAL_MAX_N);
+	return (c->i < c->n);
 }
 
 static void intop_eval_push(intop_eval_context_t* c, intop_eval_token_t* token)
@@ -234,9 +234,10 @@ static void intop_eval_Em(intop_eval_context_t* c)
 		int i = c->i;
 		c->i += 1;
 		intop_eval_T(c);
-		intop_eval_Em(c);
 
+		// operators are left-associative
 		intop_eval_push(c, &c->tokens[i]);
+		intop_eval_Em(c);
 	}
 }
 
@@ -260,9 +261,10 @@ static void intop_eval_Tm(intop_eval_context_t* c)
 		int i = c->i;
 		c->i += 1;
 		intop_eval_F(c);
-		intop_eval_Tm(c);
 
+		// operators are left-associative
 		intop_eval_push(c, &c->tokens[i]);
+		intop_eval_Tm(c);
 	}
 }
 
@@ -476,8 +478,8 @@ int intop_eval_eval(intop_eval_context_t* c, uint64_t* r, const char** error, ..
 				assert(c->e_n >= 2);
 				assert(c->eval[c->e_n - 1].type == INTOP_EVAL_NUMBER);
 				assert(c->eval[c->e_n - 2].type == INTOP_EVAL_NUMBER);
-				a = c->eval[c->e_n - 1].number;
-				b = c->eval[c->e_n - 2].number;
+				a = c->eval[c->e_n - 2].number;
+				b = c->eval[c->e_n - 1].number;
 				c->eval[c->e_n - 2].type = INTOP_EVAL_NUMBER;
 
 				if (c->stack[i].type == INTOP_EVAL_SUB) {
-- 
2.43.0


From f45ebfaa3e7b636727975948924ebb4c5f9f21df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 22/69] fix: sort_proj() must check the upper bound of signed
 projections

---
 python/pointless_prim_vector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 0d5ccfc..1e0e4a8 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1590,6 +1590,10 @@ static PyObject* PyPointlessPrimVector_sort_proj(PyPointlessPrimVector* self, Py
 			if (i == 0 || v_a < p_min)
 				p_min = v_a;
 
+			// signed values count towards the upper bound as well
+			if (v_a > 0)
+				v_b = (uint64_t)v_a;
+
 			if (i == 0 || v_b > p_max)
 				p_max = v_b;
 		}
-- 
2.43.0


From a7574ea6fd7d892c2a1c49fbdeba15d77f01c7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 23/69] fix: assignment to a negative index of a PrimVector

---
 python/pointless_prim_vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 1e0e4a8..6ae8f9e 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -613,7 +613,7 @@ static int PyPointlessPrimVector_ass_subscript(PyPointlessPrimVector* self, PyOb
 			return -1;
 
 		if (i < 0)
-			i += PyList_GET_SIZE(self);
+			i += PyPointlessPrimVector_length(self);
 
 		return PyPointlessPrimVector_ass_item(self, i, value);
 	} else {
-- 
2.43.0


From fb5b2c51f7f09a7be00aa48db15d0c3692f49704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 24/69] fix: PrimVector.append_bulk() of the vector itself

---
 python/pointless_prim_vector.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 6ae8f9e..135308d 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -764,9 +764,15 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 		PyPointlessPrimVector* p_obj = (PyPointlessPrimVector*)obj;
 
 		if (p_obj->type == self->type) {
-			for (i = 0; i < pointless_dynarray_n_items(&p_obj->array); i++) {
-				void* v = pointless_dynarray_item_at(&p_obj->array, i);
-				if (!pointless_dynarray_push(&self->array, v)) {
+			// the two vectors may be the same object, so items are copied before they are
+			// pushed (which may move them), and the number of items is fetched once
+			size_t n_items = pointless_dynarray_n_items(&p_obj->array);
+			pypointless_number_t number;
+
+			for (i = 0; i < n_items; i++) {
+				memcpy(&number, pointless_dynarray_item_at(&p_obj->array, i), self->array.item_size);
+
+				if (!pointless_dynarray_push(&self->array, &number)) {
 					for (j = 0; j < n_append; j++)
 						pointless_dynarray_pop(&self->array);
 
-- 
2.43.0


From 2354845af9ded6bffbd44507c6032846f4350ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 25/69] fix: PrimVector.pop_bulk() must not resize an exported
 vector

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 135308d..d2e2df0 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -918,6 +918,9 @@ static PyObject* PyPointlessPrimVector_pop_bulk(PyPointlessPrimVector* self, PyO
 	if (!PyArg_ParseTuple(args, "L", &n))
 		return 0;
 
+	if (!PyPointlessPrimVector_can_resize(self))
+		return 0;
+
 	if (n > 0 && (size_t)n > pointless_dynarray_n_items(&self->array)) {
 		PyErr_SetString(PyExc_ValueError, "vector is not big enough");
 		return 0;
-- 
2.43.0


From ab4d4cbe3c66500b632b561b2acf878c42555e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 26/69] fix: report errors when hashing Python strings

---
 python/pointless_pyobject_hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pointless_pyobject_hash.c b/python/pointless_pyobject_hash.c
index e5083d4..dae8d3c 100644
--- a/python/pointless_pyobject_hash.c
+++ b/python/pointless_pyobject_hash.c
@@ -90,7 +90,7 @@ static uint32_t pyobject_hash_primvector_32(PyPointlessPrimVector* v, pyobject_h
 static uint32_t pyobject_hash_unicode_32(PyObject* py_object, pyobject_hash_state_t* state)
 {
 	if (PyUnicode_READY(py_object) != 0) {
-		state->error = "PyUnicode_READY failed";
+		*state->error = "PyUnicode_READY failed";
 		PyErr_Clear();
 		return 0;
 
@@ -113,7 +113,7 @@ static uint32_t pyobject_hash_unicode_32(PyObject* py_object, pyobject_hash_stat
 					break;
 				// will happen for PyUnicode_WCHAR_KIND on python versions < 3.12
 				default:
-					state->error = "hash statement fallthrough";
+					*state->error = "hash statement fallthrough";
 					break;
 			}
 	}
-- 
2.43.0


From a738f41d224fb7c0476f235abf8d069fdcada0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 27/69] fix: comparison of 64-bit integers with Python objects

---
 python/pointless_pyobject_cmp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 37ae63f..6ee47a6 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -126,6 +126,8 @@ static pypointless_cmp_cb pypointless_cmp_func(pypointless_cmp_value_t* v, uint3
 		switch (*type) {
 			case POINTLESS_I32:
 			case POINTLESS_U32:
+			case POINTLESS_I64:
+			case POINTLESS_U64:
 			case POINTLESS_FLOAT:
 			case POINTLESS_BOOLEAN:
 				return pypointless_cmp_int_float_bool;
-- 
2.43.0


From 7343f1c7869a2a87a7a7e23512a0d96a2f3ef322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 28/69] fix: BitVector.append_bulk() and pop() must keep the
 number of set bits

---
 python/pointless_bitvector.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index c1bda51..bddee8f 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -643,14 +643,18 @@ static PyObject* PyPointlessBitvector_append_bulk(PyPointlessBitvector* self, Py
 		return 0;
 	}
 
+	// other may be self, so get its length before extending
 	size_t n_before = self->primitive_n_bits;
+	size_t n_other = PyPointlessBitvector_n_items(other);
 
-	if (!PyPointlessBitvector_extend_by(self, PyPointlessBitvector_length(other), 0))
+	if (!PyPointlessBitvector_extend_by(self, n_other, 0))
 		return 0;
 
-	for (size_t i = 0; i < PyPointlessBitvector_length(other); i++) {
-		if (PyPointlessBitvector_is_set(other, i))
+	for (size_t i = 0; i < n_other; i++) {
+		if (PyPointlessBitvector_is_set(other, i)) {
 			bm_set_(self->primitive_bits, n_before + i);
+			self->primitive_n_one += 1;
+		}
 	}
 
 	Py_INCREF(Py_None);
@@ -695,6 +699,7 @@ static PyObject* PyPointlessBitvector_pop(PyPointlessBitvector* self)
 	self->primitive_n_bits -= 1;
 
 	if (is_set) {
+		self->primitive_n_one -= 1;
 		Py_RETURN_TRUE;
 	} else {
 		Py_RETURN_FALSE;
-- 
2.43.0


From 833945540e8462620ca4a5f297d54445138dd370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 29/69] fix: initialize allow_print of derived PrimVector and
 BitVector objects

---
 python/pointless_bitvector.c   | 4 ++++
 python/pointless_prim_vector.c | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index bddee8f..3f5a266 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -747,6 +747,7 @@ static PyObject* PyPointlessBitvector_copy(PyPointlessBitvector* self)
 	}
 
 	pv->is_pointless = 0;
+	pv->allow_print = 1;
 	pv->pp = 0;
 	pv->primitive_n_bytes_alloc = n_bytes;
 	pv->primitive_n_bits = n_bits;
@@ -949,10 +950,13 @@ PyPointlessBitvector* PyPointlessBitvector_New(PyPointless* pp, pointless_value_
 	pp->n_bitvector_refs += 1;
 
 	pv->is_pointless = 1;
+	pv->allow_print = 1;
 	pv->pp = pp;
 	pv->v = *v;
 	pv->primitive_n_bits = 0;
 	pv->primitive_bits = 0;
+	pv->primitive_n_bytes_alloc = 0;
+	pv->primitive_n_one = 0;
 
 	return pv;
 }
diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index d2e2df0..b575abb 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -2023,6 +2023,7 @@ static PyObject* PyPointlessPrimVector_slice(PyPointlessPrimVector* self, Py_ssi
 		return 0;
 
 	pv->ob_exports = 0;
+	pv->allow_print = 1;
 	pv->type = self->type;
 	pointless_dynarray_init(&pv->array, self->array.item_size);
 
@@ -2199,6 +2200,7 @@ PyPointlessPrimVector* PyPointlessPrimVector_from_T_vector(pointless_dynarray_t*
 	}
 
 	pv->ob_exports = 0;
+	pv->allow_print = 1;
 	pv->type = t;
 	pv->array = *v;
 
-- 
2.43.0


From ca50fbc6254321c60951b4ddfe66400f1a56797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 30/69] hook: loop contract hooks for string comparison

---
 include/pointless/pointless_contracts.h | 16 ++++++++++++++++
 src/pointless_cmp.c                     |  7 +++++--
 2 files changed, 21 insertions(+), 2 deletions(-)
 create mode 100644 include/pointless/pointless_contracts.h

diff --git a/include/pointless/pointless_contracts.h b/include/pointless/pointless_contracts.h
new file mode 100644
index 0000000..50a03e1
--- /dev/null
+++ b/include/pointless/pointless_contracts.h
@@ -0,0 +1,16 @@
+#ifndef __POINTLESS__CONTRACTS__H__
+#define __POINTLESS__CONTRACTS__H__
+
+// hooks for contract-based verification: with POINTLESS_PTV defined the
+// verification harness supplies the loop contracts and the ghost statements,
+// otherwise they expand to nothing
+#ifdef POINTLESS_PTV
+	#include "ptv_loops.h"
+	#define POINTLESS_LOOP(id, ...)  PTV_LOOP_##id(__VA_ARGS__)
+	#define POINTLESS_GHOST(id, ...) PTV_GHOST_##id(__VA_ARGS__)
+#else
+	#define POINTLESS_LOOP(id, ...)
+	#define POINTLESS_GHOST(id, ...)
+#endif
+
+#endif
diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 1485e91..d37f632 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -1,14 +1,17 @@
 #include <pointless/pointless_reader.h>
 #include <pointless/pointless_bitvector.h>
 #include <pointless/pointless_value.h>
+#include <pointless/pointless_contracts.h>
 
 static int32_t pointless_cmp_create_rec_priv(pointless_create_t* c, pointless_complete_create_value_t* v_a, pointless_complete_create_value_t* v_b, uint32_t depth, const char** error);
 
-#define POINTLESS_CMP_STRING(a, b)         while ((uint32_t)(*(a)) == (uint32_t)(*(b))) { if (*(a) == 0) return 0; (a)++; (b)++;} return SIMPLE_CMP(*(a), *(b));
+#define POINTLESS_CMP_STRING(a, b)         while ((uint32_t)(*(a)) == (uint32_t)(*(b))) POINTLESS_LOOP(cmp_string, a, b) { if (*(a) == 0) return 0; (a)++; (b)++; POINTLESS_GHOST(cmp_string, a, b) } return SIMPLE_CMP(*(a), *(b));
 #define POINTLESS_CMP_STRING__N(a, b, n_b)     \
 	size_t n_ = 0;                             \
-	while (*(a) && n_ < n_b && *(a) == *(b)) { \
+	while (*(a) && n_ < n_b && *(a) == *(b))   \
+	POINTLESS_LOOP(cmp_string_n, a, b, n_) {   \
 		(a)++; (b)++; n_++;                    \
+		POINTLESS_GHOST(cmp_string_n, a, b)    \
 	}                                          \
 	if (*(a) == 0 && n_ == (n_b)) return 0;    \
 	if (*(a) == 0)             return -1;      \
-- 
2.43.0


From 29af37755a356b416ffeebf608689354dfabe72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:27 +0000
Subject: [PATCH 31/69] hook: loop contract hooks for dynamic arrays

---
 src/pointless_dynarray.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pointless_dynarray.c b/src/pointless_dynarray.c
index f27d7c9..9ea9c93 100644
--- a/src/pointless_dynarray.c
+++ b/src/pointless_dynarray.c
@@ -1,4 +1,5 @@
 #include <pointless/pointless_dynarray.h>
+#include <pointless/pointless_contracts.h>
 
 void pointless_dynarray_init(pointless_dynarray_t* a, size_t item_size)
 {
@@ -67,7 +68,9 @@ int pointless_dynarray_push_bulk(pointless_dynarray_t* a, void* i, size_t n_item
 	if (n_items > SIZE_MAX - a->n_items)
 		return 0;
 
-	while (a->n_items + n_items > a->n_alloc) {
+	while (a->n_items + n_items > a->n_alloc)
+	POINTLESS_LOOP(dynarray_push_bulk, a)
+	{
 		if (!pointless_dynarray_grow(a))
 			return 0;
 	}
@@ -131,7 +134,9 @@ void pointless_dynarray_swap(pointless_dynarray_t* a, size_t i, size_t j)
 
 	uint8_t* D = (uint8_t*)a->_data;
 
-	for (k = 0; k < a->item_size; k++, i++, j++) {
+	for (k = 0; k < a->item_size; k++, i++, j++)
+	POINTLESS_LOOP(dynarray_swap, a, i, j, k)
+	{
 		uint8_t t = D[i];
 		D[i] = D[j];
 		D[j] = t;
-- 
2.43.0


From faf171289e9666a0cbddbe078ae000dccf1fc9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 32/69] hook: loop contract hooks for string conversions

---
 src/pointless_unicode_utils.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/pointless_unicode_utils.c b/src/pointless_unicode_utils.c
index ae827b9..515368c 100644
--- a/src/pointless_unicode_utils.c
+++ b/src/pointless_unicode_utils.c
@@ -1,8 +1,9 @@
 #include <pointless/pointless_unicode_utils.h>
+#include <pointless/pointless_contracts.h>
 
-#define POINTLESS_BELOW_RANGE(s, i_max) do {while (*(s) && *(s) <= (i_max)) (s)++; return (*(s) == 0);} while (0);
-#define POINTLESS_STRING_LEN(s) do {size_t i = 0; while (*(s)) {(s)++; i++;} return i;} while (0);
-#define POINTLESS_STRING_CPY(dst, src) do {while (*(src)) {*(dst++) = *(src++);} *(dst) = 0;} while (0);
+#define POINTLESS_BELOW_RANGE(s, i_max) do {POINTLESS_GHOST(unicode_begin, s) while (*(s) && *(s) <= (i_max)) POINTLESS_LOOP(unicode_range, s) {(s)++; POINTLESS_GHOST(unicode, s)} return (*(s) == 0);} while (0);
+#define POINTLESS_STRING_LEN(s) do {size_t i = 0; while (*(s)) POINTLESS_LOOP(unicode_len, s, i) {(s)++; i++; POINTLESS_GHOST(unicode, s)} return i;} while (0);
+#define POINTLESS_STRING_CPY(dst, src) do {POINTLESS_GHOST(unicode_begin, src) while (*(src)) POINTLESS_LOOP(unicode_cpy, dst, src) {POINTLESS_GHOST(unicode_pin, src, dst) *(dst++) = *(src++); POINTLESS_GHOST(unicode, src)} *(dst) = 0;} while (0);
 
 int pointless_is_ucs4_ascii(uint32_t* s)
 	{ POINTLESS_BELOW_RANGE(s, UINT8_MAX); }
@@ -41,8 +42,11 @@ uint8_t* pointless_ucs4_to_ascii(uint32_t* ucs4)
 
 	uint8_t* ascii = ascii_;
 
-	while (*ucs4)
+	while (*ucs4) POINTLESS_LOOP(unicode_conv, ucs4, ascii, ascii_) {
+		POINTLESS_GHOST(unicode_pin, ucs4, ascii)
 		*ascii++ = (uint8_t)*ucs4++;
+		POINTLESS_GHOST(unicode, ucs4)
+	}
 
 	*ascii = 0;
 	return ascii_;
@@ -65,8 +69,11 @@ uint32_t* pointless_ucs2_to_ucs4(uint16_t* ucs2)
 
 	uint32_t* ucs4 = ucs4_;
 
-	while (*ucs2)
+	while (*ucs2) POINTLESS_LOOP(unicode_conv, ucs2, ucs4, ucs4_) {
+		POINTLESS_GHOST(unicode_pin, ucs2, ucs4)
 		*ucs4++ = (uint32_t)*ucs2++;
+		POINTLESS_GHOST(unicode, ucs2)
+	}
 
 	*ucs4 = 0;
 	return ucs4_;
@@ -83,8 +90,11 @@ uint8_t* pointless_ucs2_to_ascii(uint16_t* ucs2)
 
 	uint8_t* ascii = ascii_;
 
-	while (*ucs2)
+	while (*ucs2) POINTLESS_LOOP(unicode_conv, ucs2, ascii, ascii_) {
+		POINTLESS_GHOST(unicode_pin, ucs2, ascii)
 		*ascii++ = (uint16_t)*ucs2++;
+		POINTLESS_GHOST(unicode, ucs2)
+	}
 
 	*ascii = 0;
 	return ascii_;
@@ -107,8 +117,11 @@ uint32_t* pointless_ascii_to_ucs4(uint8_t* ascii)
 
 	uint32_t* ucs4 = ucs4_;
 
-	while (*ascii)
+	while (*ascii) POINTLESS_LOOP(unicode_conv, ascii, ucs4, ucs4_) {
+		POINTLESS_GHOST(unicode_pin, ascii, ucs4)
 		*ucs4++ = (uint32_t)*ascii++;
+		POINTLESS_GHOST(unicode, ascii)
+	}
 
 	*ucs4 = 0;
 	return ucs4_;
-- 
2.43.0


From dc2bfddf6c06c82667b1312c53207771b6d7ece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 33/69] hook: loop contracts in string heap validation

---
 src/pointless_validate_heap.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pointless_validate_heap.c b/src/pointless_validate_heap.c
index 4059f68..f053c72 100644
--- a/src/pointless_validate_heap.c
+++ b/src/pointless_validate_heap.c
@@ -1,4 +1,5 @@
 #include <pointless/pointless_validate.h>
+#include <pointless/pointless_contracts.h>
 
 static int pointless_require_heap(pointless_validate_context_t* context, uint64_t offset, uint64_t n_bytes)
 {
@@ -113,7 +114,11 @@ static int32_t pointless_validate_unicode_heap(pointless_validate_context_t* con
 
 	uint64_t i;
 
-	for (i = 0; i < *s_len; i++) {
+	for (i = 0; i < *s_len; i++)
+	POINTLESS_LOOP(validate_string, s, i, *s_len)
+	{
+		POINTLESS_GHOST(validate_string, s, i)
+
 		if (s[i] == 0) {
 			*error = "premature end-of-unicode";
 			return 0;
@@ -152,7 +157,11 @@ static int32_t pointless_validate_string_heap(pointless_validate_context_t* cont
 
 	uint64_t i;
 
-	for (i = 0; i < *s_len; i++) {
+	for (i = 0; i < *s_len; i++)
+	POINTLESS_LOOP(validate_string, s, i, *s_len)
+	{
+		POINTLESS_GHOST(validate_string, s, i)
+
 		if (s[i] == 0) {
 			*error = "premature end-of-string";
 			return 0;
-- 
2.43.0


From 3665bfc3a7a73052fee25523005522a2277ebf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 34/69] hook: loop contracts in the hash table

---
 src/pointless_hash_table.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/pointless_hash_table.c b/src/pointless_hash_table.c
index e9559cf..030fb47 100644
--- a/src/pointless_hash_table.c
+++ b/src/pointless_hash_table.c
@@ -1,4 +1,5 @@
 #include <pointless/pointless_hash_table.h>
+#include <pointless/pointless_contracts.h>
 
 static uint32_t next_power_of_2(uint64_t n)
 {
@@ -35,7 +36,11 @@ static uint32_t pointless_hash_table_probe_priv(pointless_t* p, uint32_t value_h
 	// 3) PERTURB_SHIFT is set to 5
 	uint32_t perturb = value_hash, i = value_hash, mask = n_buckets - 1, bucket;
 
-	while (1) {
+	POINTLESS_GHOST(probe_begin, i, perturb)
+
+	while (1)
+	POINTLESS_LOOP(probe, i, perturb, bucket, error)
+	{
 		bucket = i & mask;
 
 		// we hit an empty bucket
@@ -66,6 +71,8 @@ static uint32_t pointless_hash_table_probe_priv(pointless_t* p, uint32_t value_h
 		// compute recurrence
 		i = (i << 2) + i + perturb + 1;
 		perturb >>= 5;
+
+		POINTLESS_GHOST(probe_step, i, perturb)
 	}
 
 	// will never reach here
@@ -117,14 +124,18 @@ int pointless_hash_table_populate(pointless_create_t* c, uint32_t* hash_vector,
 		return 0;
 	}
 
-	for (j = 0; j < n_keys; j++) {
+	for (j = 0; j < n_keys; j++)
+	POINTLESS_LOOP(populate_keys, j)
+	{
 		if (keys_vector[j] == empty_slot_handle) {
 			*error = "pointless_hash_table_populate(): internal invariant error A";
 			return 0;
 		}
 	}
 
-	for (j = 0; j < n_buckets; j++) {
+	for (j = 0; j < n_buckets; j++)
+	POINTLESS_LOOP(populate_buckets, j)
+	{
 		if (hash_serialize[j] != 0) {
 			*error = "pointless_hash_table_populate(): internal invariant error B";
 			return 0;
@@ -146,14 +157,20 @@ int pointless_hash_table_populate(pointless_create_t* c, uint32_t* hash_vector,
 	int32_t cmp;
 	uint32_t value_hash, perturb, bucket, i, mask = n_buckets - 1;
 
-	for (j = 0; j < n_keys; j++) {
+	for (j = 0; j < n_keys; j++)
+	POINTLESS_LOOP(populate_all, j, i, perturb, bucket, cmp, value_hash, error)
+	{
 		// NOTE: basically same code as above
 		value_hash = hash_vector[j];
 		perturb = value_hash;
 		i = value_hash;
 
+		POINTLESS_GHOST(populate_begin, j)
+
 		// find an empty slot
-		while (1) {
+		while (1)
+		POINTLESS_LOOP(populate_probe, j, i, perturb, bucket, cmp, error)
+		{
 			bucket = i & mask;
 
 			// we hit an empty bucket
@@ -164,6 +181,7 @@ int pointless_hash_table_populate(pointless_create_t* c, uint32_t* hash_vector,
 				if (values_serialize)
 					values_serialize[bucket] = values_vector[j];
 
+				POINTLESS_GHOST(populate_store, j, bucket)
 				break;
 			}
 
@@ -183,6 +201,8 @@ int pointless_hash_table_populate(pointless_create_t* c, uint32_t* hash_vector,
 			// probe on
 			i = (i << 2) + i + perturb + 1;
 			perturb >>= 5;
+
+			POINTLESS_GHOST(populate_step, j)
 		}
 	}
 
-- 
2.43.0


From 94290680276c75cd32143fb79ba27a6f2344c68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 35/69] fix: iterating over the entries with a given hash
 yields each entry once

The probe sequence visits buckets more than once while the perturbation is
non-zero, so e.g. the only entry of a map was returned repeatedly for an odd hash.
---
 include/pointless/pointless_hash_table.h |  1 +
 src/pointless_hash_table.c               | 48 +++++++++++++++++++-----
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/include/pointless/pointless_hash_table.h b/include/pointless/pointless_hash_table.h
index d3b97bd..8f086f7 100644
--- a/include/pointless/pointless_hash_table.h
+++ b/include/pointless/pointless_hash_table.h
@@ -19,6 +19,7 @@ typedef struct {
 	uint32_t perturb;
 	uint32_t i;
 	uint32_t mask;
+	uint32_t hash;
 } pointless_hash_iter_state_t;
 
 uint32_t pointless_hash_compute_n_buckets(uint32_t n_items);
diff --git a/src/pointless_hash_table.c b/src/pointless_hash_table.c
index 030fb47..7959e4b 100644
--- a/src/pointless_hash_table.c
+++ b/src/pointless_hash_table.c
@@ -86,23 +86,51 @@ void pointless_hash_table_probe_hash_init(pointless_t* p, uint32_t value_hash, u
 	state->perturb = value_hash;
 	state->i = value_hash;
 	state->mask = n_buckets - 1;
+	state->hash = value_hash;
+}
+
+// while perturb is non-zero, the recurrence may visit the same bucket more than once, and buckets
+// visited during that phase will be visited again later on
+static uint32_t pointless_hash_table_probe_hash_is_revisit(pointless_hash_iter_state_t* state)
+{
+	uint32_t i = state->hash, perturb = state->hash;
+
+	while (i != state->i || perturb != state->perturb) {
+		if ((i & state->mask) == (state->i & state->mask))
+			return 1;
+
+		// all the buckets from here on are distinct
+		if (perturb == 0)
+			return 0;
+
+		i = (i << 2) + i + perturb + 1;
+		perturb >>= 5;
+	}
+
+	return 0;
 }
 
 uint32_t pointless_hash_table_probe_hash(pointless_t* p, uint32_t* hash_vector, pointless_value_t* key_vector, pointless_hash_iter_state_t* state, uint32_t* bucket_out)
 {
-	uint32_t bucket = state->i & state->mask;
+	while (1) {
+		uint32_t bucket = state->i & state->mask;
 
-	// we're at an empty bucket
-	if (key_vector[bucket].type == POINTLESS_EMPTY_SLOT)
-		return 0;
+		// we're at an empty bucket
+		if (key_vector[bucket].type == POINTLESS_EMPTY_SLOT)
+			return 0;
 
-	// compute recurrence
-	state->i = (state->i << 2) + state->i + state->perturb + 1;
-	state->perturb >>= 5;
+		uint32_t is_revisit = pointless_hash_table_probe_hash_is_revisit(state);
 
-	// return bucket
-	*bucket_out = bucket;
-	return 1;
+		// compute recurrence
+		state->i = (state->i << 2) + state->i + state->perturb + 1;
+		state->perturb >>= 5;
+
+		// return bucket
+		if (!is_revisit) {
+			*bucket_out = bucket;
+			return 1;
+		}
+	}
 }
 
 uint32_t pointless_hash_table_probe(pointless_t* p, uint32_t value_hash, pointless_value_t* value, uint32_t n_buckets, uint32_t* hash_vector, pointless_value_t* key_vector, const char** error)
-- 
2.43.0


From 68acc9f55882aaee1f03f8e31540e6ed34030d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 36/69] hook: loop contracts in the iterators

---
 src/pointless_hash_table.c |  6 +++++-
 src/pointless_reader.c     | 17 +++++++++++++----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/pointless_hash_table.c b/src/pointless_hash_table.c
index 7959e4b..7948d9c 100644
--- a/src/pointless_hash_table.c
+++ b/src/pointless_hash_table.c
@@ -112,7 +112,9 @@ static uint32_t pointless_hash_table_probe_hash_is_revisit(pointless_hash_iter_s
 
 uint32_t pointless_hash_table_probe_hash(pointless_t* p, uint32_t* hash_vector, pointless_value_t* key_vector, pointless_hash_iter_state_t* state, uint32_t* bucket_out)
 {
-	while (1) {
+	while (1)
+	POINTLESS_LOOP(probe_hash, state)
+	{
 		uint32_t bucket = state->i & state->mask;
 
 		// we're at an empty bucket
@@ -125,6 +127,8 @@ uint32_t pointless_hash_table_probe_hash(pointless_t* p, uint32_t* hash_vector,
 		state->i = (state->i << 2) + state->i + state->perturb + 1;
 		state->perturb >>= 5;
 
+		POINTLESS_GHOST(probe_hash_step, state)
+
 		// return bucket
 		if (!is_revisit) {
 			*bucket_out = bucket;
diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 4612536..581d428 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -1,4 +1,5 @@
 #include <pointless/pointless_reader.h>
+#include <pointless/pointless_contracts.h>
 
 static int pointless_init(pointless_t* p, void* buf, uint64_t buflen, int do_validate, const char** error)
 {
@@ -405,7 +406,9 @@ uint32_t pointless_reader_set_iter(pointless_t* p, pointless_value_t* s, pointle
 	assert(header->key_vector.type == POINTLESS_VECTOR_VALUE_HASHABLE);
 	uint32_t n_buckets = pointless_reader_vector_n_items(p, &header->key_vector);
 
-	while (*iter_state < n_buckets) {
+	while (*iter_state < n_buckets)
+	POINTLESS_LOOP(iter_set, *iter_state, n_buckets, *k)
+	{
 		*k = &pointless_reader_vector_value(p, &header->key_vector)[*iter_state];
 		*iter_state += 1;
 
@@ -517,7 +520,9 @@ uint32_t pointless_reader_map_iter(pointless_t* p, pointless_value_t* m, pointle
 	uint32_t n_buckets = pointless_reader_vector_n_items(p, &header->key_vector);
 	assert((size_t)header % 4 == 0);
 
-	while (*iter_state < n_buckets) {
+	while (*iter_state < n_buckets)
+	POINTLESS_LOOP(iter_map, *iter_state, n_buckets, *k, *v)
+	{
 		*k = &pointless_reader_vector_value(p, &header->key_vector)[*iter_state];
 		*v = &pointless_reader_vector_value(p, &header->value_vector)[*iter_state];
 		*iter_state += 1;
@@ -557,7 +562,9 @@ uint32_t pointless_reader_map_iter_hash(pointless_t* p, pointless_value_t* m, ui
 	// probe until we hit an empty bucket, or a matching hash(again)
 	uint32_t bucket_out = 0;
 
-	while (pointless_hash_table_probe_hash(p, hash_vector, key_vector, iter_state, &bucket_out)) {
+	while (pointless_hash_table_probe_hash(p, hash_vector, key_vector, iter_state, &bucket_out))
+	POINTLESS_LOOP(iter_hash, bucket_out)
+	{
 		if (hash_vector[bucket_out] == hash) {
 			*kk = &key_vector[bucket_out];
 			*vv = &value_vector[bucket_out];
@@ -594,7 +601,9 @@ uint32_t pointless_reader_set_iter_hash(pointless_t* p, pointless_value_t* s, ui
 	// probe until we hit an empty bucket, or a matching hash(again)
 	uint32_t bucket_out = 0;
 
-	while (pointless_hash_table_probe_hash(p, hash_vector, key_vector, iter_state, &bucket_out)) {
+	while (pointless_hash_table_probe_hash(p, hash_vector, key_vector, iter_state, &bucket_out))
+	POINTLESS_LOOP(iter_hash, bucket_out)
+	{
 		if (hash_vector[bucket_out] == hash) {
 			*kk = &key_vector[bucket_out];
 			return 1;
-- 
2.43.0


From fbc6bbad617dd47c686f9df74687f31b467570eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 37/69] hook: loop contracts in the sort

---
 src/custom_sort.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/custom_sort.c b/src/custom_sort.c
index 993c6a9..b7f6e31 100644
--- a/src/custom_sort.c
+++ b/src/custom_sort.c
@@ -1,4 +1,5 @@
 #include <pointless/custom_sort.h>
+#include <pointless/pointless_contracts.h>
 
 static int cmp_adapter(int a, int b, qsort_cmp_ cmp, void* user, int* is_error)
 {
@@ -50,7 +51,9 @@ loop:
 
 	presorted = 1;
 
-	for (pm = a + 1; pm < a + n; pm += 1) {
+	for (pm = a + 1; pm < a + n; pm += 1)
+	POINTLESS_LOOP(sort_presorted, a, n, pm, is_error, presorted)
+	{
 		if (cmp_adapter(pm - 1, pm, cmp, user, &is_error) > 0) {
 			if (is_error)
 				return 0;
@@ -89,12 +92,17 @@ loop:
 	}
 
 	(*swap)(a, pm, user);
+	POINTLESS_GHOST(sort_pivot, a)
 
 	pa = pb = a + 1;
 	pc = pd = a + (n - 1);
 
-	for (;;) {
-		while (pb <= pc && (r = cmp_adapter(pb, a, cmp, user, &is_error)) <= 0) {
+	for (;;)
+	POINTLESS_LOOP(sort_partition, a, n, pa, pb, pc, pd, r, is_error)
+	{
+		while (pb <= pc && (r = cmp_adapter(pb, a, cmp, user, &is_error)) <= 0)
+		POINTLESS_LOOP(sort_left, a, n, pa, pb, pc, pd, r, is_error)
+		{
 			if (is_error)
 				return 0;
 
@@ -109,7 +117,9 @@ loop:
 		if (is_error)
 			return 0;
 
-		while (pb <= pc && (r = cmp_adapter(pc, a, cmp, user, &is_error)) >= 0) {
+		while (pb <= pc && (r = cmp_adapter(pc, a, cmp, user, &is_error)) >= 0)
+		POINTLESS_LOOP(sort_right, a, n, pa, pb, pc, pd, r, is_error)
+		{
 			if (is_error)
 				return 0;
 
@@ -137,20 +147,28 @@ loop:
 
 	// vecswap(a, pb - r, r);
 	for (i = 0; i < r; i++)
+	POINTLESS_LOOP(sort_vecswap_a, a, n, pa, pb, pc, pd, r, i)
 		(*swap)(a + i, pb - r + i, user);
 
 	r = SIMPLE_MIN(pd - pc, pn - pd - 1);
 
 	// vecswap(pb, pn - r, r);
 	for (i = 0; i < r; i++)
+	POINTLESS_LOOP(sort_vecswap_b, a, n, pa, pb, pc, pd, r, i)
 		(*swap)(pb + i, pn - r + i, user);
 
 	if ((r = pb - pa) > 1) {
+		POINTLESS_GHOST(sort_rec, a, n, r)
+
 		if (!bentley_qsort_priv(a, r, cmp, swap, user))
 			return 0;
 	}
 
+	POINTLESS_GHOST(sort_rec_done)
+
 	if ((r = pd - pc) > 1) {
+		POINTLESS_GHOST(sort_tail, pn - r, r, n, cmp, swap, user)
+
 		a = pn - r;
 		n = r;
 		goto loop;
-- 
2.43.0


From 0541674d8a293358f524fa507ed3aa29ab705a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 38/69] hook: loop contracts in the sort, partition steps

---
 src/custom_sort.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/custom_sort.c b/src/custom_sort.c
index b7f6e31..938d09a 100644
--- a/src/custom_sort.c
+++ b/src/custom_sort.c
@@ -34,8 +34,12 @@ loop:
 	is_error = 0;
 
 	if (n < 7) {
-		for (pm = a + 1; pm < a + n; pm += 1) {
-			for (pl = pm; pl > a && cmp_adapter(pl - 1, pl, cmp, user, &is_error) > 0; pl -= 1) {
+		for (pm = a + 1; pm < a + n; pm += 1)
+		POINTLESS_LOOP(sort_insert, a, n, pm, pl, is_error)
+		{
+			for (pl = pm; pl > a && cmp_adapter(pl - 1, pl, cmp, user, &is_error) > 0; pl -= 1)
+			POINTLESS_LOOP(sort_insert_down, a, n, pm, pl, is_error)
+			{
 				if (is_error)
 					return 0;
 
@@ -92,11 +96,12 @@ loop:
 	}
 
 	(*swap)(a, pm, user);
-	POINTLESS_GHOST(sort_pivot, a)
 
 	pa = pb = a + 1;
 	pc = pd = a + (n - 1);
 
+	POINTLESS_GHOST(sort_pivot, a, n, pa, pb, pc, pd)
+
 	for (;;)
 	POINTLESS_LOOP(sort_partition, a, n, pa, pb, pc, pd, r, is_error)
 	{
@@ -112,6 +117,7 @@ loop:
 			}
 
 			pb += 1;
+			POINTLESS_GHOST(sort_step, a, n, pa, pb, pc, pd)
 		}
 
 		if (is_error)
@@ -129,6 +135,7 @@ loop:
 			}
 
 			pc -= 1;
+			POINTLESS_GHOST(sort_step, a, n, pa, pb, pc, pd)
 		}
 
 		if (is_error)
@@ -140,22 +147,31 @@ loop:
 		(*swap)(pb, pc, user);
 		pb += 1;
 		pc -= 1;
+		POINTLESS_GHOST(sort_step, a, n, pa, pb, pc, pd)
 	}
 
 	pn = a + n;
 	r = SIMPLE_MIN(pa - a, pb - pa);
+	POINTLESS_GHOST(sort_vecswap_a, a, n, pa, pb, pc, pd, r, 0)
 
 	// vecswap(a, pb - r, r);
 	for (i = 0; i < r; i++)
 	POINTLESS_LOOP(sort_vecswap_a, a, n, pa, pb, pc, pd, r, i)
+	{
 		(*swap)(a + i, pb - r + i, user);
+		POINTLESS_GHOST(sort_vecswap_a, a, n, pa, pb, pc, pd, r, i + 1)
+	}
 
 	r = SIMPLE_MIN(pd - pc, pn - pd - 1);
+	POINTLESS_GHOST(sort_vecswap_b, a, n, pa, pb, pc, pd, r, 0)
 
 	// vecswap(pb, pn - r, r);
 	for (i = 0; i < r; i++)
 	POINTLESS_LOOP(sort_vecswap_b, a, n, pa, pb, pc, pd, r, i)
+	{
 		(*swap)(pb + i, pn - r + i, user);
+		POINTLESS_GHOST(sort_vecswap_b, a, n, pa, pb, pc, pd, r, i + 1)
+	}
 
 	if ((r = pb - pa) > 1) {
 		POINTLESS_GHOST(sort_rec, a, n, r)
-- 
2.43.0


From dbc2e42220efb8ff2385395084a90f89151ebe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:44 +0000
Subject: [PATCH 39/69] fix: any-set query of an uncompressed bitvector no
 longer tests the length word as bits

---
 include/pointless/pointless_bitvector.h | 2 +-
 src/pointless_bitvector.c               | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pointless/pointless_bitvector.h b/include/pointless/pointless_bitvector.h
index 12e1c1c..37fc255 100644
--- a/include/pointless/pointless_bitvector.h
+++ b/include/pointless/pointless_bitvector.h
@@ -4,7 +4,7 @@
 #include <pointless/bitutils.h>
 #include <pointless/pointless_defs.h>
 
-uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, void* bits);
+uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, void* buffer);
 
 uint32_t pointless_bitvector_n_bits(uint32_t t, pointless_value_data_t* v, void* buffer);
 uint32_t pointless_bitvector_is_set(uint32_t t, pointless_value_data_t* v, void* buffer, uint32_t bit);
diff --git a/src/pointless_bitvector.c b/src/pointless_bitvector.c
index 607ce02..4348dd8 100644
--- a/src/pointless_bitvector.c
+++ b/src/pointless_bitvector.c
@@ -22,7 +22,7 @@ static uint32_t pointless_bitvector_is_set_bits(uint32_t t, pointless_value_data
 	return 0;
 }
 
-uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, void* bits)
+uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, void* buffer)
 {
 	// easy stuff
 	switch (t) {
@@ -38,10 +38,10 @@ uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, v
 
 	// otherwise, just do bitwise test
 	uint64_t i;
-	uint32_t n = pointless_bitvector_n_bits(t, v, bits);
+	uint32_t n = pointless_bitvector_n_bits(t, v, buffer);
 
 	for (i = 0; i < n; i++) {
-		if (pointless_bitvector_is_set_bits(t, v, bits, i))
+		if (pointless_bitvector_is_set(t, v, buffer, i))
 			return 1;
 	}
 
-- 
2.43.0


From 2d7d952fbc9c48e3c89faa090f5c07326dbdc6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 40/69] fix: equal bitvectors are stored once, whatever the
 unused bits of their last byte

---
 src/pointless_create.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 19669d6..63acc3a 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1915,6 +1915,10 @@ static uint32_t pointless_create_bitvector_(pointless_create_t* c, void* v, uint
 	*((uint32_t*)buffer) = n_bits;
 	memcpy((uint32_t*)buffer + 1, v, ICEIL(n_bits, 8));
 
+	// unused bits of the last byte are not part of the value
+	if (n_bits % 8)
+		((unsigned char*)buffer)[buffer_len - 1] &= (1 << (n_bits % 8)) - 1;
+
 	// try to find if we already have it
 	if (normalize) {
 		Pvoid_t prev_ref = (Pvoid_t)JudyHSGet(c->bitvector_map_judy, buffer, buffer_len);
-- 
2.43.0


From 52ea634d96dbbc4311fcb4d7237cfc2df9a90df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:52 +0000
Subject: [PATCH 41/69] hook: loop contracts for bitvectors

---
 src/pointless_bitvector.c | 33 +++++++++++++++++++++++++--------
 src/pointless_create.c    | 15 ++++++++++++---
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/pointless_bitvector.c b/src/pointless_bitvector.c
index 4348dd8..baa7821 100644
--- a/src/pointless_bitvector.c
+++ b/src/pointless_bitvector.c
@@ -1,4 +1,5 @@
 #include <pointless/pointless_bitvector.h>
+#include <pointless/pointless_contracts.h>
 
 static uint32_t pointless_bitvector_is_set_bits(uint32_t t, pointless_value_data_t* v, void* bits, uint32_t bit)
 {
@@ -40,7 +41,9 @@ uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, v
 	uint64_t i;
 	uint32_t n = pointless_bitvector_n_bits(t, v, buffer);
 
-	for (i = 0; i < n; i++) {
+	for (i = 0; i < n; i++)
+	POINTLESS_LOOP(bitvector_any, i, n)
+	{
 		if (pointless_bitvector_is_set(t, v, buffer, i))
 			return 1;
 	}
@@ -79,11 +82,15 @@ uint32_t pointless_bitvector_hash_32_priv(uint32_t t, pointless_value_data_t* v,
 	uint64_t i = 0;
 	uint32_t b = 0, h = 1, j;
 
-	while (i < n_bits) {
+	while (i < n_bits)
+	POINTLESS_LOOP(bitvector_hash, i, n_bits, h, b, j)
+	{
 		b = 0;
 		j = 0;
 
-		while (j < 8 && i < n_bits) {
+		while (j < 8 && i < n_bits)
+		POINTLESS_LOOP(bitvector_hash_byte, i, n_bits, h, b, j)
+		{
 			if (pointless_bitvector_is_set_bits(t, v, bits, i))
 				b |= (1 << j);
 
@@ -101,11 +108,15 @@ uint64_t pointless_bitvector_hash_64_priv(uint32_t t, pointless_value_data_t* v,
 {
 	uint64_t b = 0, i = 0, h = 1, j;
 
-	while (i < n_bits) {
+	while (i < n_bits)
+	POINTLESS_LOOP(bitvector_hash, i, n_bits, h, b, j)
+	{
 		b = 0;
 		j = 0;
 
-		while (j < 8 && i < n_bits) {
+		while (j < 8 && i < n_bits)
+		POINTLESS_LOOP(bitvector_hash_byte, i, n_bits, h, b, j)
+		{
 			if (pointless_bitvector_is_set_bits(t, v, bits, i))
 				b |= (1 << j);
 
@@ -161,7 +172,9 @@ int32_t pointless_bitvector_cmp_buffer_buffer(uint32_t t_a, pointless_value_data
 	uint64_t i;
 	uint32_t ba, bb;
 
-	for (i = 0; i < n_bits; i++) {
+	for (i = 0; i < n_bits; i++)
+	POINTLESS_LOOP(bitvector_cmp, i, n_bits, ba, bb)
+	{
 		ba = pointless_bitvector_is_set(t_a, v_a, buffer_a, i);
 		bb = pointless_bitvector_is_set(t_b, v_b, buffer_b, i);
 
@@ -179,7 +192,9 @@ int32_t pointless_bitvector_cmp_bits_buffer(uint32_t n_bits_a, void* bits_a, poi
 	uint64_t i;
 	uint32_t ba, bb;
 
-	for (i = 0; i < n_bits; i++) {
+	for (i = 0; i < n_bits; i++)
+	POINTLESS_LOOP(bitvector_cmp, i, n_bits, ba, bb)
+	{
 		ba = (bm_is_set_(bits_a, i) != 0);
 		bb = pointless_bitvector_is_set(v_b->type, &v_b->data, buffer_b, i);
 
@@ -197,7 +212,9 @@ int32_t pointless_bitvector_cmp_buffer_bits(pointless_value_t* v_a, void* buffer
 	uint64_t i;
 	uint32_t ba, bb;
 
-	for (i = 0; i < n_bits; i++) {
+	for (i = 0; i < n_bits; i++)
+	POINTLESS_LOOP(bitvector_cmp, i, n_bits, ba, bb)
+	{
 		ba = pointless_bitvector_is_set(v_a->type, &v_a->data, buffer_a, i);
 		bb = (bm_is_set_(bits_b, i) != 0);
 
diff --git a/src/pointless_create.c b/src/pointless_create.c
index 63acc3a..f00a5ef 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1,4 +1,5 @@
 #include <pointless/pointless_create.h>
+#include <pointless/pointless_contracts.h>
 
 typedef struct {
 	int (*write)(void* data, size_t datalen, void* user, const char** error);
@@ -1756,6 +1757,7 @@ static int pointless_bitvector_is_all_1(void* v, uint32_t n_bits)
 	uint32_t i;
 
 	for (i = 0; i < n_bits; i++)
+	POINTLESS_LOOP(bv_all_1, i, n_bits)
 		if (!bm_is_set_(v, i))
 			return 0;
 
@@ -1767,6 +1769,7 @@ static int pointless_bitvector_is_all_0(void* v, uint32_t n_bits)
 	uint32_t i;
 
 	for (i = 0; i < n_bits; i++)
+	POINTLESS_LOOP(bv_all_0, i, n_bits)
 		if (bm_is_set_(v, i))
 			return 0;
 
@@ -1777,7 +1780,9 @@ static int pointless_bitvector_is_01(void* v, uint32_t n_bits, uint32_t* n_bits_
 {
 	uint32_t n_0 = 0, n_1 = 0, i;
 
-	for (i = 0; i < n_bits; i++) {
+	for (i = 0; i < n_bits; i++)
+	POINTLESS_LOOP(bv_01, i, n_bits, n_0, n_1)
+	{
 		// (0|1) -> 1 good
 		if (bm_is_set_(v, i)) {
 			n_1 += 1;
@@ -1800,7 +1805,9 @@ static int pointless_bitvector_is_10(void* v, uint32_t n_bits, uint32_t* n_bits_
 {
 	uint32_t n_1 = 0, n_0 = 0, i;
 
-	for (i = 0; i < n_bits; i++) {
+	for (i = 0; i < n_bits; i++)
+	POINTLESS_LOOP(bv_10, i, n_bits, n_0, n_1)
+	{
 		// (0|1) -> 0 good
 		if (!bm_is_set_(v, i)) {
 			n_0 += 1;
@@ -1869,7 +1876,9 @@ static uint32_t pointless_create_bitvector_(pointless_create_t* c, void* v, uint
 		uint32_t i;
 
 		// yes, this is hacky, might cause problems with bitfield semantics in GCC
-		for (i = 0; i < n_bits; i++) {
+		for (i = 0; i < n_bits; i++)
+		POINTLESS_LOOP(bv_packed, i, n_bits, value)
+		{
 			if (bm_is_set_(v, i))
 				bm_set_((void*)&value.data.data_u32, i + 5);
 		}
-- 
2.43.0


From 022f1c2c6f1dde1b157a945916862d1f29163d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 42/69] fix: looking up a vector holding a set or map must
 fail, not crash

---
 include/pointless/pointless_defs.h |  1 +
 src/pointless_hash.c               | 16 ++++++++++++++++
 src/pointless_reader.c             |  4 ++--
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/pointless/pointless_defs.h b/include/pointless/pointless_defs.h
index 8168f68..29343d6 100644
--- a/include/pointless/pointless_defs.h
+++ b/include/pointless/pointless_defs.h
@@ -379,6 +379,7 @@ void pointless_vector_hash_next_32(pointless_vector_hash_state_32_t* state, uint
 uint32_t pointless_vector_hash_end_32(pointless_vector_hash_state_32_t* state);
 
 uint32_t pointless_is_hashable(uint32_t type);
+uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v);
 
 uint32_t pointless_hash_unicode_ucs4_v1_32(uint32_t* s);
 uint32_t pointless_hash_unicode_ucs2_v1_32(uint16_t* s);
diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index bfe46b7..d6bb486 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -472,6 +472,22 @@ uint32_t pointless_is_hashable(uint32_t type)
 	return (pointless_hash_reader_func_32(type) != 0);
 }
 
+// a vector of an hashable type may still hold values which are not hashable
+uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v)
+{
+	if (v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
+		uint32_t i, n_items = pointless_reader_vector_n_items(p, v);
+		pointless_value_t* items = pointless_reader_vector_value(p, v);
+
+		for (i = 0; i < n_items; i++) {
+			if (!pointless_is_hashable_reader(p, &items[i]))
+				return 0;
+		}
+	}
+
+	return pointless_is_hashable(v->type);
+}
+
 uint32_t pointless_hash_reader_32(pointless_t* p, pointless_value_t* v)
 {
 	assert(pointless_is_hashable(v->type));
diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 581d428..0d75871 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -422,7 +422,7 @@ uint32_t pointless_reader_set_iter(pointless_t* p, pointless_value_t* s, pointle
 void pointless_reader_set_lookup(pointless_t* p, pointless_value_t* s, pointless_value_t* k, pointless_value_t** kk, const char** error)
 {
 	// value must be hashable
-	if (!pointless_is_hashable(k->type)) {
+	if (!pointless_is_hashable_reader(p, k)) {
 		*error = "value is not hashable";
 		return;
 	}
@@ -616,7 +616,7 @@ uint32_t pointless_reader_set_iter_hash(pointless_t* p, pointless_value_t* s, ui
 void pointless_reader_map_lookup(pointless_t* p, pointless_value_t* m, pointless_value_t* k, pointless_value_t** kk, pointless_value_t** vv, const char** error)
 {
 	// value must be hashable
-	if (!pointless_is_hashable(k->type)) {
+	if (!pointless_is_hashable_reader(p, k)) {
 		*error = "value is not hashable";
 		return;
 	}
-- 
2.43.0


From e73eff3d1dfd2488e5fcc33ecfbc5af99207800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:28 +0000
Subject: [PATCH 43/69] fix: a set or map with a vector holding a set or map as
 key must fail, not crash

---
 include/pointless/pointless_defs.h |  1 +
 src/pointless_create.c             |  2 +-
 src/pointless_hash.c               | 16 ++++++++++++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/pointless/pointless_defs.h b/include/pointless/pointless_defs.h
index 29343d6..42c58f3 100644
--- a/include/pointless/pointless_defs.h
+++ b/include/pointless/pointless_defs.h
@@ -380,6 +380,7 @@ uint32_t pointless_vector_hash_end_32(pointless_vector_hash_state_32_t* state);
 
 uint32_t pointless_is_hashable(uint32_t type);
 uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v);
+uint32_t pointless_is_hashable_create(pointless_create_t* c, pointless_create_value_t* v);
 
 uint32_t pointless_hash_unicode_ucs4_v1_32(uint32_t* s);
 uint32_t pointless_hash_unicode_ucs2_v1_32(uint16_t* s);
diff --git a/src/pointless_create.c b/src/pointless_create.c
index f00a5ef..993004a 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -120,7 +120,7 @@ static int pointless_hash_table_create(pointless_create_t* c, uint32_t hash_tabl
 
 	// compute all the key hashes
 	for (i = 0; i < n_keys; i++) {
-		if (!pointless_is_hashable(cv_value_type(keys_vector_ptr[i]))) {
+		if (!pointless_is_hashable_create(c, cv_value_at(keys_vector_ptr[i]))) {
 			*error = "pointless_hash_table_create(): internal error: key not hashable";
 			goto cleanup;
 		}
diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index d6bb486..fd673b3 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -500,6 +500,22 @@ uint32_t pointless_hash_reader_vector_32(pointless_t* p, pointless_value_t* v, u
 	return pointless_hash_reader_vector_32_priv(p, v, i, n);
 }
 
+uint32_t pointless_is_hashable_create(pointless_create_t* c, pointless_create_value_t* v)
+{
+	// vectors of this type are neither compressed, nor outside vectors
+	if (v->header.type_29 == POINTLESS_VECTOR_VALUE_HASHABLE) {
+		uint32_t* items = (uint32_t*)cv_get_priv_vector(v)->vector._data;
+		size_t i, n_items = pointless_dynarray_n_items(&cv_get_priv_vector(v)->vector);
+
+		for (i = 0; i < n_items; i++) {
+			if (!pointless_is_hashable_create(c, cv_value_at(items[i])))
+				return 0;
+		}
+	}
+
+	return pointless_is_hashable(v->header.type_29);
+}
+
 uint32_t pointless_hash_create_32(pointless_create_t* c, pointless_create_value_t* v)
 {
 	assert(pointless_is_hashable(v->header.type_29));
-- 
2.43.0


From ded2bff0614a32d4b2252b4d2653ff7b338402f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:49 +0000
Subject: [PATCH 44/69] fix: hashing a stored vector holding a set or map must
 fail, not crash

---
 python/pointless_pyobject_hash.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/python/pointless_pyobject_hash.c b/python/pointless_pyobject_hash.c
index dae8d3c..92352a3 100644
--- a/python/pointless_pyobject_hash.c
+++ b/python/pointless_pyobject_hash.c
@@ -203,6 +203,19 @@ static uint32_t pyobject_hash_rec_32(PyObject* py_object, pyobject_hash_state_t*
 			return 0;
 		}
 
+		// vectors of this type may still hold values which are not hashable
+		if (v.type == POINTLESS_VECTOR_VALUE_HASHABLE) {
+			uint32_t i, n = ((PyPointlessVector*)py_object)->slice_n;
+			pointless_value_t* items = pointless_reader_vector_value(p, &v) + ((PyPointlessVector*)py_object)->slice_i;
+
+			for (i = 0; i < n; i++) {
+				if (!pointless_is_hashable_reader(p, &items[i])) {
+					*state->error = "pointless type is not hashable";
+					return 0;
+				}
+			}
+		}
+
 		return pointless_hash_reader_vector_32(p, &v, ((PyPointlessVector*)py_object)->slice_i, ((PyPointlessVector*)py_object)->slice_n);
 	}
 
-- 
2.43.0


From 524c900e8e7cb32172e83c7ab815f863d22d8634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:02 +0000
Subject: [PATCH 45/69] hook: loop contracts for vector compression and
 serialization

---
 src/pointless_create.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 993004a..f11baea 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -456,7 +456,9 @@ static int pointless_serialize_vector_priv(pointless_create_t* c, uint32_t vecto
 
 	uint32_t* items = (uint32_t*)cv_priv_vector_at(vector)->vector._data;
 
-	for (i = 0; i < n_items && !is_native; i++) {
+	for (i = 0; i < n_items && !is_native; i++)
+	POINTLESS_LOOP(serialize_items, i, n_items, value, w_len)
+	{
 		// uncompressed value vector
 		if (!is_compressed) {//is_uncompressed) {
 			// WARNING: we are using a pointer to a dynamic array, so during its scope, we must
@@ -614,7 +616,9 @@ static uint32_t pointless_create_vector_compression(pointless_create_t* c, uint3
 	size_t n_items = pointless_dynarray_n_items(&cv_priv_vector_at(vector)->vector);
 	uint32_t* items = (uint32_t*)cv_priv_vector_at(vector)->vector._data;
 
-	for (i = 0; i < n_items; i++) {
+	for (i = 0; i < n_items; i++)
+	POINTLESS_LOOP(compress, i, n_items, is_int, init_int, init_float, cur_int, min_int, max_int)
+	{
 		is_int = 0;
 
 		switch (cv_value_type(items[i])) {
-- 
2.43.0


From 12a71db18949c0e1a3cc4eb5c54a9002021adbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:26 +0000
Subject: [PATCH 46/69] fix: refuse to write sets and maps with keys that are
 not equal to themselves

---
 src/pointless_create.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index f11baea..8c6ebdd 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -131,6 +131,14 @@ static int pointless_hash_table_create(pointless_create_t* c, uint32_t hash_tabl
 			goto cleanup;
 		}
 
+		// a key which does not equal itself (NaN) could not be found again, and validation would reject it
+		if (pointless_cmp_create(c, keys_vector_ptr[i], keys_vector_ptr[i], error) != 0) {
+			if (*error == 0)
+				*error = "key in set/map is not equal to itself";
+
+			goto cleanup;
+		}
+
 		hash_vector[i] = pointless_hash_create_32(c, cv_value_at(keys_vector_ptr[i]));
 	}
 
-- 
2.43.0


From fa5ca91bfb88659e67223f67271187046646545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 47/69] fix: hash of a counted string of length 0 must not read
 the string

The lookup functions taking a counted string read one byte past it when its
length was 0, and hashed that byte, so that an empty key was not found.
---
 src/pointless_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index fd673b3..b296cda 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -6,7 +6,7 @@
 #include <pointless/pointless_bitvector.h>
 
 #define PYTHON_STRING_HASH_32(s, T)     { T* p = (s); size_t len = 0; uint32_t x = (uint32_t)(*p) << 7; while (*p)        {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
-#define PYTHON_STRING_HASH_32_(s, n, T) { T* p = (s); size_t len = 0; uint32_t x = (uint32_t)(*p) << 7; while (len < (n)) {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
+#define PYTHON_STRING_HASH_32_(s, n, T) { T* p = (s); size_t len = 0; uint32_t x = (n) ? (uint32_t)(*p) << 7 : 0; while (len < (n)) {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
 
 uint32_t pointless_hash_string_v1_32(uint8_t* s)
 {
-- 
2.43.0


From 84b28df3be03fd257a2b77520c71764c91bd86c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:03 +0000
Subject: [PATCH 48/69] hook: loop contracts for the hash functions

---
 src/pointless_hash.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index b296cda..45baddf 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -4,9 +4,10 @@
 #include <pointless/pointless_value.h>
 #include <pointless/pointless_reader.h>
 #include <pointless/pointless_bitvector.h>
+#include <pointless/pointless_contracts.h>
 
-#define PYTHON_STRING_HASH_32(s, T)     { T* p = (s); size_t len = 0; uint32_t x = (uint32_t)(*p) << 7; while (*p)        {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
-#define PYTHON_STRING_HASH_32_(s, n, T) { T* p = (s); size_t len = 0; uint32_t x = (n) ? (uint32_t)(*p) << 7 : 0; while (len < (n)) {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
+#define PYTHON_STRING_HASH_32(s, T)     { T* p = (s); size_t len = 0; uint32_t x = (uint32_t)(*p) << 7; while (*p)        POINTLESS_LOOP(hash_string, p, x, len) {x = (1000003 * x) ^ (uint32_t)(*p++); len++; POINTLESS_GHOST(hash_string, len)} return x ^ len;}
+#define PYTHON_STRING_HASH_32_(s, n, T) { T* p = (s); size_t len = 0; uint32_t x = (n) ? (uint32_t)(*p) << 7 : 0; while (len < (n)) POINTLESS_LOOP(hash_string, p, x, len) {x = (1000003 * x) ^ (uint32_t)(*p++); len++; POINTLESS_GHOST(hash_string, len)} return x ^ len;}
 
 uint32_t pointless_hash_string_v1_32(uint8_t* s)
 {
@@ -225,7 +226,9 @@ static uint32_t pointless_hash_reader_vector_32_priv(pointless_t* p, pointless_v
 	pointless_vector_hash_state_32_t state;
 	pointless_vector_hash_init_32(&state, n_items);
 
-	for (i = offset; i < n_items + offset; i++) {
+	for (i = offset; i < n_items + offset; i++)
+	POINTLESS_LOOP(hash_reader_vector, i, h, state)
+	{
 		switch (v->type) {
 			case POINTLESS_VECTOR_VALUE_HASHABLE:
 				h = pointless_hash_reader_32(p, pointless_reader_vector_value(p, v) + i);
@@ -297,7 +300,9 @@ static uint32_t pointless_hash_create_vector_32(pointless_create_t* c, pointless
 	pointless_vector_hash_state_32_t state;
 	pointless_vector_hash_init_32(&state, n_items);
 
-	for (i = 0; i < n_items; i++) {
+	for (i = 0; i < n_items; i++)
+	POINTLESS_LOOP(hash_create_vector, i, h, vv, state)
+	{
 		// if vector was value based, but is now compressed, we must typecast all values
 		if (v->header.is_compressed_vector) {
 			vv = &pointless_dynarray_ITEM_AT(pointless_create_value_t, &c->values, ((uint32_t*)items)[i]);
@@ -479,7 +484,9 @@ uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v)
 		uint32_t i, n_items = pointless_reader_vector_n_items(p, v);
 		pointless_value_t* items = pointless_reader_vector_value(p, v);
 
-		for (i = 0; i < n_items; i++) {
+		for (i = 0; i < n_items; i++)
+		POINTLESS_LOOP(is_hashable_reader, i, n_items)
+		{
 			if (!pointless_is_hashable_reader(p, &items[i]))
 				return 0;
 		}
@@ -507,7 +514,9 @@ uint32_t pointless_is_hashable_create(pointless_create_t* c, pointless_create_va
 		uint32_t* items = (uint32_t*)cv_get_priv_vector(v)->vector._data;
 		size_t i, n_items = pointless_dynarray_n_items(&cv_get_priv_vector(v)->vector);
 
-		for (i = 0; i < n_items; i++) {
+		for (i = 0; i < n_items; i++)
+		POINTLESS_LOOP(is_hashable_create, i, n_items)
+		{
 			if (!pointless_is_hashable_create(c, cv_value_at(items[i])))
 				return 0;
 		}
-- 
2.43.0


From de94e18dc30bcea92f40b257a636024cd29c5025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 49/69] hook: loop contracts for the lookup helpers

---
 src/pointless_reader_helpers.c | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/pointless_reader_helpers.c b/src/pointless_reader_helpers.c
index 38651a4..f8bd86a 100644
--- a/src/pointless_reader_helpers.c
+++ b/src/pointless_reader_helpers.c
@@ -1,4 +1,5 @@
 #include <pointless/pointless_reader_helpers.h>
+#include <pointless/pointless_contracts.h>
 
 typedef int (*check_k)(pointless_t* p, pointless_value_t* v, void* user);
 typedef int (*check_v)(pointless_t* p, pointless_value_t* v, void* user, void* out);
@@ -113,7 +114,9 @@ static int pointless_get_map_(pointless_t* p, pointless_value_t* map, uint32_t h
 	pointless_reader_map_iter_hash_init(p, map, hash, &iter_state);
 
 	// iterate
-	while (pointless_reader_map_iter_hash(p, map, hash, &kk, &vv, &iter_state)) {
+	while (pointless_reader_map_iter_hash(p, map, hash, &kk, &vv, &iter_state))
+	POINTLESS_LOOP(get_map, kk, vv, iter_state)
+	{
 		if ((*cb_k)(p, kk, user_k) && (*cb_v)(p, vv, user_v, out))
 			return 1;
 	}
@@ -134,7 +137,9 @@ static int pointless_get_set_(pointless_t* p, pointless_value_t* set, uint32_t h
 	pointless_reader_set_iter_hash_init(p, set, hash, &iter_state);
 
 	// iterate
-	while (pointless_reader_set_iter_hash(p, set, hash, &kk, &iter_state)) {
+	while (pointless_reader_set_iter_hash(p, set, hash, &kk, &iter_state))
+	POINTLESS_LOOP(get_set, kk, iter_state)
+	{
 		if ((*cb_k)(p, kk, user_k))
 			return 1;
 	}
@@ -363,14 +368,18 @@ int pointless_has_same_keys_set_map(pointless_t* p, pointless_value_t* s, pointl
 
 	iter_state = 0;
 
-	while (pointless_reader_set_iter(p, s, &kk, &iter_state)) {
+	while (pointless_reader_set_iter(p, s, &kk, &iter_state))
+	POINTLESS_LOOP(same_keys, kk, vv, iter_state)
+	{
 		if (!pointless_is_in_map_acyclic(p, m, kk))
 			return 0;
 	}
 
 	iter_state = 0;
 
-	while (pointless_reader_map_iter(p, m, &kk, &vv, &iter_state)) {
+	while (pointless_reader_map_iter(p, m, &kk, &vv, &iter_state))
+	POINTLESS_LOOP(same_keys, kk, vv, iter_state)
+	{
 		if (!pointless_is_in_set_acyclic(p, s, kk))
 			return 0;
 	}
@@ -394,14 +403,18 @@ int pointless_has_same_keys_map_map(pointless_t* p, pointless_value_t* m_a, poin
 
 	iter_state = 0;
 
-	while (pointless_reader_map_iter(p, m_a, &kk, &vv, &iter_state)) {
+	while (pointless_reader_map_iter(p, m_a, &kk, &vv, &iter_state))
+	POINTLESS_LOOP(same_keys, kk, vv, iter_state)
+	{
 		if (!pointless_is_in_map_acyclic(p, m_b, kk))
 			return 0;
 	}
 
 	iter_state = 0;
 
-	while (pointless_reader_map_iter(p, m_b, &kk, &vv, &iter_state)) {
+	while (pointless_reader_map_iter(p, m_b, &kk, &vv, &iter_state))
+	POINTLESS_LOOP(same_keys, kk, vv, iter_state)
+	{
 		if (!pointless_is_in_map_acyclic(p, m_a, kk))
 			return 0;
 	}
@@ -423,7 +436,9 @@ int pointless_is_in_set_acyclic(pointless_t* p, pointless_value_t* s, pointless_
 	pointless_hash_iter_state_t iter_state;
 	pointless_reader_set_iter_hash_init(p, s, hash, &iter_state);
 
-	while (pointless_reader_set_iter_hash(p, s, hash, &kk, &iter_state)) {
+	while (pointless_reader_set_iter_hash(p, s, hash, &kk, &iter_state))
+	POINTLESS_LOOP(is_in_set, kk, _kk, iter_state)
+	{
 		_kk = pointless_value_to_complete(kk);
 
 		if (pointless_cmp_reader_acyclic(p, &_kk, p, &_k) == 0)
@@ -448,7 +463,9 @@ int pointless_is_in_map_acyclic(pointless_t* p, pointless_value_t* m, pointless_
 	pointless_hash_iter_state_t iter_state;
 	pointless_reader_map_iter_hash_init(p, m, hash, &iter_state);
 
-	while (pointless_reader_map_iter_hash(p, m, hash, &kk, &vv, &iter_state)) {
+	while (pointless_reader_map_iter_hash(p, m, hash, &kk, &vv, &iter_state))
+	POINTLESS_LOOP(is_in_map, kk, vv, _kk, iter_state)
+	{
 		_kk = pointless_value_to_complete(kk);
 		if (pointless_cmp_reader_acyclic(p, &_kk, p, &_k) == 0)
 			return 1;
-- 
2.43.0


From a2c907e17b21e4285a83e6c8fef47436577149d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 50/69] hook: loop contracts for the hash table validation

---
 src/pointless_validate_hash_table.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pointless_validate_hash_table.c b/src/pointless_validate_hash_table.c
index b5103df..39f16b0 100644
--- a/src/pointless_validate_hash_table.c
+++ b/src/pointless_validate_hash_table.c
@@ -1,4 +1,5 @@
 #include <pointless/pointless_validate.h>
+#include <pointless/pointless_contracts.h>
 
 // all the items of a hashable vector must be hashable as well, and hashing recurses into them
 static int32_t pointless_validate_hashable(pointless_t* p, pointless_value_t* v, uint32_t depth, const char** error)
@@ -17,7 +18,9 @@ static int32_t pointless_validate_hashable(pointless_t* p, pointless_value_t* v,
 		uint32_t i, n_items = pointless_reader_vector_n_items(p, v);
 		pointless_value_t* items = pointless_reader_vector_value(p, v);
 
-		for (i = 0; i < n_items; i++) {
+		for (i = 0; i < n_items; i++)
+		POINTLESS_LOOP(vh_items, i)
+		{
 			if (!pointless_validate_hashable(p, &items[i], depth + 1, error))
 				return 0;
 		}
@@ -36,7 +39,11 @@ int32_t pointless_hash_table_validate(pointless_t* p, uint32_t n_items, uint32_t
 	// count empty vs. full slots
 	uint32_t n_used = 0, n_empty = 0, i;
 
-	for (i = 0; i < n_buckets; i++) {
+	for (i = 0; i < n_buckets; i++)
+	POINTLESS_LOOP(vh_count, i, n_used, n_empty)
+	{
+		POINTLESS_GHOST(vh_count_step, i)
+
 		if (key_vector[i].type == POINTLESS_EMPTY_SLOT)
 			n_empty += 1;
 		else
@@ -60,7 +67,9 @@ int32_t pointless_hash_table_validate(pointless_t* p, uint32_t n_items, uint32_t
 	}
 
 	// make sure hashes match the given object
-	for (i = 0; i < n_buckets; i++) {
+	for (i = 0; i < n_buckets; i++)
+	POINTLESS_LOOP(vh_hash, i)
+	{
 		// make sure it is hashable
 		if (!pointless_validate_hashable(p, &key_vector[i], 0, error))
 			return 0;
@@ -75,7 +84,9 @@ int32_t pointless_hash_table_validate(pointless_t* p, uint32_t n_items, uint32_t
 	}
 
 	// right, all the hashes match, now, make sure they are in the right place
-	for (i = 0; i < n_buckets; i++) {
+	for (i = 0; i < n_buckets; i++)
+	POINTLESS_LOOP(vh_place, i)
+	{
 		if (key_vector[i].type == POINTLESS_EMPTY_SLOT)
 			continue;
 
-- 
2.43.0


From 8f7d222a65485f74eabc990ad28f9d04301db185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 51/69] fix: max(), min() and range() of a PointlessPrimVector
 returned the first item

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index b575abb..aae48b2 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1928,6 +1928,9 @@ static int PyPointlessPrimVector_min_max(PyPointlessPrimVector* self, size_t* mi
 			return 0;
 	}
 
+	*min_i_out = min_i;
+	*max_i_out = max_i;
+
 	return 1;
 }
 
-- 
2.43.0


From 0327a27666769512e4b0d5034068495432926a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:30 +0000
Subject: [PATCH 52/69] hook: loop contracts for the primitive vector

---
 python/pointless_prim_vector.c | 40 +++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index aae48b2..7b41606 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1,4 +1,5 @@
 #include "../pointless_ext.h"
+#include <pointless/pointless_contracts.h>
 
 static PyObject* PyPointlessPrimVector_append_item(PyPointlessPrimVector* self, PyObject* item);
 PyPointlessPrimVector* PyPointlessPrimVector_from_T_vector(pointless_dynarray_t* v, uint32_t t);
@@ -769,11 +770,14 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 			size_t n_items = pointless_dynarray_n_items(&p_obj->array);
 			pypointless_number_t number;
 
-			for (i = 0; i < n_items; i++) {
+			for (i = 0; i < n_items; i++)
+			POINTLESS_LOOP(pv_bulk_prim, i, n_items, n_append, number, j)
+			{
 				memcpy(&number, pointless_dynarray_item_at(&p_obj->array, i), self->array.item_size);
 
 				if (!pointless_dynarray_push(&self->array, &number)) {
 					for (j = 0; j < n_append; j++)
+					POINTLESS_LOOP(pv_bulk_undo, j, n_append)
 						pointless_dynarray_pop(&self->array);
 
 					PyErr_NoMemory();
@@ -844,11 +848,14 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 					break;
 			}
 
-			for (i = 0; i < p_obj->slice_n; i++) {
+			for (i = 0; i < p_obj->slice_n; i++)
+			POINTLESS_LOOP(pv_bulk_stored, i, n_append, j)
+			{
 				void* v = (char*)base + (i + p_obj->slice_i) * s;
 
 				if (!pointless_dynarray_push(&self->array, v)) {
 					for (j = 0; j < n_append; j++)
+					POINTLESS_LOOP(pv_bulk_undo, j, n_append)
 						pointless_dynarray_pop(&self->array);
 
 					PyErr_NoMemory();
@@ -867,7 +874,9 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 	if (iterator == 0)
 		return 0;
 
-	while ((item = PyIter_Next(iterator)) != 0) {
+	while ((item = PyIter_Next(iterator)) != 0)
+	POINTLESS_LOOP(pv_bulk_iter, item, n_append)
+	{
 		if (!PyPointlessPrimVector_append_item(self, item))
 			break;
 
@@ -881,6 +890,7 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 
 	if (PyErr_Occurred()) {
 		for (i = 0; i < n_append; i++)
+		POINTLESS_LOOP(pv_bulk_undo, i, n_append)
 			pointless_dynarray_pop(&self->array);
 
 		return 0;
@@ -927,7 +937,10 @@ static PyObject* PyPointlessPrimVector_pop_bulk(PyPointlessPrimVector* self, PyO
 	}
 
 	for (i = 0; i < n; i++)
+	POINTLESS_LOOP(pv_pop_bulk, i, n)
+	{
 		pointless_dynarray_pop(&self->array);
+	}
 
 	Py_INCREF(Py_None);
 	return Py_None;
@@ -938,7 +951,9 @@ static size_t PyPointlessPrimVector_index_f(PyPointlessPrimVector* self, float v
 	uint32_t i, n = pointless_dynarray_n_items(&self->array);
 	float* a = (float*)(self->array._data);
 
-	for (i = 0; i < n; i++) {
+	for (i = 0; i < n; i++)
+	POINTLESS_LOOP(pv_index_f, i, n, a)
+	{
 		if (a[i] == v) {
 			return i;
 		}
@@ -952,7 +967,9 @@ static size_t PyPointlessPrimVector_index_i_i(PyPointlessPrimVector* self, int64
 	uint32_t i, n = pointless_dynarray_n_items(&self->array);
 	void* a = self->array._data;
 
-	for (i = 0; i < n; i++) {
+	for (i = 0; i < n; i++)
+	POINTLESS_LOOP(pv_index_ii, i, n, a)
+	{
 		switch (self->type) {
 			case POINTLESS_PRIM_VECTOR_TYPE_I8:
 				if (((int8_t*)a)[i] == v)
@@ -981,7 +998,9 @@ static size_t PyPointlessPrimVector_index_i_u(PyPointlessPrimVector* self, uint6
 	uint32_t i, n = pointless_dynarray_n_items(&self->array);
 	void* a = (float*)(self->array._data);
 
-	for (i = 0; i < n; i++) {
+	for (i = 0; i < n; i++)
+	POINTLESS_LOOP(pv_index_iu, i, n, a)
+	{
 		switch (self->type) {
 			case POINTLESS_PRIM_VECTOR_TYPE_I8:
 				if (((int8_t*)a)[i] >= 0 && (uint64_t)((int8_t*)a)[i] == v)
@@ -1123,6 +1142,7 @@ static PyObject* PyPointlessPrimVector_remove(PyPointlessPrimVector* self, PyObj
 
 	// shift array (needlessly expensive because of swap)
 	for (; i < pointless_dynarray_n_items(&self->array) - 1; i++)
+	POINTLESS_LOOP(pv_remove, i)
 		pointless_dynarray_swap(&self->array, i, i + 1);
 
 	// remove last
@@ -1874,7 +1894,9 @@ static PyObject* PyPointlessPrimVector_from_remap(PyTypeObject* type, PyObject*
 	{\
 		min_i = 0;\
 		max_i = 0;\
-		for (i = 1; i < (n); i++) {\
+		for (i = 1; i < (n); i++)\
+		POINTLESS_LOOP(pv_min_max, T, v, n, i, min_i, max_i)\
+		{\
 			if (((T*)(v))[i] > ((T*)(v))[max_i])\
 				max_i = i;\
 			if (((T*)(v))[i] < ((T*)(v))[min_i])\
@@ -2030,7 +2052,9 @@ static PyObject* PyPointlessPrimVector_slice(PyPointlessPrimVector* self, Py_ssi
 	pv->type = self->type;
 	pointless_dynarray_init(&pv->array, self->array.item_size);
 
-	for (i = 0; i < slice_n; i++) {
+	for (i = 0; i < slice_n; i++)
+	POINTLESS_LOOP(pv_slice, i, slice_i, slice_n, pv)
+	{
 		void* ii = pointless_dynarray_item_at(&self->array, i + slice_i);
 		if (!pointless_dynarray_push(&pv->array, ii)) {
 			Py_DECREF(pv);
-- 
2.43.0


From 6f7edd19e37e2002964f338b22dc8192b41c41b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:30 +0000
Subject: [PATCH 53/69] fix: deleting an item of a PointlessPrimVector or
 PointlessBitvector crashed

---
 python/pointless_bitvector.c   | 6 ++++++
 python/pointless_prim_vector.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 3f5a266..442c65b 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -258,6 +258,12 @@ static int PyPointlessBitvector_ass_subscript(PyPointlessBitvector* self, PyObje
 		return -1;
 	}
 
+	// value is not set when deleting an item
+	if (value == 0) {
+		PyErr_SetString(PyExc_TypeError, "BitVector: items can not be deleted");
+		return -1;
+	}
+
 	// get the index
 	Py_ssize_t i;
 
diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 7b41606..62d4840 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -607,6 +607,12 @@ static int PyPointlessPrimVector_ass_item(PyPointlessPrimVector* self, Py_ssize_
 
 static int PyPointlessPrimVector_ass_subscript(PyPointlessPrimVector* self, PyObject* item, PyObject* value)
 {
+	// value is not set when deleting an item
+	if (value == 0) {
+		PyErr_SetString(PyExc_TypeError, "PrimVector: items can not be deleted");
+		return -1;
+	}
+
 	if (PyIndex_Check(item)) {
 		Py_ssize_t i = PyNumber_AsSsize_t(item, PyExc_IndexError);
 
-- 
2.43.0


From 9418788f1069489bf004ea560baf5ea4f6aa1993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:39 +0000
Subject: [PATCH 54/69] fix: append_bulk() from an iterator which shrinks the
 vector and then fails corrupted it

---
 python/pointless_prim_vector.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 62d4840..5f6b11b 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -880,6 +880,9 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 	if (iterator == 0)
 		return 0;
 
+	// the iterator may itself change the vector
+	size_t n_before = pointless_dynarray_n_items(&self->array);
+
 	while ((item = PyIter_Next(iterator)) != 0)
 	POINTLESS_LOOP(pv_bulk_iter, item, n_append)
 	{
@@ -895,8 +898,8 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 	iterator = 0;
 
 	if (PyErr_Occurred()) {
-		for (i = 0; i < n_append; i++)
-		POINTLESS_LOOP(pv_bulk_undo, i, n_append)
+		while (pointless_dynarray_n_items(&self->array) > n_before)
+		POINTLESS_LOOP(pv_bulk_undo_iter, n_before)
 			pointless_dynarray_pop(&self->array);
 
 		return 0;
-- 
2.43.0


From a411b8aa3de588a3837f036dd9696d3fa0c8c8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:40 +0000
Subject: [PATCH 55/69] fix: an exception raised by the sequence of a new
 PointlessBitvector was not propagated

---
 python/pointless_bitvector.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 442c65b..27c88e3 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -190,6 +190,16 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 
 			i += 1;
 		}
+
+		// the iterator itself failed
+		if (PyErr_Occurred()) {
+			pointless_free(self->primitive_bits);
+			self->primitive_n_bits = 0;
+			self->primitive_bits = 0;
+			self->primitive_n_bytes_alloc = 0;
+			self->primitive_n_one = 0;
+			return -1;
+		}
 	}
 
 	return 0;
-- 
2.43.0


From 2127e9e59c84caf37a6f424614869ee90b8c3d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:57 +0000
Subject: [PATCH 56/69] fix: min(), max() and range() of a stored vector
 returned the first item

---
 python/pointless_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index a81c4a7..cd5badd 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -573,6 +573,9 @@ static int PyPointlessVector_min_max(PyPointlessVector* self, size_t* min_i_out,
 			return 0;
 	}
 
+	*min_i_out = min_i;
+	*max_i_out = max_i;
+
 	return 1;
 }
 
-- 
2.43.0


From c1df19315a9ceb4a64928d68c0cda93bde8077a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:57 +0000
Subject: [PATCH 57/69] fix: buffers of stored vectors were writable although
 the file is mapped read-only

---
 python/pointless_vector.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index cd5badd..cd7ecf7 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -498,8 +498,15 @@ static int PyPointlessVector_getbuffer(PyPointlessVector* self, Py_buffer* view,
 	if (view == 0)
 		return 0;
 
+	if (!pointless_is_prim_vector(&self->v)) {
+		view->obj = 0;
+		PyErr_SetString(PyExc_BufferError, "only primitive vectors support the buffer protocol");
+		return -1;
+	}
+
+	// the underlying memory may be mapped read-only
 	void* ptr = pointless_prim_vector_base_ptr(self);
-	return PyBuffer_FillInfo(view, (PyObject*)self, ptr, pointless_vector_n_bytes(self), 0, flags);
+	return PyBuffer_FillInfo(view, (PyObject*)self, ptr, pointless_vector_n_bytes(self), 1, flags);
 }
 
 static void PyPointlessVector_releasebuffer(PyPointlessVector* obj, Py_buffer *view)
-- 
2.43.0


From 9ce3083aec64250aea8cf5e2929fec8783005720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:23 +0000
Subject: [PATCH 58/69] fix: a sequence which shrinks the bitvector being
 initialized corrupted it

---
 python/pointless_bitvector.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 27c88e3..15dc8d0 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -132,6 +132,7 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 		self->primitive_bits = pointless_calloc(self->primitive_n_bytes_alloc, 1);
 
 		if (self->primitive_bits == 0) {
+			self->primitive_n_bits = 0;
 			self->primitive_n_bytes_alloc = 0;
 			Py_XDECREF(sequence_iterator);
 			PyErr_NoMemory();
@@ -145,7 +146,6 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 	if (sequence_iterator != 0) {
 		// for each object
 		PyObject* obj = 0;
-		size_t i = 0;
 
 		while ((obj = PyIter_Next(sequence_iterator)) != 0) {
 			if (!PyPointlessBitvector_extend_by(self, 1, 0)) {
@@ -156,7 +156,7 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 			// 1) boolean
 			} else if (PyBool_Check(obj)) {
 				if (obj == Py_True) {
-					bm_set_(self->primitive_bits, i);
+					bm_set_(self->primitive_bits, self->primitive_n_bits - 1);
 					self->primitive_n_one += 1;
 				}
 			// 3) long (must be 0 or 1)
@@ -167,7 +167,7 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 					PyErr_Clear();
 					is_error = 1;
 				} else if (v == 1) {
-					bm_set_(self->primitive_bits, i);
+					bm_set_(self->primitive_bits, self->primitive_n_bits - 1);
 					self->primitive_n_one += 1;
 				}
 			// 4) nothong else allowed
@@ -187,8 +187,6 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 
 				return -1;
 			}
-
-			i += 1;
 		}
 
 		// the iterator itself failed
-- 
2.43.0


From 102a8fc7e078400f9b0470d0c211482c5113adb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:50 +0000
Subject: [PATCH 59/69] hook: loop contracts for the Python bitvector

---
 python/pointless_bitvector.c | 62 +++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 15dc8d0..153d39a 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -1,4 +1,5 @@
 #include "../pointless_ext.h"
+#include <pointless/pointless_contracts.h>
 
 PyTypeObject PyPointlessBitvectorType;
 PyTypeObject PyPointlessBitvectorIterType;
@@ -147,7 +148,9 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 		// for each object
 		PyObject* obj = 0;
 
-		while ((obj = PyIter_Next(sequence_iterator)) != 0) {
+		while ((obj = PyIter_Next(sequence_iterator)) != 0)
+		POINTLESS_LOOP(bv_init, obj, is_error)
+		{
 			if (!PyPointlessBitvector_extend_by(self, 1, 0)) {
 				is_error = 1;
 			// 0) PyIter_Next() failure
@@ -361,7 +364,9 @@ static PyObject* PyPointlessBitvector_richcompare(PyObject* a, PyObject* b, int
 	}
 
 	// first item where they differ
-	for (i = 0; i < n_bits; i++) {
+	for (i = 0; i < n_bits; i++)
+	POINTLESS_LOOP(bv_cmp, i, n_bits, is_set_a, is_set_b)
+	{
 		is_set_a = PyPointlessBitvector_is_set((PyPointlessBitvector*)a, i);
 		is_set_b = PyPointlessBitvector_is_set((PyPointlessBitvector*)b, i);
 
@@ -439,14 +444,18 @@ static PyObject* PyPointlessBitvector_n_zero_prefix(PyPointlessBitvector* self)
 	if (self->is_pointless) {
 		n = pointless_reader_bitvector_n_bits(&self->pp->p, &self->v);
 
-		for (; n_zero < n; n_zero++) {
+		for (; n_zero < n; n_zero++)
+		POINTLESS_LOOP(bv_zero_prefix, n_zero, n)
+		{
 			if (pointless_reader_bitvector_is_set(&self->pp->p, &self->v, n_zero))
 				break;
 		}
 	} else {
 		n = self->primitive_n_bits;
 
-		for (; n_zero < n; n_zero++) {
+		for (; n_zero < n; n_zero++)
+		POINTLESS_LOOP(bv_zero_prefix, n_zero, n)
+		{
 			if (bm_is_set_(self->primitive_bits, n_zero))
 				break;
 		}
@@ -463,14 +472,18 @@ static PyObject* PyPointlessBitvector_n_zero_postfix(PyPointlessBitvector* self)
 	if (self->is_pointless) {
 		n = pointless_reader_bitvector_n_bits(&self->pp->p, &self->v);
 
-		for (; n_zero < n; n_zero++) {
+		for (; n_zero < n; n_zero++)
+		POINTLESS_LOOP(bv_zero_postfix, n_zero, n)
+		{
 			if (pointless_reader_bitvector_is_set(&self->pp->p, &self->v, n - 1 - n_zero))
 				break;
 		}
 	} else {
 		n = self->primitive_n_bits;
 
-		for (; n_zero < n; n_zero++) {
+		for (; n_zero < n; n_zero++)
+		POINTLESS_LOOP(bv_zero_postfix, n_zero, n)
+		{
 			if (bm_is_set_(self->primitive_bits, n - 1 - n_zero))
 				break;
 		}
@@ -487,14 +500,18 @@ static PyObject* PyPointlessBitvector_n_one_prefix(PyPointlessBitvector* self)
 	if (self->is_pointless) {
 		n = pointless_reader_bitvector_n_bits(&self->pp->p, &self->v);
 
-		for (; n_one < n; n_one++) {
+		for (; n_one < n; n_one++)
+		POINTLESS_LOOP(bv_one_prefix, n_one, n)
+		{
 			if (!pointless_reader_bitvector_is_set(&self->pp->p, &self->v, n_one))
 				break;
 		}
 	} else {
 		n = self->primitive_n_bits;
 
-		for (; n_one < n; n_one++) {
+		for (; n_one < n; n_one++)
+		POINTLESS_LOOP(bv_one_prefix, n_one, n)
+		{
 			if (!bm_is_set_(self->primitive_bits, n_one))
 				break;
 		}
@@ -511,14 +528,18 @@ static PyObject* PyPointlessBitvector_n_one_postfix(PyPointlessBitvector* self)
 	if (self->is_pointless) {
 		n = pointless_reader_bitvector_n_bits(&self->pp->p, &self->v);
 
-		for (; n_one < n; n_one++) {
+		for (; n_one < n; n_one++)
+		POINTLESS_LOOP(bv_one_postfix, n_one, n)
+		{
 			if (!pointless_reader_bitvector_is_set(&self->pp->p, &self->v, n - n_one - 1))
 				break;
 		}
 	} else {
 		n = self->primitive_n_bits;
 
-		for (; n_one < n; n_one++) {
+		for (; n_one < n; n_one++)
+		POINTLESS_LOOP(bv_one_postfix, n_one, n)
+		{
 			if (!bm_is_set_(self->primitive_bits, n - n_one - 1))
 				break;
 		}
@@ -561,7 +582,9 @@ static int PyPointlessBitvector_extend_by(PyPointlessBitvector* self, uint32_t n
 
 	uint32_t next_bytes = self->primitive_n_bytes_alloc;
 
-	while (next_bytes < ICEIL(next_primitive_n_bits, 8)) {
+	while (next_bytes < ICEIL(next_primitive_n_bits, 8))
+	POINTLESS_LOOP(bv_grow, next_bytes, next_primitive_n_bits)
+	{
 		next_bytes = next_size(next_bytes);
 
 		// overflow
@@ -582,6 +605,7 @@ static int PyPointlessBitvector_extend_by(PyPointlessBitvector* self, uint32_t n
 		uint64_t i;
 
 		for (i = self->primitive_n_bytes_alloc; i < next_bytes; i++)
+		POINTLESS_LOOP(bv_clear, i, next_bytes, next_data)
 			((char*)next_data)[i] = 0;
 
 		self->primitive_n_bytes_alloc = next_bytes;
@@ -590,7 +614,9 @@ static int PyPointlessBitvector_extend_by(PyPointlessBitvector* self, uint32_t n
 
 	uint32_t i;
 
-	for (i = 0; i < n; i++) {
+	for (i = 0; i < n; i++)
+	POINTLESS_LOOP(bv_extend, i, n, is_true)
+	{
 		if (is_true) {
 			bm_set_(self->primitive_bits, self->primitive_n_bits + i);
 			self->primitive_n_one += 1;
@@ -664,7 +690,9 @@ static PyObject* PyPointlessBitvector_append_bulk(PyPointlessBitvector* self, Py
 	if (!PyPointlessBitvector_extend_by(self, n_other, 0))
 		return 0;
 
-	for (size_t i = 0; i < n_other; i++) {
+	for (size_t i = 0; i < n_other; i++)
+	POINTLESS_LOOP(bv_bulk, i, n_other, n_before)
+	{
 		if (PyPointlessBitvector_is_set(other, i)) {
 			bm_set_(self->primitive_bits, n_before + i);
 			self->primitive_n_one += 1;
@@ -744,7 +772,9 @@ static PyObject* PyPointlessBitvector_copy(PyPointlessBitvector* self)
 			void* source_bits = (void*)((uint32_t*)pointless_reader_bitvector_buffer(&self->pp->p, &self->v) + 1);
 			memcpy(bits, source_bits, n_bytes);
 		} else {
-			for (i = 0; i < n_bits; i++) {
+			for (i = 0; i < n_bits; i++)
+			POINTLESS_LOOP(bv_copy, i, n_bits, bits)
+			{
 				if (pointless_reader_bitvector_is_set(&self->pp->p, &self->v, i))
 					bm_set_(bits, i);
 			}
@@ -768,7 +798,9 @@ static PyObject* PyPointlessBitvector_copy(PyPointlessBitvector* self)
 	pv->primitive_bits = bits;
 	pv->primitive_n_one = 0;
 
-	for (i = 0; i < n_bits; i++) {
+	for (i = 0; i < n_bits; i++)
+	POINTLESS_LOOP(bv_count, i, n_bits, pv)
+	{
 		if (bm_is_set_(bits, i))
 			pv->primitive_n_one += 1;
 	}
-- 
2.43.0


From 0cc49ee2bcb93de60dbd022cb9c08a2ece720d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:36 +0000
Subject: [PATCH 60/69] hook: loop contracts for stored vectors

---
 python/pointless_vector.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index cd7ecf7..2852aa2 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -1,4 +1,5 @@
 #include "../pointless_ext.h"
+#include <pointless/pointless_contracts.h>
 
 
 static void PyPointlessVector_dealloc(PyPointlessVector* self)
@@ -172,7 +173,9 @@ static int PyPointlessVector_contains(PyPointlessVector* self, PyObject* b)
 	pointless_complete_value_t v;
 	const char* error = 0;
 
-	for (i = 0; i < self->slice_n; i++) {
+	for (i = 0; i < self->slice_n; i++)
+	POINTLESS_LOOP(sv_contains, i, c, v, error)
+	{
 		v = pointless_reader_vector_value_case(&self->pp->p, &self->v, i + self->slice_i);
 		c = pypointless_cmp_eq(&self->pp->p, &v, b, &error);
 
@@ -319,7 +322,9 @@ static PyObject* PyPointlessVector_richcompare(PyObject* a, PyObject* b, int op)
 	}
 
 	// first item where they differ
-	for (i = 0; i < n_items; i++) {
+	for (i = 0; i < n_items; i++)
+	POINTLESS_LOOP(sv_cmp, i, n_items)
+	{
 		PyObject* obj_a = PyPointlessVector_subscript_priv((PyPointlessVector*)a, i);
 		PyObject* obj_b = PyPointlessVector_subscript_priv((PyPointlessVector*)b, i);
 
@@ -523,7 +528,9 @@ static PyObject* PyPointlessVector_sizeof(PyPointlessVector* self)
 	{\
 		min_i = 0;\
 		max_i = 0;\
-		for (i = 1; i < (n); i++) {\
+		for (i = 1; i < (n); i++)\
+		POINTLESS_LOOP(sv_min_max, T, v, n, i, min_i, max_i)\
+		{\
 			if (((T*)(v))[i] > ((T*)(v))[max_i])\
 				max_i = i;\
 			if (((T*)(v))[i] < ((T*)(v))[min_i])\
@@ -687,7 +694,9 @@ static PyObject* PyPointlessVector_bisect_left(PyPointlessVector* self, PyObject
 
 	i = 0, j = self->slice_n;
 
-	while (i < j) {
+	while (i < j)
+	POINTLESS_LOOP(sv_bisect, i, j, mid, a)
+	{
 		mid = (i + j) / 2;
 
 		if (a[mid] < _uu)
-- 
2.43.0


From 51bebd44b4eb0b91190c9c00aee7101f69667406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:07 +0000
Subject: [PATCH 61/69] fix: comparison of lists which contain themselves never
 ended

---
 python/pointless_pyobject_cmp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 6ee47a6..78b27b7 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -484,6 +484,9 @@ static int32_t pypointless_cmp_vector(pypointless_cmp_value_t* a, pypointless_cm
 		v_b = pypointless_cmp_vector_item_at(b, i);
 		c = pypointless_cmp_rec(&v_a, &v_b, state);
 
+		if (state->error)
+			return 0;
+
 		if (c != 0)
 			return c;
 	}
-- 
2.43.0


From 55d1a55ed27b17be18637e4a9df19f95efada704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:07 +0000
Subject: [PATCH 62/69] fix: comparison of a list which contains a stored
 container raised TypeError

---
 python/pointless_pyobject_cmp.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 78b27b7..79dacdd 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -457,14 +457,13 @@ static pypointless_cmp_value_t pypointless_cmp_vector_item_at(pypointless_cmp_va
 		}
 	// PyObject
 	} else {
-		r.is_pointless = 0;
-
 		assert(PyList_Check(v->value.py_object) || PyTuple_Check(v->value.py_object));
 
+		// the item may itself be a stored vector, set, map or bitvector
 		if (PyList_Check(v->value.py_object))
-			r.value.py_object = PyList_GET_ITEM(v->value.py_object, i);
+			pypointless_cmp_value_init_python(&r, PyList_GET_ITEM(v->value.py_object, i));
 		else
-			r.value.py_object = PyTuple_GET_ITEM(v->value.py_object, i);
+			pypointless_cmp_value_init_python(&r, PyTuple_GET_ITEM(v->value.py_object, i));
 	}
 
 	return r;
-- 
2.43.0


From 5b87615a134353a4afa24d527482b2f07048441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:07 +0000
Subject: [PATCH 63/69] fix: looking for a value of another kind in a stored
 vector, set or map raised ValueError

---
 python/pointless_pyobject_cmp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 79dacdd..8e7c983 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -21,6 +21,7 @@ typedef struct {
 	pointless_t* pointless;
 	const char* error;
 	uint32_t depth;
+	int32_t is_eq; // only equality matters: values of different kinds are unequal, not an error
 } pypointless_cmp_state_t;
 
 // number values
@@ -562,6 +563,9 @@ static int32_t pypointless_cmp_rec(pypointless_cmp_value_t* a, pypointless_cmp_v
 	pypointless_cmp_cb cmp_b = pypointless_cmp_func(b, &t_b, state);
 	int32_t c;
 
+	if (state->is_eq && state->error == 0 && cmp_a != cmp_b)
+		return 1;
+
 	// we're going one deep
 	state->depth += 1;
 
@@ -591,6 +595,7 @@ uint32_t pypointless_cmp_eq(pointless_t* p, pointless_complete_value_t* v, PyObj
 
 	state.error = 0;
 	state.depth = 0;
+	state.is_eq = 1;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
@@ -627,6 +632,7 @@ PyObject* pointless_cmp(PyObject* self, PyObject* args)
 
 	state.error = 0;
 	state.depth = 0;
+	state.is_eq = 0;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
@@ -663,6 +669,7 @@ PyObject* pointless_is_eq(PyObject* self, PyObject* args)
 
 	state.error = 0;
 	state.depth = 0;
+	state.is_eq = 0;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
-- 
2.43.0


From 7ac81c86db4f086a860be0dae57334e7a5750f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:07 +0000
Subject: [PATCH 64/69] fix: a Python string with a zero code-point compared as
 its prefix

---
 python/pointless_pyobject_cmp.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 8e7c983..fa49e5b 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -268,6 +268,16 @@ static _var_string_t pypointless_cmp_extract_string(pypointless_cmp_value_t* v,
 	return s;
 }
 
+// stored strings end at their first zero code-point, and never contain one
+static int32_t pypointless_cmp_has_zero(pypointless_cmp_value_t* v)
+{
+	if (v->is_pointless)
+		return 0;
+
+	PyObject* s = v->value.py_object;
+	return (PyUnicode_FindChar(s, 0, 0, PyUnicode_GET_LENGTH(s), 1) >= 0);
+}
+
 static int32_t pypointless_cmp_string_unicode(pypointless_cmp_value_t* a, pypointless_cmp_value_t* b, pypointless_cmp_state_t* state)
 {
 	_var_string_t s_a = pypointless_cmp_extract_string(a, state);
@@ -280,6 +290,13 @@ static int32_t pypointless_cmp_string_unicode(pypointless_cmp_value_t* a, pypoin
 	if (state->error)
 		return 0;
 
+	if (pypointless_cmp_has_zero(a) || pypointless_cmp_has_zero(b)) {
+		if (!state->is_eq)
+			state->error = "string contains a zero code-point";
+
+		return 1;
+	}
+
 	assert(s_a.n_bits == 8 || s_a.n_bits == 16 || s_a.n_bits == 32);
 	assert(s_b.n_bits == 8 || s_b.n_bits == 16 || s_b.n_bits == 32);
 
-- 
2.43.0


From 1de5e473d098fe37f7ce945e22a48cc358a94b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:28 +0000
Subject: [PATCH 65/69] fix: strings with characters beyond U+FFFF were written
 truncated to 8 bits

---
 python/pointless_create.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 0ae2302..f21540c 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -311,9 +311,9 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 				break;
 			case PyUnicode_4BYTE_KIND:
 				if (state->unwiden_strings && pointless_is_ucs4_ascii((uint32_t*)python_buffer))
-					handle = pointless_create_unicode_ucs4(&state->c, (uint32_t*)python_buffer);
-				else
 					handle = pointless_create_string_ucs4(&state->c, (uint32_t*)python_buffer);
+				else
+					handle = pointless_create_unicode_ucs4(&state->c, (uint32_t*)python_buffer);
 				break;
 			// will happen for PyUnicode_WCHAR_KIND on python versions < 3.12
 			default:
-- 
2.43.0


From 1ce02c183a9b9844a3ca58d749e8ba827e06a1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 66/69] fix: a slice of a stored vector of values was written
 as the whole vector

---
 include/pointless/pointless_recreate.h |  1 +
 python/pointless_create.c              |  4 +--
 src/pointless_recreate.c               | 45 ++++++++++++++++++++++++--
 3 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/include/pointless/pointless_recreate.h b/include/pointless/pointless_recreate.h
index 53a3c59..3be9fc7 100644
--- a/include/pointless/pointless_recreate.h
+++ b/include/pointless/pointless_recreate.h
@@ -7,6 +7,7 @@
 #include <pointless/pointless_create.h>
 
 uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, pointless_create_t* c_out, const char** error);
+uint32_t pointless_recreate_vector_slice(pointless_t* p_in, pointless_value_t* v_in, uint32_t slice_i, uint32_t slice_n, pointless_create_t* c_out, const char** error);
 
 int pointless_recreate_64(const char* fname_in, const char* fname_out, const char** error);
 
diff --git a/python/pointless_create.c b/python/pointless_create.c
index f21540c..3f74449 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -147,12 +147,12 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 		switch(v->v.type) {
 			case POINTLESS_VECTOR_VALUE:
 			case POINTLESS_VECTOR_VALUE_HASHABLE:
-				handle = pointless_recreate_value(&v->pp->p, &v->v, &state->c, &error);
+				handle = pointless_recreate_vector_slice(&v->pp->p, &v->v, v->slice_i, v->slice_n, &state->c, &error);
 
 				if (handle == POINTLESS_CREATE_VALUE_FAIL) {
 					state->is_error = 1;
 					state->error_line = __LINE__;
-					PyErr_Format(PyExc_ValueError, "pointless_recreate_value(): %s", error);
+					PyErr_Format(PyExc_ValueError, "pointless_recreate_vector_slice(): %s", error);
 					return POINTLESS_CREATE_VALUE_FAIL;
 				}
 
diff --git a/src/pointless_recreate.c b/src/pointless_recreate.c
index 977d0b9..a691a4e 100644
--- a/src/pointless_recreate.c
+++ b/src/pointless_recreate.c
@@ -289,7 +289,35 @@ static uint32_t pointless_recreate_convert_rec(pointless_recreate_state_t* state
 	return POINTLESS_CREATE_VALUE_FAIL;
 }
 
-uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, pointless_create_t* c_out, const char** error)
+static uint32_t pointless_recreate_slice_rec(pointless_recreate_state_t* state, pointless_value_t* v, uint32_t slice_i, uint32_t slice_n)
+{
+	// nothing to skip, this may be an element of itself
+	if (slice_i == 0 && slice_n == pointless_reader_vector_n_items(state->p, v))
+		return pointless_recreate_convert_rec(state, v, 0);
+
+	uint32_t handle = pointless_create_vector_value(state->c), child_handle, i;
+
+	if (handle == POINTLESS_CREATE_VALUE_FAIL) {
+		*state->error = "pointless_create_vector_value() failure";
+		return POINTLESS_CREATE_VALUE_FAIL;
+	}
+
+	for (i = 0; i < slice_n; i++) {
+		child_handle = pointless_recreate_convert_rec(state, pointless_reader_vector_value(state->p, v) + slice_i + i, 1);
+
+		if (child_handle == POINTLESS_CREATE_VALUE_FAIL)
+			return POINTLESS_CREATE_VALUE_FAIL;
+
+		if (pointless_create_vector_value_append(state->c, handle, child_handle) == POINTLESS_CREATE_VALUE_FAIL) {
+			*state->error = "pointless_create_vector_value_append() failure";
+			return POINTLESS_CREATE_VALUE_FAIL;
+		}
+	}
+
+	return handle;
+}
+
+static uint32_t pointless_recreate_value_or_slice(pointless_t* p_in, pointless_value_t* v_in, int is_slice, uint32_t slice_i, uint32_t slice_n, pointless_create_t* c_out, const char** error)
 {
 	pointless_recreate_state_t state;
 	uint32_t handle = POINTLESS_CREATE_VALUE_FAIL;
@@ -316,7 +344,10 @@ uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, po
 		goto error;
 	}
 
-	handle = pointless_recreate_convert_rec(&state, v_in, 0);
+	if (is_slice)
+		handle = pointless_recreate_slice_rec(&state, v_in, slice_i, slice_n);
+	else
+		handle = pointless_recreate_convert_rec(&state, v_in, 0);
 
 error:
 
@@ -329,6 +360,16 @@ error:
 	return handle;
 }
 
+uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, pointless_create_t* c_out, const char** error)
+{
+	return pointless_recreate_value_or_slice(p_in, v_in, 0, 0, 0, c_out, error);
+}
+
+uint32_t pointless_recreate_vector_slice(pointless_t* p_in, pointless_value_t* v_in, uint32_t slice_i, uint32_t slice_n, pointless_create_t* c_out, const char** error)
+{
+	return pointless_recreate_value_or_slice(p_in, v_in, 1, slice_i, slice_n, c_out, error);
+}
+
 int pointless_recreate_64(const char* fname_in, const char* fname_out, const char** error)
 {
 	// open source
-- 
2.43.0


From 81a53e24140bfe0f52fc5ecefeb56e68b771b7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:36 +0000
Subject: [PATCH 67/69] hook: loop contracts of the exporting and re-creating
 functions

---
 python/pointless_create.c | 17 +++++++++++++----
 src/pointless_recreate.c  | 18 ++++++++++++++----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 3f74449..ce9c751 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -1,4 +1,5 @@
 #include "../pointless_ext.h"
+#include <pointless/pointless_contracts.h>
 
 typedef struct {
 	pointless_create_t c;   // create-time state
@@ -126,7 +127,9 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 		// populate vector
 		Py_ssize_t i, n_items = PyList_Check(py_object) ? PyList_GET_SIZE(py_object) : PyTuple_GET_SIZE(py_object);
 
-		for (i = 0; i < n_items; i++) {
+		for (i = 0; i < n_items; i++)
+		POINTLESS_LOOP(ex_items, i, n_items)
+		{
 			PyObject* child = PyList_Check(py_object) ? PyList_GET_ITEM(py_object, i) : PyTuple_GET_ITEM(py_object, i);
 			uint32_t child_handle = pointless_export_py_rec(state, child, depth + 1);
 
@@ -342,7 +345,9 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 		PyObject* value = 0;
 		Py_ssize_t pos = 0;
 
-		while (PyDict_Next(py_object, &pos, &key, &value)) {
+		while (PyDict_Next(py_object, &pos, &key, &value))
+		POINTLESS_LOOP(ex_dict, pos, key, value)
+		{
 			uint32_t key_handle = pointless_export_py_rec(state, key, depth + 1);
 			uint32_t value_handle = pointless_export_py_rec(state, value, depth + 1);
 
@@ -382,7 +387,9 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 		}
 
 		// iterate over it
-		while ((item = PyIter_Next(iterator)) != 0) {
+		while ((item = PyIter_Next(iterator)) != 0)
+		POINTLESS_LOOP(ex_set, item)
+		{
 			uint32_t item_handle = pointless_export_py_rec(state, item, depth + 1);
 
 			if (item_handle == POINTLESS_CREATE_VALUE_FAIL)
@@ -415,7 +422,9 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 				RETURN_OOM(state);
 			}
 
-			for (i = 0; i < n_bits; i++) {
+			for (i = 0; i < n_bits; i++)
+			POINTLESS_LOOP(ex_bits, i, n_bits, bits)
+			{
 				if (pointless_reader_bitvector_is_set(&bitvector->pp->p, &bitvector->v, i))
 					bm_set_(bits, i);
 			}
diff --git a/src/pointless_recreate.c b/src/pointless_recreate.c
index a691a4e..d0a12cf 100644
--- a/src/pointless_recreate.c
+++ b/src/pointless_recreate.c
@@ -1,4 +1,5 @@
 #include <pointless/pointless_recreate.h>
+#include <pointless/pointless_contracts.h>
 
 typedef struct {
 	// *_read_handle -> *_create_handle
@@ -25,6 +26,7 @@ static uint32_t* pointless_malloc_uint32_init(uint32_t n_items, uint32_t init_va
 		return 0;
 
 	for (i = 0; i < n_items; i++)
+	POINTLESS_LOOP(rc_init, i, n_items, v, init_value)
 		v[i] = init_value;
 
 	return v;
@@ -114,7 +116,9 @@ static uint32_t pointless_recreate_convert_rec(pointless_recreate_state_t* state
 
 			child_v = pointless_reader_vector_value(state->p, v);
 
-			for (i = 0; i < n_items; i++) {
+			for (i = 0; i < n_items; i++)
+			POINTLESS_LOOP(rc_items, i, n_items, child_handle)
+			{
 				child_handle = pointless_recreate_convert_rec(state, &child_v[i], depth + 1);
 
 				if (child_handle == POINTLESS_CREATE_VALUE_FAIL)
@@ -224,7 +228,9 @@ static uint32_t pointless_recreate_convert_rec(pointless_recreate_state_t* state
 
 			i = 0;
 
-			while (pointless_reader_set_iter(state->p, v, &key, &i)) {
+			while (pointless_reader_set_iter(state->p, v, &key, &i))
+			POINTLESS_LOOP(rc_set, i, key, key_handle)
+			{
 				key_handle = pointless_recreate_convert_rec(state, key, depth + 1);
 
 				if (key_handle == POINTLESS_CREATE_VALUE_FAIL)
@@ -243,7 +249,9 @@ static uint32_t pointless_recreate_convert_rec(pointless_recreate_state_t* state
 
 			i = 0;
 
-			while (pointless_reader_map_iter(state->p, v, &key, &value, &i)) {
+			while (pointless_reader_map_iter(state->p, v, &key, &value, &i))
+			POINTLESS_LOOP(rc_map, i, key, value, key_handle, value_handle)
+			{
 				key_handle = pointless_recreate_convert_rec(state, key, depth + 1);
 
 				if (key_handle == POINTLESS_CREATE_VALUE_FAIL)
@@ -302,7 +310,9 @@ static uint32_t pointless_recreate_slice_rec(pointless_recreate_state_t* state,
 		return POINTLESS_CREATE_VALUE_FAIL;
 	}
 
-	for (i = 0; i < slice_n; i++) {
+	for (i = 0; i < slice_n; i++)
+	POINTLESS_LOOP(rc_slice, i, slice_n, child_handle)
+	{
 		child_handle = pointless_recreate_convert_rec(state, pointless_reader_vector_value(state->p, v) + slice_i + i, 1);
 
 		if (child_handle == POINTLESS_CREATE_VALUE_FAIL)
-- 
2.43.0


From 070341f6dccf323ab20981f49b95ec289799eb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:39 +0000
Subject: [PATCH 68/69] hook: loop contracts of hashing and comparing Python
 objects

---
 python/pointless_pyobject_cmp.c  |  9 +++++++--
 python/pointless_pyobject_hash.c | 13 ++++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index fa49e5b..fa96eac 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -1,4 +1,5 @@
 #include "../pointless_ext.h"
+#include <pointless/pointless_contracts.h>
 
 // a container for either a pointless value, or PyObject*
 typedef struct {
@@ -496,7 +497,9 @@ static int32_t pypointless_cmp_vector(pypointless_cmp_value_t* a, pypointless_cm
 
 	pypointless_cmp_value_t v_a, v_b;
 
-	for (i = 0; i < n_items; i++) {
+	for (i = 0; i < n_items; i++)
+	POINTLESS_LOOP(pc_items, i, n_items, v_a, v_b, c)
+	{
 		v_a = pypointless_cmp_vector_item_at(a, i);
 		v_b = pypointless_cmp_vector_item_at(b, i);
 		c = pypointless_cmp_rec(&v_a, &v_b, state);
@@ -553,7 +556,9 @@ static int32_t pypointless_cmp_bitvector(pypointless_cmp_value_t* a, pypointless
 	uint32_t v_a, v_b;
 	int32_t c;
 
-	for (i = 0; i < n_items; i++) {
+	for (i = 0; i < n_items; i++)
+	POINTLESS_LOOP(pc_bits, i, n_items, v_a, v_b, c)
+	{
 		v_a = pypointless_cmp_bitvector_item_at(a, i);
 		v_b = pypointless_cmp_bitvector_item_at(b, i);
 
diff --git a/python/pointless_pyobject_hash.c b/python/pointless_pyobject_hash.c
index 92352a3..1b8e1fc 100644
--- a/python/pointless_pyobject_hash.c
+++ b/python/pointless_pyobject_hash.c
@@ -1,4 +1,5 @@
 #include "../pointless_ext.h"
+#include <pointless/pointless_contracts.h>
 
 typedef struct {
 	uint32_t version;
@@ -25,7 +26,9 @@ static uint32_t pyobject_hash_tuple_32(PyObject* py_object, pyobject_hash_state_
 
 	state->depth += 1;
 
-	for (i = 0; i < s; i++) {
+	for (i = 0; i < s; i++)
+	POINTLESS_LOOP(ph_tuple, i, s)
+	{
 		o = PyTuple_GET_ITEM(py_object, i);
 		h = pyobject_hash_rec_32(o, state);
 		pointless_vector_hash_next_32(&v_state, h);
@@ -45,7 +48,9 @@ static uint32_t pyobject_hash_primvector_32(PyPointlessPrimVector* v, pyobject_h
 	pointless_vector_hash_state_32_t v_state;
 	pointless_vector_hash_init_32(&v_state, (uint32_t)n_items);
 
-	for (i = 0; i < n_items; i++) {
+	for (i = 0; i < n_items; i++)
+	POINTLESS_LOOP(ph_prim, i, n_items)
+	{
 		void* item = pointless_dynarray_item_at(&v->array, i);
 
 		switch (v->type) {
@@ -208,7 +213,9 @@ static uint32_t pyobject_hash_rec_32(PyObject* py_object, pyobject_hash_state_t*
 			uint32_t i, n = ((PyPointlessVector*)py_object)->slice_n;
 			pointless_value_t* items = pointless_reader_vector_value(p, &v) + ((PyPointlessVector*)py_object)->slice_i;
 
-			for (i = 0; i < n; i++) {
+			for (i = 0; i < n; i++)
+			POINTLESS_LOOP(ph_items, i, n)
+			{
 				if (!pointless_is_hashable_reader(p, &items[i])) {
 					*state->error = "pointless type is not hashable";
 					return 0;
-- 
2.43.0


From a2c413f668bcaff6d77131ce8128de26b7d43282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:32 +0000
Subject: [PATCH 69/69] hook: loop cuts of the integer expression evaluator

---
 src/pointless_int_ops.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index c2b61d8..e0dec0a 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -1,4 +1,5 @@
 #include <pointless/pointless_int_ops.h>
+#include <pointless/pointless_contracts.h>
 
 // the multiply overflow check is from "Secure Coding in C and C++", chapter 5
 
@@ -341,7 +342,11 @@ int intop_eval_compile(const char* s, intop_eval_context_t* c, const char** erro
 	char token[32];
 	int i_token = 0;
 
-	while (*s) {
+	while (*s)
+	POINTLESS_LOOP(intop_scan, s, i_token, n_variables, token)
+	{
+		POINTLESS_GHOST(intop_scan_begin, s)
+
 		if (c->n >= INTOP_EVAL_MAX_N) {
 			*error = "too many tokens";
 			return 0;
@@ -399,7 +404,9 @@ int intop_eval_compile(const char* s, intop_eval_context_t* c, const char** erro
 			case '7':
 			case '8':
 			case '9':
-				while (*s && isdigit(*s) && i_token < 31) {
+				while (*s && isdigit(*s) && i_token < 31)
+				POINTLESS_LOOP(intop_digits, s, i_token, token)
+				{
 					token[i_token] = *s;
 					i_token += 1;
 					s += 1;
@@ -430,6 +437,8 @@ int intop_eval_compile(const char* s, intop_eval_context_t* c, const char** erro
 				*error = "invalid token";
 				return 0;
 		}
+
+		POINTLESS_GHOST(intop_scan_end, s)
 	}
 
 	if (c->n == 0) {
@@ -462,7 +471,11 @@ int intop_eval_eval(intop_eval_context_t* c, uint64_t* r, const char** error, ..
 	intop_u64_t a, b;
 	int i;
 
-	for (i = 0; i < c->s_n; i++) {
+	for (i = 0; i < c->s_n; i++)
+	POINTLESS_LOOP(intop_eval, i, a, b)
+	{
+		POINTLESS_GHOST(intop_eval_begin, i)
+
 		switch (c->stack[i].type) {
 			case INTOP_EVAL_NUMBER:
 				c->eval[c->e_n] = c->stack[i];
@@ -511,6 +524,8 @@ int intop_eval_eval(intop_eval_context_t* c, uint64_t* r, const char** error, ..
 				*error = "invalid token";
 				return 0;
 		}
+
+		POINTLESS_GHOST(intop_eval_end, i)
 	}
 
 	if (c->e_n != 1 || c->eval[0].type != INTOP_EVAL_NUMBER) {
-- 
2.43.0


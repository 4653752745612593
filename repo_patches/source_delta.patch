From cf572053091280ed37b77a1b0c77e47b53f7a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 01/44] fix: guard the C++ float and double write overloads
 with MPACK_FLOAT and MPACK_DOUBLE

---
 src/mpack/mpack-writer.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mpack/mpack-writer.h b/src/mpack/mpack-writer.h
index d842a3f..bb5b4a9 100644
--- a/src/mpack/mpack-writer.h
+++ b/src/mpack/mpack-writer.h
@@ -1218,13 +1218,17 @@ MPACK_INLINE void mpack_write(mpack_writer_t* writer, bool value) {
     mpack_write_bool(writer, value);
 }
 
+#if MPACK_FLOAT
 MPACK_INLINE void mpack_write(mpack_writer_t* writer, float value) {
     mpack_write_float(writer, value);
 }
+#endif
 
+#if MPACK_DOUBLE
 MPACK_INLINE void mpack_write(mpack_writer_t* writer, double value) {
     mpack_write_double(writer, value);
 }
+#endif
 
 MPACK_INLINE void mpack_write(mpack_writer_t* writer, char *value) {
     mpack_write_cstr_or_nil(writer, value);
@@ -1281,15 +1285,19 @@ MPACK_INLINE void mpack_write_kv(mpack_writer_t* writer, const char *key, bool v
     mpack_write_bool(writer, value);
 }
 
+#if MPACK_FLOAT
 MPACK_INLINE void mpack_write_kv(mpack_writer_t* writer, const char *key, float value) {
     mpack_write_cstr(writer, key);
     mpack_write_float(writer, value);
 }
+#endif
 
+#if MPACK_DOUBLE
 MPACK_INLINE void mpack_write_kv(mpack_writer_t* writer, const char *key, double value) {
     mpack_write_cstr(writer, key);
     mpack_write_double(writer, value);
 }
+#endif
 
 MPACK_INLINE void mpack_write_kv(mpack_writer_t* writer, const char *key, char *value) {
     mpack_write_cstr(writer, key);
-- 
2.43.0


From 3926086d52baf16b231dd2243d05737ce245b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 02/44] fix: don't count a container's children twice when an
 incremental tree parse resumes

---
 src/mpack/mpack-node.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 8af1562..4bea70c 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -282,9 +282,11 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
         total *= 2;
     }
 
-    // Make sure we are under our total node limit (TODO can this overflow?)
-    tree->node_count += total;
-    if (tree->node_count > tree->max_nodes) {
+    // Make sure we are under our total node limit (if there is one. If not, a
+    // total that could overflow is caught below since each node is at least
+    // one byte.)
+    if (tree->max_nodes != SIZE_MAX &&
+            (total > tree->max_nodes || tree->node_count > tree->max_nodes - total)) {
         mpack_tree_flag_error(tree, mpack_error_too_big);
         return false;
     }
@@ -294,6 +296,10 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
     if (!mpack_tree_reserve_bytes(tree, total))
         return false;
 
+    // We only count the nodes once we know we won't have to parse this node
+    // again when more data is available.
+    tree->node_count += total;
+
     // If there are enough nodes left in the current page, no need to grow
     if (total <= parser->nodes_left) {
         node->value.children = parser->nodes;
-- 
2.43.0


From 74dcc57ac7b93d8be11038c1d1e2785584845ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 03/44] fix: report failure to allocate a tree's first page
 through the error handler

---
 src/mpack/mpack-node.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 4bea70c..e4df68c 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -913,7 +913,8 @@ static bool mpack_tree_parse_start(mpack_tree_t* tree) {
         mpack_log("allocated initial page %p of size %i count %i\n",
                 (void*)page, (int)MPACK_PAGE_ALLOC_SIZE, (int)MPACK_NODES_PER_PAGE);
         if (page == NULL) {
-            tree->error = mpack_error_memory;
+            parser->state = mpack_tree_parse_state_not_started;
+            mpack_tree_flag_error(tree, mpack_error_memory);
             return false;
         }
         page->next = NULL;
-- 
2.43.0


From e73bb40dfca84549b766ae4dfcd3eb1806bca310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 04/44] fix: apply the maximum message size of a tree to the
 message, not to the data buffered so far

---
 src/mpack/mpack-node.c | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index e4df68c..8d0e8a8 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -89,14 +89,6 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
             "there are already enough bytes! call mpack_tree_ensure() instead.");
     mpack_log("filling to reserve %i bytes\n", (int)bytes);
 
-    // if the necessary bytes would put us over the maximum tree
-    // size, fail right away.
-    // TODO: check for overflow?
-    if (tree->data_length + bytes > tree->max_size) {
-        mpack_tree_flag_error(tree, mpack_error_too_big);
-        return false;
-    }
-
     // we'll need a read function to fetch more data. if there's
     // no read function, the data should contain an entire message
     // (or messages), so we flag it as invalid.
@@ -106,14 +98,15 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
         return false;
     }
 
-    // expand the buffer if needed
-    if (tree->data_length + bytes > tree->buffer_capacity) {
+    // expand the buffer if needed. this can't overflow because we've already
+    // checked that the required size is within the maximum message size.
+    size_t required = tree->data_length - tree->parser.possible_nodes_left + bytes;
+    if (required > tree->buffer_capacity) {
 
-        // TODO: check for overflow?
         size_t new_capacity = (tree->buffer_capacity == 0) ? MPACK_BUFFER_SIZE : tree->buffer_capacity;
-        while (new_capacity < tree->data_length + bytes)
+        while (new_capacity < required && new_capacity <= tree->max_size / 2)
             new_capacity *= 2;
-        if (new_capacity > tree->max_size)
+        if (new_capacity < required || new_capacity > tree->max_size)
             new_capacity = tree->max_size;
 
         mpack_log("expanding buffer from %i to %i\n", (int)tree->buffer_capacity, (int)new_capacity);
@@ -183,17 +176,29 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
 MPACK_STATIC_INLINE bool mpack_tree_reserve_bytes(mpack_tree_t* tree, size_t extra_bytes) {
     mpack_assert(tree->parser.state == mpack_tree_parse_state_in_progress);
 
+    // The bytes that are known to be part of this message so far are those
+    // that have already been parsed or reserved (i.e. those that are not in
+    // possible_nodes_left) plus those that are needed by the current node.
+    uint64_t message_bytes = (uint64_t)(tree->data_length - tree->parser.possible_nodes_left) +
+            (uint64_t)tree->parser.current_node_reserved + (uint64_t)extra_bytes;
+
     // We guard against overflow here. A compound type could declare more than
     // MPACK_UINT32_MAX contents which overflows SIZE_MAX on 32-bit platforms. We
     // flag mpack_error_invalid instead of mpack_error_too_big since it's far
     // more likely that the message is corrupt than that the data is valid but
     // not parseable on this architecture (see test_read_node_possible() in
     // test-node.c .)
-    if ((uint64_t)tree->parser.current_node_reserved + (uint64_t)extra_bytes > SIZE_MAX) {
+    if (message_bytes > SIZE_MAX) {
         mpack_tree_flag_error(tree, mpack_error_invalid);
         return false;
     }
 
+    // If this would put us over the maximum message size, fail right away.
+    if (message_bytes > tree->max_size) {
+        mpack_tree_flag_error(tree, mpack_error_too_big);
+        return false;
+    }
+
     tree->parser.current_node_reserved += extra_bytes;
 
     // Note that possible_nodes_left already accounts for reserved bytes for
-- 
2.43.0


From 835698a02f33327d2898656292a77b20cca4292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 05/44] fix: return zero from mpack_tree_size() if the tree
 could not be parsed

---
 src/mpack/mpack-node.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.h b/src/mpack/mpack-node.h
index 26046e8..576f9a2 100644
--- a/src/mpack/mpack-node.h
+++ b/src/mpack/mpack-node.h
@@ -520,7 +520,7 @@ MPACK_INLINE mpack_error_t mpack_tree_error(mpack_tree_t* tree) {
  * be determined if the data is invalid or corrupted.)
  */
 MPACK_INLINE size_t mpack_tree_size(mpack_tree_t* tree) {
-    return tree->size;
+    return (tree->parser.state == mpack_tree_parse_state_parsed) ? tree->size : 0;
 }
 
 /**
-- 
2.43.0


From f0421966ab960eec9aeb10229f84b74fa2b2e523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 06/44] fix: check for overflow when allocating a page for a
 container's children

---
 src/mpack/mpack-node.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 8d0e8a8..ad81050 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -333,7 +333,10 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
         mpack_tree_page_t* page;
 
         if (total > MPACK_NODES_PER_PAGE || parser->nodes_left > MPACK_NODES_PER_PAGE / 8) {
-            // TODO: this should check for overflow
+            if (total > (SIZE_MAX - sizeof(mpack_tree_page_t)) / sizeof(mpack_node_data_t)) {
+                mpack_tree_flag_error(tree, mpack_error_memory);
+                return false;
+            }
             page = (mpack_tree_page_t*)MPACK_MALLOC(
                     sizeof(mpack_tree_page_t) + sizeof(mpack_node_data_t) * (total - 1));
             if (page == NULL) {
-- 
2.43.0


From fe33fadfd14cb897d3b3e5e7a2920ffe02aaaf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 07/44] fix: compare bytes as unsigned in
 mpack_expect_str_match()

---
 src/mpack/mpack-expect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 81576d1..ba3ec75 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -698,7 +698,7 @@ void mpack_expect_str_match(mpack_reader_t* reader, const char* str, size_t len)
 
     // check each byte one by one (matched strings are likely to be very small)
     for (; len > 0; --len) {
-        if (mpack_expect_native_u8(reader) != *str++) {
+        if (mpack_expect_native_u8(reader) != (uint8_t)*str++) {
             mpack_reader_flag_error(reader, mpack_error_type);
             return;
         }
-- 
2.43.0


From cd42ade5438e91201c3d033b27c3d0316ece17d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 08/44] fix: keep the type of a zero-length ext in
 mpack_expect_ext_alloc()

---
 src/mpack/mpack-expect.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index ba3ec75..df308c3 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -759,9 +759,10 @@ char* mpack_expect_ext_alloc(mpack_reader_t* reader, int8_t* type, size_t maxsiz
     char* data = mpack_read_bytes_alloc(reader, length);
     mpack_done_ext(reader);
 
+    // there is no data for a zero-length ext; this is not an error.
     if (data) {
         *size = length;
-    } else {
+    } else if (mpack_reader_error(reader) != mpack_ok) {
         *type = 0;
     }
     return data;
-- 
2.43.0


From 7954311e2f7ce91ca51be161abffa4006f28a154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 09/44] fix: close the builder nesting level in
 mpack_finish_type()

---
 src/mpack/mpack-writer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.h b/src/mpack/mpack-writer.h
index bb5b4a9..81b2eff 100644
--- a/src/mpack/mpack-writer.h
+++ b/src/mpack/mpack-writer.h
@@ -1081,6 +1081,8 @@ MPACK_INLINE void mpack_finish_ext(mpack_writer_t* writer) {
  */
 MPACK_INLINE void mpack_finish_type(mpack_writer_t* writer, mpack_type_t type) {
     mpack_writer_track_pop(writer, type);
+    if (type == mpack_type_array || type == mpack_type_map)
+        mpack_builder_compound_pop(writer);
 }
 
 /**
-- 
2.43.0


From b80298f7a4706f9ddbbe07ad174e097ec980a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 10/44] fix: do not grow a growable buffer that still has room
 on every mpack_writer_flush_message()

---
 src/mpack/mpack-writer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 029b065..b5c57fe 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -197,6 +197,11 @@ static void mpack_growable_writer_flush(mpack_writer_t* writer, const char* data
         // otherwise leave the data in the buffer and just grow
         writer->position = writer->buffer + count;
         count = 0;
+
+        // a message flush does not need more capacity if there is still room
+        // for whatever could have caused a flush during writing
+        if (mpack_writer_buffer_left(writer) >= MPACK_WRITER_MINIMUM_BUFFER_SIZE)
+            return;
     }
 
     size_t used = mpack_writer_buffer_used(writer);
-- 
2.43.0


From 48b616c0510d9ec5414705785df0827408547c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 11/44] fix: continue with the next builder page if the rest of
 a page has no build in it

---
 src/mpack/mpack-writer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index b5c57fe..4680648 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1741,7 +1741,10 @@ static void mpack_builder_resolve(mpack_writer_t* writer) {
 
         // now see if we can find another build.
         offset = mpack_builder_align_build(offset);
-        if (offset + sizeof(mpack_build_t) > mpack_builder_page_size(writer, page)) {
+        if (offset + sizeof(mpack_build_t) > mpack_builder_page_size(writer, page) ||
+                // the rest of this page may have been discarded because it was
+                // big enough for a build but less than the minimum buffer size
+                (offset + sizeof(mpack_build_t) > page->bytes_used && page->next != NULL)) {
             mpack_log("not enough room in this page for another build\n");
             mpack_builder_page_t* next_page = page->next;
             mpack_builder_free_page(writer, page);
-- 
2.43.0


From f97826703771554bf392e41e9432348eea28f7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 12/44] fix: check for failure to allocate a page when starting
 a nested build

---
 src/mpack/mpack-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 4680648..062d13c 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1598,6 +1598,8 @@ static void mpack_builder_build(mpack_writer_t* writer, mpack_type_t type) {
         mpack_log("not enough space for a build. %zi bytes used of %zi in this page\n",
                 builder->current_page->bytes_used, mpack_builder_page_size(writer, builder->current_page));
         mpack_builder_add_page(writer);
+        if (mpack_writer_error(writer) != mpack_ok)
+            return;
         // there is always enough space in a fresh page.
         offset = mpack_builder_align_build(builder->current_page->bytes_used);
     }
-- 
2.43.0


From 350f5ec3c751d58073ff1884de43a098ab3e41aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 13/44] fix: do not start a build if tracking it fails

---
 src/mpack/mpack-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 062d13c..793e1f1 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1579,6 +1579,8 @@ static void mpack_builder_build(mpack_writer_t* writer, mpack_type_t type) {
 
     mpack_writer_track_element(writer);
     mpack_writer_track_push_builder(writer, type);
+    if (mpack_writer_error(writer) != mpack_ok)
+        return;
 
     mpack_builder_t* builder = &writer->builder;
 
-- 
2.43.0


From bc87298436d4694b6982ae95454125207dc1ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 14/44] fix: reject NaN in bounded float and double expect
 functions

---
 src/mpack/mpack-expect.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index df308c3..ade5af1 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -276,7 +276,8 @@ uint64_t mpack_expect_raw_double(mpack_reader_t* reader) {
         return min_value;                                               \
                                                                         \
     /* make sure it fits */                                             \
-    if (val < min_value || val > max_value) {                           \
+    /* (written so that a floating point NaN is out of range) */        \
+    if (!(val >= min_value && val <= max_value)) {                      \
         mpack_reader_flag_error(reader, mpack_error_type);              \
         return min_value;                                               \
     }                                                                   \
-- 
2.43.0


From c85ea4d7e1f5a871fdc8568e29dc92270f7624ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 15/44] fix: return false from mpack_expect_bool() on type
 error

---
 src/mpack/mpack-expect.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index ade5af1..2328167 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -327,8 +327,10 @@ void mpack_expect_nil(mpack_reader_t* reader) {
 
 bool mpack_expect_bool(mpack_reader_t* reader) {
     uint8_t type = mpack_expect_type_byte(reader);
-    if ((type & ~1) != 0xc2)
+    if ((type & ~1) != 0xc2) {
         mpack_reader_flag_error(reader, mpack_error_type);
+        return false;
+    }
     return (bool)(type & 1);
 }
 
-- 
2.43.0


From 06d255b9281b46135bc9f29c7fdc3be8ecc0ed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 16/44] fix: match non-negative signed integers in
 mpack_expect_key_uint()

---
 src/mpack/mpack-expect.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 2328167..68c56b1 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -839,8 +839,9 @@ size_t mpack_expect_key_uint(mpack_reader_t* reader, bool found[], size_t count)
     }
     mpack_assert(found != NULL, "found cannot be NULL");
 
-    // the key is only recognized if it is an unsigned int
-    if (mpack_peek_tag(reader).type != mpack_type_uint) {
+    // the key is only recognized if it is a non-negative int
+    mpack_tag_t tag = mpack_peek_tag(reader);
+    if (tag.type != mpack_type_uint && !(tag.type == mpack_type_int && tag.v.i >= 0)) {
         mpack_discard(reader);
         return count;
     }
-- 
2.43.0


From 1045dff582d9edf2b89e9af49f10a72d31cf251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 17/44] fix: check for overflow in mpack_expect_array_alloc()

---
 src/mpack/mpack-expect.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 68c56b1..6cb16e4 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -477,7 +477,9 @@ void* mpack_expect_array_alloc_impl(mpack_reader_t* reader, size_t element_size,
         return NULL;
     }
 
-    void* p = MPACK_MALLOC(element_size * count);
+    void* p = NULL;
+    if (element_size == 0 || count <= SIZE_MAX / element_size)
+        p = MPACK_MALLOC(element_size * count);
     if (p == NULL) {
         mpack_reader_flag_error(reader, mpack_error_memory);
         return NULL;
-- 
2.43.0


From 20cd6bb05f74e7491b9ad37fdf6ede11c45736d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 18/44] fix: zero the type when mpack_expect_ext_max() rejects
 the length

---
 src/mpack/mpack-expect.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpack/mpack-expect.h b/src/mpack/mpack-expect.h
index 02a1abc..4de568c 100644
--- a/src/mpack/mpack-expect.h
+++ b/src/mpack/mpack-expect.h
@@ -1228,6 +1228,7 @@ uint32_t mpack_expect_ext(mpack_reader_t* reader, int8_t* type);
 MPACK_INLINE uint32_t mpack_expect_ext_max(mpack_reader_t* reader, int8_t* type, uint32_t maxsize) {
     uint32_t length = mpack_expect_ext(reader, type);
     if (length > maxsize) {
+        *type = 0;
         mpack_reader_flag_error(reader, mpack_error_type);
         return 0;
     }
-- 
2.43.0


From 30e472ffab9a7f4481685d14c3d851602e079389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 19/44] fix: empty the buffer when reading a C-string fails

---
 src/mpack/mpack-reader.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index dfac4c2..f042b6e 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -463,13 +463,17 @@ static void mpack_read_cstr_unchecked(mpack_reader_t* reader, char* buf, size_t
     }
 
     if (byte_count > buffer_size - 1) {
-        mpack_reader_flag_error(reader, mpack_error_too_big);
         buf[0] = 0;
+        mpack_reader_flag_error(reader, mpack_error_too_big);
         return;
     }
 
     mpack_reader_track_str_bytes_all(reader, byte_count);
     mpack_read_native(reader, buf, byte_count);
+    if (mpack_reader_error(reader) != mpack_ok) {
+        buf[0] = 0;
+        return;
+    }
     buf[byte_count] = 0;
 }
 
-- 
2.43.0


From 01c2e27aa332dde51c3e5e100d2bff43182f842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 20/44] fix: do not let a file reader skip past the end of the
 file

---
 src/mpack/mpack-reader.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index f042b6e..0278e3b 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -111,9 +111,13 @@ static void mpack_file_reader_skip(mpack_reader_t* reader, size_t count) {
     // We call ftell() to test whether the stream is seekable
     // without causing a file error.
     if (ftell(file) >= 0) {
-        mpack_log("seeking forward %i bytes\n", (int)count);
-        if (fseek(file, (long int)count, SEEK_CUR) == 0)
+        // Seeking past the end of a file succeeds so we leave the last byte to
+        // be read by the fill function. This makes sure it really exists.
+        mpack_log("seeking forward %i bytes\n", (int)(count - 1));
+        if (fseek(file, (long int)(count - 1), SEEK_CUR) == 0) {
+            mpack_reader_skip_using_fill(reader, 1);
             return;
+        }
         mpack_log("fseek() didn't return zero!\n");
         if (ferror(file)) {
             mpack_reader_flag_error(reader, mpack_error_io);
-- 
2.43.0


From 679b803034e69be70031f4c7b3054d95580463a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 21/44] fix: do not seek by more than LONG_MAX bytes in a file
 reader skip

---
 src/mpack/mpack-reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 0278e3b..3daf1ee 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -110,7 +110,7 @@ static void mpack_file_reader_skip(mpack_reader_t* reader, size_t count) {
 
     // We call ftell() to test whether the stream is seekable
     // without causing a file error.
-    if (ftell(file) >= 0) {
+    if (count - 1 <= (size_t)LONG_MAX && ftell(file) >= 0) {
         // Seeking past the end of a file succeeds so we leave the last byte to
         // be read by the fill function. This makes sure it really exists.
         mpack_log("seeking forward %i bytes\n", (int)(count - 1));
-- 
2.43.0


From 3c145b8321fe505176c242f33bc8c583db249206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 22/44] fix: flag usage tracking errors in
 mpack_writer_destroy()

---
 src/mpack/mpack-writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 793e1f1..d055450 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -537,7 +537,7 @@ mpack_error_t mpack_writer_destroy(mpack_writer_t* writer) {
 
     // clean up tracking, asserting if we're not already in an error state
     #if MPACK_WRITE_TRACKING
-    mpack_track_destroy(&writer->track, writer->error != mpack_ok);
+    mpack_writer_flag_if_error(writer, mpack_track_destroy(&writer->track, writer->error != mpack_ok));
     #endif
 
     #if MPACK_BUILDER
-- 
2.43.0


From bc57d4dff23b8a772936ec99fb32f34cb068f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 23/44] fix: close the file in mpack_tree_init_stdfile() if
 max_bytes is invalid

---
 src/mpack/mpack-node.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index ad81050..076940c 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1206,10 +1206,8 @@ static void mpack_tree_init_stdfile_noclose(mpack_tree_t* tree, FILE* stdfile, s
 }
 
 void mpack_tree_init_stdfile(mpack_tree_t* tree, FILE* stdfile, size_t max_bytes, bool close_when_done) {
-    if (!mpack_tree_file_check_max_bytes(tree, max_bytes))
-        return;
-
-    mpack_tree_init_stdfile_noclose(tree, stdfile, max_bytes);
+    if (mpack_tree_file_check_max_bytes(tree, max_bytes))
+        mpack_tree_init_stdfile_noclose(tree, stdfile, max_bytes);
 
     if (close_when_done)
         fclose(stdfile);
-- 
2.43.0


From e10c470a294b8bd201bc5ed678de3436b7712ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 24/44] fix: check for overflow when growing a growable writer

---
 src/mpack/mpack-writer.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index d055450..f28f013 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -215,10 +215,14 @@ static void mpack_growable_writer_flush(mpack_writer_t* writer, const char* data
             (int)count, (int)mpack_writer_buffer_left(writer), (int)used, (int)size);
 
     // grow to fit the data
-    // TODO: this really needs to correctly test for overflow
-    size_t new_size = size * 2;
-    while (new_size < used + count)
+    size_t new_size = size;
+    do {
+        if (new_size > SIZE_MAX / 2 || count > SIZE_MAX - used) {
+            mpack_writer_flag_error(writer, mpack_error_memory);
+            return;
+        }
         new_size *= 2;
+    } while (new_size < used + count);
 
     mpack_log("flush growing buffer size from %i to %i\n", (int)size, (int)new_size);
 
-- 
2.43.0


From ceab58c88038be0af8786af11bbdc462bcf1447a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 25/44] fix: tear down file readers and file and growable
 writers before flagging an error

---
 src/mpack/mpack-reader.c | 5 +++--
 src/mpack/mpack-writer.c | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 3daf1ee..1f0d02c 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -142,13 +142,14 @@ static void mpack_file_reader_teardown(mpack_reader_t* reader) {
 static void mpack_file_reader_teardown_close(mpack_reader_t* reader) {
     FILE* file = (FILE*)reader->context;
 
+    // the error handler may jump, so we clean up before flagging an error
+    mpack_file_reader_teardown(reader);
+
     if (file) {
         int ret = fclose(file);
         if (ret != 0)
             mpack_reader_flag_error(reader, mpack_error_io);
     }
-
-    mpack_file_reader_teardown(reader);
 }
 
 void mpack_reader_init_stdfile(mpack_reader_t* reader, FILE* file, bool close_when_done) {
diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index f28f013..1038ffd 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -263,6 +263,7 @@ static void mpack_growable_writer_teardown(mpack_writer_t* writer) {
             char* buffer = (char*)mpack_realloc(writer->buffer, used, size);
             if (!buffer) {
                 MPACK_FREE(writer->buffer);
+                writer->buffer = NULL;
                 mpack_writer_flag_error(writer, mpack_error_memory);
                 return;
             }
@@ -326,13 +327,14 @@ static void mpack_file_writer_teardown(mpack_writer_t* writer) {
 static void mpack_file_writer_teardown_close(mpack_writer_t* writer) {
     FILE* file = (FILE*)writer->context;
 
+    // the error handler may jump, so we clean up before flagging an error
+    mpack_file_writer_teardown(writer);
+
     if (file) {
         int ret = fclose(file);
         if (ret != 0)
             mpack_writer_flag_error(writer, mpack_error_io);
     }
-
-    mpack_file_writer_teardown(writer);
 }
 
 void mpack_writer_init_stdfile(mpack_writer_t* writer, FILE* file, bool close_when_done) {
-- 
2.43.0


From 28336819970169084cc2e0fa85e7624e814a3c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 26/44] fix: do not recurse in mpack_discard()

---
 src/mpack/mpack-reader.c | 89 +++++++++++++++++++++++-----------------
 1 file changed, 52 insertions(+), 37 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 1f0d02c..fb0c499 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -998,45 +998,60 @@ mpack_tag_t mpack_peek_tag(mpack_reader_t* reader) {
 }
 
 void mpack_discard(mpack_reader_t* reader) {
-    mpack_tag_t var = mpack_read_tag(reader);
-    if (mpack_reader_error(reader))
-        return;
-    switch (var.type) {
-        case mpack_type_str:
-            mpack_skip_bytes(reader, var.v.l);
-            mpack_done_str(reader);
-            break;
-        case mpack_type_bin:
-            mpack_skip_bytes(reader, var.v.l);
-            mpack_done_bin(reader);
-            break;
-        #if MPACK_EXTENSIONS
-        case mpack_type_ext:
-            mpack_skip_bytes(reader, var.v.l);
-            mpack_done_ext(reader);
-            break;
-        #endif
-        case mpack_type_array: {
-            for (; var.v.n > 0; --var.v.n) {
-                mpack_discard(reader);
-                if (mpack_reader_error(reader))
-                    break;
-            }
-            mpack_done_array(reader);
-            break;
+
+    // We don't recurse into maps and arrays because untrusted data could nest
+    // them deeply enough to overflow the stack. We only need to know how many
+    // elements are left to discard in total.
+    uint64_t left = 1;
+
+    #if MPACK_READ_TRACKING
+    size_t track_count = reader->track.count;
+    #endif
+
+    while (left > 0) {
+        mpack_tag_t var = mpack_read_tag(reader);
+        if (mpack_reader_error(reader))
+            return;
+        --left;
+
+        switch (var.type) {
+            case mpack_type_str:
+                mpack_skip_bytes(reader, var.v.l);
+                mpack_done_str(reader);
+                break;
+            case mpack_type_bin:
+                mpack_skip_bytes(reader, var.v.l);
+                mpack_done_bin(reader);
+                break;
+            #if MPACK_EXTENSIONS
+            case mpack_type_ext:
+                mpack_skip_bytes(reader, var.v.l);
+                mpack_done_ext(reader);
+                break;
+            #endif
+            case mpack_type_array:
+                left += var.v.n;
+                break;
+            case mpack_type_map:
+                left += (uint64_t)var.v.n * 2;
+                break;
+            default:
+                break;
         }
-        case mpack_type_map: {
-            for (; var.v.n > 0; --var.v.n) {
-                mpack_discard(reader);
-                mpack_discard(reader);
-                if (mpack_reader_error(reader))
-                    break;
-            }
-            mpack_done_map(reader);
-            break;
+        if (mpack_reader_error(reader))
+            return;
+
+        #if MPACK_READ_TRACKING
+        // close the maps and arrays that are done
+        while (reader->track.count > track_count) {
+            mpack_track_element_t* element = &reader->track.elements[reader->track.count - 1];
+            if (element->left > 0 || element->key_needs_value)
+                break;
+            mpack_done_type(reader, element->type);
+            if (mpack_reader_error(reader))
+                return;
         }
-        default:
-            break;
+        #endif
     }
 }
 
-- 
2.43.0


From f57ea10056b596108adc3bf528a0796fe045bd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 27/44] fix: a finite double slightly too large for a float
 became NaN instead of infinity (MPACK_DOUBLE disabled)

The shortening conversion saturated to infinity only above biased exponent
255, so doubles in [2^128, 2^129) got the exponent 255 with their own
significand, which is a NaN.
---
 src/mpack/mpack-common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-common.h b/src/mpack/mpack-common.h
index 3e77e07..308c53d 100644
--- a/src/mpack/mpack-common.h
+++ b/src/mpack/mpack-common.h
@@ -1035,7 +1035,7 @@ MPACK_INLINE float mpack_shorten_raw_double_to_float(uint64_t d) {
             // we don't currently handle subnormal numbers. just set it to zero.
             f_exponent = 0;
             f_significand = 0;
-        } else if (MPACK_UNLIKELY(fix_bias > 0xff)) {
+        } else if (MPACK_UNLIKELY(fix_bias >= 0xff)) {
             // exponent is too large; saturate to infinity
             f_exponent = 0xff;
             f_significand = 0;
-- 
2.43.0


From 12afe76c0d0b0b3ee46b086304a9bfea215b02ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 28/44] fix: mpack_node_data_alloc() flagged mpack_error_memory
 for empty data if malloc(0) returns NULL

An allocator may return NULL for a zero-byte request. The writer already
takes care of this; do the same here so that empty strings, binary data and
extensions can be copied with any allocator.
---
 src/mpack/mpack-node.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 076940c..ca445de 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1654,7 +1654,9 @@ char* mpack_node_data_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len);
+    // malloc(0) may return NULL. this must not be mistaken for a failure.
+    size_t size = (node.data->len != 0) ? (size_t)node.data->len : 1;
+    char* ret = (char*) MPACK_MALLOC(size);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
-- 
2.43.0


From 882784efae56ba7424a2468522109cc1fcdcf6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:44 +0000
Subject: [PATCH 29/44] fix: do not count elements into an open build once the
 writer is in an error state

---
 src/mpack/mpack-writer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-writer.h b/src/mpack/mpack-writer.h
index 81b2eff..c96633c 100644
--- a/src/mpack/mpack-writer.h
+++ b/src/mpack/mpack-writer.h
@@ -721,7 +721,9 @@ MPACK_INLINE void mpack_builder_compound_pop(mpack_writer_t* writer) {
 
     #if MPACK_BUILDER
     mpack_build_t* build = writer->builder.current_build;
-    if (build != NULL) {
+    // Builds aren't completed after an error, so the current build may not be
+    // the one this element was started in.
+    if (build != NULL && writer->error == mpack_ok) {
         mpack_assert(build->nested_compound_elements > 0);
         --build->nested_compound_elements;
     }
-- 
2.43.0


From a78cbc1da23bbd24055e29523eb039b4ee006d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:44 +0000
Subject: [PATCH 30/44] fix: print nil for any node of a tree in an error state

---
 src/mpack/mpack-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index ca445de..b3baf80 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1308,7 +1308,7 @@ mpack_tag_t mpack_node_tag(mpack_node_t node) {
 static void mpack_node_print_element(mpack_node_t node, mpack_print_t* print, size_t depth) {
     mpack_node_data_t* data = node.data;
     size_t i,j;
-    switch (data->type) {
+    switch (mpack_node_type(node)) { // nil if the tree is in an error state
         case mpack_type_str:
             {
                 mpack_print_append_cstr(print, "\"");
-- 
2.43.0


From af0db71281f23cbaf7f9a860c6cda099a664b645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:56 +0000
Subject: [PATCH 31/44] fix: no pointer arithmetic on NULL for readers and
 writers created in an error state

---
 src/mpack/mpack-reader.c | 4 ++++
 src/mpack/mpack-writer.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index fb0c499..d52549a 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -50,6 +50,10 @@ void mpack_reader_init_error(mpack_reader_t* reader, mpack_error_t error) {
     mpack_memset(reader, 0, sizeof(*reader));
     reader->error = error;
 
+    // Use an empty buffer rather than null pointers so that later reads of
+    // zero bytes are well defined.
+    reader->data = reader->end = "";
+
     mpack_log("===========================\n");
     mpack_log("initializing reader error state %i\n", (int)error);
 }
diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 1038ffd..8d16c6c 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -140,6 +140,10 @@ void mpack_writer_init_error(mpack_writer_t* writer, mpack_error_t error) {
     mpack_writer_clear(writer);
     writer->error = error;
 
+    // Use an empty buffer rather than null pointers so that later writes of
+    // zero bytes are well defined.
+    writer->buffer = writer->position = writer->end = (char*)writer;
+
     mpack_log("===========================\n");
     mpack_log("initializing writer in error state %i\n", (int)error);
 }
-- 
2.43.0


From 5c087d4de4fbf919e538ed0904a515770dc019a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:56 +0000
Subject: [PATCH 32/44] fix: do not skip bytes if skipping them is a tracking
 error

---
 src/mpack/mpack-reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index d52549a..ff4a2da 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -406,7 +406,8 @@ void mpack_skip_bytes(mpack_reader_t* reader, size_t count) {
         return;
     mpack_log("skip requested for %i bytes\n", (int)count);
 
-    mpack_reader_track_bytes(reader, count);
+    if (mpack_reader_track_bytes(reader, count) != mpack_ok)
+        return;
 
     // check if we have enough in the buffer already
     size_t left = (size_t)(reader->end - reader->data);
-- 
2.43.0


From 8e998ff8e4d43687c6798cd12e682623856a926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 33/44] fix: do not free builder pages twice if the writer is
 destroyed by its error callback in mpack_writer_destroy()

---
 src/mpack/mpack-writer.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 8d16c6c..2746a8b 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -564,6 +564,12 @@ mpack_error_t mpack_writer_destroy(mpack_writer_t* writer) {
             mpack_writer_flag_error(writer, mpack_error_bug);
         }
 
+    }
+
+    // The error callback may have already destroyed the writer in which case
+    // there is nothing left to free.
+    if (builder->current_build != NULL) {
+
         // Free any remaining builder pages
         mpack_builder_page_t* page = builder->pages;
         #if MPACK_BUILDER_INTERNAL_STORAGE
@@ -582,11 +588,11 @@ mpack_error_t mpack_writer_destroy(mpack_writer_t* writer) {
         writer->position = builder->stash_position;
         writer->end = builder->stash_end;
 
-        // Note: It's not necessary to clean up the current_build or other
-        // pointers at this point because we're guaranteed to be in an error
-        // state already so a user error callback can't longjmp out. This
-        // destroy function will complete no matter what so it doesn't matter
-        // what junk is left in the writer.
+        // Note: We're guaranteed to be in an error state already so a user
+        // error callback can't longjmp out. This destroy function will
+        // complete no matter what so it doesn't matter what other junk is
+        // left in the writer.
+        builder->current_build = NULL;
     }
     #endif
 
-- 
2.43.0


From 0f9f3c731df4fec9d23cfb8f23d6414412e7538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 34/44] fix: check for errors and not the buffer size while
 skipping as the error callback may destroy the reader

---
 src/mpack/mpack-reader.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index ff4a2da..485cc95 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -429,20 +429,17 @@ MPACK_NOINLINE static void mpack_reader_skip_using_fill(mpack_reader_t* reader,
     // fill and discard multiples of the buffer size
     while (count > reader->size) {
         mpack_log("filling and discarding buffer of %i bytes\n", (int)reader->size);
-        if (mpack_fill_range(reader, reader->buffer, reader->size, reader->size) < reader->size) {
-            mpack_reader_flag_error(reader, mpack_error_io);
+        mpack_fill_range(reader, reader->buffer, reader->size, reader->size);
+        if (mpack_reader_error(reader) != mpack_ok)
             return;
-        }
         count -= reader->size;
     }
 
     // fill the buffer as much as possible
     reader->data = reader->buffer;
     size_t read = mpack_fill_range(reader, reader->buffer, count, reader->size);
-    if (read < count) {
-        mpack_reader_flag_error(reader, mpack_error_io);
+    if (mpack_reader_error(reader) != mpack_ok)
         return;
-    }
     reader->end = reader->data + read;
     mpack_log("filled %i bytes into buffer; discarding %i bytes\n", (int)read, (int)count);
     reader->data += count;
-- 
2.43.0


From d98fe3002ce8bc55cdb36aa59f196c42460282ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 35/44] fix: do not write to a freed buffer after the writer is
 destroyed by its error callback

---
 src/mpack/mpack-writer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 2746a8b..2086aef 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -607,6 +607,11 @@ mpack_error_t mpack_writer_destroy(mpack_writer_t* writer) {
         writer->teardown = NULL;
     }
 
+    // If we were called by the error callback, the function that flagged the
+    // error may still be running. Make sure it doesn't write to the buffer.
+    if (writer->error != mpack_ok)
+        writer->end = writer->position;
+
     return writer->error;
 }
 
-- 
2.43.0


From aaceacaff474acdd9f8350b2ba526cb691822fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 36/44] fix: report end of file the same wherever the file
 reader's buffer ends

---
 src/mpack/mpack-reader.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 485cc95..99f8732 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -104,7 +104,14 @@ static size_t mpack_file_reader_fill(mpack_reader_t* reader, char* buffer, size_
        mpack_reader_flag_error(reader, mpack_error_eof);
        return 0;
     }
-    return fread((void*)buffer, 1, count, (FILE*)reader->context);
+
+    // If the previous read ended exactly at the end of the file, the end-of-file
+    // indicator is only set now. The error must not depend on where our buffer
+    // boundary happened to fall.
+    size_t read = fread((void*)buffer, 1, count, (FILE*)reader->context);
+    if (read == 0 && feof((FILE *)reader->context))
+        mpack_reader_flag_error(reader, mpack_error_eof);
+    return read;
 }
 
 static void mpack_file_reader_skip(mpack_reader_t* reader, size_t count) {
-- 
2.43.0


From 0447ad657c51f1b70d593090689dace5c87eb5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:36 +0000
Subject: [PATCH 37/44] fix: print large doubles in full

---
 src/mpack/mpack-node.c   | 2 +-
 src/mpack/mpack-reader.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index b3baf80..070600b 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1371,7 +1371,7 @@ static void mpack_node_print_element(mpack_node_t node, mpack_print_t* print, si
                     prefix_length = mpack_node_data_len(node);
                 }
 
-                char buf[256];
+                char buf[384]; // a double can need over 300 characters
                 mpack_tag_t tag = mpack_node_tag(node);
                 mpack_tag_debug_pseudo_json(tag, buf, sizeof(buf), prefix, prefix_length);
                 mpack_print_append_cstr(print, buf);
diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 99f8732..fccd39a 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -1220,7 +1220,7 @@ static void mpack_print_element(mpack_reader_t* reader, mpack_print_t* print, si
             break;
     }
 
-    char buf[256];
+    char buf[384]; // a double can need over 300 characters
     mpack_tag_debug_pseudo_json(val, buf, sizeof(buf), buffer, count);
     mpack_print_append_cstr(print, buf);
 }
-- 
2.43.0


From 888a2c1abdf8b288aff2fa04debb4e1448da146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:09 +0000
Subject: [PATCH 38/44] fix: no false assertion when the size given to a
 growable writer overflows size_t

---
 src/mpack/mpack-writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 2086aef..c1faf64 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -214,7 +214,7 @@ static void mpack_growable_writer_flush(mpack_writer_t* writer, const char* data
     mpack_log("flush size %i used %i data %p buffer %p\n",
             (int)count, (int)used, data, writer->buffer);
 
-    mpack_assert(data == writer->buffer || used + count > size,
+    mpack_assert(data == writer->buffer || count > size - used,
             "extra flush for %i but there is %i space left in the buffer! (%i/%i)",
             (int)count, (int)mpack_writer_buffer_left(writer), (int)used, (int)size);
 
-- 
2.43.0


From 52b62c2047fd1eb0e78da6dc39400ab81b7747e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:16 +0000
Subject: [PATCH 39/44] fix: move leftover stream data once per fill and not
 once per message (quadratic work for many small messages)

---
 src/mpack/mpack-node.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 070600b..b4ad125 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -98,6 +98,14 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
         return false;
     }
 
+    // move any data left over from previous messages to the start of the
+    // buffer. all of it belongs to the message being parsed, so each byte is
+    // moved at most once.
+    if (tree->buffer != NULL && tree->data != tree->buffer) {
+        mpack_memmove(tree->buffer, tree->data, tree->data_length);
+        tree->data = tree->buffer;
+    }
+
     // expand the buffer if needed. this can't overflow because we've already
     // checked that the required size is within the maximum message size.
     size_t required = tree->data_length - tree->parser.possible_nodes_left + bytes;
@@ -876,24 +884,13 @@ static bool mpack_tree_parse_start(mpack_tree_t* tree) {
 
     // check if we previously parsed a tree
     if (tree->size > 0) {
-        #ifdef MPACK_MALLOC
-        // if we're buffered, move the remaining data back to the
-        // start of the buffer
-        // TODO: This is not ideal performance-wise. We should only move data
-        // when we need to call the fill function.
+        // advance past the parsed data. if we're buffered, the remaining data
+        // is moved back to the start of the buffer when we next fill it.
         // TODO: We could consider shrinking the buffer here, especially if we
         // determine that the fill function is providing less than a quarter of
         // the buffer size or if messages take up less than a quarter of the
         // buffer size. Maybe this should be configurable.
-        if (tree->buffer != NULL) {
-            mpack_memmove(tree->buffer, tree->buffer + tree->size, tree->data_length - tree->size);
-        }
-        else
-        #endif
-        // otherwise advance past the parsed data
-        {
-            tree->data += tree->size;
-        }
+        tree->data += tree->size;
         tree->data_length -= tree->size;
         tree->size = 0;
         tree->node_count = 0;
-- 
2.43.0


From d35e1715ec2fb7664bd511445d888b6e8b30786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:40 +0000
Subject: [PATCH 40/44] fix: do not track a string whose header could not be
 read

mpack_expect_str() pushed onto the track after the read of the length had
failed. If the error handler had destroyed the reader this used the freed
track; it now returns zero in that case and when the push fails.
---
 src/mpack/mpack-expect.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 6cb16e4..1801288 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -518,7 +518,8 @@ uint32_t mpack_expect_str(mpack_reader_t* reader) {
     }
 
     #if MPACK_READ_TRACKING
-    mpack_reader_flag_if_error(reader, mpack_track_push(&reader->track, mpack_type_str, count));
+    if (MPACK_READER_TRACK(reader, mpack_track_push(&reader->track, mpack_type_str, count)) != mpack_ok)
+        return 0;
     #endif
     return count;
     #endif
-- 
2.43.0


From f27bf20262c17b8b86ea6910535a112ae61762d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:26 +0000
Subject: [PATCH 41/44] fix: flag an error for truncated data in
 mpack_tree_try_parse() without an allocator

---
 src/mpack/mpack-node.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index b4ad125..af22a17 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -218,6 +218,9 @@ MPACK_STATIC_INLINE bool mpack_tree_reserve_bytes(mpack_tree_t* tree, size_t ext
     #ifdef MPACK_MALLOC
     return mpack_tree_reserve_fill(tree);
     #else
+    // there are no read functions without an allocator, so no more data can
+    // become available.
+    mpack_tree_flag_error(tree, mpack_error_invalid);
     return false;
     #endif
 }
-- 
2.43.0


From e12306980b9140d1e832eb03ac00c0a1b6d912bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:26 +0000
Subject: [PATCH 42/44] fix: no 32-bit overflow in the tree size for maps of
 2^31 or more pairs

---
 src/mpack/mpack-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index af22a17..eed6fd2 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -798,7 +798,7 @@ static bool mpack_tree_parse_node(mpack_tree_t* tree, mpack_node_data_t* node) {
     if (node->type == mpack_type_array)
         node_size -= node->len;
     else if (node->type == mpack_type_map)
-        node_size -= node->len * 2;
+        node_size -= (size_t)node->len * 2;
     tree->size += node_size;
 
     mpack_log("parsed a node of type %s of %i bytes and "
-- 
2.43.0


From 48dd7ab62436a9691cbd77a6f4a87285645883f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:26 +0000
Subject: [PATCH 43/44] fix: no 32-bit overflow in the allocation size of a C
 string of 2^32-1 bytes

---
 src/mpack/mpack-node.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index eed6fd2..91de6af 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1692,7 +1692,7 @@ char* mpack_node_cstr_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)(node.data->len + 1));
+    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len + 1);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
@@ -1729,7 +1729,7 @@ char* mpack_node_utf8_cstr_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)(node.data->len + 1));
+    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len + 1);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
-- 
2.43.0


From f7fcb12b183b5f505e974ddcc2a4fd70370127cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:26 +0000
Subject: [PATCH 44/44] fix: flag an error when a built map or array exceeds
 2^32-1 elements

---
 src/mpack/mpack-writer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index c1faf64..5e0e015 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -78,7 +78,10 @@ static inline void mpack_writer_track_element(mpack_writer_t* writer) {
         // We only track this write if it's not nested within another non-build
         // map or array.
         if (build->nested_compound_elements == 0) {
-            if (build->type != mpack_type_map) {
+            if (build->count == MPACK_UINT32_MAX) {
+                // a map or array can't hold any more elements.
+                mpack_writer_flag_error(writer, mpack_error_too_big);
+            } else if (build->type != mpack_type_map) {
                 ++build->count;
                 mpack_log("adding element to build %p, now %" PRIu32 " elements\n", (void*)build, build->count);
             } else if (build->key_needs_value) {
-- 
2.43.0


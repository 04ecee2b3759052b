From c1ada41463ae5f6c9e84ea2147263cd7a30eba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:57 +0000
Subject: [PATCH 1/4] fix: set the height of a just inserted tree leaf to 1

The height of a node is 1 for a leaf and 0 for a missing child, but a new
node was inserted with height 0 and then never rebalanced itself.
Any inserted leaf was then indistinguishable from an empty subtree, and
three increasing inserts were already enough to get a tree that is not
AVL balanced.
---
 tommyds/tommytree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tommyds/tommytree.c b/tommyds/tommytree.c
index 8ef8478..8158a84 100644
--- a/tommyds/tommytree.c
+++ b/tommyds/tommytree.c
@@ -145,7 +145,7 @@ void* tommy_tree_insert(tommy_tree* tree, tommy_tree_node* node, void* data)
 	insert->data = data;
 	insert->prev = 0;
 	insert->next = 0;
-	insert->index = 0;
+	insert->index = 1; /* height of a leaf */
 
 	tree->root = tommy_tree_insert_node(tree->cmp, tree->root, &insert);
 
-- 
2.43.0


From e2aec61acf249bde9c22765b728fba17a0537e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:40 +0000
Subject: [PATCH 2/4] fix: don't write blocks past the end of the allocator
 segment

The space taken by the segment header was not subtracted from the size
available for the blocks. With some block sizes and alignments the last
block was carved up to sizeof(void*) bytes over the end of the memory got
from the heap.
---
 tommyds/tommyalloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tommyds/tommyalloc.c b/tommyds/tommyalloc.c
index 0da604c..bae7348 100644
--- a/tommyds/tommyalloc.c
+++ b/tommyds/tommyalloc.c
@@ -103,6 +103,7 @@ void* tommy_allocator_alloc(tommy_allocator* alloc)
 		segment->next = alloc->used_segment;
 		alloc->used_segment = segment;
 		data += sizeof(tommy_allocator_entry);
+		size -= sizeof(tommy_allocator_entry);
 
 		/* align if not aligned */
 		off = (tommy_uintptr_t)data;
-- 
2.43.0


From 3834215ba4d065eacf32240416122c1df6624943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:15 +0000
Subject: [PATCH 3/4] fix: don't read over the end of the string in
 tommy_strhash_u32()

The string was always read in groups of four bytes, accessing up to three
bytes after the terminating zero. With a string ending exactly at the end
of a memory block this is an invalid read, and a crash if it's also the
end of a mapped page. The resulting hash values are unchanged.
---
 tommyds/tommyhash.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/tommyds/tommyhash.c b/tommyds/tommyhash.c
index 71c4ef3..269f497 100644
--- a/tommyds/tommyhash.c
+++ b/tommyds/tommyhash.c
@@ -42,6 +42,21 @@ tommy_inline tommy_uint32_t tommy_le_uint32_read(const void* ptr)
 #endif
 }
 
+/*
+ * Reads up to four bytes of a string, stopping at the terminating zero.
+ * Nothing is read over the terminator, and the bytes missing are set to zero.
+ */
+tommy_inline tommy_uint32_t tommy_le_uint32_strread(const unsigned char* str)
+{
+	tommy_uint32_t value = 0;
+	tommy_uint_t i;
+
+	for (i = 0; i < 4 && str[i] != 0; ++i)
+		value |= (tommy_uint32_t)str[i] << (8 * i);
+
+	return value;
+}
+
 #define tommy_rot(x, k) \
 	(((x) << (k)) | ((x) >> (32 - (k))))
 
@@ -175,7 +190,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 	/* this is different than original lookup3 and the result won't match */
 
 	while (1) {
-		tommy_uint32_t v = tommy_le_uint32_read(key);
+		tommy_uint32_t v = tommy_le_uint32_strread(key);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
@@ -192,7 +207,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 
 		a += v;
 
-		v = tommy_le_uint32_read(key + 4);
+		v = tommy_le_uint32_strread(key + 4);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
@@ -209,7 +224,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 
 		b += v;
 
-		v = tommy_le_uint32_read(key + 8);
+		v = tommy_le_uint32_strread(key + 8);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
-- 
2.43.0


From 81bd965c6ed092ea977925e654d534fc100e8d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 4/4] fix: hashlin: restart growing as soon as the buckets in
 use are half full

When a shrink was interrupted by inserts, the growth restarted only when the
count was over half of the whole table, but at this point a single insert had
to reallocate up to half of the table. Compare with the number of valid
buckets, to keep the reallocation progressive also in this case.
---
 tommyds/tommyhashlin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tommyds/tommyhashlin.c b/tommyds/tommyhashlin.c
index fe138f7..cd182e9 100644
--- a/tommyds/tommyhashlin.c
+++ b/tommyds/tommyhashlin.c
@@ -90,7 +90,7 @@ tommy_inline void hashlin_grow_step(tommy_hashlin* hashlin)
 {
 	/* grow if more than 50% full */
 	if (hashlin->state != TOMMY_HASHLIN_STATE_GROW
-		&& hashlin->count > hashlin->bucket_max / 2
+		&& hashlin->count > (hashlin->low_max + hashlin->split) / 2
 	) {
 		/* if we are stable, setup a new grow state */
 		/* otherwise continue with the already setup shrink one */
-- 
2.43.0


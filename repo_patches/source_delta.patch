From 38ca654fe03f1172729762b7aa1c03229f7284a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 1/5] fix: account for the segment header when carving
 allocator blocks

The space used by the segment list entry was not subtracted from the
size left in the segment, so with some block and alignment sizes (for
example 16 bytes blocks) the last block was going over the end of the
allocated memory.
---
 tommyds/tommyalloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tommyds/tommyalloc.c b/tommyds/tommyalloc.c
index 0da604c..bae7348 100644
--- a/tommyds/tommyalloc.c
+++ b/tommyds/tommyalloc.c
@@ -103,6 +103,7 @@ void* tommy_allocator_alloc(tommy_allocator* alloc)
 		segment->next = alloc->used_segment;
 		alloc->used_segment = segment;
 		data += sizeof(tommy_allocator_entry);
+		size -= sizeof(tommy_allocator_entry);
 
 		/* align if not aligned */
 		off = (tommy_uintptr_t)data;
-- 
2.43.0


From f60c0445a12c34cac462861a9b8d5874741b5b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 2/5] fix: initialize the height of a new tree leaf at 1

The balance code assumes 0 for a missing subtree and 1 for a leaf, but a
new leaf was inserted with height 0, making the tree not AVL balanced.
---
 tommyds/tommytree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tommyds/tommytree.c b/tommyds/tommytree.c
index 8ef8478..8158a84 100644
--- a/tommyds/tommytree.c
+++ b/tommyds/tommytree.c
@@ -145,7 +145,7 @@ void* tommy_tree_insert(tommy_tree* tree, tommy_tree_node* node, void* data)
 	insert->data = data;
 	insert->prev = 0;
 	insert->next = 0;
-	insert->index = 0;
+	insert->index = 1; /* height of a leaf */
 
 	tree->root = tommy_tree_insert_node(tree->cmp, tree->root, &insert);
 
-- 
2.43.0


From 66359ca102b5d6836b40d3b87cce8908b63fe994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 3/5] fix: do not read over the terminator of the string to
 hash

The string hash was reading 4 bytes at time, accessing up to 3 bytes
after the 0 terminator, that could be outside of the allocated memory.
---
 tommyds/tommyhash.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/tommyds/tommyhash.c b/tommyds/tommyhash.c
index 71c4ef3..5aa68de 100644
--- a/tommyds/tommyhash.c
+++ b/tommyds/tommyhash.c
@@ -165,6 +165,28 @@ tommy_uint64_t tommy_hash_u64(tommy_uint64_t init_val, const void* void_key, tom
 	return c + ((tommy_uint64_t)b << 32);
 }
 
+/**
+ * Reads up to 4 bytes of a string.
+ * It doesn't read over the 0 terminator, leaving at 0 the bytes that follow it.
+ */
+tommy_inline tommy_uint32_t tommy_le_uint32_strread(const unsigned char* ptr)
+{
+	tommy_uint32_t v;
+
+	v = ptr[0];
+	if (!ptr[0])
+		return v;
+	v |= (tommy_uint32_t)ptr[1] << 8;
+	if (!ptr[1])
+		return v;
+	v |= (tommy_uint32_t)ptr[2] << 16;
+	if (!ptr[2])
+		return v;
+	v |= (tommy_uint32_t)ptr[3] << 24;
+
+	return v;
+}
+
 tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 {
 	const unsigned char* key = tommy_cast(const unsigned char*, void_key);
@@ -175,7 +197,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 	/* this is different than original lookup3 and the result won't match */
 
 	while (1) {
-		tommy_uint32_t v = tommy_le_uint32_read(key);
+		tommy_uint32_t v = tommy_le_uint32_strread(key);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
@@ -192,7 +214,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 
 		a += v;
 
-		v = tommy_le_uint32_read(key + 4);
+		v = tommy_le_uint32_strread(key + 4);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
@@ -209,7 +231,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 
 		b += v;
 
-		v = tommy_le_uint32_read(key + 8);
+		v = tommy_le_uint32_strread(key + 8);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
-- 
2.43.0


From 7e89749e8bf6109f7e10b70b4b4191160f2dcf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 4/5] fix: keep constant the hashlin insert time when reversing
 a shrink

If the number of elements starts to increase during a progressive shrink,
the shrink was reversed only when reaching the 50% of the full size,
and all the missing buckets had to be splitted in a single insert.
The reversal now starts when reaching the 50% of the buckets in use.
---
 tommyds/tommyhashlin.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tommyds/tommyhashlin.c b/tommyds/tommyhashlin.c
index fe138f7..e88cac0 100644
--- a/tommyds/tommyhashlin.c
+++ b/tommyds/tommyhashlin.c
@@ -88,9 +88,10 @@ void tommy_hashlin_done(tommy_hashlin* hashlin)
  */
 tommy_inline void hashlin_grow_step(tommy_hashlin* hashlin)
 {
-	/* grow if more than 50% full */
+	/* grow if more than 50% full, considering only the buckets in use, */
+	/* to not have to split too many of them if we are reversing a shrink */
 	if (hashlin->state != TOMMY_HASHLIN_STATE_GROW
-		&& hashlin->count > hashlin->bucket_max / 2
+		&& hashlin->count > (hashlin->low_max + hashlin->split) / 2
 	) {
 		/* if we are stable, setup a new grow state */
 		/* otherwise continue with the already setup shrink one */
-- 
2.43.0


From e53de8e79ebc11b687bbea2a9a1440570664f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:53 +0000
Subject: [PATCH 5/5] hooks: allow to provide the sizing constants externally

With TOMMYDS_MODEL defined, the initial sizes of the containers and the
number of bits and branches of the tries are not defined by the headers,
and have to be provided at compile time. Without it nothing changes.
---
 tommyds/tommyarray.h      | 2 ++
 tommyds/tommyarrayblk.h   | 2 ++
 tommyds/tommyarrayblkof.h | 2 ++
 tommyds/tommyarrayof.h    | 2 ++
 tommyds/tommyhashdyn.h    | 2 ++
 tommyds/tommyhashlin.h    | 2 ++
 tommyds/tommytrie.h       | 4 ++++
 tommyds/tommytrieinp.h    | 4 ++++
 8 files changed, 20 insertions(+)

diff --git a/tommyds/tommyarray.h b/tommyds/tommyarray.h
index bc124de..4713e71 100644
--- a/tommyds/tommyarray.h
+++ b/tommyds/tommyarray.h
@@ -51,7 +51,9 @@
  * Initial and minimal size of the array expressed as a power of 2.
  * The initial size is 2^TOMMY_ARRAY_BIT.
  */
+#ifndef TOMMYDS_MODEL /* if defined, the value is provided externally */
 #define TOMMY_ARRAY_BIT 6
+#endif
 
 /**
  * Array container type.
diff --git a/tommyds/tommyarrayblk.h b/tommyds/tommyarrayblk.h
index bf7845f..07856d8 100644
--- a/tommyds/tommyarrayblk.h
+++ b/tommyds/tommyarrayblk.h
@@ -52,7 +52,9 @@
 /**
  * Elements for each block.
  */
+#ifndef TOMMYDS_MODEL /* if defined, the value is provided externally */
 #define TOMMY_ARRAYBLK_SIZE (4 * 1024)
+#endif
 
 /**
  * Array container type.
diff --git a/tommyds/tommyarrayblkof.h b/tommyds/tommyarrayblkof.h
index 16d70cb..44ed152 100644
--- a/tommyds/tommyarrayblkof.h
+++ b/tommyds/tommyarrayblkof.h
@@ -52,7 +52,9 @@
 /**
  * Elements for each block.
  */
+#ifndef TOMMYDS_MODEL /* if defined, the value is provided externally */
 #define TOMMY_ARRAYBLKOF_SIZE (4 * 1024)
+#endif
 
 /**
  * Array container type.
diff --git a/tommyds/tommyarrayof.h b/tommyds/tommyarrayof.h
index 8d1c86c..43f9a63 100644
--- a/tommyds/tommyarrayof.h
+++ b/tommyds/tommyarrayof.h
@@ -52,7 +52,9 @@
  * Initial and minimal size of the array expressed as a power of 2.
  * The initial size is 2^TOMMY_ARRAYOF_BIT.
  */
+#ifndef TOMMYDS_MODEL /* if defined, the value is provided externally */
 #define TOMMY_ARRAYOF_BIT 6
+#endif
 
 /**
  * Array container type.
diff --git a/tommyds/tommyhashdyn.h b/tommyds/tommyhashdyn.h
index 5a8c125..9c465a7 100644
--- a/tommyds/tommyhashdyn.h
+++ b/tommyds/tommyhashdyn.h
@@ -146,7 +146,9 @@
  * Initial and minimal size of the hashtable expressed as a power of 2.
  * The initial size is 2^TOMMY_HASHDYN_BIT.
  */
+#ifndef TOMMYDS_MODEL /* if defined, the value is provided externally */
 #define TOMMY_HASHDYN_BIT 4
+#endif
 
 /**
  * Hashtable node.
diff --git a/tommyds/tommyhashlin.h b/tommyds/tommyhashlin.h
index 46edbf6..115f071 100644
--- a/tommyds/tommyhashlin.h
+++ b/tommyds/tommyhashlin.h
@@ -149,7 +149,9 @@
  * Initial and minimal size of the hashtable expressed as a power of 2.
  * The initial size is 2^TOMMY_HASHLIN_BIT.
  */
+#ifndef TOMMYDS_MODEL /* if defined, the value is provided externally */
 #define TOMMY_HASHLIN_BIT 6
+#endif
 
 /**
  * Hashtable node.
diff --git a/tommyds/tommytrie.h b/tommyds/tommytrie.h
index 23a4a4b..1990639 100644
--- a/tommyds/tommytrie.h
+++ b/tommyds/tommytrie.h
@@ -139,7 +139,9 @@
  *
  * Keeping this value small improves the performance of the trie.
  */
+#ifndef TOMMYDS_MODEL /* if defined, the value is provided externally */
 #define TOMMY_TRIE_BIT 32
+#endif
 
 /**
  * Number of branches on each inner node. It must be a power of 2.
@@ -148,7 +150,9 @@
  *
  * The default size is choosen to exactly fit a typical cache line of 64 bytes.
  */
+#ifndef TOMMYDS_MODEL /* if defined, the value is provided externally */
 #define TOMMY_TRIE_TREE_MAX (64 / sizeof(void*))
+#endif
 
 /**
  * Trie block size.
diff --git a/tommyds/tommytrieinp.h b/tommyds/tommytrieinp.h
index de14d9c..dc011a4 100644
--- a/tommyds/tommytrieinp.h
+++ b/tommyds/tommytrieinp.h
@@ -130,14 +130,18 @@
  *
  * Keeping this value small improves the performance of the trie.
  */
+#ifndef TOMMYDS_MODEL /* if defined, the value is provided externally */
 #define TOMMY_TRIE_INPLACE_BIT 32
+#endif
 
 /**
  * Number of branches on each node. It must be a power of 2.
  * Suggested values are 2, 4 and 8.
  * Any node, including leafs, contains a pointer to each branch.
  */
+#ifndef TOMMYDS_MODEL /* if defined, the value is provided externally */
 #define TOMMY_TRIE_INPLACE_TREE_MAX 4
+#endif
 
 /** \internal
  * Number of bits for each branch.
-- 
2.43.0


From e258ea4f4ce5c694e357aa66cd4dc40c0f2b2d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 01/24] fix: record value sizes above 255 bytes in full

urkel_node_save() took the value size as a uint8_t, so the size of every
value of 256 bytes or more was stored modulo 256 and the value read back
truncated after a commit.
---
 src/nodes.c | 2 +-
 src/nodes.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nodes.c b/src/nodes.c
index 149db46..c428df7 100644
--- a/src/nodes.c
+++ b/src/nodes.c
@@ -201,7 +201,7 @@ void
 urkel_node_save(urkel_node_t *node,
                 uint16_t index,
                 uint32_t pos,
-                uint8_t size) {
+                uint16_t size) {
   urkel_leaf_t *leaf = &node->u.leaf;
 
   CHECK(node->type == URKEL_NODE_LEAF);
diff --git a/src/nodes.h b/src/nodes.h
index 3e4a1b3..0f84491 100644
--- a/src/nodes.h
+++ b/src/nodes.h
@@ -111,7 +111,7 @@ void
 urkel_node_save(urkel_node_t *node,
                 uint16_t index,
                 uint32_t pos,
-                uint8_t size);
+                uint16_t size);
 
 void
 urkel_node_to_hash(const urkel_node_t *node, urkel_node_t *out);
-- 
2.43.0


From c6db45f67ddb92a640264ed5aa90e5a9c83c04f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 02/24] fix: release the nodes of a proof that fails to parse

urkel_verify() returned without freeing the proof nodes which
urkel_proof_read() had already allocated when it rejected the input.
---
 src/tree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree.c b/src/tree.c
index f0ec649..3d6e493 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -787,6 +787,7 @@ urkel_verify(int *exists,
   }
 
   if (!urkel_proof_read(&proof, proof_raw, proof_len)) {
+    urkel_proof_clear(&proof);
     urkel_errno = URKEL_EINVAL;
     return 0;
   }
-- 
2.43.0


From dde9be0266a496e9a1d4ee66bfc35f23bf912b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 03/24] fix: size the iterator stack for the deepest possible
 tree

Every level of a committed tree takes two stack entries (the hash node and
the resolved node), so iterating a tree deeper than 127 levels aborted.
---
 src/tree.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 3d6e493..cd4c2d1 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -15,6 +15,14 @@
 #include "store.h"
 #include "util.h"
 
+/*
+ * Defines
+ */
+
+/* A path has at most one internal node per key bit,
+   plus a leaf, and each may be preceded by a hash node. */
+#define MAX_ITER_STACK (2 * (URKEL_KEY_BITS + 1))
+
 /*
  * Structs
  */
@@ -45,7 +53,7 @@ typedef struct urkel_iter_s {
   urkel_mutex_t *lock;
   urkel_node_t *root;
   urkel_node_t *node;
-  urkel_state_t stack[URKEL_KEY_BITS];
+  urkel_state_t stack[MAX_ITER_STACK];
   size_t stack_len;
   int done;
   int transient;
@@ -1139,7 +1147,7 @@ urkel_iter_push(tree_iter_t *iter,
                 int resolved) {
   urkel_state_t *state;
 
-  CHECK(iter->stack_len < URKEL_KEY_BITS);
+  CHECK(iter->stack_len < MAX_ITER_STACK);
 
   state = &iter->stack[iter->stack_len++];
 
-- 
2.43.0


From a88ec389b5c0f4d8fe0be9a00318d01bd57c4f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 04/24] fix: do not clear an uninitialised node when a root is
 unknown

urkel_store_has_history() cleared its local node even when the lookup had
failed without setting it, so urkel_inject() with an unknown root freed
through indeterminate pointers.
---
 src/store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store.c b/src/store.c
index 24af568..04fb423 100644
--- a/src/store.c
+++ b/src/store.c
@@ -868,7 +868,8 @@ urkel_store_has_history(data_store_t *store, const unsigned char *root_hash) {
 
   ret = urkel_store_read_history(store, &root, root_hash);
 
-  urkel_node_clear(&root);
+  if (ret)
+    urkel_node_clear(&root);
 
   return ret;
 }
-- 
2.43.0


From 4ab28d1c013f92cdedc686b70a31108017cf9523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 05/24] fix: make urkel_tx_clear() respect an injected root

The documentation says urkel_tx_clear() behaves as if
urkel_tx_create(tree, NULL) was called in place, but after urkel_inject()
it reset the transaction to the last committed root instead.
---
 src/tree.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index cd4c2d1..4924391 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -891,14 +891,24 @@ urkel_tx_destroy(tree_tx_t *tx) {
 
 void
 urkel_tx_clear(tree_tx_t *tx) {
+  tree_db_t *tree = tx->tree;
+  urkel_node_t *root;
+
   urkel_rwlock_wrlock(tx->lock);
-  urkel_rwlock_rdlock(tx->tree->lock);
+  urkel_rwlock_wrlock(tree->lock);
 
-  urkel_node_destroy(tx->root, 1);
+  if (tree->revert)
+    root = urkel_store_get_history(tree->store, tree->hash);
+  else
+    root = urkel_store_get_root(tree->store);
 
-  tx->root = urkel_store_get_root(tx->tree->store);
+  if (root != NULL) {
+    urkel_node_destroy(tx->root, 1);
 
-  urkel_rwlock_rdunlock(tx->tree->lock);
+    tx->root = root;
+  }
+
+  urkel_rwlock_wrunlock(tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
 }
 
-- 
2.43.0


From 1bf288d1b08a844c03d051d19bb25675b16be088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 06/24] verif: let verification builds choose smaller file
 limits (URKEL_VERIF)

---
 src/store.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/store.c b/src/store.c
index 04fb423..9c71190 100644
--- a/src/store.c
+++ b/src/store.c
@@ -20,13 +20,26 @@
  */
 
 /* Max read size on linux, and lower than off_t max. */
+#ifdef URKEL_VERIF /* Verification builds choose smaller limits. */
+#define MAX_FILE_SIZE URKEL_VERIF_FILE_SIZE
+#else
 #define MAX_FILE_SIZE 0x7ffff000 /* File max = 2 GB */
+#endif
 #define MAX_FILES 0x7fff /* DB max = 64 TB. */
+#ifdef URKEL_VERIF
+#define MAX_OPEN_FILES URKEL_VERIF_OPEN_FILES
+#else
 #define MAX_OPEN_FILES 32
+#endif
 #define META_SIZE (4 + (URKEL_PTR_SIZE * 2) + 20)
 #define META_MAGIC 0x6d726b6c
+#ifdef URKEL_VERIF
+#define WRITE_BUFFER URKEL_VERIF_WRITE_BUFFER
+#define READ_BUFFER URKEL_VERIF_READ_BUFFER
+#else
 #define WRITE_BUFFER (64 << 20)
 #define READ_BUFFER (1 << 20)
+#endif
 #define SLAB_SIZE (READ_BUFFER - (READ_BUFFER % META_SIZE))
 #define WRITE_FLAGS (URKEL_O_RDWR | URKEL_O_CREAT | URKEL_O_APPEND \
                    | URKEL_O_RANDOM | URKEL_O_MMAP)
-- 
2.43.0


From 244ca877b4ed0e5a5fa7b3f5203036e4f1540b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 07/24] fix: recover from a crash during the creation of a
 database

A crash between the creation of the key file and the write of the key
left a database which could never be opened again. Nothing depends on
the key until there is a data file, so write a new one in that case.
Conversely, never replace the key of a database which has data.
---
 src/store.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/store.c b/src/store.c
index 9c71190..957716a 100644
--- a/src/store.c
+++ b/src/store.c
@@ -931,13 +931,21 @@ urkel_store_init_prefix(data_store_t *store, const char *prefix) {
 }
 
 static int
-urkel_store_init_meta(data_store_t *store) {
+urkel_store_init_meta(data_store_t *store, uint32_t index) {
   char path[URKEL_PATH_MAX + 1];
 
   urkel_store_path(store, path, "meta");
 
-  if (urkel_fs_exists(path))
-    return urkel_fs_read_file(path, store->key, URKEL_HASH_SIZE);
+  if (urkel_fs_exists(path)) {
+    if (urkel_fs_read_file(path, store->key, URKEL_HASH_SIZE))
+      return 1;
+
+    /* We may have crashed before the key was written. */
+    /* Nothing depends on the key until there is data. */
+  }
+
+  if (index != 0)
+    return 0;
 
   urkel_random_bytes(store->key, URKEL_HASH_SIZE);
 
@@ -1087,10 +1095,10 @@ urkel_store_init(data_store_t *store, const char *prefix) {
   if (!urkel_store_init_prefix(store, prefix))
     return 0;
 
-  if (!urkel_store_init_meta(store))
+  if (!urkel_store_find_index(store, &index))
     return 0;
 
-  if (!urkel_store_find_index(store, &index))
+  if (!urkel_store_init_meta(store, index))
     return 0;
 
   if (!urkel_store_init_lock(store))
-- 
2.43.0


From 0691a8f7134e4b52f8c39deb8bc3c1d0c6ec473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 08/24] fix: hold the lock before looking at the files of a
 database

Opening a database read the index of its last file and its key before
it took the lock, and closing released the lock before it unlinked the
lock file. Two processes could then have the database open at once, or
one could write over the commits of the other.
---
 src/io.c    | 13 +++++++++++++
 src/store.c | 23 ++++++++++++++---------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/io.c b/src/io.c
index 0741548..f631ea7 100644
--- a/src/io.c
+++ b/src/io.c
@@ -65,6 +65,19 @@ urkel_fs_open_lock(const char *name, uint32_t mode) {
     return -1;
   }
 
+#if !defined(_WIN32)
+  {
+    urkel_stat_t st;
+
+    /* The previous owner may have unlinked
+       the file after we opened it. */
+    if (!urkel_fs_fstat(fd, &st) || st.st_nlink == 0) {
+      urkel_fs_close_lock(fd);
+      return -1;
+    }
+  }
+#endif
+
   return fd;
 }
 
diff --git a/src/store.c b/src/store.c
index 957716a..18a6b24 100644
--- a/src/store.c
+++ b/src/store.c
@@ -1095,21 +1095,21 @@ urkel_store_init(data_store_t *store, const char *prefix) {
   if (!urkel_store_init_prefix(store, prefix))
     return 0;
 
-  if (!urkel_store_find_index(store, &index))
+  /* Look at the files only once they can no longer change. */
+  if (!urkel_store_init_lock(store))
     return 0;
 
-  if (!urkel_store_init_meta(store, index))
-    return 0;
+  if (!urkel_store_find_index(store, &index))
+    goto fail;
 
-  if (!urkel_store_init_lock(store))
-    return 0;
+  if (!urkel_store_init_meta(store, index))
+    goto fail;
 
   if (!urkel_store_recover_state(store,
                                  &store->state,
                                  &store->last_meta,
                                  &index)) {
-    urkel_fs_close_lock(store->lock_fd);
-    return 0;
+    goto fail;
   }
 
   urkel_slab_init(&store->slab);
@@ -1135,6 +1135,9 @@ urkel_store_init(data_store_t *store, const char *prefix) {
   }
 
   return 1;
+fail:
+  urkel_fs_close_lock(store->lock_fd);
+  return 0;
 }
 
 static void
@@ -1147,8 +1150,10 @@ urkel_store_clear(data_store_t *store) {
   urkel_filemap_clear(&store->files);
   urkel_cache_clear(&store->cache);
   urkel_rng_clear(&store->rng);
-  urkel_fs_close_lock(store->lock_fd);
+  /* Unlink first: the path may belong to
+     someone else once we release the lock. */
   urkel_fs_unlink(path);
+  urkel_fs_close_lock(store->lock_fd);
 
   memset(store, 0, sizeof(*store));
 }
@@ -1221,8 +1226,8 @@ fail:
   if (fd != -1) {
     memcpy(path + path_len, "lock", 5);
 
-    urkel_fs_close_lock(fd);
     urkel_fs_unlink(path);
+    urkel_fs_close_lock(fd);
   }
 
   if (ret)
-- 
2.43.0


From 9240071a56ba239b19635dc9c6790222ed2f3b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:42 +0000
Subject: [PATCH 09/24] fix: release the tree when a database fails to open

---
 src/tree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree.c b/src/tree.c
index 4924391..ff26acf 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -594,6 +594,7 @@ urkel_open(const char *prefix) {
   tree->store = urkel_store_open(prefix);
 
   if (tree->store == NULL) {
+    free(tree);
     urkel_errno = URKEL_EBADOPEN;
     return NULL;
   }
-- 
2.43.0


From 86a75d9def842c985e52898060c2dc27ad64f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 10/24] fix: do not delete a data file which cannot be read

When opening, reading or stating the last data file failed, recovery
took this for a file without any commit and unlinked it. Fail to open
the database instead.
---
 src/store.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/store.c b/src/store.c
index 18a6b24..a104353 100644
--- a/src/store.c
+++ b/src/store.c
@@ -1005,13 +1005,13 @@ urkel_store_find_meta(const data_store_t *store,
                       const char *path,
                       unsigned char *slab) {
   urkel_stat_t st;
-  int ret = 0;
+  int ret = -1;
   int fd;
 
   fd = urkel_fs_open(path, URKEL_O_RDWR | URKEL_O_RANDOM, 0);
 
   if (fd == -1)
-    return 0;
+    return -1;
 
   if (!urkel_fs_fstat(fd, &st))
     goto done;
@@ -1042,6 +1042,7 @@ urkel_store_find_meta(const data_store_t *store,
     }
   }
 
+  ret = 0;
 done:
   urkel_fs_close(fd);
   return ret;
@@ -1056,6 +1057,7 @@ urkel_store_recover_state(const data_store_t *store,
   char path[URKEL_PATH_MAX + 1];
   uint64_t off;
   int ret = 0;
+  int found;
 
   urkel_meta_init(state);
   urkel_meta_init(meta);
@@ -1063,7 +1065,13 @@ urkel_store_recover_state(const data_store_t *store,
   while (*index >= 1) {
     urkel_store_path_index(store, path, *index);
 
-    if (urkel_store_find_meta(store, meta, &off, path, slab)) {
+    found = urkel_store_find_meta(store, meta, &off, path, slab);
+
+    /* Do not mistake an i/o error for an absent record. */
+    if (found == -1)
+      goto fail;
+
+    if (found) {
       *state = *meta;
       state->meta_ptr.index = *index;
       state->meta_ptr.pos = off;
-- 
2.43.0


From 3834ac8fb2d1bbc778e64bbf6e82f91cdbfb7048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:20 +0000
Subject: [PATCH 11/24] fix: keep the nodes of a transaction until its commit
 succeeds

A failed commit destroyed nodes which the transaction still referred
to, so that using or destroying the transaction afterwards was a use
after free. Nodes which had been written to the buffer only could not
be read back either. Destroy the nodes once everything is on disk.
---
 src/tree.c | 62 +++++++++++++++++++++---------------------------------
 1 file changed, 24 insertions(+), 38 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index ff26acf..e3a6647 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -484,97 +484,83 @@ urkel_tree_prove(tree_db_t *tree,
   }
 }
 
-static urkel_node_t *
+static int
 urkel_tree_write(tree_db_t *tree, urkel_node_t *node) {
   switch (node->type) {
     case URKEL_NODE_NULL: {
-      return node;
+      return 1;
     }
 
     case URKEL_NODE_INTERNAL: {
       urkel_internal_t *internal = &node->u.internal;
-      urkel_node_t *left, *right, *out;
-
-      left = urkel_tree_write(tree, internal->left);
-
-      if (left == NULL)
-        return NULL;
-
-      internal->left = left;
-
-      right = urkel_tree_write(tree, internal->right);
 
-      if (right == NULL)
-        return NULL;
+      if (!urkel_tree_write(tree, internal->left))
+        return 0;
 
-      internal->right = right;
+      if (!urkel_tree_write(tree, internal->right))
+        return 0;
 
       if (!(node->flags & URKEL_FLAG_WRITTEN)) {
         urkel_store_write_node(tree->store, node);
 
         if (urkel_store_needs_flush(tree->store)) {
           if (!urkel_store_flush(tree->store))
-            return NULL;
+            return 0;
         }
       }
 
-      out = checked_malloc(sizeof(urkel_node_t));
-
       urkel_node_hash(node);
-      urkel_node_to_hash(node, out);
-      urkel_node_destroy(node, 1);
 
-      return out;
+      return 1;
     }
 
     case URKEL_NODE_LEAF: {
-      urkel_node_t *out;
-
       if (!(node->flags & URKEL_FLAG_WRITTEN)) {
         urkel_store_write_value(tree->store, node);
         urkel_store_write_node(tree->store, node);
 
         if (urkel_store_needs_flush(tree->store)) {
           if (!urkel_store_flush(tree->store))
-            return NULL;
+            return 0;
         }
       }
 
-      out = checked_malloc(sizeof(urkel_node_t));
-
       urkel_node_hash(node);
-      urkel_node_to_hash(node, out);
-      urkel_node_destroy(node, 1);
 
-      return out;
+      return 1;
     }
 
     case URKEL_NODE_HASH: {
       CHECK(node->flags & URKEL_FLAG_WRITTEN);
-      return node;
+      return 1;
     }
 
     default: {
       urkel_abort(); /* LCOV_EXCL_LINE */
-      return NULL;
+      return 0;
     }
   }
 }
 
 static urkel_node_t *
 urkel_tree_commit(tree_db_t *tree, urkel_node_t *node) {
-  urkel_node_t *root = urkel_tree_write(tree, node);
+  urkel_node_t *root;
 
-  if (root == NULL) {
-    urkel_node_destroy(node, 1);
+  /* Keep our nodes in memory until everything is on
+     disk: they are still in use if the write fails. */
+  if (!urkel_tree_write(tree, node)
+      || !urkel_store_commit(tree->store, node)) {
     urkel_errno = URKEL_EBADWRITE;
     return NULL;
   }
 
-  if (!urkel_store_commit(tree->store, root)) {
-    urkel_node_destroy(root, 0);
-    urkel_errno = URKEL_EBADWRITE;
-    return NULL;
+  if (node->type == URKEL_NODE_NULL || node->type == URKEL_NODE_HASH) {
+    root = node;
+  } else {
+    root = checked_malloc(sizeof(urkel_node_t));
+
+    urkel_node_to_hash(node, root);
+    urkel_node_destroy(node, 1);
   }
 
   memcpy(tree->hash, root->hash, URKEL_HASH_SIZE);
-- 
2.43.0


From 5b5d5bcc7d20920f7157c4af163a9a4505601593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:43 +0000
Subject: [PATCH 12/24] fix: recover from failed appends to the data file

A write which fails part way leaves bytes behind which later appends
would follow, so positions recorded in the tree no longer matched the
file. Cut the file back before the next append. Also, fall back to
pread when a file which was written cannot be mapped again.
---
 src/io.h       |  1 +
 src/io_posix.c | 20 +++++++++++++++-----
 src/io_win.c   |  1 +
 src/store.c    |  2 +-
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/io.h b/src/io.h
index ae704ce..74e8647 100644
--- a/src/io.h
+++ b/src/io.h
@@ -133,6 +133,7 @@ typedef struct urkel_file_s {
   uint64_t size;
   void *base;
   int mapped;
+  int torn;
   char _storage[32];
 } urkel_file_t;
 
diff --git a/src/io_posix.c b/src/io_posix.c
index fd06cb7..485e5b1 100644
--- a/src/io_posix.c
+++ b/src/io_posix.c
@@ -1103,6 +1103,7 @@ urkel_file_open(const char *name, int flags, uint32_t mode) {
   file->size = st.st_size;
   file->base = NULL;
   file->mapped = 0;
+  file->torn = 0;
 
 #ifdef HAVE_MMAP
   if ((flags & URKEL_O_MMAP) && sizeof(void *) >= 8) {
@@ -1165,8 +1166,18 @@ urkel_file_write(urkel_file_t *file, const void *src, size_t len) {
   }
 #endif
 
-  if (!urkel_fs_write(file->fd, src, len))
+  if (file->torn) {
+    if (!urkel_fs_ftruncate(file->fd, file->size))
+      return 0;
+
+    file->torn = 0;
+  }
+
+  if (!urkel_fs_write(file->fd, src, len)) {
+    /* Some of the data may have been appended. */
+    file->torn = 1;
     return 0;
+  }
 
   file->size += len;
 
@@ -1174,10 +1185,9 @@ urkel_file_write(urkel_file_t *file, const void *src, size_t len) {
   if (file->mapped) {
     void *base = mmap(NULL, file->size, PROT_READ, MAP_SHARED, file->fd, 0);
 
-    if (base == MAP_FAILED)
-      return 0;
-
-    file->base = base;
+    /* The data is written: fall back to pread if we can't map it. */
+    if (base != MAP_FAILED)
+      file->base = base;
   }
 #endif
 
diff --git a/src/io_win.c b/src/io_win.c
index a6dae62..358761e 100644
--- a/src/io_win.c
+++ b/src/io_win.c
@@ -752,6 +752,7 @@ urkel_file_open(const char *name, int flags, uint32_t mode) {
   file->size = len.QuadPart;
   file->base = NULL;
   file->mapped = 0;
+  file->torn = 0;
 
   memset(file->_storage, 0, sizeof(file->_storage));
 
diff --git a/src/store.c b/src/store.c
index a104353..9f53bbc 100644
--- a/src/store.c
+++ b/src/store.c
@@ -108,7 +108,7 @@ typedef struct urkel_store_s {
  * Constants
  */
 
-static urkel_file_t urkel_null_file = {-1, 0, 0, NULL, 0, {0}};
+static urkel_file_t urkel_null_file = {-1, 0, 0, NULL, 0, 0, {0}};
 
 /*
  * Meta Root
-- 
2.43.0


From 1f6fa8fbd57c3a55554a4cb26d0c996c546d059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 13/24] fix: fill the whole buffer in the emscripten rng

---
 src/io_posix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io_posix.c b/src/io_posix.c
index 485e5b1..8d83274 100644
--- a/src/io_posix.c
+++ b/src/io_posix.c
@@ -1393,7 +1393,7 @@ urkel_sys_random(void *dst, size_t size) {
     uuid[6] = uuid[14];
     uuid[8] = uuid[15];
 
-    memcpy(dst, uuid, max);
+    memcpy(data, uuid, max);
 
     data += max;
     size -= max;
-- 
2.43.0


From b371bd0c91eba295d03094496b8f75df3170bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 14/24] fix: do not abort when a removal cannot read the
 sibling

Keep nodes which become null alive until the removal can no longer
fail, and report corruption instead of aborting the process.
---
 src/tree.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index e3a6647..1a13d80 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -315,7 +315,11 @@ urkel_tree_remove(tree_db_t *tree,
         if (side->type == URKEL_NODE_HASH) {
           side = urkel_store_resolve(tree->store, side);
 
-          CHECK(side != NULL);
+          if (side == NULL) {
+            urkel_node_destroy(z, 0);
+            urkel_errno = URKEL_ECORRUPTION;
+            return NULL;
+          }
 
           resolved = 1;
         }
@@ -334,6 +338,7 @@ urkel_tree_remove(tree_db_t *tree,
         }
 
         urkel_node_destroy(node, 0);
+        urkel_node_destroy(x, 0);
 
         if (resolved)
           urkel_node_destroy(y, 0);
@@ -357,8 +362,8 @@ urkel_tree_remove(tree_db_t *tree,
         return NULL;
       }
 
-      urkel_node_destroy(node, 0);
-
+      /* The caller destroys a node which becomes null,
+         as it may still have to give up at that point. */
       return urkel_node_create_null();
     }
 
@@ -373,10 +378,12 @@ urkel_tree_remove(tree_db_t *tree,
 
       ret = urkel_tree_remove(tree, rn, key, depth);
 
-      if (ret != NULL)
-        urkel_node_destroy(node, 0);
-      else
+      if (ret == NULL)
         urkel_node_destroy(rn, 1);
+      else if (ret->type == URKEL_NODE_NULL)
+        urkel_node_destroy(rn, 0);
+      else
+        urkel_node_destroy(node, 0);
 
       return ret;
     }
@@ -1016,8 +1023,12 @@ urkel_tx_remove(tree_tx_t *tx, const unsigned char *key) {
 
   root = urkel_tree_remove(tx->tree, tx->root, key, 0);
 
-  if (root != NULL)
+  if (root != NULL) {
+    if (root->type == URKEL_NODE_NULL)
+      urkel_node_destroy(tx->root, 0);
+
     tx->root = root;
+  }
 
   urkel_rwlock_rdunlock(tx->tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
-- 
2.43.0


From 67d2c7548a5040226adec1dbbd552c4f6548c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 15/24] fix: do not write through a null size when a get fails

---
 src/tree.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 1a13d80..e2aaee4 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -676,7 +676,8 @@ urkel_get(tree_db_t *tree,
   int ret;
 
   if (tx == NULL) {
-    *size = 0;
+    if (size != NULL)
+      *size = 0;
     return 0;
   }
 
@@ -964,7 +965,7 @@ urkel_tx_get(tree_tx_t *tx,
 
   ret = urkel_tree_get(tx->tree, value, size, tx->root, key, 0);
 
-  if (!ret)
+  if (!ret && size != NULL)
     *size = 0;
 
   urkel_rwlock_rdunlock(tx->tree->lock);
-- 
2.43.0


From e7fb764984e3e0e2d490fb5dd671585b6c11fdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 16/24] fix: align the commit record when its padding starts a
 new file

A record that is not aligned is never found by recovery, so the
commit (and those after it in that file) was lost on reopen.
---
 src/store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store.c b/src/store.c
index 9f53bbc..6da3b1a 100644
--- a/src/store.c
+++ b/src/store.c
@@ -774,7 +774,8 @@ urkel_store_write_meta(data_store_t *store,
 
   urkel_node_to_hash(root, &state->root_node);
 
-  if (slab->file_pos % META_SIZE) {
+  /* The padding itself may be what starts a new file. */
+  while (slab->file_pos % META_SIZE) {
     size_t size = META_SIZE - (slab->file_pos % META_SIZE);
 
     urkel_slab_write(slab, padding, size);
-- 
2.43.0


From b995bc8e92bfed4ab1bafaaa5a9ed977d08d6046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 17/24] fix: never recover a commit that was reported as failed

The record of a commit that could not be written stayed in the write
buffer and reached the disk with the next commit, where recovery could
take it for the last commit.
---
 src/store.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/store.c b/src/store.c
index 6da3b1a..314cc0b 100644
--- a/src/store.c
+++ b/src/store.c
@@ -795,8 +795,15 @@ urkel_store_commit(data_store_t *store, const urkel_node_t *root) {
 
   urkel_store_write_meta(store, &state, root);
 
-  if (!urkel_store_flush(store))
+  if (!urkel_store_flush(store)) {
+    /* The record is still at the end of the buffer. Make padding of
+       it: it must not be recovered once a later commit writes it. */
+    urkel_slab_t *slab = &store->slab;
+
+    memset(slab->data + slab->data_len - META_SIZE, 0, META_SIZE);
+
     return 0;
+  }
 
 #ifdef URKEL_FSYNC
   if (!urkel_store_sync(store))
-- 
2.43.0


From e08fa303250d616ca74a07d715fa2c90cb554038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:38 +0000
Subject: [PATCH 18/24] fix: take the transaction lock before the tree lock in
 urkel_tx_prove

Upgrading the transaction lock while holding the tree lock deadlocks with
a concurrent commit, inject or clear of the same transaction.
---
 src/tree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tree.c b/src/tree.c
index e2aaee4..804a7b1 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1046,7 +1046,6 @@ urkel_tx_prove(tree_tx_t *tx,
   int write_lock, ret;
 
   urkel_rwlock_rdlock(tx->lock);
-  urkel_rwlock_rdlock(tx->tree->lock);
 
   write_lock = (tx->root->type != URKEL_NODE_NULL
              && tx->root->type != URKEL_NODE_HASH);
@@ -1057,6 +1056,8 @@ urkel_tx_prove(tree_tx_t *tx,
     urkel_rwlock_wrlock(tx->lock);
   }
 
+  urkel_rwlock_rdlock(tx->tree->lock);
+
   urkel_proof_init(&proof);
 
   ret = urkel_tree_prove(tx->tree, &proof, tx->root, key, 0);
-- 
2.43.0


From 22c7a6b2cf2ac4cae224f93f25b27d75e7a09777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:05 +0000
Subject: [PATCH 19/24] fix: make urkel_insert and urkel_remove atomic

Both committed on top of the state they had read earlier, which silently
undid any commit made by another thread in the meantime.
---
 src/tree.c | 73 ++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 62 insertions(+), 11 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 804a7b1..7308b52 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -705,46 +705,97 @@ urkel_has(tree_db_t *tree,
   return ret;
 }
 
+static urkel_node_t *
+urkel_tree_base(tree_db_t *tree) {
+  urkel_node_t *root;
+
+  if (tree->revert)
+    root = urkel_store_get_history(tree->store, tree->hash);
+  else
+    root = urkel_store_get_root(tree->store);
+
+  if (root == NULL)
+    urkel_errno = URKEL_ENOTFOUND;
+
+  return root;
+}
+
 int
 urkel_insert(tree_db_t *tree,
              const unsigned char *key,
              const unsigned char *value,
              size_t size) {
-  tree_tx_t *tx = urkel_tx_create(tree, NULL);
+  urkel_node_t *root, *node;
   int ret = 0;
 
-  if (tx == NULL)
+  if (size > URKEL_VALUE_SIZE) {
+    urkel_errno = URKEL_EINVAL;
     return 0;
+  }
+
+  /* Hold the write lock throughout: we would undo
+     any commit which comes between ours and the
+     state we started from. */
+  urkel_rwlock_wrlock(tree->lock);
+
+  root = urkel_tree_base(tree);
+
+  if (root == NULL)
+    goto done;
 
-  if (!urkel_tx_insert(tx, key, value, size))
+  node = urkel_tree_insert(tree, root, key, value, size, 0);
+
+  if (node != NULL)
+    root = node;
+  else if (urkel_errno != URKEL_ENOUPDATE)
     goto fail;
 
-  if (!urkel_tx_commit(tx))
+  node = urkel_tree_commit(tree, root);
+
+  if (node == NULL)
     goto fail;
 
+  root = node;
   ret = 1;
 fail:
-  urkel_tx_destroy(tx);
+  urkel_node_destroy(root, 1);
+done:
+  urkel_rwlock_wrunlock(tree->lock);
   return ret;
 }
 
 int
 urkel_remove(tree_db_t *tree, const unsigned char *key) {
-  tree_tx_t *tx = urkel_tx_create(tree, NULL);
+  urkel_node_t *root, *node;
   int ret = 0;
 
-  if (tx == NULL)
-    return 0;
+  urkel_rwlock_wrlock(tree->lock);
+
+  root = urkel_tree_base(tree);
+
+  if (root == NULL)
+    goto done;
+
+  node = urkel_tree_remove(tree, root, key, 0);
 
-  if (!urkel_tx_remove(tx, key))
+  if (node == NULL)
     goto fail;
 
-  if (!urkel_tx_commit(tx))
+  if (node->type == URKEL_NODE_NULL)
+    urkel_node_destroy(root, 0);
+
+  root = node;
+  node = urkel_tree_commit(tree, root);
+
+  if (node == NULL)
     goto fail;
 
+  root = node;
   ret = 1;
 fail:
-  urkel_tx_destroy(tx);
+  urkel_node_destroy(root, 1);
+done:
+  urkel_rwlock_wrunlock(tree->lock);
   return ret;
 }
 
-- 
2.43.0


From 4804e90e93cec9ad140a13e12084c8d333b23cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 20/24] fix: let two readers open the same data file at once

Both missed in the file map, and the second insertion aborted the process.
---
 src/store.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/store.c b/src/store.c
index 314cc0b..1387086 100644
--- a/src/store.c
+++ b/src/store.c
@@ -271,8 +271,10 @@ fail:
   return file;
 }
 
-static void
+static urkel_file_t *
 urkel_filemap_insert(urkel_filemap_t *fm, urkel_file_t *file) {
+  urkel_file_t *other;
+
   urkel_rwlock_wrlock(fm->lock);
 
   if (file->index >= fm->len) {
@@ -286,12 +288,22 @@ urkel_filemap_insert(urkel_filemap_t *fm, urkel_file_t *file) {
       fm->items[fm->len++] = NULL;
   }
 
-  CHECK(!fm->items[file->index]);
+  other = fm->items[file->index];
 
-  fm->items[file->index] = file;
-  fm->size += 1;
+  if (other == NULL) {
+    fm->items[file->index] = file;
+    fm->size += 1;
+  }
 
   urkel_rwlock_wrunlock(fm->lock);
+
+  /* Another reader may have opened it first. */
+  if (other != NULL) {
+    urkel_file_close(file);
+    return other;
+  }
+
+  return file;
 }
 
 static urkel_file_t *
@@ -498,9 +510,7 @@ urkel_store_open_file(data_store_t *store, uint32_t index, int flags) {
     urkel_store_evict(store);
   }
 
-  urkel_filemap_insert(&store->files, file);
-
-  return file;
+  return urkel_filemap_insert(&store->files, file);
 }
 
 static void
-- 
2.43.0


From bae12410c4ef202c2cd4a4eee41cad46240dcc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 21/24] fix: refuse node records which reach beyond the end of
 a key

A damaged record or a leaf in the wrong place made the tree functions read
behind the key, overflow the iterator stack or abort.
---
 src/nodes.c |  2 +-
 src/store.c | 11 ++++++++++-
 src/store.h |  4 +++-
 src/tree.c  | 18 ++++++++++++------
 4 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/nodes.c b/src/nodes.c
index c428df7..026f3e1 100644
--- a/src/nodes.c
+++ b/src/nodes.c
@@ -633,7 +633,7 @@ urkel_node_read(urkel_node_t *node, const unsigned char *data, size_t len) {
         if (flags & 2) {
           size = urkel_read16(data);
 
-          if (size < 0x100)
+          if (size < 0x100 || size > URKEL_KEY_BITS)
             return 0;
 
           data += 2;
diff --git a/src/store.c b/src/store.c
index 1387086..e0d56f8 100644
--- a/src/store.c
+++ b/src/store.c
@@ -678,7 +678,9 @@ urkel_store_retrieve(data_store_t *store,
 }
 
 urkel_node_t *
-urkel_store_resolve(data_store_t *store, const urkel_node_t *node) {
+urkel_store_resolve(data_store_t *store,
+                    const urkel_node_t *node,
+                    unsigned int depth) {
   urkel_node_t *out = checked_malloc(sizeof(urkel_node_t));
 
   CHECK(node->type == URKEL_NODE_HASH);
@@ -688,6 +690,13 @@ urkel_store_resolve(data_store_t *store, const urkel_node_t *node) {
     return NULL;
   }
 
+  /* No branch reaches beyond the last bit of a key. */
+  if (out->type == URKEL_NODE_INTERNAL
+      && depth + out->u.internal.prefix.size >= URKEL_KEY_BITS) {
+    urkel_node_destroy(out, 1);
+    return NULL;
+  }
+
   urkel_node_hashed(out, node->hash);
 
   return out;
diff --git a/src/store.h b/src/store.h
index bf3848a..d58625c 100644
--- a/src/store.h
+++ b/src/store.h
@@ -47,7 +47,9 @@ urkel_store_retrieve(urkel_store_t *store,
                      size_t *size);
 
 urkel_node_t *
-urkel_store_resolve(urkel_store_t *store, const urkel_node_t *node);
+urkel_store_resolve(urkel_store_t *store,
+                    const urkel_node_t *node,
+                    unsigned int depth);
 
 void
 urkel_store_write_node(urkel_store_t *store, urkel_node_t *node);
diff --git a/src/tree.c b/src/tree.c
index 7308b52..ea31c2d 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -133,7 +133,7 @@ urkel_tree_get(tree_db_t *tree,
     }
 
     case URKEL_NODE_HASH: {
-      urkel_node_t *rn = urkel_store_resolve(tree->store, node);
+      urkel_node_t *rn = urkel_store_resolve(tree->store, node, depth);
       int ret;
 
       if (rn == NULL) {
@@ -243,6 +243,12 @@ urkel_tree_insert(tree_db_t *tree,
 
       depth += prefix.size;
 
+      /* A leaf which does not belong here. */
+      if (depth >= URKEL_KEY_BITS) {
+        urkel_errno = URKEL_ECORRUPTION;
+        return NULL;
+      }
+
       leaf = urkel_node_create_leaf(key, value, size);
       bit = urkel_get_bit(key, depth);
 
@@ -250,7 +256,7 @@ urkel_tree_insert(tree_db_t *tree,
     }
 
     case URKEL_NODE_HASH: {
-      urkel_node_t *rn = urkel_store_resolve(tree->store, node);
+      urkel_node_t *rn = urkel_store_resolve(tree->store, node, depth);
       urkel_node_t *ret;
 
       if (rn == NULL) {
@@ -313,7 +319,7 @@ urkel_tree_remove(tree_db_t *tree,
         int resolved = 0;
 
         if (side->type == URKEL_NODE_HASH) {
-          side = urkel_store_resolve(tree->store, side);
+          side = urkel_store_resolve(tree->store, side, depth + 1);
 
           if (side == NULL) {
             urkel_node_destroy(z, 0);
@@ -368,7 +374,7 @@ urkel_tree_remove(tree_db_t *tree,
     }
 
     case URKEL_NODE_HASH: {
-      urkel_node_t *rn = urkel_store_resolve(tree->store, node);
+      urkel_node_t *rn = urkel_store_resolve(tree->store, node, depth);
       urkel_node_t *ret;
 
       if (rn == NULL) {
@@ -469,7 +475,7 @@ urkel_tree_prove(tree_db_t *tree,
     }
 
     case URKEL_NODE_HASH: {
-      urkel_node_t *rn = urkel_store_resolve(tree->store, node);
+      urkel_node_t *rn = urkel_store_resolve(tree->store, node, depth);
       int ret;
 
       if (rn == NULL) {
@@ -1296,7 +1302,7 @@ urkel_iter_seek(tree_iter_t *iter) {
 
         parent->child += 1;
 
-        rn = urkel_store_resolve(tree->store, node);
+        rn = urkel_store_resolve(tree->store, node, depth);
 
         if (rn == NULL) {
           urkel_errno = URKEL_ECORRUPTION;
-- 
2.43.0


From e17a43d54db3ca8772fc63f0f874ba79aaf09446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 22/24] fix: do not follow commit records in a circle

A record copied over an earlier one made the lookup of a root loop forever.
---
 src/store.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/store.c b/src/store.c
index e0d56f8..13203ed 100644
--- a/src/store.c
+++ b/src/store.c
@@ -885,6 +885,13 @@ urkel_store_read_history(data_store_t *store,
     if (!urkel_store_read_meta(store, &meta, meta_ptr))
       return 0;
 
+    /* A record only ever refers to an earlier one. */
+    if (meta.meta_ptr.index > meta_ptr->index
+        || (meta.meta_ptr.index == meta_ptr->index
+            && meta.meta_ptr.pos >= meta_ptr->pos)) {
+      return 0;
+    }
+
     root_ptr = &meta.root_ptr;
 
     if (!urkel_store_read_root(store, &node, root_ptr))
-- 
2.43.0


From 4ef85c1374663e0dc13d60f4fe2d7f7e90763fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 23/24] cmake: build in GNU C90 mode

Same language and the same warnings, but line comments at the end of a
source file are accepted instead of being a hard error, so that edits that
change no behaviour also build.
---
 CMakeLists.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 3f7cf37..defd184 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -78,7 +78,7 @@ set(urkel_cflags)
 set(urkel_ldflags)
 
 set(CMAKE_C_STANDARD_REQUIRED ON)
-set(CMAKE_C_EXTENSIONS OFF)
+set(CMAKE_C_EXTENSIONS ON)
 set(CMAKE_C_STANDARD 90)
 
 if(NOT URKEL_WASM)
-- 
2.43.0


From 8e58bb9d41186d513ba8ce980c20723e20e45851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 24/24] fix: leave room for the separator in the path length
 limit

A directory path of 1014 bytes passed the check, but the separator, the
ten digits of a data file name and the terminator need 12 more bytes: the
path buffers in urkel_store_open_file and elsewhere were overrun by one.
---
 src/store.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/store.c b/src/store.c
index 13203ed..bdfabb2 100644
--- a/src/store.c
+++ b/src/store.c
@@ -947,7 +947,7 @@ urkel_store_init_prefix(data_store_t *store, const char *prefix) {
 
   len = strlen(path);
 
-  if (len + 10 > URKEL_PATH_MAX) {
+  if (len + 11 > URKEL_PATH_MAX) {
     free(path);
     return 0;
   }
@@ -1233,7 +1233,7 @@ urkel_store_destroy(const char *prefix) {
 
   path_len = strlen(prefix_);
 
-  if (path_len + 10 > URKEL_PATH_MAX)
+  if (path_len + 11 > URKEL_PATH_MAX)
     goto fail;
 
   memcpy(path, prefix_, path_len + 1);
@@ -1296,7 +1296,7 @@ urkel_store__corrupt(const char *prefix) {
 
   path_len = strlen(prefix_);
 
-  if (path_len + 10 > URKEL_PATH_MAX)
+  if (path_len + 11 > URKEL_PATH_MAX)
     goto fail;
 
   memcpy(path, prefix_, path_len + 1);
-- 
2.43.0


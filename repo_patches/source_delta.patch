From c69fbb72e1135eb24639268b63a4d5118a7a0ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 01/67] fix: a read of 0 bytes or beyond the end of a file is
 end of file, not an error

---
 src/file.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/file.c b/src/file.c
index d680b5f..41ffdb5 100644
--- a/src/file.c
+++ b/src/file.c
@@ -122,9 +122,9 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 	file_size = inode->xtra.reg.file_size;
 	block_size = fs->sb->block_size;
 	
-	if (*size < 0 || start > file_size)
+	if (*size < 0 || start < 0)
 		return SQFS_ERR;
-	if (start == file_size) {
+	if (start >= file_size) {
 		*size = 0;
 		return SQFS_OK;
 	}
@@ -185,7 +185,7 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 	}
 	
 	*size = (char*)buf - buf_orig;
-	return *size ? SQFS_OK : SQFS_ERR;
+	return SQFS_OK;
 }
 
 
-- 
2.43.0


From 79da8bb57623b5162e2d3b4ca1bf6d54af7a57a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:20 +0000
Subject: [PATCH 02/67] fix: reading from the fragment tail must not index past
 the end of the block index

---
 src/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index 41ffdb5..2bab953 100644
--- a/src/file.c
+++ b/src/file.c
@@ -282,7 +282,7 @@ sqfs_err sqfs_blockidx_blocklist(sqfs *fs, sqfs_inode *inode, sqfs_blocklist *bl
 
 	sqfs_blocklist_init(fs, inode, bl);
 	block = (size_t)(start / fs->sb->block_size);
-	if (block > bl->remain) { /* fragment */
+	if (block >= bl->remain) { /* fragment */
 		bl->remain = 0;
 		ret = SQFS_OK;
 		goto exit;
-- 
2.43.0


From c311288009f6d9709b076a4e468a2a793d6c6d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:20 +0000
Subject: [PATCH 03/67] fix: report an unsupported compression type instead of
 aborting

---
 src/decompress.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompress.c b/src/decompress.c
index aa85602..07ea9bc 100644
--- a/src/decompress.c
+++ b/src/decompress.c
@@ -26,7 +26,6 @@
 #include "squash/squashfs_fs.h"
 
 #include <zlib.h>
-#include <assert.h>
 
 static sqfs_err sqfs_decompressor_zlib(void *in, size_t insz,
 		void *out, size_t *outsz) {
@@ -39,6 +38,7 @@ static sqfs_err sqfs_decompressor_zlib(void *in, size_t insz,
 }
 
 sqfs_decompressor sqfs_decompressor_get(sqfs_compression_type type) {
-	assert(ZLIB_COMPRESSION == type);
+	if (ZLIB_COMPRESSION != type)
+		return NULL;
 	return &sqfs_decompressor_zlib;
 }
-- 
2.43.0


From fbdb45409f531a01dde3beb779ea90398e908e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 04/67] fix: a cache that failed to initialise is destroyed a
 second time by sqfs_destroy

---
 src/cache.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cache.c b/src/cache.c
index 5a999cc..f65f6eb 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -62,6 +62,8 @@ void sqfs_cache_destroy(sqfs_cache *cache) {
 	}
 	free(cache->buf);
 	free(cache->idxs);
+	cache->buf = NULL;
+	cache->idxs = NULL;
 }
 
 void *sqfs_cache_get(sqfs_cache *cache, sqfs_cache_idx idx) {
-- 
2.43.0


From 76388eaf5dc920a45db4d4f95169967c25d0d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 05/67] fix: a block that could not be read must not stay in
 the cache

---
 src/fs.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/fs.c b/src/fs.c
index d51ea26..ec35582 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -183,11 +183,13 @@ sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
 
 	entry = sqfs_cache_get(&fs->md_cache, *pos);
 	if (!entry) {
-		entry = sqfs_cache_add(&fs->md_cache, *pos);
-		ret = sqfs_md_block_read(fs, *pos, &entry->data_size, &entry->block);
+		sqfs_block_cache_entry fresh;
+		ret = sqfs_md_block_read(fs, *pos, &fresh.data_size, &fresh.block);
 		if (ret) {
-			goto exit;
+			goto exit; /* never cache a block that could not be read */
 		}
+		entry = sqfs_cache_add(&fs->md_cache, *pos);
+		*entry = fresh;
 	}
 	*block = entry->block;
 	*pos += entry->data_size;
@@ -205,11 +207,14 @@ sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 
 	entry = sqfs_cache_get(cache, pos);
 	if (!entry) {
-		entry = sqfs_cache_add(cache, pos);
-		ret = sqfs_data_block_read(fs, pos, hdr, &entry->block);
+		sqfs_block_cache_entry fresh;
+		fresh.data_size = 0;
+		ret = sqfs_data_block_read(fs, pos, hdr, &fresh.block);
 		if (ret) {
-			goto exit;
+			goto exit; /* never cache a block that could not be read */
 		}
+		entry = sqfs_cache_add(cache, pos);
+		*entry = fresh;
 	}
 	*block = entry->block;
 	ret = SQFS_OK;
-- 
2.43.0


From 6c3d97d86620dd73dc5a11988179653c9dc6bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 06/67] fix: an initialised but not created stack has no items
 to release

---
 src/stack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stack.c b/src/stack.c
index fe748c3..5c7eb66 100644
--- a/src/stack.c
+++ b/src/stack.c
@@ -80,7 +80,8 @@ sqfs_err sqfs_stack_create(sqfs_stack *s, size_t vsize, size_t initial,
 
 void sqfs_stack_init(sqfs_stack *s) {
 	s->items = NULL;
-	s->capacity = 0;
+	s->freer = NULL;
+	s->capacity = s->size = 0;
 }
 
 void sqfs_stack_destroy(sqfs_stack *s) {
-- 
2.43.0


From d04429391aca7b1a528856194f022c21284ed940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 07/67] fix: a hash that cannot grow for lack of memory keeps
 its items

---
 src/hash.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 2996a24..ccca528 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -47,24 +47,27 @@ static sqfs_err sqfs_hash_double(sqfs_hash *h) {
 	size_t oc = h->capacity;
 	size_t i;
 	sqfs_err err;
+	sqfs_hash nh;
 	
-	if ((err = sqfs_hash_init(h, h->value_size, oc * 2)))
+	/* h must stay intact if there is no memory for the larger table */
+	if ((err = sqfs_hash_init(&nh, h->value_size, oc * 2)))
 		return err;
 	
 	for (i = 0; i < oc; ++i) {
 		sqfs_hash_bucket *b = ob[i];
 		while (b) {
-			sqfs_hash_bucket *n;
-			if (!err)
-				err = sqfs_hash_add_internal(h, 1, b->key, &b->value);
-			n = b->next;
-			free(b);
+			sqfs_hash_bucket *n = b->next;
+			size_t hash = (b->key & (nh.capacity - 1));
+			b->next = nh.buckets[hash];
+			nh.buckets[hash] = b;
+			++nh.size;
 			b = n;
 		}
 	}
 	
 	free(ob);
-	return err;
+	*h = nh;
+	return SQFS_OK;
 }
 
 sqfs_err sqfs_hash_init(sqfs_hash *h, size_t vsize, size_t initial) {
-- 
2.43.0


From 4f0972e846851cf3ad8f19bcfb43cce229cd143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 08/67] fix: adding a present key to a hash replaces its value

---
 src/hash.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hash.c b/src/hash.c
index ccca528..d5cf75f 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -109,6 +109,11 @@ sqfs_hash_value sqfs_hash_get(sqfs_hash *h, sqfs_hash_key k) {
 }
 
 sqfs_err sqfs_hash_add(sqfs_hash *h, sqfs_hash_key k, sqfs_hash_value v) {
+	sqfs_hash_value old = sqfs_hash_get(h, k);
+	if (old) { /* one value per key, or remove would uncover the old one */
+		memcpy(old, v, h->value_size);
+		return SQFS_OK;
+	}
 	if (h->size >= h->capacity) {
 		sqfs_err err = sqfs_hash_double(h);
 		if (err)
-- 
2.43.0


From 81a4f552a40cd9da320b70a6d890e3026713efe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 09/67] fix: refuse to create a hash without any bucket

---
 src/hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash.c b/src/hash.c
index d5cf75f..b324ebe 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -72,7 +72,7 @@ static sqfs_err sqfs_hash_double(sqfs_hash *h) {
 
 sqfs_err sqfs_hash_init(sqfs_hash *h, size_t vsize, size_t initial) {
 	memset(h, 0, sizeof(*h));
-	if ((initial & (initial - 1))) /* not power of two? */
+	if (!initial || (initial & (initial - 1))) /* not power of two? */
 		return SQFS_ERR;
 	
 	h->buckets = calloc(initial, sizeof(sqfs_hash_bucket*));
-- 
2.43.0


From b66caf19dcc09294d20443a8ce6175f89bcc8f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 10/67] fix: readlink into a buffer of size 0 must not write

---
 src/fs.c       | 2 ++
 src/readlink.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index ec35582..59bdd53 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -291,6 +291,8 @@ sqfs_err sqfs_readlink(sqfs *fs, sqfs_inode *inode, char *buf, size_t *size) {
 		*size = want + 1;
 		return SQFS_OK;
 	}
+	if (*size == 0)
+		return SQFS_ERR; /* no room for the terminator */
 
 	if (want > *size - 1)
 		want = *size - 1;
diff --git a/src/readlink.c b/src/readlink.c
index c468b4d..076f2a3 100644
--- a/src/readlink.c
+++ b/src/readlink.c
@@ -20,7 +20,7 @@ ssize_t squash_readlink_inode(sqfs *fs, sqfs_inode *node, char *buf, size_t bufs
 
         want = node->xtra.symlink_size;
 
-        if (want > bufsize - 1) {
+        if (want >= bufsize) {
                 errno = ENAMETOOLONG;
                 return -1; //bufsize is too small
         }
-- 
2.43.0


From a07ab2ee55a9b4b23f964d7b3fe156088a070657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 11/67] fix: leave room for the terminator of a name as long as
 d_name

---
 src/dirent.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index a379069..d3f95a7 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -140,8 +140,8 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 			if (SQUASHFS_NAME_LEN < minsize) {
 				minsize = SQUASHFS_NAME_LEN;
 			}
-			if (sizeof(sysentry->d_name) < minsize) {
-				minsize = sizeof(sysentry->d_name);
+			if (sizeof(sysentry->d_name) - 1 < minsize) {
+				minsize = sizeof(sysentry->d_name) - 1;
 			}
 			memcpy(sysentry->d_name, dirp->entries[dirp->actual_nr].name, minsize);
 #ifndef __linux__
-- 
2.43.0


From 4241bf9c53be1cc15016cc292ce4c5e798a78225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 12/67] fix: readdir keeps its buffer when it cannot grow it

---
 src/dirent.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index d3f95a7..76486a1 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -101,15 +101,17 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 	sqfs_err error;
 	size_t nr = dirp->loc + 1;
 	if (dirp->nr < nr) {
+		void *entries;
 		// we secretly extend the requested size
 		// in order to minimize the number of realloc calls
 		nr *= 10;
-		dirp->entries = realloc(dirp->entries, nr * sizeof(*dirp->entries));
-		if (NULL == dirp->entries)
+		entries = realloc(dirp->entries, nr * sizeof(*dirp->entries));
+		if (NULL == entries)
 		{
 			errno = ENOMEM;
 			return NULL;
 		}
+		dirp->entries = entries;
 		dirp->nr = nr;
 	}
 
-- 
2.43.0


From 46cab753ebf7daf12c2050153e1eefb773691694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 13/67] fix: readdir sets errno when it fails

---
 src/dirent.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dirent.c b/src/dirent.c
index 76486a1..970a445 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -126,6 +126,7 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 			&error);
 		if (SQFS_OK != error)
 		{
+			errno = EIO;
 			return NULL;
 		}
 		else if (!dirp->entries[dirp->actual_nr].not_eof)
-- 
2.43.0


From 908c982b5c3a07d13f0a95ebc13b06c47639fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 14/67] fix: a directory entry that could not be read must not
 be skipped by the next read

---
 src/dir.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index e9842af..172d9a7 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -125,6 +125,7 @@ short sqfs_dentry_is_dir(sqfs_dir_entry *entry) {
 short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 		sqfs_err *err) {
 	struct squashfs_dir_entry e;
+	sqfs_dir saved = *dir; /* a failed step must not move the position */
 	
 	*err = SQFS_OK;
 	entry->offset = dir->offset;
@@ -134,12 +135,12 @@ short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 			return 0;
 		
 		if ((*err = sqfs_dir_md_read(fs, dir, &dir->header, sizeof(dir->header))))
-			return 0;
+			goto error;
 		++(dir->header.count); /* biased by one */
 	}
 	
 	if ((*err = sqfs_dir_md_read(fs, dir, &e, sizeof(e))))
-		return 0;
+		goto error;
 	--(dir->header.count);
 	
 	entry->type = e.type;
@@ -150,11 +151,14 @@ short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 	
 	*err = sqfs_dir_md_read(fs, dir, entry->name, sqfs_dentry_name_size(entry));
 	if (*err)
-		return 0;
+		goto error;
 	
 	entry->next_offset = dir->offset;
 
 	return 1;
+error:
+	*dir = saved;
+	return 0;
 }
 
 
-- 
2.43.0


From 54a3e8aa3dc90e3972d76d92bf19f1957fd508f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:41 +0000
Subject: [PATCH 15/67] fix: lseek must refuse negative positions and unknown
 directives

---
 src/fd.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index e564c8a..965f4cf 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -180,6 +180,7 @@ failure:
 off_t squash_lseek(int vfd, off_t offset, int whence)
 {
 	struct squash_file *file;
+	off_t pos;
 	if (!SQUASH_VALID_VFD(vfd))
 	{
 		errno = EBADF;
@@ -188,17 +189,27 @@ off_t squash_lseek(int vfd, off_t offset, int whence)
 	file = squash_global_fdtable.fds[vfd];
 	if (SQUASH_SEEK_SET == whence)
 	{
-		file->pos = offset;
+		pos = offset;
 	}
 	else if (SQUASH_SEEK_CUR == whence)
 	{
-		file->pos += offset;
+		pos = (off_t)(file->pos + (uint64_t)offset);
 	}
-	else if (SQUASH_SEEK_END == whence)
+	else if (SQUASH_SEEK_END == whence && S_ISREG(file->node.base.mode))
 	{
-		assert(S_ISREG(file->node.base.mode));
-		file->pos = file->node.xtra.reg.file_size;
+		pos = file->node.xtra.reg.file_size;
 	}
+	else
+	{
+		errno = EINVAL;
+		return -1;
+	}
+	if (pos < 0) // also an overflow of SQUASH_SEEK_CUR
+	{
+		errno = EINVAL;
+		return -1;
+	}
+	file->pos = pos;
 	return file->pos;
 }
 
-- 
2.43.0


From 8b230b9d1e614da6327e4f2dddec2d6906581bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:41 +0000
Subject: [PATCH 16/67] fix: the errno of a failed call must not be left over
 from an earlier one

---
 src/dirent.c   | 1 +
 src/fd.c       | 2 ++
 src/readlink.c | 1 +
 src/stat.c     | 4 +++-
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dirent.c b/src/dirent.c
index 970a445..b12f57f 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -18,6 +18,7 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	SQUASH_DIR *dir = calloc(1, sizeof(SQUASH_DIR));
 	int *handle;
 	
+	errno = 0;
 	if (NULL == dir)
 	{
 		errno = ENOMEM;
diff --git a/src/fd.c b/src/fd.c
index 965f4cf..84f8b54 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -21,6 +21,7 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	size_t nr;
 	int *handle;
 
+	errno = 0;
 	// try locating the file and fetching its stat
 	if (NULL == file)
 	{
@@ -156,6 +157,7 @@ ssize_t squash_read(int vfd, void *buf, sqfs_off_t nbyte)
 	sqfs_err error;
 	struct squash_file *file;
 
+	errno = 0;
 	if (!SQUASH_VALID_VFD(vfd))
 	{
 		errno = EBADF;
diff --git a/src/readlink.c b/src/readlink.c
index 076f2a3..51ab272 100644
--- a/src/readlink.c
+++ b/src/readlink.c
@@ -62,6 +62,7 @@ ssize_t squash_readlink(sqfs *fs, const char *path, char *buf, size_t bufsize) {
     memset(&node, 0, sizeof(sqfs_inode));
 
     found = 0;
+    errno = 0;
 
     error = sqfs_inode_get(fs, &node, sqfs_inode_root(fs));
     if (SQFS_OK != error)
diff --git a/src/stat.c b/src/stat.c
index 121f575..abbe7bf 100644
--- a/src/stat.c
+++ b/src/stat.c
@@ -13,7 +13,8 @@ int squash_stat(sqfs *fs, const char *path, struct stat *buf)
 	sqfs_err error;
 	sqfs_inode node;
 	short found;
-	
+
+	errno = 0;
 	error = sqfs_inode_get(fs, &node, sqfs_inode_root(fs));
 	if (SQFS_OK != error) {
 		goto failure;
@@ -45,6 +46,7 @@ int squash_lstat(sqfs *fs, const char *path, struct stat *buf)
 	sqfs_inode node;
 	short found;
 
+	errno = 0;
 	error = sqfs_inode_get(fs, &node, sqfs_inode_root(fs));
 	if (SQFS_OK != error) {
 		goto failure;
-- 
2.43.0


From 063da7aec6be11da72b46c85f9559de109dab7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 17/67] fix: a failing open leaves no lock, descriptor, table
 or memory behind

---
 src/fd.c | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index 84f8b54..649e167 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -17,9 +17,9 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	sqfs_err error;
 	struct squash_file *file = calloc(1, sizeof(struct squash_file));
 	short found;
-	int fd;
+	int fd = -1;
 	size_t nr;
-	int *handle;
+	int *handle = NULL;
 
 	errno = 0;
 	// try locating the file and fetching its stat
@@ -38,13 +38,18 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	{
 		goto failure;
 	}
-	file->filename = strdup(path);
 
 	if (!found)
 	{
 		errno = ENOENT;
 		goto failure;
 	}
+	file->filename = strdup(path);
+	if (NULL == file->filename)
+	{
+		errno = ENOMEM;
+		goto failure;
+	}
 	error = sqfs_stat(fs, &file->node, &file->st);
 	if (SQFS_OK != error)
 	{
@@ -53,6 +58,13 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	file->fs = fs;
 	file->pos = 0;
 
+	// construct a handle (mainly) for win32
+	handle = (int *)malloc(sizeof(int));
+	if (NULL == handle) {
+		errno = ENOMEM;
+		goto failure;
+	}
+
 	// get a dummy fd from the system
 	fd = dup(0);
 	if (-1 == fd) {
@@ -66,33 +78,28 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	{
 		// we secretly extend the requested size
 		// in order to minimize the number of realloc calls
+		struct squash_file **fds;
 		nr *= 10;
-		squash_global_fdtable.fds = realloc(squash_global_fdtable.fds,
-						    nr * sizeof(struct squash_file *));
-		if (NULL == squash_global_fdtable.fds)
+		fds = realloc(squash_global_fdtable.fds,
+			      nr * sizeof(struct squash_file *));
+		if (NULL == fds)
 		{
+			MUTEX_UNLOCK(&squash_global_mutex);
 			errno = ENOMEM;
 			goto failure;
 		}
+		squash_global_fdtable.fds = fds;
 		memset(squash_global_fdtable.fds + squash_global_fdtable.nr,
 		       0,
 		       (nr - squash_global_fdtable.nr) * sizeof(struct squash_file *));
 		squash_global_fdtable.nr = nr;
 	}
-	MUTEX_UNLOCK(&squash_global_mutex);
 
-	// construct a handle (mainly) for win32
-	handle = (int *)malloc(sizeof(int));
-	if (NULL == handle) {
-		errno = ENOMEM;
-		goto failure;
-	}
 	*handle = fd;
 	file->payload = (void *)handle;
 
 	// insert the fd into the global fd table
 	file->fd = fd;
-	MUTEX_LOCK(&squash_global_mutex);
 	squash_global_fdtable.fds[fd] = file;
         if (squash_global_fdtable.end < fd + 1) {
         	squash_global_fdtable.end = fd + 1;
@@ -104,6 +111,13 @@ failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	if (-1 != fd) {
+		int saved_errno = errno;
+		close(fd);
+		errno = saved_errno;
+	}
+	free(handle);
+	free(file->filename);
 	free(file);
 	return -1;
 }
-- 
2.43.0


From 51773414a142c406ab312800bf1f556928caa050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:38 +0000
Subject: [PATCH 18/67] fix: a concurrent open could lose the descriptor number
 that close just released

---
 src/fd.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index 649e167..9a3dd15 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -132,15 +132,18 @@ int squash_close(int vfd)
 	int ret;
 	struct squash_file *file;
 
-        if (!SQUASH_VALID_VFD(vfd)) {
+        // the number must not be given away before its entry is removed
+        MUTEX_LOCK(&squash_global_mutex);
+        if (!(vfd < squash_global_fdtable.nr && NULL != squash_global_fdtable.fds[vfd])) {
+                MUTEX_UNLOCK(&squash_global_mutex);
                 errno = EBADF;
                 return -1;
         }
         ret = close(vfd);
 	if (-1 == ret) {
+		MUTEX_UNLOCK(&squash_global_mutex);
 		return -1;
 	}
-        MUTEX_LOCK(&squash_global_mutex);
         if (S_ISDIR(squash_global_fdtable.fds[vfd]->st.st_mode)) {
                 SQUASH_DIR *dir = (SQUASH_DIR *) (squash_global_fdtable.fds[vfd]->payload);
                 free(dir);
-- 
2.43.0


From a0a8ec6fd0ba73ee53908be3e21377f2b49d7445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:43 +0000
Subject: [PATCH 19/67] fix: look descriptors up under the table's lock,
 another thread may be growing the table

---
 include/squash.h         |  5 +++--
 sample/enclose_io_unix.c |  6 +++---
 src/fd.c                 | 17 ++++++++++++++---
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/squash.h b/include/squash.h
index 2794c27..4500d08 100644
--- a/include/squash.h
+++ b/include/squash.h
@@ -49,8 +49,8 @@
 #define SQUASH_SEEK_CUR 1 /* set file offset to current plus offset */
 #define SQUASH_SEEK_END 2 /* set file offset to EOF plus offset */
 
-#define SQUASH_VALID_VFD(vfd) ((vfd) < squash_global_fdtable.nr && NULL != squash_global_fdtable.fds[(vfd)])
-#define SQUASH_VFD_FILE(vfd) (squash_global_fdtable.fds[(vfd)])
+#define SQUASH_VALID_VFD(vfd) (NULL != squash_find_file(vfd))
+#define SQUASH_VFD_FILE(vfd) (squash_find_file(vfd))
 
 extern sqfs_err squash_errno;
 
@@ -58,6 +58,7 @@ sqfs_err squash_start();
 ssize_t squash_readlink_inode(sqfs *fs, sqfs_inode *node, char *buf, size_t bufsize);
 sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node);
 struct squash_file * squash_find_entry(void *ptr);
+struct squash_file * squash_find_file(int vfd);
 
 /*
  * Obtains information about the file pointed to by path of a SquashFS fs.
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 75c0782..ccfd7a4 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -433,7 +433,7 @@ DIR * enclose_io_fdopendir(int fd)
 		return fdopendir(fd);
 	}
 
-	file = squash_global_fdtable.fds[fd];
+	file = SQUASH_VFD_FILE(fd);
 
 	dir = calloc(1, sizeof(SQUASH_DIR));
 
@@ -474,11 +474,11 @@ DIR * enclose_io_fdopendir(int fd)
 		goto failure;
 	}
 	
-	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
+	handle = (int *)(file->payload);
 
 	MUTEX_LOCK(&squash_global_mutex);
 	free(handle);
-	squash_global_fdtable.fds[dir->fd]->payload = (void *)dir;
+	file->payload = (void *)dir;
 	MUTEX_UNLOCK(&squash_global_mutex);
 
 	return dir;
diff --git a/src/fd.c b/src/fd.c
index 9a3dd15..656aafb 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -180,7 +180,7 @@ ssize_t squash_read(int vfd, void *buf, sqfs_off_t nbyte)
 		errno = EBADF;
 		goto failure;
 	}
-	file = squash_global_fdtable.fds[vfd];
+	file = SQUASH_VFD_FILE(vfd);
 
 	error = sqfs_read_range(file->fs, &file->node, file->pos, &nbyte, buf);
 	if (SQFS_OK != error)
@@ -205,7 +205,7 @@ off_t squash_lseek(int vfd, off_t offset, int whence)
 		errno = EBADF;
 		return -1;
 	}
-	file = squash_global_fdtable.fds[vfd];
+	file = SQUASH_VFD_FILE(vfd);
 	if (SQUASH_SEEK_SET == whence)
 	{
 		pos = offset;
@@ -268,4 +268,15 @@ struct squash_file * squash_find_entry(void *ptr)
 	}
 	MUTEX_UNLOCK(&squash_global_mutex);
 	return ret;
-}
\ No newline at end of file
+}
+
+struct squash_file * squash_find_file(int vfd)
+{
+	struct squash_file * ret = NULL;
+	MUTEX_LOCK(&squash_global_mutex);
+	if (vfd >= 0 && vfd < squash_global_fdtable.nr) {
+		ret = squash_global_fdtable.fds[vfd];
+	}
+	MUTEX_UNLOCK(&squash_global_mutex);
+	return ret;
+}
-- 
2.43.0


From 7ef5ffd3c24b18d9e8ca4930cd9112a686943335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 20/67] fix: the descriptor table is empty after it was
 released or restarted

---
 src/fd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fd.c b/src/fd.c
index 656aafb..bd7cacc 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -236,6 +236,9 @@ static void squash_halt()
 {
 	if (squash_global_fdtable.fds) {
 		free(squash_global_fdtable.fds);
+		squash_global_fdtable.fds = NULL;
+		squash_global_fdtable.nr = 0;
+		squash_global_fdtable.end = 0;
 	}
 	MUTEX_DESTORY(&squash_global_mutex);
 	squash_extract_clear_cache();
@@ -245,6 +248,7 @@ sqfs_err squash_start()
 {
 	int ret;
 	squash_global_fdtable.nr = 0;
+	squash_global_fdtable.end = 0;
 	squash_global_fdtable.fds = NULL;
 	MUTEX_INIT(&squash_global_mutex);
 	ret = atexit(squash_halt);
-- 
2.43.0


From 351e64dd3c941695933dd8f4a0247eac944215f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 21/67] fix: a failing opendir must not leave a descriptor with
 a dangling stream behind

---
 src/dirent.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index b12f57f..3be024b 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -16,6 +16,7 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	sqfs_err error;
 	short found;
 	SQUASH_DIR *dir = calloc(1, sizeof(SQUASH_DIR));
+	struct squash_file *file;
 	int *handle;
 	
 	errno = 0;
@@ -27,18 +28,18 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	dir->fs = fs;
 	dir->entries = NULL;
 	dir->nr = 0;
+	dir->fd = -1;
 	dir->filename = strdup(filename);
+	if (NULL == dir->filename)
+	{
+		errno = ENOMEM;
+		goto failure;
+	}
 	dir->fd = squash_open(fs, filename);
 	if (-1 == dir->fd)
 	{
 		goto failure;
 	}
-	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
-
-	MUTEX_LOCK(&squash_global_mutex);
-	free(handle);
-	squash_global_fdtable.fds[dir->fd]->payload = (void *)dir;
-	MUTEX_UNLOCK(&squash_global_mutex);
 
 	dir->actual_nr = 0;
 	dir->loc = 0;
@@ -57,16 +58,35 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 		errno = ENOENT;
 		goto failure;
 	}
+	if (!S_ISDIR(dir->node.base.mode))
+	{
+		errno = ENOTDIR;
+		goto failure;
+	}
 	error = sqfs_dir_open(fs, &dir->node, &dir->dir, 0);
 	if (SQFS_OK != error)
 	{
 		goto failure;
 	}
+
+	// from now on squash_close will free the stream along with its file
+	file = SQUASH_VFD_FILE(dir->fd);
+	MUTEX_LOCK(&squash_global_mutex);
+	handle = (int *)(file->payload);
+	free(handle);
+	file->payload = (void *)dir;
+	MUTEX_UNLOCK(&squash_global_mutex);
 	return dir;
 failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	if (-1 != dir->fd) {
+		int saved_errno = errno;
+		squash_close(dir->fd);
+		errno = saved_errno;
+	}
+	free(dir->filename);
 	free(dir);
 	return NULL;
 }
-- 
2.43.0


From 33696b990dc2afae11c30ce55a9acd3942ef7c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 22/67] fix: scandir truncated large directories, returned
 freed memory for empty ones and ignored errors

---
 src/scandir.c | 48 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/scandir.c b/src/scandir.c
index 1aa5504..668c9d3 100644
--- a/src/scandir.c
+++ b/src/scandir.c
@@ -17,42 +17,54 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 	int (*compar)(const struct SQUASH_DIRENT **, const struct SQUASH_DIRENT **))
 {
 	SQUASH_DIR * openeddir = 0;
-	size_t n = 0;
-	struct SQUASH_DIRENT **list = NULL;
+	size_t n = 0, cap = MAX_DIR_ENT;
+	struct SQUASH_DIRENT **list = NULL, **grown;
 	struct SQUASH_DIRENT *ent = 0 ,*p = 0;
 
-	if((dirname == NULL) || (namelist == NULL))
+	if((dirname == NULL) || (namelist == NULL)) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	openeddir = squash_opendir(fs, dirname);
 	if(openeddir == NULL)
 		return -1;
 
 
-	list = (struct SQUASH_DIRENT **)malloc(MAX_DIR_ENT*sizeof(struct SQUASH_DIRENT *));
-
+	list = (struct SQUASH_DIRENT **)malloc(cap*sizeof(struct SQUASH_DIRENT *));
+	if(list == NULL)
+		goto failure;
 
-	while(( ent = squash_readdir(openeddir)) != NULL)
+	while((errno = 0, ent = squash_readdir(openeddir)) != NULL)
 	{
 		if( select && !select(ent))
 			continue;
 
+		if(n >= cap) {
+			grown = (struct SQUASH_DIRENT **)realloc((void *)list,2*cap*sizeof(struct SQUASH_DIRENT *));
+			if(grown == NULL)
+				goto failure;
+			list = grown;
+			cap *= 2;
+		}
+
 		p = (struct SQUASH_DIRENT *)malloc(sizeof(struct SQUASH_DIRENT));
+		if(p == NULL)
+			goto failure;
 
 		memcpy((void *)p,(void *)ent,sizeof(struct SQUASH_DIRENT));
 		list[n] = p;
 
 		n++;
-		if(n >= MAX_DIR_ENT)
-			break;
-
 	}
+	if(errno)
+		goto failure;
 
 	//close the squash_dir
 	squash_closedir(openeddir);
 
-	//realloc the array
-	*namelist = realloc((void *)list,n*sizeof(struct SQUASH_DIRENT *));
+	//realloc the array (to at least one item, it must stay a valid pointer)
+	*namelist = realloc((void *)list,(n ? n : 1)*sizeof(struct SQUASH_DIRENT *));
 	if(*namelist == NULL)
 		*namelist = list;
 
@@ -63,4 +75,16 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 
 	return n;
 
-}
\ No newline at end of file
+failure:
+	if(!errno)
+		errno = ENOMEM;
+	{
+		int saved_errno = errno;
+		while(n > 0)
+			free(list[--n]);
+		free(list);
+		squash_closedir(openeddir);
+		errno = saved_errno;
+	}
+	return -1;
+}
-- 
2.43.0


From e4ed3f1eac226fa63bd40f5cc173d315bc3dbcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:13 +0000
Subject: [PATCH 23/67] fix: a temporary file name that does not fit must not
 lose its extension, nor a failed strdup crash

---
 src/extract.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/extract.c b/src/extract.c
index 7a11fc7..cc1e356 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -113,6 +113,9 @@ SQUASH_OS_PATH squash_tmpdir()
 	try_try = "/tmp";
 out:
 	try_try = strdup(try_try);
+	if (NULL == try_try) {
+		return NULL;
+	}
 	length = strlen(try_try);
 	if (length >= 2 && '/' == try_try[length - 1]) {
 		try_try[length - 1] = 0;
@@ -133,7 +136,8 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 		} else {
 			ret = snprintf(squash_buf, squash_buf_sz, "%s/libsquash-%d", tmpdir, rand());
 		}
-		if (-1 == ret) {
+		if (ret < 0 || ret >= squash_buf_sz) {
+			errno = ENAMETOOLONG;
 			return NULL;
 		}
 		if (-1 == stat(squash_buf, &statbuf)) {
-- 
2.43.0


From 5c4fe0af7118a9d8235052673c2aa2c6d60122ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:14 +0000
Subject: [PATCH 24/67] fix: the fourth extraction within a second found no
 free temporary name

---
 src/extract.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index cc1e356..7d188d0 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -58,7 +58,11 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 	wchar_t squash_win32_buf[32767 + 1];
 	size_t curlen, size_ret;
 	int ret, try_cnt = 0;
-	srand(time(NULL) * getpid());
+	static short seeded = 0;
+	if (!seeded) { // seeding again within the same second would repeat the names
+		srand(time(NULL) * getpid());
+		seeded = 1;
+	}
 	squash_win32_buf[squash_win32_buf_sz] = 0;
 	while (try_cnt < 3) {
 		squash_win32_buf[0] = 0;
@@ -127,9 +131,13 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 	const int squash_buf_sz = 32767;
 	char squash_buf[squash_buf_sz + 1];
 	int ret, try_cnt = 0;
+	static short seeded = 0;
 	struct stat statbuf;
 
-	srand(time(NULL) * getpid());
+	if (!seeded) { // seeding again within the same second would repeat the names
+		srand(time(NULL) * getpid());
+		seeded = 1;
+	}
 	while (try_cnt < 3) {
 		if (ext_name) {
 			ret = snprintf(squash_buf, squash_buf_sz, "%s/libsquash-%d.%s", tmpdir, rand(), ext_name);
-- 
2.43.0


From ea1251594835fdc9f182d6a493b98e1929b544ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 25/67] fix: extract leaves no descriptor behind, nor a partial
 file when it fails

---
 src/extract.c | 56 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index 7d188d0..c3f458a 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -157,12 +157,23 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 }
 #endif // _WIN32
 
+static void squash_remove_file(SQUASH_OS_PATH path)
+{
+	int saved_errno = errno;
+#ifdef _WIN32
+	DeleteFileW(path);
+#else
+	unlink(path);
+#endif
+	errno = saved_errno;
+}
+
 static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const char *ext_name)
 {
 	static SQUASH_OS_PATH tmpdir = NULL;
-	FILE *fp;
-	int fd;
-	SQUASH_OS_PATH tmpf;
+	FILE *fp = NULL;
+	int fd, saved_errno;
+	SQUASH_OS_PATH tmpf = NULL;
 	size_t size;
 	ssize_t ssize;
 	char buffer[16 * 1024];
@@ -173,15 +184,21 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 	if (-1 == fd) {
 		return NULL;
 	}
+	file = SQUASH_VFD_FILE(fd);
+	if (!S_ISREG(file->st.st_mode)) {
+		errno = S_ISDIR(file->st.st_mode) ? EISDIR : EINVAL;
+		goto failure;
+	}
+	errno = 0;
 	if (NULL == tmpdir) {
 		tmpdir = squash_tmpdir();
 	}
 	if (NULL == tmpdir) {
-		return NULL;
+		goto failure;
 	}
 	tmpf = squash_tmpf(tmpdir, ext_name);
 	if (NULL == tmpf) {
-		return NULL;
+		goto failure;
 	}
 #ifdef _WIN32
 	fp = _wfopen(tmpf, L"wb");
@@ -189,29 +206,38 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 	fp = fopen(tmpf, "wb");
 #endif
 	if (NULL == fp) {
-		free(tmpf);
-		return NULL;
+		goto failure;
 	}
-	file = SQUASH_VFD_FILE(fd);
 	offset = file->node.xtra.reg.file_size;
 	while (offset > 0) {
 		ssize = squash_read(fd, buffer, 16 * 1024);
 		if (ssize <= 0) {
-			fclose(fp);
-			free(tmpf);
-			return NULL;
+			goto failure;
 		}
 		offset -= ssize;
 		size = fwrite(buffer, ssize, 1, fp);
 		if (size != 1) {
-			fclose(fp);
-			free(tmpf);
-			return NULL;
+			goto failure;
 		}
 	}
 	assert(0 == offset);
-	fclose(fp);
+	if (0 != fclose(fp)) {
+		fp = NULL;
+		squash_remove_file(tmpf);
+		goto failure;
+	}
+	squash_close(fd);
 	return tmpf;
+failure:
+	saved_errno = errno ? errno : EIO;
+	if (fp) {
+		fclose(fp);
+		squash_remove_file(tmpf);
+	}
+	free((void *)tmpf);
+	squash_close(fd);
+	errno = saved_errno;
+	return NULL;
 }
 
 struct SquashExtractEntry {
-- 
2.43.0


From 410b99a323eae14576fa46681d0fb311fae713f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 26/67] fix: the extraction cache owns its paths and is empty
 after it was cleared

---
 src/extract.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index c3f458a..70743d2 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -242,7 +242,7 @@ failure:
 
 struct SquashExtractEntry {
 	sqfs *fs;
-	const char *path;
+	char *path;
 	SQUASH_OS_PATH ret;
 	struct SquashExtractEntry *next;
 };
@@ -260,17 +260,22 @@ static const struct SquashExtractEntry* squash_extract_cache_find(sqfs *fs, cons
 	}
 	return ptr;
 }
-static void squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_PATH ret)
+static short squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_PATH ret)
 {
 	struct SquashExtractEntry* ptr = malloc(sizeof(struct SquashExtractEntry));
 	if (NULL == ptr) {
-		return;
+		return 0;
 	}
 	ptr->fs = fs;
-	ptr->path = path;
+	ptr->path = strdup(path); // the caller may free or reuse its string
+	if (NULL == ptr->path) {
+		free(ptr);
+		return 0;
+	}
 	ptr->ret = ret;
 	ptr->next = squash_extract_cache;
 	squash_extract_cache = ptr;
+	return 1;
 }
 
 SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
@@ -283,8 +288,12 @@ SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 		return found->ret;
 	}
 	ret = squash_uncached_extract(fs, path, ext_name);
-	if (NULL != ret) {
-		squash_extract_cache_insert(fs, path, ret);
+	if (NULL != ret && !squash_extract_cache_insert(fs, path, ret)) {
+		// nobody would ever remove this file
+		squash_remove_file(ret);
+		free((void *)ret);
+		errno = ENOMEM;
+		return NULL;
 	}
 	return ret;
 }
@@ -292,12 +301,17 @@ SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 void squash_extract_clear_cache()
 {
 	struct SquashExtractEntry* ptr = squash_extract_cache;
+	squash_extract_cache = NULL;
 	while (NULL != ptr) {
+		struct SquashExtractEntry* next = ptr->next;
 #ifdef _WIN32
 		DeleteFileW(ptr->ret);
 #else
 		unlink(ptr->ret);
 #endif
-		ptr = ptr->next;
+		free((void *)ptr->ret);
+		free(ptr->path);
+		free(ptr);
+		ptr = next;
 	}
 }
-- 
2.43.0


From 85d9909b2bcd6955a30a804b333d24e030120e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 27/67] fix: concurrent extractions corrupted the list of
 extracted files

---
 include/squash/mutex.h |  1 +
 src/extract.c          | 17 +++++++++++++----
 src/fd.c               |  1 +
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/squash/mutex.h b/include/squash/mutex.h
index 16573a7..18ee16c 100644
--- a/include/squash/mutex.h
+++ b/include/squash/mutex.h
@@ -23,6 +23,7 @@
 #endif
 
 extern MUTEX squash_global_mutex;
+extern MUTEX squash_extract_mutex;
 
 int MUTEX_INIT(MUTEX *mutex);
 int MUTEX_LOCK(MUTEX *mutex);
diff --git a/src/extract.c b/src/extract.c
index 70743d2..83f1e94 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -248,6 +248,7 @@ struct SquashExtractEntry {
 };
 
 static struct SquashExtractEntry* squash_extract_cache = NULL;
+MUTEX squash_extract_mutex; // guards the list above and the static variables of this file
 
 static const struct SquashExtractEntry* squash_extract_cache_find(sqfs *fs, const char *path)
 {
@@ -281,11 +282,14 @@ static short squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_P
 SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 {
 	SQUASH_OS_PATH ret;
-	static struct SquashExtractEntry* found;
+	const struct SquashExtractEntry* found;
 
+	MUTEX_LOCK(&squash_extract_mutex);
 	found = squash_extract_cache_find(fs, path);
 	if (NULL != found) {
-		return found->ret;
+		ret = found->ret;
+		MUTEX_UNLOCK(&squash_extract_mutex);
+		return ret;
 	}
 	ret = squash_uncached_extract(fs, path, ext_name);
 	if (NULL != ret && !squash_extract_cache_insert(fs, path, ret)) {
@@ -293,15 +297,20 @@ SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 		squash_remove_file(ret);
 		free((void *)ret);
 		errno = ENOMEM;
-		return NULL;
+		ret = NULL;
 	}
+	MUTEX_UNLOCK(&squash_extract_mutex);
 	return ret;
 }
 
 void squash_extract_clear_cache()
 {
-	struct SquashExtractEntry* ptr = squash_extract_cache;
+	struct SquashExtractEntry* ptr;
+
+	MUTEX_LOCK(&squash_extract_mutex);
+	ptr = squash_extract_cache;
 	squash_extract_cache = NULL;
+	MUTEX_UNLOCK(&squash_extract_mutex);
 	while (NULL != ptr) {
 		struct SquashExtractEntry* next = ptr->next;
 #ifdef _WIN32
diff --git a/src/fd.c b/src/fd.c
index bd7cacc..c64c256 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -251,6 +251,7 @@ sqfs_err squash_start()
 	squash_global_fdtable.end = 0;
 	squash_global_fdtable.fds = NULL;
 	MUTEX_INIT(&squash_global_mutex);
+	MUTEX_INIT(&squash_extract_mutex);
 	ret = atexit(squash_halt);
 	if (0 == ret) {
 		return SQFS_OK;
-- 
2.43.0


From f24ed1be3827bd797d0cb3784b888ed5fdb53589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 28/67] fix: an image opened where another one was closed must
 not get the files extracted from that one

---
 include/squash.h |  6 ++++++
 src/extract.c    | 13 +++++++++++++
 src/fs.c         |  2 ++
 3 files changed, 21 insertions(+)

diff --git a/include/squash.h b/include/squash.h
index 4500d08..240a050 100644
--- a/include/squash.h
+++ b/include/squash.h
@@ -242,4 +242,10 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name);
 SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name);
 void squash_extract_clear_cache();
 
+/*
+ * Forgets which files were extracted from `fs`, which is being destroyed:
+ * another image may be opened at the same address later.
+ */
+void squash_extract_forget(sqfs *fs);
+
 #endif
diff --git a/src/extract.c b/src/extract.c
index 83f1e94..608e491 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -324,3 +324,16 @@ void squash_extract_clear_cache()
 		ptr = next;
 	}
 }
+
+void squash_extract_forget(sqfs *fs)
+{
+	struct SquashExtractEntry* ptr;
+
+	MUTEX_LOCK(&squash_extract_mutex);
+	for (ptr = squash_extract_cache; NULL != ptr; ptr = ptr->next) {
+		if (fs == ptr->fs) {
+			ptr->fs = NULL; // the file stays until the cache is cleared
+		}
+	}
+	MUTEX_UNLOCK(&squash_extract_mutex);
+}
diff --git a/src/fs.c b/src/fs.c
index 59bdd53..2e4e6e5 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -22,6 +22,7 @@
  * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF
  * THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
+#include "squash.h"
 #include "squash/fs.h"
 
 #include "squash/file.h"
@@ -90,6 +91,7 @@ sqfs_err sqfs_init(sqfs *fs, sqfs_fd_t fd, size_t offset) {
 }
 
 void sqfs_destroy(sqfs *fs) {
+	squash_extract_forget(fs);
 	sqfs_table_destroy(&fs->id_table);
 	sqfs_table_destroy(&fs->frag_table);
 	if (sqfs_export_ok(fs))
-- 
2.43.0


From 6e7e1ec52f807946111c35f170152b5e9d4f1c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 29/67] fix: a cached block may be evicted by another thread
 unless the cache stays locked while it is used

---
 include/squash/file.h |  1 +
 include/squash/fs.h   |  3 ++-
 src/file.c            | 14 ++++++++++++--
 src/fs.c              | 14 ++++++++------
 src/table.c           |  6 +++++-
 5 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/include/squash/file.h b/include/squash/file.h
index eafd8ed..63a2656 100644
--- a/include/squash/file.h
+++ b/include/squash/file.h
@@ -34,6 +34,7 @@
 sqfs_err sqfs_frag_entry(sqfs *fs, struct squashfs_fragment_entry *frag,
 	uint32_t idx);
 
+/* Hold fs->frag_cache.mutex from before the call until done with the block. */
 sqfs_err sqfs_frag_block(sqfs *fs, sqfs_inode *inode,
 	size_t *offset, size_t *size, sqfs_block **block);
 
diff --git a/include/squash/fs.h b/include/squash/fs.h
index 9c3c699..16a0159 100644
--- a/include/squash/fs.h
+++ b/include/squash/fs.h
@@ -103,7 +103,8 @@ sqfs_err sqfs_md_block_read(sqfs *fs, sqfs_off_t pos, size_t *data_size,
 sqfs_err sqfs_data_block_read(sqfs *fs, sqfs_off_t pos, uint32_t hdr,
 	sqfs_block **block);
 
-/* Don't dispose after getting block, it's in the cache */
+/* Don't dispose after getting block, it's in the cache.
+   Hold the mutex of the cache from before the call until done with the block. */
 sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block);
 sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 	uint32_t hdr, sqfs_block **block);
diff --git a/src/file.c b/src/file.c
index 2bab953..70aafc6 100644
--- a/src/file.c
+++ b/src/file.c
@@ -137,6 +137,7 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 	buf_orig = buf;
 	while (*size > 0) {
 		sqfs_block *block = NULL;
+		sqfs_cache *cache = NULL; /* locked while its block is used */
 		size_t data_off, data_size;
 		size_t take;
 		
@@ -144,9 +145,13 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 		if (fragment) { /* fragment */
 			if (inode->xtra.reg.frag_idx == SQUASHFS_INVALID_FRAG)
 				break;
+			cache = &fs->frag_cache;
+			MUTEX_LOCK(&cache->mutex);
 			err = sqfs_frag_block(fs, inode, &data_off, &data_size, &block);
-			if (err)
+			if (err) {
+				MUTEX_UNLOCK(&cache->mutex);
 				return err;
+			}
 		} else {			
 			if ((err = sqfs_blocklist_next(&bl)))
 				return err;
@@ -159,10 +164,14 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 				if (data_size > block_size)
 					data_size = block_size;
 			} else {
+				cache = &fs->data_cache;
+				MUTEX_LOCK(&cache->mutex);
 				err = sqfs_data_cache(fs, &fs->data_cache, bl.block,
 					bl.header, &block);
-				if (err)
+				if (err) {
+					MUTEX_UNLOCK(&cache->mutex);
 					return err;
+				}
 				data_size = block->size;
 			}
 		}
@@ -173,6 +182,7 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 		if (block) {
 			memcpy(buf, (char*)block->data + data_off + read_off, take);
 			/* BLOCK CACHED, DON'T DISPOSE */
+			MUTEX_UNLOCK(&cache->mutex);
 		} else {
 			memset(buf, 0, take);
 		}
diff --git a/src/fs.c b/src/fs.c
index 2e4e6e5..758a330 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -181,7 +181,6 @@ sqfs_err sqfs_data_block_read(sqfs *fs, sqfs_off_t pos, uint32_t hdr,
 sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
 	sqfs_block_cache_entry *entry;
 	sqfs_err ret;
-	MUTEX_LOCK(&fs->md_cache.mutex);
 
 	entry = sqfs_cache_get(&fs->md_cache, *pos);
 	if (!entry) {
@@ -197,7 +196,6 @@ sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
 	*pos += entry->data_size;
 	ret = SQFS_OK;
 exit:
-	MUTEX_UNLOCK(&fs->md_cache.mutex);
 	return ret;
 }
 
@@ -205,7 +203,6 @@ sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 		uint32_t hdr, sqfs_block **block) {
 	sqfs_block_cache_entry *entry;
 	sqfs_err ret;
-	MUTEX_LOCK(&cache->mutex);
 
 	entry = sqfs_cache_get(cache, pos);
 	if (!entry) {
@@ -221,7 +218,6 @@ sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 	*block = entry->block;
 	ret = SQFS_OK;
 exit:
-	MUTEX_UNLOCK(&cache->mutex);
 	return ret;
 }
 
@@ -242,9 +238,14 @@ sqfs_err sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
 	while (size > 0) {
 		sqfs_block *block;
 		size_t take;
-		sqfs_err err = sqfs_md_cache(fs, &pos, &block);
-		if (err)
+		sqfs_err err;
+		/* another thread may evict the block as soon as the lock is released */
+		MUTEX_LOCK(&fs->md_cache.mutex);
+		err = sqfs_md_cache(fs, &pos, &block);
+		if (err) {
+			MUTEX_UNLOCK(&fs->md_cache.mutex);
 			return err;
+		}
 		
 		take = block->size - cur->offset;
 		if (take > size)
@@ -261,6 +262,7 @@ sqfs_err sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
 			cur->block = pos;
 			cur->offset = 0;
 		}
+		MUTEX_UNLOCK(&fs->md_cache.mutex);
 	}
 	return SQFS_OK;
 }
diff --git a/src/table.c b/src/table.c
index e4fbd5c..7db3767 100644
--- a/src/table.c
+++ b/src/table.c
@@ -57,10 +57,14 @@ sqfs_err sqfs_table_get(sqfs_table *table, sqfs *fs, size_t idx, void *buf) {
 		off = pos % SQUASHFS_METADATA_SIZE;
 	
 	sqfs_off_t bpos = table->blocks[bnum];
-	if (sqfs_md_cache(fs, &bpos, &block))
+	MUTEX_LOCK(&fs->md_cache.mutex);
+	if (sqfs_md_cache(fs, &bpos, &block)) {
+		MUTEX_UNLOCK(&fs->md_cache.mutex);
 		return SQFS_ERR;
+	}
 	
 	memcpy(buf, (char*)(block->data) + off, table->each);
+	MUTEX_UNLOCK(&fs->md_cache.mutex);
 	/* BLOCK CACHED, DON'T DISPOSE */
 	return SQFS_OK;
 }
-- 
2.43.0


From 72bbc50338f54426457a6df8e51ba24b5e2d7b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 30/67] fix: follow links without unbounded recursion, buffer
 overflows or a wrong base directory

---
 src/dir.c | 228 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 121 insertions(+), 107 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index 172d9a7..6c468ea 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -28,6 +28,8 @@
 
 #include "squash/fs.h"
 
+#include "squash/stack.h"
+
 #include <string.h>
 #include <stdlib.h>
 
@@ -279,39 +281,75 @@ sqfs_err sqfs_dir_lookup(sqfs *fs, sqfs_inode *inode,
 	return err;
 }
 
-static sqfs_err clear_dot_dot(char *path)
+/* Interpret each dot-dot that has a component before it: /a/b/../../c/d is /c/d.
+ * The others end up at the beginning of the path. */
+static void clear_dot_dot(char *path)
 {
-	char *dot_dot, *dot_dot_left;
-	
-	// we might get a path like /a/b/../../c/d
-	// in which case we need to interpret dot-dot's
-	while ((dot_dot = strstr(path, "/../"))) {
-		dot_dot_left = dot_dot - 1;
-		do {
-			if (dot_dot_left < path) {
-				return SQFS_ERR;
-			}
-			if ('/' == *dot_dot_left) {
-				break;
+	char *in = path, *out = path; /* out never overtakes in */
+	short absolute = ('/' == *path);
+
+	while (*in) {
+		char *start = in, *name;
+		size_t size;
+
+		while (*in == '/')
+			++in;
+		name = in;
+		while (*in && *in != '/')
+			++in;
+		size = in - name;
+		if (2 == size && 0 == memcmp(name, "..", 2)) {
+			char *end = out, *last;
+			do { /* a dot is no component to remove */
+				for (last = end; last > path && '/' != last[-1]; --last)
+					; /* pass */
+				size = end - last;
+				end = last > path ? last - 1 : last;
+			} while (1 == size && '.' == *last);
+			if (size > 0 && !(2 == size && 0 == memcmp(last, "..", 2))) {
+				out = end;
+				continue;
 			}
-			--dot_dot_left;
-		} while (1);
-		memmove(dot_dot_left, dot_dot + 3, strlen(dot_dot + 3) + 1);
+			size = 2; /* nothing before it, keep it */
+		}
+		if (name > start && (out > path || absolute))
+			*out++ = '/';
+		memmove(out, name, size);
+		out += size;
 	}
-	// what about /a/b/c/d/..
-	if (strlen(path) >= 3 && 0 == strcmp(path + strlen(path) - 3, "/..")) {
-		dot_dot_left = path + strlen(path) - 4;
-		do {
-			if (dot_dot_left < path) {
-				return SQFS_ERR;
-			}
-			if ('/' == *dot_dot_left) {
-				break;
-			}
-			--dot_dot_left;
-		} while (1);
-		*dot_dot_left = '\0';
+	*out = '\0';
+}
+
+/* Replaces the path by what is left to look up once the link in front of
+ * rest has been read. */
+static sqfs_err squash_expand_link(sqfs *fs, sqfs_inode *link, char **path0, const char *rest)
+{
+	char *new_path;
+	char buf_link[SQUASHFS_PATH_LEN]; // is enough for path?
+	ssize_t link_length = squash_readlink_inode(fs, link, buf_link, sizeof(buf_link));
+	if (link_length <= 0) {
+		return SQFS_ERR;
 	}
+	clear_dot_dot(buf_link + ('/' == buf_link[0]));
+	if ('\0' == *buf_link) {
+		strcpy(buf_link, "."); // the directory with the link
+	}
+	if (strlen(buf_link) + 1 + strlen(rest) > SQUASHFS_PATH_LEN) {
+		errno = ENAMETOOLONG;
+		return SQFS_ERR;
+	}
+	new_path = malloc(strlen(buf_link) + 1 + strlen(rest) + 1);
+	if (NULL == new_path) {
+		errno = ENOMEM;
+		return SQFS_ERR;
+	}
+	strcpy(new_path, buf_link);
+	if (*rest) {
+		strcat(new_path, "/");
+		strcat(new_path, rest);
+	}
+	free(*path0);
+	*path0 = new_path;
 	return SQFS_OK;
 }
 
@@ -319,78 +357,24 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 
 	sqfs_err error;
 	short found;
-	char base_path[SQUASHFS_PATH_LEN];
-	char new_path[SQUASHFS_PATH_LEN];
-	int inode_num;
 
 	if(strlen(path) > SQUASHFS_PATH_LEN){
 		errno = ENAMETOOLONG;
 		return SQFS_ERR;
 	}
 
-	strncpy(base_path, path, SQUASHFS_PATH_LEN);
-	inode_num = 0;
-	do {
-		char buf_link[SQUASHFS_PATH_LEN]; // is enough for path?
-		ssize_t link_length = squash_readlink_inode(fs, node, buf_link, sizeof(buf_link));
-		if (link_length > 0) {
-			if (buf_link[0] == '/') { // is Absolute Path
-				// find node from /
-				error = sqfs_inode_get(fs, node, sqfs_inode_root(fs));
-				if (SQFS_OK != error) {
-					return error;
-				}
-				error = sqfs_lookup_path(fs, node, buf_link, &found);
-				strncpy(new_path, buf_link, SQUASHFS_PATH_LEN);
-				if (SQFS_OK != error) {
-					return error;
-				} else if (!found) {
-					errno = ENOENT;
-					return SQFS_ERR;
-				}
-			} else { // is Relative Path
-				size_t pos = strlen(base_path) - 1;
-				// find the last /  "/a/b/cb"
-				while (base_path[pos--] != '/') { }
-
-				memcpy(new_path, base_path, pos + 2);
-				memcpy(new_path + pos + 2, buf_link, link_length);
-				new_path[pos + 2 + link_length] = '\0';
-				
-				error = clear_dot_dot(new_path);
-				if (SQFS_OK != error) {
-					errno = ENOENT;
-					return SQFS_ERR;
-				}
-				
-				// find node from /
-				error = sqfs_inode_get(fs, node, sqfs_inode_root(fs));
-				if (SQFS_OK != error) {
-					return error;
-				}
-				error = sqfs_lookup_path(fs, node, new_path, &found);
-				if (SQFS_OK != error) {
-					return error;
-				} else if (!found) {
-					errno = ENOENT;
-					return SQFS_ERR;
-				}
-			}
-
-			inode_num++;
-			if (inode_num > SQUASHFS_MAX_LINK_LEVEL) {
-				errno = ELOOP;
-				return SQFS_ERR;
-			}
-			strncpy(base_path, new_path, SQUASHFS_PATH_LEN);
-
-		} else {
-			return SQFS_ERR;
-		}
-
-
-	} while (S_ISLNK(node->base.mode));
-
+	// find node from /
+	error = sqfs_inode_get(fs, node, sqfs_inode_root(fs));
+	if (SQFS_OK != error) {
+		return error;
+	}
+	error = sqfs_lookup_path_inner(fs, node, path, &found, 1);
+	if (SQFS_OK != error) {
+		return error;
+	} else if (!found) {
+		errno = ENOENT;
+		return SQFS_ERR;
+	}
 	return SQFS_OK;
 }
 
@@ -398,10 +382,12 @@ sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incomin
 		short *found, short follow_link) {
 	sqfs_err err, ret;
 	sqfs_name buf;
-	sqfs_path path_here;
 	sqfs_dir_entry entry;
 	char *path, *path0;
 	short is_last_component;
+	sqfs_stack parents; /* the directories on the way to inode */
+	sqfs_inode *parent;
+	int link_num = 0;
 	memset(&buf, 0, sizeof(sqfs_name));
 	memset(&entry, 0, sizeof(sqfs_dir_entry));
 
@@ -413,12 +399,9 @@ sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incomin
 		return SQFS_ERR;
 	}
 	path0 = path;
+	sqfs_stack_create(&parents, sizeof(sqfs_inode), 0, NULL);
 
-	err = clear_dot_dot(path);
-	if (SQFS_OK != err) {
-		ret = SQFS_OK; /* not found */
-		goto exit;
-	}
+	clear_dot_dot(path);
 	
 	while (*path) {
 		const char *name;
@@ -440,6 +423,17 @@ sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incomin
 			/* interpret dot */
 			continue;
 		}
+		if (2 == size && 0 == memcmp(name, "..", 2)) {
+			/* at the beginning of the path or of a link's target */
+			*found = 0;
+			if (sqfs_stack_top(&parents, &parent)) {
+				ret = SQFS_OK; /* nothing above the root */
+				goto exit;
+			}
+			*inode = *parent;
+			sqfs_stack_pop(&parents);
+			continue;
+		}
 		if ((err = sqfs_dir_lookup(fs, inode, name, size, &entry, found))) {
 			ret = err;
 			goto exit;
@@ -448,6 +442,11 @@ sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incomin
 			ret = SQFS_OK; /* not found */
 			goto exit;
 		}
+		if ((err = sqfs_stack_push(&parents, &parent))) {
+			ret = err;
+			goto exit;
+		}
+		*parent = *inode;
 		if ((err = sqfs_inode_get(fs, inode, sqfs_dentry_inode(&entry)))) {
 			ret = err;
 			goto exit;
@@ -463,13 +462,27 @@ sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incomin
 
 		if (S_ISLNK(inode->base.mode)) {
 			if (!(is_last_component && !follow_link)) {
-				size_t size_here = path - path0;
-				if (size_here > SQUASHFS_PATH_LEN) {
-					size_here = SQUASHFS_PATH_LEN;
+				if (++link_num > SQUASHFS_MAX_LINK_LEVEL) {
+					errno = ELOOP;
+					ret = SQFS_ERR;
+					goto exit;
+				}
+				while (*path == '/') /* the rest is relative to the target */
+					++path;
+				err = squash_expand_link(fs, inode, &path0, path);
+				if (SQFS_OK != err) {
+					ret = err;
+					goto exit;
+				}
+				path = path0;
+				if ('/' == *path) { // is Absolute Path
+					while (sqfs_stack_pop(&parents))
+						; /* pass */
+					err = sqfs_inode_get(fs, inode, sqfs_inode_root(fs));
+				} else { // is Relative Path, from the directory with the link
+					*inode = *parent;
+					sqfs_stack_pop(&parents);
 				}
-				memcpy(path_here, path0, size_here);
-				path_here[size_here] = '\0';
-				err = squash_follow_link(fs, path_here, inode);
 				if (SQFS_OK != err) {
 					ret = err;
 					goto exit;
@@ -481,6 +494,7 @@ sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incomin
 	*found = 1;
 	ret = SQFS_OK;
 exit:
+	sqfs_stack_destroy(&parents);
 	free(path0);
 	return ret;
 }
-- 
2.43.0


From 41953ff6751385dcc7cc51c86f35e5e99e8c8335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:28 +0000
Subject: [PATCH 31/67] fix: link counts above 2^31-1 are not sign extended

---
 include/squash/fs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/squash/fs.h b/include/squash/fs.h
index 16a0159..4edfc67 100644
--- a/include/squash/fs.h
+++ b/include/squash/fs.h
@@ -51,7 +51,7 @@ struct sqfs {
 
 struct sqfs_inode {
 	struct squashfs_base_inode base;
-	int nlink;
+	uint32_t nlink;
 	
 	sqfs_md_cursor next;
 	
-- 
2.43.0


From e7ad11c07eecc79f3ed7381e63f951d5f5ab9103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 32/67] fix: a traversal that could not be opened can be closed

---
 src/traverse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/traverse.c b/src/traverse.c
index 012d98b..bf463d2 100644
--- a/src/traverse.c
+++ b/src/traverse.c
@@ -118,6 +118,7 @@ sqfs_err sqfs_traverse_open(sqfs_traverse *trv, sqfs *fs, sqfs_inode_id iid) {
 	sqfs_err err;
 	sqfs_inode inode;
 	
+	sqfs_traverse_init(trv); /* may be closed even after a failure */
 	if ((err = sqfs_inode_get(fs, &inode, iid)))
 		return err;
 	
-- 
2.43.0


From e38c01b4c668846f8ad9cc49ab93a75645785d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:27 +0000
Subject: [PATCH 33/67] fix: the block index of the file with the highest inode
 number took the key that means none

---
 src/file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index 70aafc6..9c54f6e 100644
--- a/src/file.c
+++ b/src/file.c
@@ -276,7 +276,7 @@ static sqfs_err sqfs_blockidx_add(sqfs *fs, sqfs_inode *inode,
 		}
 	}
 
-	idx = inode->base.inode_number + 1; /* zero means invalid */
+	idx = (sqfs_cache_idx)inode->base.inode_number + 1; /* zero means invalid */
 	cachep = sqfs_cache_add(&fs->blockidx, idx);
 	*out = *cachep = blockidx;
 	return SQFS_OK;
@@ -311,7 +311,7 @@ sqfs_err sqfs_blockidx_blocklist(sqfs *fs, sqfs_inode *inode, sqfs_blocklist *bl
 	}
 	
 	/* Get the index, creating it if necessary */
-	idx = inode->base.inode_number + 1; /* zero means invalid index */
+	idx = (sqfs_cache_idx)inode->base.inode_number + 1; /* zero means invalid index */
 	if ((bp = sqfs_cache_get(&fs->blockidx, idx))) {
 		blockidx = *bp;
 	} else {
-- 
2.43.0


From 6baec5b3705dd875b259bba1ccba73f647c75d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 34/67] fix: enclose_io_readv stopped at an empty segment and
 lost what it had read when a later segment failed

---
 sample/enclose_io_unix.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index ccfd7a4..975c0e7 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -611,11 +611,12 @@ ssize_t enclose_io_readv(int d, const struct iovec *iov, int iovcnt)
 		for (i = 0; i < iovcnt; ++i) {
 			i_ssize = squash_read(d, iov[i].iov_base, iov[i].iov_len);
 			if (-1 == i_ssize) {
-				return -1;
-			} else if (0 == i_ssize) {
+				// what has been read before is not lost
+				return ret > 0 ? ret : -1;
+			}
+			ret += i_ssize;
+			if (i_ssize < iov[i].iov_len) {
 				break;
-			} else {
-				ret += i_ssize;
 			}
 		}
 		return ret;
-- 
2.43.0


From 2a196d80649383700ecfec99a0dc8840d0c9f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 35/67] fix: enclose_io_pread left the descriptor at the wrong
 position when the read failed

---
 sample/enclose_io_unix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 975c0e7..23bf9a3 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -582,6 +582,7 @@ ssize_t enclose_io_pread(int d, void *buf, size_t nbyte, off_t offset)
 	if (SQUASH_VALID_VFD(d)) {
 		off_t lseek_off, backup_off;
 		ssize_t read_ssize;
+		int saved_errno;
 		backup_off = squash_lseek(d, 0, SQUASH_SEEK_CUR);
 		if (-1 == backup_off) {
 			return -1;
@@ -591,11 +592,10 @@ ssize_t enclose_io_pread(int d, void *buf, size_t nbyte, off_t offset)
 			return -1;
 		}
 		read_ssize = squash_read(d, buf, nbyte);
-		if (-1 == read_ssize) {
-			return -1;
-		}
+		saved_errno = errno;
 		lseek_off = squash_lseek(d, backup_off, SQUASH_SEEK_SET);
 		assert(backup_off == lseek_off);
+		errno = saved_errno;
 		return read_ssize;
 	} else {
 		return pread(d, buf, nbyte, offset);
-- 
2.43.0


From f93b905b58cfa7d024b678b3ec98c1dcb262b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:35 +0000
Subject: [PATCH 36/67] fix: enclose_io_lseek and enclose_io_read truncated
 results beyond 2 GB to int

---
 sample/enclose_io_common.h | 2 +-
 sample/enclose_io_unix.c   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index be4eaad..a477dc6 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -142,7 +142,7 @@ short enclose_io_is_relative_w(wchar_t *pathname);
 		} while (0)
 
 int enclose_io_exepath(char* buffer, size_t* size);
-int enclose_io_dos_return(int statement);
+int64_t enclose_io_dos_return(int64_t statement);
 short enclose_io_if(const char* path);
 SQUASH_OS_PATH enclose_io_ifextract(const char* path, const char* ext_name);
 void enclose_io_chdir_helper(const char *path);
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 23bf9a3..2ba8c14 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -657,9 +657,9 @@ int enclose_io_access(const char *path, int mode)
 
 #endif // !_WIN32
 
-int enclose_io_dos_return(int statement) {
+int64_t enclose_io_dos_return(int64_t statement) {
 #ifdef _WIN32
-	int ret = (statement);
+	int64_t ret = (statement);
 	if (-1 == ret) {
 		ENCLOSE_IO_SET_LAST_ERROR;
 		return ret;
-- 
2.43.0


From 1f1cd01402f7a4811753d74330b8c8b0c03c319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:20 +0000
Subject: [PATCH 37/67] fix: enclose_io_fdopendir leaked the file name on
 failure, ignored its allocation failing and reported a stale error for a file

---
 sample/enclose_io_unix.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 2ba8c14..35b9063 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -435,6 +435,13 @@ DIR * enclose_io_fdopendir(int fd)
 
 	file = SQUASH_VFD_FILE(fd);
 
+	if (!S_ISDIR(file->st.st_mode))
+	{
+		errno = ENOTDIR;
+		return NULL;
+	}
+
+	errno = 0;
 	dir = calloc(1, sizeof(SQUASH_DIR));
 
 	if (NULL == dir)
@@ -449,6 +456,11 @@ DIR * enclose_io_fdopendir(int fd)
 	dir->entries = NULL;
 	dir->nr = 0;
 	dir->filename = strdup(file->filename);
+	if (NULL == dir->filename)
+	{
+		errno = ENOMEM;
+		goto failure;
+	}
 	dir->fd = fd;
 	dir->actual_nr = 0;
 	dir->loc = 0;
@@ -486,6 +498,7 @@ failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	free(dir->filename);
 	free(dir);
 	return NULL;
 }
-- 
2.43.0


From d3eb020876b467aaf9299ce0cbc2d1a5b1bd9afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:11 +0000
Subject: [PATCH 38/67] fix: enclose_io_getcwd truncated the directory instead
 of failing with ERANGE and overflowed a buffer of size 0

---
 sample/enclose_io_unix.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 35b9063..27d6d22 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -804,10 +804,13 @@ char *enclose_io_getcwd(char *buf, size_t size)
 				#endif
 				return NULL;
 			}
-		} else {
-			if (size - 1 < memcpy_len) {
-				memcpy_len = size - 1;
-			}
+		} else if (size < memcpy_len) {
+			// memcpy_len includes the trailing slash, which makes room for the terminating NUL
+			errno = 0 == size ? EINVAL : ERANGE;
+			#ifdef _WIN32
+			ENCLOSE_IO_SET_LAST_ERROR;
+			#endif
+			return NULL;
 		}
 		memcpy(buf, enclose_io_cwd, memcpy_len);
 		assert(memcpy_len - 1 >= 0);
-- 
2.43.0


From b269b38b118587529d49ca7ff810476a9211e80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:40 +0000
Subject: [PATCH 39/67] fix: enclose_io_is_path took every path beginning with
 /__enclose_io_memfs__ for the image, whatever followed

---
 sample/enclose_io_unix.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 27d6d22..c4560ea 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1167,13 +1167,20 @@ off_t enclose_io_lseek(int fildes, off_t offset, int whence)
 short enclose_io_is_path(char *pathname)
 {
 	if (strnlen((pathname), 21) >= 21) {
-		if (0 == strncmp((pathname), "/__enclose_io_memfs__", 21)
 #ifdef _WIN32
+		if (0 == strncmp((pathname), "/__enclose_io_memfs__", 21)
 			|| 0 == strncmp((pathname), "\\__enclose_io_memfs__", 21)
-#endif
 			) {
 				return 1;
 			}
+#else
+		// another name that merely begins alike is not ours
+		if (0 == strncmp((pathname), "/__enclose_io_memfs__", 21)
+			&& ('\0' == pathname[21] || '/' == pathname[21])
+			) {
+				return 1;
+			}
+#endif
 	}
 #ifdef _WIN32
 	if (strnlen((pathname), 23) >= 23) {
-- 
2.43.0


From c94955686a84583c193fdd870b065743e68a2560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:02 +0000
Subject: [PATCH 40/67] fix: enclose_io_chdir with a relative path inside the
 image changed the real working directory

---
 sample/enclose_io_unix.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index c4560ea..a936300 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -728,6 +728,15 @@ void enclose_io_chdir_helper(const char *path)
 
 int enclose_io_chdir(const char *path)
 {
+#ifndef _WIN32
+	if (enclose_io_cwd[0] && '/' != *path) {
+		sqfs_path enclose_io_expanded;
+		size_t enclose_io_cwd_len;
+		size_t memcpy_len;
+		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		return enclose_io_chdir(enclose_io_expanded);
+	}
+#endif
 	if (enclose_io_is_path(path)) {
 		if (mkdir_workdir) {
 			sqfs_path mkdir_workdir_expanded;
-- 
2.43.0


From b1b8e18e4d9c404e67cc5cb70000bd6aff4146ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:08 +0000
Subject: [PATCH 41/67] fix: relative paths too long for the buffer were
 truncated to the path of another object

---
 sample/enclose_io_common.h |  8 ++++++++
 sample/enclose_io_unix.c   | 30 +++++++++++++++++++-----------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index a477dc6..2ce192a 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -103,6 +103,14 @@ short enclose_io_is_relative_w(wchar_t *pathname);
 			memcpy(&enclose_io_expanded[enclose_io_cwd_len], (path), memcpy_len); \
 			enclose_io_expanded[enclose_io_cwd_len + memcpy_len] = '\0'
 
+// fails instead of naming another object by a truncated path
+#define ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, RETURN)	\
+			if (strlen(enclose_io_cwd) + strlen(path) > SQUASHFS_PATH_LEN) { \
+				errno = ENAMETOOLONG; \
+				return (RETURN); \
+			} \
+			ENCLOSE_IO_GEN_EXPANDED_NAME(path)
+
 //TODO maybe use WideCharToMultiByte
 #define W_ENCLOSE_IO_PATH_CONVERT(path) \
 			enclose_io_converted = (char *)enclose_io_converted_storage; \
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index a936300..031aa8b 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -214,7 +214,7 @@ int enclose_io_mkdir(const char *path, mode_t mode)
 		const char* workdir;
 		const char* workdir_path;
 
-		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, -1);
 		ret = squash_stat(enclose_io_fs, enclose_io_expanded, &buf);
 		workdir = enclose_io_mkdir_workdir();
 		if (NULL == workdir) {
@@ -337,7 +337,7 @@ int enclose_io_execv(const char *path, char *const argv[])
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, -1);
 		return enclose_io__exec(enclose_io_expanded, argv);
 	} else if (enclose_io_is_path(path)) {
 		return enclose_io__exec(path, argv);
@@ -352,7 +352,7 @@ int enclose_io_lstat(const char *path, struct stat *buf)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, -1);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			squash_lstat(enclose_io_fs, enclose_io_expanded, buf),
@@ -375,7 +375,7 @@ ssize_t enclose_io_readlink(const char *path, char *buf, size_t bufsize)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, -1);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			squash_readlink(enclose_io_fs, enclose_io_expanded, buf, bufsize),
@@ -400,7 +400,7 @@ DIR * enclose_io_opendir(const char *filename)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		ENCLOSE_IO_GEN_EXPANDED_NAME(filename);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(filename, NULL);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			(DIR *)squash_opendir(enclose_io_fs, enclose_io_expanded),
@@ -571,7 +571,7 @@ int enclose_io_scandir(const char *dirname, struct SQUASH_DIRENT ***namelist,
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		ENCLOSE_IO_GEN_EXPANDED_NAME(dirname);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(dirname, -1);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			squash_scandir(enclose_io_fs, enclose_io_expanded, namelist, select, compar),
@@ -650,7 +650,7 @@ int enclose_io_access(const char *path, int mode)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, -1);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			squash_stat(enclose_io_fs, enclose_io_expanded, &buf),
@@ -701,7 +701,7 @@ SQUASH_OS_PATH enclose_io_ifextract(const char* path, const char* ext_name)
         sqfs_path enclose_io_expanded;
         size_t enclose_io_cwd_len;
         size_t memcpy_len;
-        ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+        ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, NULL);
         return squash_extract(enclose_io_fs, enclose_io_expanded, ext_name);
     }
     else if (enclose_io_is_path(path)) {
@@ -733,11 +733,19 @@ int enclose_io_chdir(const char *path)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, -1);
 		return enclose_io_chdir(enclose_io_expanded);
 	}
 #endif
 	if (enclose_io_is_path(path)) {
+		if (strlen(path) > SQUASHFS_PATH_LEN - 1) {
+			// no room for it in enclose_io_cwd
+			errno = ENAMETOOLONG;
+			#ifdef _WIN32
+			ENCLOSE_IO_SET_LAST_ERROR;
+			#endif
+			return -1;
+		}
 		if (mkdir_workdir) {
 			sqfs_path mkdir_workdir_expanded;
 			char *mkdir_workdir_expanded_head;
@@ -998,7 +1006,7 @@ int enclose_io_stat(const char *path, struct stat *buf)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, -1);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			enclose_io_dos_return(squash_stat(enclose_io_fs, enclose_io_expanded, buf)),
@@ -1030,7 +1038,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		ENCLOSE_IO_GEN_EXPANDED_NAME(pathname);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(pathname, -1);
 		if (!(O_CREAT & flags)) {
 			ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 				enclose_io_expanded,
-- 
2.43.0


From 59d7b9de233d6581b68473fc749cc344f6703c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:04 +0000
Subject: [PATCH 42/67] fix: the working directory inside the image grew with
 every relative chdir until it did not fit any more

---
 sample/enclose_io_unix.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 031aa8b..13e8a32 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -726,6 +726,36 @@ void enclose_io_chdir_helper(const char *path)
         enclose_io_cwd[memcpy_len + 1] = '\0';
 }
 
+#ifndef _WIN32
+/* removes empty, dot and dot-dot components, the latter like squash_stat does */
+static void enclose_io_clear_dots(char *path)
+{
+	char *from = path;
+	char *to = path;
+	size_t len;
+
+	while (*from) {
+		while ('/' == *from) {
+			from++;
+		}
+		len = strcspn(from, "/");
+		if (2 == len && 0 == memcmp(from, "..", 2)) {
+			while (to > path && '/' != *--to)
+				; /* pass */
+		} else if (len > 0 && !(1 == len && '.' == *from)) {
+			*to++ = '/';
+			memmove(to, from, len);
+			to += len;
+		}
+		from += len;
+	}
+	if (to == path) {
+		*to++ = '/';
+	}
+	*to = '\0';
+}
+#endif
+
 int enclose_io_chdir(const char *path)
 {
 #ifndef _WIN32
@@ -734,6 +764,8 @@ int enclose_io_chdir(const char *path)
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
 		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, -1);
+		// or it would grow with every step
+		enclose_io_clear_dots(enclose_io_expanded);
 		return enclose_io_chdir(enclose_io_expanded);
 	}
 #endif
-- 
2.43.0


From 464da57261e97b0d0706cf2aee5b7c03fab234ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 43/67] fix: enclose_io_access passed a pointer as the mode for
 created objects

---
 sample/enclose_io_unix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 13e8a32..f3bfc8f 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -654,14 +654,14 @@ int enclose_io_access(const char *path, int mode)
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			squash_stat(enclose_io_fs, enclose_io_expanded, &buf),
-			access(mkdir_workdir_expanded, &buf)
+			access(mkdir_workdir_expanded, mode)
 		);
 	} else if (enclose_io_is_path(path)) {
 		struct stat buf;
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			path,
 			squash_stat(enclose_io_fs, path, &buf),
-			access(mkdir_workdir_expanded, &buf)
+			access(mkdir_workdir_expanded, mode)
 		);
 	} else {
 		return access(path, mode);
-- 
2.43.0


From 4d4580ba64a0f0e4ad7905995853cdcde8068281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 44/67] fix: creating a file under the memory filesystem
 through openat failed an assertion

---
 sample/enclose_io_unix.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index f3bfc8f..6f3ff20 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1332,7 +1332,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
     if (3 == nargs) {
         // If pathname is absolute, then dirfd is ignored.
         if (enclose_io_is_path(pathname)) {
-            return enclose_io_open(nargs, pathname, flags);
+            return enclose_io_open(nargs - 1, pathname, flags);
         }
 
         // If the pathname given in pathname is relative,
@@ -1340,7 +1340,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
         // (rather than relative to the current working directory of the calling process, as is done by open(2) for a relative pathname).
         // TODO: at dirfd
         if (dirfd == AT_FDCWD && enclose_io_cwd[0] && '/' != *pathname) {
-            return enclose_io_open(nargs, pathname, flags);
+            return enclose_io_open(nargs - 1, pathname, flags);
         }
 
         return openat(dirfd, pathname, flags);
@@ -1355,7 +1355,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
 
         // If pathname is absolute, then dirfd is ignored.
         if (enclose_io_is_path(pathname)) {
-            return enclose_io_open(nargs, pathname, flags, mode);
+            return enclose_io_open(nargs - 1, pathname, flags, mode);
         }
 
         // If the pathname given in pathname is relative,
@@ -1363,7 +1363,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
         // (rather than relative to the current working directory of the calling process, as is done by open(2) for a relative pathname).
         // TODO: at dirfd
         if (dirfd == AT_FDCWD && enclose_io_cwd[0] && '/' != *pathname) {
-            return enclose_io_open(nargs, pathname, flags, mode);
+            return enclose_io_open(nargs - 1, pathname, flags, mode);
         }
 
         return openat(dirfd, pathname, flags, mode);
-- 
2.43.0


From c1245f095398d5f369689f4459a175cc6b6f288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 45/67] fix: enclose_io_open with O_CREAT wrote into the path
 string of the caller

---
 sample/enclose_io_unix.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 6f3ff20..099e97e 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1135,12 +1135,18 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			va_start(args, flags);
 			mode = va_arg(args, mode_t);
 			va_end(args);
-			char *dir_thereof_ptr = strrchr(pathname, '/');
+			// the caller's string may be read-only
+			char *dir_thereof = strdup(pathname);
+			if (NULL == dir_thereof) {
+				errno = ENOMEM;
+				return enclose_io_dos_return(-1);
+			}
+			char *dir_thereof_ptr = strrchr(dir_thereof, '/');
 			if (dir_thereof_ptr) {
 				*dir_thereof_ptr = 0;
-				enclose_io_mkdir(pathname, 0777);
-				*dir_thereof_ptr = '/';
+				enclose_io_mkdir(dir_thereof, 0777);
 			}
+			free(dir_thereof);
 			if (mkdir_workdir) {
 				sqfs_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
-- 
2.43.0


From 0430f33a969bec672430caa3bf1e199cc8305d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 46/67] fix: paths of created objects were truncated when too
 long, and left the private directory when its own name contains that of the
 memory filesystem

---
 sample/enclose_io_common.h | 20 ++------
 sample/enclose_io_unix.c   | 97 +++++++++++++-------------------------
 2 files changed, 37 insertions(+), 80 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index 2ce192a..28fd492 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -70,27 +70,15 @@ short enclose_io_is_path(char *pathname);
 short enclose_io_is_path_w(wchar_t *pathname);
 short enclose_io_is_relative_w(wchar_t *pathname);
 
+short enclose_io_mkdir_expand(sqfs_path expanded, const char *path);
+
 #define ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(PATH, RETURN1, RETURN2) \
 	if (mkdir_workdir) { \
 		sqfs_path mkdir_workdir_expanded; \
-		char *mkdir_workdir_expanded_head; \
-		size_t mkdir_workdir_len; \
-		size_t memcpy_len; \
 		struct stat mkdir_workdir_buf; \
-		mkdir_workdir_len = strlen(mkdir_workdir); \
-		memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len); \
-		memcpy_len = strlen(PATH); \
-		if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) { \
-			memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len; \
-		} \
-		memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (PATH), memcpy_len); \
-		mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0'; \
-		mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope); \
-		if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) { \
-			memmove(mkdir_workdir_expanded_head, mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope), strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1); \
-			if (0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)) { \
+		if (enclose_io_mkdir_expand(mkdir_workdir_expanded, (PATH)) \
+			&& 0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)) { \
 				return(RETURN2); \
-			} \
 		} \
 	} \
 	return(RETURN1)
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 099e97e..9361294 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -145,6 +145,29 @@ static char * enclose_io_mkdir_workdir()
 	return mkdir_workdir;
 }
 
+/*
+ * tells which path in the private directory belongs to a path of the memory filesystem;
+ * returns 0 and sets errno when there is none
+ */
+short enclose_io_mkdir_expand(sqfs_path expanded, const char *path)
+{
+	const char *rest = strstr(path, enclose_io_mkdir_scope);
+
+	if (NULL == mkdir_workdir || NULL == rest || '/' != rest[strlen(enclose_io_mkdir_scope)]) {
+		errno = ENOENT;
+		return 0;
+	}
+	rest += strlen(enclose_io_mkdir_scope);
+	if (strlen(mkdir_workdir) + strlen(rest) > SQUASHFS_PATH_LEN) {
+		// a truncated path would name another object
+		errno = ENAMETOOLONG;
+		return 0;
+	}
+	strcpy(expanded, mkdir_workdir);
+	strcat(expanded, rest);
+	return 1;
+}
+
 static int enclose_io_mkdir_consult(char *path, mode_t mode) {
 	int ret;
 	char *head = NULL;
@@ -780,32 +803,16 @@ int enclose_io_chdir(const char *path)
 		}
 		if (mkdir_workdir) {
 			sqfs_path mkdir_workdir_expanded;
-			char *mkdir_workdir_expanded_head;
-			size_t mkdir_workdir_len;
-			size_t memcpy_len;
 			struct stat mkdir_workdir_buf;
-			mkdir_workdir_len = strlen(mkdir_workdir);
-			memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
-			memcpy_len = strlen(path);
-			if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-				memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
-			}
-			memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (path), memcpy_len);
-			mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
-			mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope);
-			if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) {
-				memmove(
-					mkdir_workdir_expanded_head,
-					mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope),
-					strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1
-				);
-				if (0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)) {
-					int ret = chdir(mkdir_workdir_expanded);
-					if (0 == ret) {
-						enclose_io_chdir_helper(path);
-					}
-					return ret;
+			if (
+				enclose_io_mkdir_expand(mkdir_workdir_expanded, path)
+				&& 0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)
+			) {
+				int ret = chdir(mkdir_workdir_expanded);
+				if (0 == ret) {
+					enclose_io_chdir_helper(path);
 				}
+				return ret;
 			}
 		}
 
@@ -1092,28 +1099,9 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			}
 			if (mkdir_workdir) {
 				sqfs_path mkdir_workdir_expanded;
-				char *mkdir_workdir_expanded_head;
-				size_t mkdir_workdir_len;
-				size_t memcpy_len;
-				struct stat mkdir_workdir_buf;
-				mkdir_workdir_len = strlen(mkdir_workdir);
-				memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
-				memcpy_len = strlen(enclose_io_expanded);
-				if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-					memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
-				}
-				memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_expanded, memcpy_len);
-				mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
-				mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope);
-				if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) {
-					memmove(
-						mkdir_workdir_expanded_head,
-						mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope),
-						strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1
-					);
+				if (enclose_io_mkdir_expand(mkdir_workdir_expanded, enclose_io_expanded)) {
 					return enclose_io_dos_return(open(mkdir_workdir_expanded, flags, mode));
 				} else {
-					errno = ENOENT;
 					return enclose_io_dos_return(-1);
 				}
 			} else {
@@ -1149,28 +1137,9 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			free(dir_thereof);
 			if (mkdir_workdir) {
 				sqfs_path mkdir_workdir_expanded;
-				char *mkdir_workdir_expanded_head;
-				size_t mkdir_workdir_len;
-				size_t memcpy_len;
-				struct stat mkdir_workdir_buf;
-				mkdir_workdir_len = strlen(mkdir_workdir);
-				memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
-				memcpy_len = strlen(pathname);
-				if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-					memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
-				}
-				memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], pathname, memcpy_len);
-				mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
-				mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope);
-				if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) {
-					memmove(
-						mkdir_workdir_expanded_head,
-						mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope),
-						strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1
-					);
+				if (enclose_io_mkdir_expand(mkdir_workdir_expanded, pathname)) {
 					return enclose_io_dos_return(open(mkdir_workdir_expanded, flags, mode));
 				} else {
-					errno = ENOENT;
 					return enclose_io_dos_return(-1);
 				}
 			} else {
-- 
2.43.0


From 6d39b7102f1ca2414ed1b5e58f2b75df257876aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:16 +0000
Subject: [PATCH 47/67] fix: creating a directory under a name of the image put
 an empty directory in front of it, and O_CREAT created missing parents

---
 sample/enclose_io_common.h |   1 +
 sample/enclose_io_unix.c   | 195 ++++++++++++-------------------------
 sample/enclose_io_win32.c  |  16 +--
 3 files changed, 69 insertions(+), 143 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index 28fd492..cf47448 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -71,6 +71,7 @@ short enclose_io_is_path_w(wchar_t *pathname);
 short enclose_io_is_relative_w(wchar_t *pathname);
 
 short enclose_io_mkdir_expand(sqfs_path expanded, const char *path);
+int enclose_io_mkdir_parents(sqfs_path expanded, const char *path);
 
 #define ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(PATH, RETURN1, RETURN2) \
 	if (mkdir_workdir) { \
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 9361294..e8e486a 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -168,125 +168,86 @@ short enclose_io_mkdir_expand(sqfs_path expanded, const char *path)
 	return 1;
 }
 
-static int enclose_io_mkdir_consult(char *path, mode_t mode) {
-	int ret;
-	char *head = NULL;
-	char *p = NULL;
-	char *p_left = NULL;
+/*
+ * makes room in the private directory for an object to be created:
+ * fills in its path in there, and creates the directories above it that are in the image
+ */
+int enclose_io_mkdir_parents(sqfs_path expanded, const char *path)
+{
+	sqfs_path image_path;
 	struct stat buf;
-	char *path2;
-
-	while (strlen(path) - 1 >= 0 && '/' == path[strlen(path) - 1]) {
-		path[strlen(path) - 1] = 0;
-	}
+	char *p, *rest;
+	int ret;
 
-	head = strstr(path, enclose_io_mkdir_scope);
-	if (NULL == head || '/' != head[strlen(enclose_io_mkdir_scope)]) {
+	if (NULL == enclose_io_mkdir_workdir()) {
 		errno = ENOENT;
 		return -1;
 	}
-
-	for (p = head + strlen(enclose_io_mkdir_scope) + 1; *p; p++) {
+	if (!enclose_io_mkdir_expand(expanded, path)) {
+		return -1;
+	}
+	rest = expanded + strlen(mkdir_workdir);
+	if (strlen(enclose_io_mkdir_scope) + strlen(rest) > SQUASHFS_PATH_LEN) {
+		errno = ENAMETOOLONG;
+		return -1;
+	}
+	for (p = rest + 1; *p; p++) {
 		if (*p == '/') {
 			*p = 0;
-			if (0 == squash_stat(enclose_io_fs, head, &buf) && S_ISDIR(buf.st_mode)) {
-				path2 = strdup(path);
-				if (NULL == path2) {
-					return -1;
-				} else {
-					memmove(
-						path2 + (head-path),
-						path2 + (head-path) + strlen(enclose_io_mkdir_scope),
-						strlen(path2 + (head-path) + strlen(enclose_io_mkdir_scope)) + 1
-					);
+			strcpy(image_path, enclose_io_mkdir_scope);
+			strcat(image_path, rest);
+			ret = squash_stat(enclose_io_fs, image_path, &buf);
+			if (0 == ret && S_ISDIR(buf.st_mode)) {
 #ifdef _WIN32
-					mkdir(path2);
+				mkdir(expanded);
 #else
-					mkdir(path2, mode);
+				mkdir(expanded, 0777);
 #endif
-					free(path2);
-				}
-				*p = '/';
-			} else {
-				*p = '/';
+			}
+			*p = '/';
+			if (0 != ret || !S_ISDIR(buf.st_mode)) {
 				break;
 			}
 		}
 	}
-	memmove(
-		head,
-		head + strlen(enclose_io_mkdir_scope),
-		strlen(head + strlen(enclose_io_mkdir_scope)) + 1
-	);
+	return 0;
+}
+
+static int enclose_io_mkdir_created(const char *path, mode_t mode)
+{
+	sqfs_path expanded;
+	struct stat buf;
+
+	// what is in the image must not be hidden by a new directory
+#ifdef _WIN32
+	if (0 == squash_stat(enclose_io_fs, path, &buf)) {
+#else
+	if (0 == squash_lstat(enclose_io_fs, path, &buf)) {
+#endif
+		errno = EEXIST;
+		return -1;
+	}
+	if (-1 == enclose_io_mkdir_parents(expanded, path)) {
+		return -1;
+	}
 #ifdef _WIN32
-	return mkdir(path);
+	return mkdir(expanded);
 #else
-	return mkdir(path, mode);
+	return mkdir(expanded, mode);
 #endif
 }
 
 int enclose_io_mkdir(const char *path, mode_t mode)
 {
 	if (enclose_io_cwd[0] && '/' != *path) {
-		struct stat buf;
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		int ret;
-		int ret_inner;
-		const char* workdir;
-		const char* workdir_path;
 
 		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, -1);
-		ret = squash_stat(enclose_io_fs, enclose_io_expanded, &buf);
-		workdir = enclose_io_mkdir_workdir();
-		if (NULL == workdir) {
-			errno = ENOENT;
-			return -1;
-		}
-		workdir_path = malloc(strlen(workdir) + strlen(enclose_io_expanded) + 1);
-		if (NULL == workdir_path) {
-			errno = ENOMEM;
-			return -1;
-		}
-		strcpy(workdir_path, workdir);
-		strcat(workdir_path, enclose_io_expanded);
-		ret_inner = enclose_io_mkdir_consult(workdir_path, mode);
-		free(workdir_path);
-		if (0 == ret) {
-			errno = EEXIST;
-			return -1;
-		} else {
-			return ret_inner;
-		}
+		return enclose_io_mkdir_created(enclose_io_expanded, mode);
 	} else if (enclose_io_is_path(path)) {
-		struct stat buf;
-		int ret;
-		int ret_inner;
-		const char* workdir;
-		const char* workdir_path;
-
-		ret = squash_stat(enclose_io_fs, path, &buf);
-		workdir = enclose_io_mkdir_workdir();
-		if (NULL == workdir) {
-			errno = ENOENT;
-			return -1;
-		}
-		workdir_path = malloc(strlen(workdir) + strlen(path) + 1);
-		if (NULL == workdir_path) {
-			errno = ENOMEM;
-			return -1;
-		}
-		strcpy(workdir_path, workdir);
-		strcat(workdir_path, path);
-		ret_inner = enclose_io_mkdir_consult(workdir_path, mode);
-		free(workdir_path);
-		if (0 == ret) {
-			errno = EEXIST;
-			return -1;
-		} else {
-			return ret_inner;
-		}
+		return enclose_io_mkdir_created(path, mode);
 	} else {
 		return mkdir(path, mode);
 	}
@@ -1071,6 +1032,16 @@ int enclose_io_fstat(int fildes, struct stat *buf)
 	}
 }
 
+static int enclose_io_open_created(const char *path, int flags, mode_t mode)
+{
+	sqfs_path mkdir_workdir_expanded;
+
+	if (-1 == enclose_io_mkdir_parents(mkdir_workdir_expanded, path)) {
+		return enclose_io_dos_return(-1);
+	}
+	return enclose_io_dos_return(open(mkdir_workdir_expanded, flags, mode));
+}
+
 int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 {
 	if (enclose_io_cwd[0] && '/' != *pathname) {
@@ -1091,23 +1062,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			va_start(args, flags);
 			mode = va_arg(args, mode_t);
 			va_end(args);
-			char *dir_thereof_ptr = strrchr(enclose_io_expanded, '/');
-			if (dir_thereof_ptr) {
-				*dir_thereof_ptr = 0;
-				enclose_io_mkdir(enclose_io_expanded, 0777);
-				*dir_thereof_ptr = '/';
-			}
-			if (mkdir_workdir) {
-				sqfs_path mkdir_workdir_expanded;
-				if (enclose_io_mkdir_expand(mkdir_workdir_expanded, enclose_io_expanded)) {
-					return enclose_io_dos_return(open(mkdir_workdir_expanded, flags, mode));
-				} else {
-					return enclose_io_dos_return(-1);
-				}
-			} else {
-				errno = ENOENT;
-				return enclose_io_dos_return(-1);
-			}
+			return enclose_io_open_created(enclose_io_expanded, flags, mode);
 		}
 	} else if (enclose_io_is_path(pathname)) {
 		if (!(O_CREAT & flags)) {
@@ -1123,29 +1078,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			va_start(args, flags);
 			mode = va_arg(args, mode_t);
 			va_end(args);
-			// the caller's string may be read-only
-			char *dir_thereof = strdup(pathname);
-			if (NULL == dir_thereof) {
-				errno = ENOMEM;
-				return enclose_io_dos_return(-1);
-			}
-			char *dir_thereof_ptr = strrchr(dir_thereof, '/');
-			if (dir_thereof_ptr) {
-				*dir_thereof_ptr = 0;
-				enclose_io_mkdir(dir_thereof, 0777);
-			}
-			free(dir_thereof);
-			if (mkdir_workdir) {
-				sqfs_path mkdir_workdir_expanded;
-				if (enclose_io_mkdir_expand(mkdir_workdir_expanded, pathname)) {
-					return enclose_io_dos_return(open(mkdir_workdir_expanded, flags, mode));
-				} else {
-					return enclose_io_dos_return(-1);
-				}
-			} else {
-				errno = ENOENT;
-				return enclose_io_dos_return(-1);
-			}
+			return enclose_io_open_created(pathname, flags, mode);
 		}
 	} else {
 		if (2 == nargs) {
diff --git a/sample/enclose_io_win32.c b/sample/enclose_io_win32.c
index 2929257..73e762a 100644
--- a/sample/enclose_io_win32.c
+++ b/sample/enclose_io_win32.c
@@ -304,12 +304,8 @@ EncloseIOCreateFileW(
 				)
 			);
 		} else {
-			char *dir_thereof_ptr = strrchr(enclose_io_expanded, '/');
-			if (dir_thereof_ptr) {
-				*dir_thereof_ptr = 0;
-				enclose_io_mkdir(enclose_io_expanded, 0777);
-				*dir_thereof_ptr = '/';
-			}
+			sqfs_path mkdir_parents_expanded;
+			enclose_io_mkdir_parents(mkdir_parents_expanded, enclose_io_expanded);
 			if (mkdir_workdir) {
 				sqfs_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
@@ -377,12 +373,8 @@ EncloseIOCreateFileW(
 				)
 			);
 		} else {
-			char *dir_thereof_ptr = strrchr(enclose_io_converted, '/');
-			if (dir_thereof_ptr) {
-				*dir_thereof_ptr = 0;
-				enclose_io_mkdir(enclose_io_converted, 0777);
-				*dir_thereof_ptr = '/';
-			}
+			sqfs_path mkdir_parents_expanded;
+			enclose_io_mkdir_parents(mkdir_parents_expanded, enclose_io_converted);
 			if (mkdir_workdir) {
 				sqfs_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
-- 
2.43.0


From 8ba3ed5f9c42f9418725c683737c9f274b116843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:48 +0000
Subject: [PATCH 48/67] fix: dot-dot components led out of the private
 directory of created objects

---
 sample/enclose_io_unix.c | 79 ++++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 31 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index e8e486a..c9b4d76 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -145,14 +145,61 @@ static char * enclose_io_mkdir_workdir()
 	return mkdir_workdir;
 }
 
+#ifndef _WIN32
+/* removes empty, dot and dot-dot components, the latter like squash_stat does */
+static void enclose_io_clear_dots(char *path)
+{
+	char *from = path;
+	char *to = path;
+	size_t len;
+
+	while (*from) {
+		while ('/' == *from) {
+			from++;
+		}
+		len = strcspn(from, "/");
+		if (2 == len && 0 == memcmp(from, "..", 2)) {
+			while (to > path && '/' != *--to)
+				; /* pass */
+		} else if (len > 0 && !(1 == len && '.' == *from)) {
+			*to++ = '/';
+			memmove(to, from, len);
+			to += len;
+		}
+		from += len;
+	}
+	if (to == path) {
+		*to++ = '/';
+	}
+	*to = '\0';
+}
+#endif
+
 /*
  * tells which path in the private directory belongs to a path of the memory filesystem;
  * returns 0 and sets errno when there is none
  */
 short enclose_io_mkdir_expand(sqfs_path expanded, const char *path)
 {
-	const char *rest = strstr(path, enclose_io_mkdir_scope);
+	const char *rest;
+#ifndef _WIN32
+	sqfs_path cleared;
 
+	if (strlen(path) > SQUASHFS_PATH_LEN) {
+		errno = ENAMETOOLONG;
+		return 0;
+	}
+	// a dot-dot must not lead out of the private directory
+	strcpy(cleared, path);
+	enclose_io_clear_dots(cleared);
+	path = cleared;
+#endif
+	rest = strstr(path, enclose_io_mkdir_scope);
+#ifndef _WIN32
+	if (rest != path) {
+		rest = NULL;
+	}
+#endif
 	if (NULL == mkdir_workdir || NULL == rest || '/' != rest[strlen(enclose_io_mkdir_scope)]) {
 		errno = ENOENT;
 		return 0;
@@ -710,36 +757,6 @@ void enclose_io_chdir_helper(const char *path)
         enclose_io_cwd[memcpy_len + 1] = '\0';
 }
 
-#ifndef _WIN32
-/* removes empty, dot and dot-dot components, the latter like squash_stat does */
-static void enclose_io_clear_dots(char *path)
-{
-	char *from = path;
-	char *to = path;
-	size_t len;
-
-	while (*from) {
-		while ('/' == *from) {
-			from++;
-		}
-		len = strcspn(from, "/");
-		if (2 == len && 0 == memcmp(from, "..", 2)) {
-			while (to > path && '/' != *--to)
-				; /* pass */
-		} else if (len > 0 && !(1 == len && '.' == *from)) {
-			*to++ = '/';
-			memmove(to, from, len);
-			to += len;
-		}
-		from += len;
-	}
-	if (to == path) {
-		*to++ = '/';
-	}
-	*to = '\0';
-}
-#endif
-
 int enclose_io_chdir(const char *path)
 {
 #ifndef _WIN32
-- 
2.43.0


From 23b6ddcbdb00dd94099fd2bba890314793425de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 49/67] fix: the global mutex stayed locked and memory leaked
 when the private directory could not be created

---
 sample/enclose_io_unix.c | 96 ++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 49 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index c9b4d76..3291e96 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -85,60 +85,58 @@ static void mkdir_workdir_halt()
 #endif
 }
 
+static char * enclose_io_mkdir_workdir_create()
+{
+	SQUASH_OS_PATH tmpdir;
+	char *workdir;
+
+	tmpdir = squash_tmpdir();
+	if (NULL == tmpdir) {
+		return NULL;
+	}
+	generic_mkdir_workdir = squash_tmpf(tmpdir, NULL);
+	free((void *)tmpdir);
+	if (NULL == generic_mkdir_workdir) {
+		return NULL;
+	}
+#ifdef _WIN32
+	workdir = malloc(MAX_PATH * 3);
+	if (NULL == workdir) {
+		goto failure;
+	}
+	if ((size_t)-1 == wcstombs(workdir, generic_mkdir_workdir, MAX_PATH)) {
+		goto failure;
+	}
+	if (mkdir(workdir)) {
+		goto failure;
+	}
+#else
+	workdir = generic_mkdir_workdir;
+	if (mkdir(workdir, S_IRWXU)) {
+		goto failure;
+	}
+#endif
+	if (atexit(mkdir_workdir_halt)) {
+		// nobody would ever remove it
+		rmdir(workdir);
+		goto failure;
+	}
+	return workdir;
+failure:
+#ifdef _WIN32
+	free(workdir);
+#endif
+	free((void *)generic_mkdir_workdir);
+	generic_mkdir_workdir = NULL;
+	return NULL;
+}
+
 static char * enclose_io_mkdir_workdir()
 {
 	if (NULL == mkdir_workdir) {
 		MUTEX_LOCK(&squash_global_mutex);
 		if (NULL == mkdir_workdir) {
-			generic_mkdir_workdir = squash_tmpf(squash_tmpdir(), NULL);
-			if (NULL == generic_mkdir_workdir) {
-				mkdir_workdir = NULL;
-				return NULL;
-			}
-#ifdef _WIN32
-			mkdir_workdir = malloc(MAX_PATH * 3);
-			if (NULL == mkdir_workdir) {
-				mkdir_workdir = NULL;
-				free(generic_mkdir_workdir);
-				generic_mkdir_workdir = NULL;
-				return NULL;
-			}
-			if ((size_t)-1 == wcstombs(mkdir_workdir, generic_mkdir_workdir, MAX_PATH)) {
-				free(mkdir_workdir);
-				mkdir_workdir = NULL;
-				free(generic_mkdir_workdir);
-				generic_mkdir_workdir = NULL;
-				return NULL;
-			}
-			if (mkdir(mkdir_workdir)) {
-				free(mkdir_workdir);
-				mkdir_workdir = NULL;
-				free(generic_mkdir_workdir);
-				generic_mkdir_workdir = NULL;
-				return NULL;
-			}
-			if (atexit(mkdir_workdir_halt)) {
-				free(mkdir_workdir);
-				mkdir_workdir = NULL;
-				free(generic_mkdir_workdir);
-				generic_mkdir_workdir = NULL;
-				return NULL;
-			}
-#else
-			mkdir_workdir = generic_mkdir_workdir;
-			if (mkdir(mkdir_workdir, S_IRWXU)) {
-				mkdir_workdir = NULL;
-				free(generic_mkdir_workdir);
-				generic_mkdir_workdir = NULL;
-				return NULL;
-			}
-			if (atexit(mkdir_workdir_halt)) {
-				mkdir_workdir = NULL;
-				free(generic_mkdir_workdir);
-				generic_mkdir_workdir = NULL;
-				return NULL;
-			}
-#endif
+			mkdir_workdir = enclose_io_mkdir_workdir_create();
 		}
 		MUTEX_UNLOCK(&squash_global_mutex);
 	}
-- 
2.43.0


From 562da1eb95a1291777a351de633c0fa47459ae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 50/67] fix: created objects were lost and left behind after a
 chdir when the temporary directory is a relative path

---
 sample/enclose_io_unix.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 3291e96..b245877 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -88,7 +88,7 @@ static void mkdir_workdir_halt()
 static char * enclose_io_mkdir_workdir_create()
 {
 	SQUASH_OS_PATH tmpdir;
-	char *workdir;
+	char *workdir = NULL;
 
 	tmpdir = squash_tmpdir();
 	if (NULL == tmpdir) {
@@ -111,8 +111,13 @@ static char * enclose_io_mkdir_workdir_create()
 		goto failure;
 	}
 #else
-	workdir = generic_mkdir_workdir;
-	if (mkdir(workdir, S_IRWXU)) {
+	if (mkdir(generic_mkdir_workdir, S_IRWXU)) {
+		goto failure;
+	}
+	// a relative path would lose its meaning with the next chdir
+	workdir = realpath(generic_mkdir_workdir, NULL);
+	if (NULL == workdir) {
+		rmdir(generic_mkdir_workdir);
 		goto failure;
 	}
 #endif
@@ -123,9 +128,7 @@ static char * enclose_io_mkdir_workdir_create()
 	}
 	return workdir;
 failure:
-#ifdef _WIN32
 	free(workdir);
-#endif
 	free((void *)generic_mkdir_workdir);
 	generic_mkdir_workdir = NULL;
 	return NULL;
-- 
2.43.0


From 3e40cf900f427b4413b71ba66b16e56b603304b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 51/67] fix: a forked process removed the private directory of
 its parent at exit

---
 sample/enclose_io_unix.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index b245877..0d714d0 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -76,11 +76,19 @@ static int mkdir_workdir_halt_rm(const char *arg1, const struct stat *ptr, int f
 }
 #endif
 
+#ifndef _WIN32
+static pid_t mkdir_workdir_pid; /* the process that created mkdir_workdir */
+#endif
+
 static void mkdir_workdir_halt()
 {
 #ifdef _WIN32
 	mkdir_workdir_halt_rm(generic_mkdir_workdir);
 #else
+	// a forked process must not remove what its parent still uses
+	if (getpid() != mkdir_workdir_pid) {
+		return;
+	}
 	nftw(mkdir_workdir, mkdir_workdir_halt_rm, 20, FTW_PHYS | FTW_MOUNT | FTW_DEPTH);
 #endif
 }
@@ -120,6 +128,7 @@ static char * enclose_io_mkdir_workdir_create()
 		rmdir(generic_mkdir_workdir);
 		goto failure;
 	}
+	mkdir_workdir_pid = getpid();
 #endif
 	if (atexit(mkdir_workdir_halt)) {
 		// nobody would ever remove it
-- 
2.43.0


From c8f2d551e971cdeb084d7bbfcf9bdda1002bf95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 52/67] fix: the callback of nftw returned no value, which
 could end the removal of the private directory early

---
 sample/enclose_io_unix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 0d714d0..7b3ab2f 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -73,6 +73,7 @@ static int mkdir_workdir_halt_rm(const char *arg1, const struct stat *ptr, int f
 	} else {
 		unlink(arg1);
 	}
+	return 0; // anything else would end the walk
 }
 #endif
 
-- 
2.43.0


From d335cea67a94ca23618bb163ce69fec9f30ff450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 53/67] fix: execv of an empty argument vector read behind it,
 and running out of memory aborted the process

---
 sample/enclose_io_unix.c | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 7b3ab2f..8914bba 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -342,30 +342,47 @@ int enclose_io__wmkdir(wchar_t* pathname)
 int enclose_io__exec(const char *path, char *const argv[])
 {
 	int i, ret, argc;
-	char **new_argv, **argv_memory = NULL;
+	char **new_argv = NULL;
 	size_t exec_path_len = 2 * PATH_MAX;
 	char* exec_path = (char*)(malloc(exec_path_len));
 
+	if (NULL == exec_path) {
+		errno = ENOMEM;
+		return -1;
+	}
 	ret = enclose_io_exepath(exec_path, &exec_path_len);
-	assert(0 == ret);
+	if (0 != ret) {
+		goto out;
+	}
+
+	argc = 0;
+	while (argv[argc]) { ++argc; }
+	new_argv = (char **)malloc( (3 + argc) * sizeof(char *));
+	if (NULL == new_argv) {
+		errno = ENOMEM;
+		ret = -1;
+		goto out;
+	}
 
 	ret = setenv("ENCLOSE_IO_USE_ORIGINAL_RUBY", "true", 1);
-	ret = setenv("ENCLOSE_IO_USE_ORIGINAL_NODE", "true", 1);
-	assert(0 == ret);
+	if (0 == ret) {
+		ret = setenv("ENCLOSE_IO_USE_ORIGINAL_NODE", "true", 1);
+	}
+	if (0 != ret) {
+		goto out;
+	}
 
-	argc = 1;
-	while (argv[argc]) { ++argc; }
-	new_argv = (char **)malloc( (2 + argc) * sizeof(char *));
-	assert(new_argv);
-	new_argv[0] = argv[0];
+	// an empty argument vector still has to tell the program what to run
+	new_argv[0] = argc ? argv[0] : path;
 	new_argv[1] = path;
 	for (i = 1; i < argc; ++i) {
-		new_argv[2 + i - 1] = argv[i];
+		new_argv[1 + i] = argv[i];
 	}
-	new_argv[2 + argc - 1] = NULL;
+	new_argv[argc ? 1 + argc : 2] = NULL;
 
 	ret = execv(exec_path, new_argv);
 
+out:
 	free(exec_path);
 	free(new_argv);
 	return ret;
-- 
2.43.0


From f672253141290ce76380ace79da9bb85ed877e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 54/67] fix: dlopen of what cannot be extracted gave a handle
 of the program itself, dlopen(NULL) crashed

---
 sample/enclose_io_unix.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 8914bba..62ad282 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -699,7 +699,20 @@ ssize_t enclose_io_readv(int d, const struct iovec *iov, int iovcnt)
 
 void* enclose_io_dlopen(const char* path, int mode)
 {
-    return dlopen(enclose_io_ifextract(path, NULL), mode);
+    SQUASH_OS_PATH extracted;
+
+    if (NULL == path) { // the program itself
+        return dlopen(NULL, mode);
+    }
+    extracted = enclose_io_ifextract(path, NULL);
+    if (NULL == extracted) {
+        // dlopen(NULL) would give a handle of the program itself
+        if (NULL == strchr(path, '/')) { // to be searched for, wherever we are
+            return dlopen(path, mode);
+        }
+        return NULL;
+    }
+    return dlopen(extracted, mode);
 }
 
 int enclose_io_access(const char *path, int mode)
-- 
2.43.0


From a0b49385fd87de583f8b7e900652deadfff24196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 55/67] fix: two processes extracting at the same time could
 pick the same temporary file

---
 src/extract.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index 608e491..507afd7 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -172,7 +172,7 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 {
 	static SQUASH_OS_PATH tmpdir = NULL;
 	FILE *fp = NULL;
-	int fd, saved_errno;
+	int fd, saved_errno, try_cnt = 0;
 	SQUASH_OS_PATH tmpf = NULL;
 	size_t size;
 	ssize_t ssize;
@@ -196,17 +196,25 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 	if (NULL == tmpdir) {
 		goto failure;
 	}
-	tmpf = squash_tmpf(tmpdir, ext_name);
-	if (NULL == tmpf) {
-		goto failure;
-	}
+	for (;;) {
+		tmpf = squash_tmpf(tmpdir, ext_name);
+		if (NULL == tmpf) {
+			goto failure;
+		}
+		errno = 0;
+		// exclusively: another process could have taken the same name
 #ifdef _WIN32
-	fp = _wfopen(tmpf, L"wb");
+		fp = _wfopen(tmpf, L"wbx");
 #else
-	fp = fopen(tmpf, "wb");
+		fp = fopen(tmpf, "wbx");
 #endif
-	if (NULL == fp) {
-		goto failure;
+		if (NULL != fp) {
+			break;
+		}
+		if (EEXIST != errno || ++try_cnt >= 100) {
+			goto failure;
+		}
+		free((void *)tmpf);
 	}
 	offset = file->node.xtra.reg.file_size;
 	while (offset > 0) {
-- 
2.43.0


From 56e87884d4b8d130b231eeed41529b7f88451f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:04 +0000
Subject: [PATCH 56/67] fix: a forked process removed and reused the files its
 parent had extracted

---
 src/extract.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index 507afd7..7c812a3 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -252,17 +252,27 @@ struct SquashExtractEntry {
 	sqfs *fs;
 	char *path;
 	SQUASH_OS_PATH ret;
+	long pid; // the process that made the file and hence has to remove it
 	struct SquashExtractEntry *next;
 };
 
 static struct SquashExtractEntry* squash_extract_cache = NULL;
 MUTEX squash_extract_mutex; // guards the list above and the static variables of this file
 
+static long squash_extract_pid()
+{
+#ifdef _WIN32
+	return (long)GetCurrentProcessId();
+#else
+	return (long)getpid();
+#endif
+}
+
 static const struct SquashExtractEntry* squash_extract_cache_find(sqfs *fs, const char *path)
 {
 	struct SquashExtractEntry* ptr = squash_extract_cache;
 	while (NULL != ptr) {
-		if (fs == ptr->fs && 0 == strcmp(path, ptr->path)) {
+		if (fs == ptr->fs && squash_extract_pid() == ptr->pid && 0 == strcmp(path, ptr->path)) {
 			return ptr;
 		}
 		ptr = ptr->next;
@@ -282,6 +292,7 @@ static short squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_P
 		return 0;
 	}
 	ptr->ret = ret;
+	ptr->pid = squash_extract_pid();
 	ptr->next = squash_extract_cache;
 	squash_extract_cache = ptr;
 	return 1;
@@ -321,11 +332,14 @@ void squash_extract_clear_cache()
 	MUTEX_UNLOCK(&squash_extract_mutex);
 	while (NULL != ptr) {
 		struct SquashExtractEntry* next = ptr->next;
+		// what was inherited by fork belongs to the parent
+		if (squash_extract_pid() == ptr->pid) {
 #ifdef _WIN32
-		DeleteFileW(ptr->ret);
+			DeleteFileW(ptr->ret);
 #else
-		unlink(ptr->ret);
+			unlink(ptr->ret);
 #endif
+		}
 		free((void *)ptr->ret);
 		free(ptr->path);
 		free(ptr);
-- 
2.43.0


From 03b43e2ab8aa41fef8e72516d3f6f39e34301273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:04 +0000
Subject: [PATCH 57/67] fix: files extracted to a relative TMPDIR were lost
 after a chdir

---
 src/extract.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/extract.c b/src/extract.c
index 7c812a3..e835088 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -192,6 +192,16 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 	errno = 0;
 	if (NULL == tmpdir) {
 		tmpdir = squash_tmpdir();
+#ifndef _WIN32
+		if (NULL != tmpdir && '/' != tmpdir[0]) {
+			// a relative path would lose its meaning with the next chdir
+			char *absolute = realpath(tmpdir, NULL);
+			if (NULL != absolute) {
+				free(tmpdir);
+				tmpdir = absolute;
+			}
+		}
+#endif
 	}
 	if (NULL == tmpdir) {
 		goto failure;
-- 
2.43.0


From 9c203d7778d940981d0be4b51425617366e63dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:31 +0000
Subject: [PATCH 58/67] fix: extraction failed when three other processes with
 the same random numbers had files

---
 src/extract.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index e835088..05f424f 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -64,7 +64,7 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 		seeded = 1;
 	}
 	squash_win32_buf[squash_win32_buf_sz] = 0;
-	while (try_cnt < 3) {
+	while (try_cnt < 1000) { // processes with the same seed get the same numbers
 		squash_win32_buf[0] = 0;
 		assert(0 == wcslen(squash_win32_buf));
 		wcsncat(squash_win32_buf + wcslen(squash_win32_buf), tmpdir, squash_win32_buf_sz - wcslen(squash_win32_buf));
@@ -138,7 +138,7 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 		srand(time(NULL) * getpid());
 		seeded = 1;
 	}
-	while (try_cnt < 3) {
+	while (try_cnt < 1000) { // processes with the same seed get the same numbers
 		if (ext_name) {
 			ret = snprintf(squash_buf, squash_buf_sz, "%s/libsquash-%d.%s", tmpdir, rand(), ext_name);
 		} else {
-- 
2.43.0


From 54a81c94fe05604a7c76de05061318c05ec4e3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:37 +0000
Subject: [PATCH 59/67] fix: the private directory could not be made when
 another process took its name in between

---
 sample/enclose_io_unix.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 62ad282..f5f6e4c 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -98,12 +98,24 @@ static char * enclose_io_mkdir_workdir_create()
 {
 	SQUASH_OS_PATH tmpdir;
 	char *workdir = NULL;
+#ifndef _WIN32
+	int failed, try_cnt = 0;
+#endif
 
 	tmpdir = squash_tmpdir();
 	if (NULL == tmpdir) {
 		return NULL;
 	}
+#ifdef _WIN32
 	generic_mkdir_workdir = squash_tmpf(tmpdir, NULL);
+#else
+	do {
+		// another process could have taken the same name in between
+		free((void *)generic_mkdir_workdir);
+		generic_mkdir_workdir = squash_tmpf(tmpdir, NULL);
+		failed = NULL == generic_mkdir_workdir || mkdir(generic_mkdir_workdir, S_IRWXU);
+	} while (failed && NULL != generic_mkdir_workdir && EEXIST == errno && ++try_cnt < 100);
+#endif
 	free((void *)tmpdir);
 	if (NULL == generic_mkdir_workdir) {
 		return NULL;
@@ -120,7 +132,7 @@ static char * enclose_io_mkdir_workdir_create()
 		goto failure;
 	}
 #else
-	if (mkdir(generic_mkdir_workdir, S_IRWXU)) {
+	if (failed) {
 		goto failure;
 	}
 	// a relative path would lose its meaning with the next chdir
-- 
2.43.0


From 5704345a224086d3850844f603906bbe3f28cd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:36 +0000
Subject: [PATCH 60/67] fix: read and create the layer's private directory
 under locks

---
 sample/enclose_io_common.h |  3 ++-
 sample/enclose_io_unix.c   | 44 +++++++++++++++++++++++++++-----------
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index cf47448..de2c003 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -70,11 +70,12 @@ short enclose_io_is_path(char *pathname);
 short enclose_io_is_path_w(wchar_t *pathname);
 short enclose_io_is_relative_w(wchar_t *pathname);
 
+char * enclose_io_mkdir_workdir_get();
 short enclose_io_mkdir_expand(sqfs_path expanded, const char *path);
 int enclose_io_mkdir_parents(sqfs_path expanded, const char *path);
 
 #define ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(PATH, RETURN1, RETURN2) \
-	if (mkdir_workdir) { \
+	if (enclose_io_mkdir_workdir_get()) { \
 		sqfs_path mkdir_workdir_expanded; \
 		struct stat mkdir_workdir_buf; \
 		if (enclose_io_mkdir_expand(mkdir_workdir_expanded, (PATH)) \
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index f5f6e4c..b24aa16 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -156,16 +156,34 @@ failure:
 	return NULL;
 }
 
+/* tells mkdir_workdir, which another thread may be about to create */
+char * enclose_io_mkdir_workdir_get()
+{
+	char *workdir;
+
+	MUTEX_LOCK(&squash_global_mutex);
+	workdir = mkdir_workdir;
+	MUTEX_UNLOCK(&squash_global_mutex);
+	return workdir;
+}
+
 static char * enclose_io_mkdir_workdir()
 {
-	if (NULL == mkdir_workdir) {
-		MUTEX_LOCK(&squash_global_mutex);
-		if (NULL == mkdir_workdir) {
-			mkdir_workdir = enclose_io_mkdir_workdir_create();
+	char *workdir = enclose_io_mkdir_workdir_get();
+
+	if (NULL == workdir) {
+		// extractions take their names from squash_tmpf as well
+		MUTEX_LOCK(&squash_extract_mutex);
+		workdir = enclose_io_mkdir_workdir_get();
+		if (NULL == workdir) {
+			workdir = enclose_io_mkdir_workdir_create();
+			MUTEX_LOCK(&squash_global_mutex);
+			mkdir_workdir = workdir;
+			MUTEX_UNLOCK(&squash_global_mutex);
 		}
-		MUTEX_UNLOCK(&squash_global_mutex);
+		MUTEX_UNLOCK(&squash_extract_mutex);
 	}
-	return mkdir_workdir;
+	return workdir;
 }
 
 #ifndef _WIN32
@@ -205,6 +223,7 @@ static void enclose_io_clear_dots(char *path)
 short enclose_io_mkdir_expand(sqfs_path expanded, const char *path)
 {
 	const char *rest;
+	char *workdir = enclose_io_mkdir_workdir_get();
 #ifndef _WIN32
 	sqfs_path cleared;
 
@@ -223,17 +242,17 @@ short enclose_io_mkdir_expand(sqfs_path expanded, const char *path)
 		rest = NULL;
 	}
 #endif
-	if (NULL == mkdir_workdir || NULL == rest || '/' != rest[strlen(enclose_io_mkdir_scope)]) {
+	if (NULL == workdir || NULL == rest || '/' != rest[strlen(enclose_io_mkdir_scope)]) {
 		errno = ENOENT;
 		return 0;
 	}
 	rest += strlen(enclose_io_mkdir_scope);
-	if (strlen(mkdir_workdir) + strlen(rest) > SQUASHFS_PATH_LEN) {
+	if (strlen(workdir) + strlen(rest) > SQUASHFS_PATH_LEN) {
 		// a truncated path would name another object
 		errno = ENAMETOOLONG;
 		return 0;
 	}
-	strcpy(expanded, mkdir_workdir);
+	strcpy(expanded, workdir);
 	strcat(expanded, rest);
 	return 1;
 }
@@ -247,16 +266,17 @@ int enclose_io_mkdir_parents(sqfs_path expanded, const char *path)
 	sqfs_path image_path;
 	struct stat buf;
 	char *p, *rest;
+	char *workdir = enclose_io_mkdir_workdir();
 	int ret;
 
-	if (NULL == enclose_io_mkdir_workdir()) {
+	if (NULL == workdir) {
 		errno = ENOENT;
 		return -1;
 	}
 	if (!enclose_io_mkdir_expand(expanded, path)) {
 		return -1;
 	}
-	rest = expanded + strlen(mkdir_workdir);
+	rest = expanded + strlen(workdir);
 	if (strlen(enclose_io_mkdir_scope) + strlen(rest) > SQUASHFS_PATH_LEN) {
 		errno = ENAMETOOLONG;
 		return -1;
@@ -832,7 +852,7 @@ int enclose_io_chdir(const char *path)
 			#endif
 			return -1;
 		}
-		if (mkdir_workdir) {
+		if (enclose_io_mkdir_workdir_get()) {
 			sqfs_path mkdir_workdir_expanded;
 			struct stat mkdir_workdir_buf;
 			if (
-- 
2.43.0


From ea1255f78835ef96711950c157bc150faffc2928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:36 +0000
Subject: [PATCH 61/67] fix: enclose_io_pread leaves the position of the
 descriptor alone

---
 sample/enclose_io_unix.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index b24aa16..4e8f483 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -684,23 +684,23 @@ int enclose_io_scandir(const char *dirname, struct SQUASH_DIRENT ***namelist,
 ssize_t enclose_io_pread(int d, void *buf, size_t nbyte, off_t offset)
 {
 	if (SQUASH_VALID_VFD(d)) {
-		off_t lseek_off, backup_off;
-		ssize_t read_ssize;
-		int saved_errno;
-		backup_off = squash_lseek(d, 0, SQUASH_SEEK_CUR);
-		if (-1 == backup_off) {
+		// the position in the file stays untouched, other threads may be reading as well
+		sqfs_err error;
+		sqfs_off_t size = nbyte;
+		struct squash_file *file = SQUASH_VFD_FILE(d);
+		if (offset < 0) {
+			errno = EINVAL;
 			return -1;
 		}
-		lseek_off = squash_lseek(d, offset, SQUASH_SEEK_SET);
-		if (-1 == lseek_off) {
+		errno = 0;
+		error = sqfs_read_range(file->fs, &file->node, offset, &size, buf);
+		if (SQFS_OK != error) {
+			if (!errno) {
+				errno = EBADF;
+			}
 			return -1;
 		}
-		read_ssize = squash_read(d, buf, nbyte);
-		saved_errno = errno;
-		lseek_off = squash_lseek(d, backup_off, SQUASH_SEEK_SET);
-		assert(backup_off == lseek_off);
-		errno = saved_errno;
-		return read_ssize;
+		return size;
 	} else {
 		return pread(d, buf, nbyte, offset);
 	}
-- 
2.43.0


From 01001be66f261f60b80980322bc0a5119a4ce095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 62/67] fix: chdir to a file of the image fails with ENOTDIR

---
 sample/enclose_io_unix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 4e8f483..b5b1ba6 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -881,7 +881,7 @@ int enclose_io_chdir(const char *path)
 			enclose_io_chdir_helper(path);
 			return 0;
 		} else {
-			errno = ENOENT;
+			errno = ENOTDIR;
 			#ifdef _WIN32
 			ENCLOSE_IO_SET_LAST_ERROR;
 			#endif
-- 
2.43.0


From 3b1160fab02f497b688f5a1d100a227c40f2906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 63/67] fix: a failed creation leaves no directory behind that
 hides one of the image

---
 sample/enclose_io_unix.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index b5b1ba6..d0e1733 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -281,6 +281,32 @@ int enclose_io_mkdir_parents(sqfs_path expanded, const char *path)
 		errno = ENAMETOOLONG;
 		return -1;
 	}
+	// an object that cannot be made must not leave directories behind, they would hide those of the image
+	p = rest + strlen(rest);
+	while (p > rest && '/' == p[-1]) {
+		p--;
+	}
+	while (p > rest && '/' != p[-1]) {
+		p--;
+	}
+	if (p > rest + 1) {
+		p--;
+		*p = 0;
+		strcpy(image_path, enclose_io_mkdir_scope);
+		strcat(image_path, rest);
+		ret = stat(expanded, &buf);
+		if (0 != ret) {
+			ret = squash_stat(enclose_io_fs, image_path, &buf);
+		}
+		*p = '/';
+		if (0 != ret) {
+			return -1;
+		}
+		if (!S_ISDIR(buf.st_mode)) {
+			errno = ENOTDIR;
+			return -1;
+		}
+	}
 	for (p = rest + 1; *p; p++) {
 		if (*p == '/') {
 			*p = 0;
-- 
2.43.0


From 72997a311c973423245bcbca781a46a71c67b154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 64/67] fix: reading a directory fails with EISDIR

---
 src/file.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index 9c54f6e..c31954c 100644
--- a/src/file.c
+++ b/src/file.c
@@ -26,6 +26,7 @@
 
 #include "squash/fs.h"
 
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -116,8 +117,11 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 	size_t read_off;
 	char *buf_orig;
 	
-	if (!S_ISREG(inode->base.mode))
+	if (!S_ISREG(inode->base.mode)) {
+		if (S_ISDIR(inode->base.mode))
+			errno = EISDIR;
 		return SQFS_ERR;
+	}
 	
 	file_size = inode->xtra.reg.file_size;
 	block_size = fs->sb->block_size;
-- 
2.43.0


From a4743dbe83d3558b9187796903baa710e17c8469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:10 +0000
Subject: [PATCH 65/67] fix: O_CREAT does not take the place of directories,
 nor with O_EXCL of anything, in the image

---
 sample/enclose_io_unix.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index d0e1733..21c6742 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1151,7 +1151,22 @@ int enclose_io_fstat(int fildes, struct stat *buf)
 static int enclose_io_open_created(const char *path, int flags, mode_t mode)
 {
 	sqfs_path mkdir_workdir_expanded;
+	struct stat buf;
 
+	// what is in the image is there already, unless something created took its place
+	if (0 == squash_lstat(enclose_io_fs, path, &buf)
+		&& (NULL == enclose_io_mkdir_workdir_get()
+			|| !enclose_io_mkdir_expand(mkdir_workdir_expanded, path)
+			|| 0 != stat(mkdir_workdir_expanded, &buf))) {
+		if (O_EXCL & flags) {
+			errno = EEXIST;
+			return enclose_io_dos_return(-1);
+		}
+		if (0 == squash_stat(enclose_io_fs, path, &buf) && S_ISDIR(buf.st_mode)) {
+			errno = EISDIR;
+			return enclose_io_dos_return(-1);
+		}
+	}
 	if (-1 == enclose_io_mkdir_parents(mkdir_workdir_expanded, path)) {
 		return enclose_io_dos_return(-1);
 	}
-- 
2.43.0


From 8237e6852dfdfa932161ed45b6fc821eb7309158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 66/67] fix: openat relative to a virtual directory descriptor

---
 sample/enclose_io_unix.c | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 21c6742..c77cbe5 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1366,8 +1366,43 @@ short enclose_io_is_relative_w(wchar_t *pathname)
 #endif
 
 #ifndef _WIN32
+/*
+ * a path relative to a virtual directory descriptor is one of the memory filesystem:
+ * fills in expanded and returns it; any other path is returned as it is
+ */
+static const char *enclose_io_at(sqfs_path expanded, int dirfd, const char *pathname)
+{
+	struct squash_file *file;
+
+	if ('\0' == *pathname || '/' == *pathname) {
+		return pathname;
+	}
+	file = SQUASH_VFD_FILE(dirfd);
+	if (NULL == file || !enclose_io_is_path(file->filename)) {
+		return pathname;
+	}
+	if (!S_ISDIR(file->st.st_mode)) {
+		errno = ENOTDIR;
+		return NULL;
+	}
+	if (strlen(file->filename) + 1 + strlen(pathname) > SQUASHFS_PATH_LEN) {
+		errno = ENAMETOOLONG;
+		return NULL;
+	}
+	strcpy(expanded, file->filename);
+	strcat(expanded, "/");
+	strcat(expanded, pathname);
+	return expanded;
+}
+
 int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...)
 {
+    sqfs_path enclose_io_expanded;
+    pathname = enclose_io_at(enclose_io_expanded, dirfd, pathname);
+    if (NULL == pathname) {
+        return -1;
+    }
+
     if (3 == nargs) {
         // If pathname is absolute, then dirfd is ignored.
         if (enclose_io_is_path(pathname)) {
@@ -1377,7 +1412,6 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
         // If the pathname given in pathname is relative,
         // then it is interpreted relative to the directory referred to by the file descriptor dirfd
         // (rather than relative to the current working directory of the calling process, as is done by open(2) for a relative pathname).
-        // TODO: at dirfd
         if (dirfd == AT_FDCWD && enclose_io_cwd[0] && '/' != *pathname) {
             return enclose_io_open(nargs - 1, pathname, flags);
         }
@@ -1400,7 +1434,6 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
         // If the pathname given in pathname is relative,
         // then it is interpreted relative to the directory referred to by the file descriptor dirfd
         // (rather than relative to the current working directory of the calling process, as is done by open(2) for a relative pathname).
-        // TODO: at dirfd
         if (dirfd == AT_FDCWD && enclose_io_cwd[0] && '/' != *pathname) {
             return enclose_io_open(nargs - 1, pathname, flags, mode);
         }
-- 
2.43.0


From e802714fc22c9ea458f96aee263f48a99c03032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 67/67] fix: open files of the image also without a standard
 input

---
 src/fd.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fd.c b/src/fd.c
index c64c256..6a6946a 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -8,6 +8,9 @@
 
 #include "squash.h"
 #include <stdlib.h>
+#ifndef _WIN32
+#include <fcntl.h>
+#endif
 
 struct squash_fdtable squash_global_fdtable;
 MUTEX squash_global_mutex;
@@ -67,6 +70,13 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 
 	// get a dummy fd from the system
 	fd = dup(0);
+#ifndef _WIN32
+	if (-1 == fd && EBADF == errno) {
+		// the program runs without a standard input
+		errno = 0;
+		fd = open("/dev/null", O_RDONLY);
+	}
+#endif
 	if (-1 == fd) {
 		goto failure;
 	}
-- 
2.43.0


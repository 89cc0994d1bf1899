From cf3706e3ab9d75c78612260217f90389096870d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:24 +0000
Subject: [PATCH 01/59] fix: give the memory pool room for its first buffer
 when chunk_size exceeds max_buffer_memory

---
 c/src/mempool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/mempool.c b/c/src/mempool.c
index d438227..7839b58 100644
--- a/c/src/mempool.c
+++ b/c/src/mempool.c
@@ -6,6 +6,9 @@
 MemoryPool *mp_new_capa(int chuck_size, int init_buf_capa)
 {
     MemoryPool *mp = ALLOC(MemoryPool);
+    if (init_buf_capa < 1) {
+        init_buf_capa = 1; /* there must be room for the first buffer */
+    }
     mp->chunk_size = chuck_size;
     mp->buf_capa = init_buf_capa;
     mp->buffers = ALLOC_N(char *, init_buf_capa);
-- 
2.43.0


From 5127478fddb58961cb684357678d3c010bdc05ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:24 +0000
Subject: [PATCH 02/59] fix: fall back to segments_0 too when segments_1 was
 left unfinished by a crash

---
 c/src/index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 289a1b7..4d229ec 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -974,10 +974,10 @@ static void sis_find_segments_file(Store *store, FindSegmentsFile *fsf,
             /* TODO:LOG "primary Exception on '" + segmentFileName + "': " +
              * err + "'; will retry: retry=" + retry + "; gen = " + gen */
 
-            if (!retry && gen > 1) {
+            if (!retry && gen > 0) {
                 /* This is our first time trying this segments file (because
                  * retry is false), and, there is possibly a segments_(N-1)
-                 * (because gen > 1).  So, check if the segments_(N-1) exists
+                 * (because gen > 0).  So, check if the segments_(N-1) exists
                  * and try it if so: */
                 char prev_seg_file_name[SEGMENT_NAME_MAX_LENGTH];
                 segfn_for_generation(prev_seg_file_name, gen - 1);
-- 
2.43.0


From 6bb4874c33157c6a6ac52a8b02de45de5c009d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:22 +0000
Subject: [PATCH 03/59] fix: count the skipped postings when the first skip
 entry is document 0

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 4d229ec..ccbcd79 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3029,7 +3029,7 @@ static bool stde_skip_to(TermDocEnum *tde, int target_doc_num)
             last_frq_ptr = stde->frq_ptr;
             last_prx_ptr = stde->prx_ptr;
 
-            if (0 != stde->skip_doc && stde->skip_doc >= stde->doc_num) {
+            if (0 != stde->skip_count && stde->skip_doc >= stde->doc_num) {
                 num_skipped += stde->skip_interval;
             }
 
-- 
2.43.0


From 0e721177846b1b286ba48c20f8d6f2fd46aae149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:22 +0000
Subject: [PATCH 04/59] fix: do not dereference missing field infos of an
 unfinished segments file

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index ccbcd79..735cc8c 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -433,7 +433,7 @@ FieldInfos *fis_read(InStream *is)
             }
         } while (0);
     XCATCHALL
-        fis_deref(fis);
+        if (fis) fis_deref(fis);
     XENDTRY
 
     return fis;
-- 
2.43.0


From 1241841fb8e8198143a7b4aa0e1d95235cdc2566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:23 +0000
Subject: [PATCH 05/59] fix: compressed fields larger than the zip buffer could
 be neither written nor read

---
 c/src/index.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 735cc8c..2646567 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1266,14 +1266,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
 
     do {
         read_len = zip_len > ZIP_BUFFER_SIZE ? ZIP_BUFFER_SIZE : zip_len;
-        is_read_bytes(is, buf_in, zip_len);
+        is_read_bytes(is, buf_in, read_len);
         zip_len -= read_len;
         zstrm.avail_in = read_len;
         zstrm.next_in = buf_in;
-        zstrm.avail_out = ZIP_BUFFER_SIZE;
 
         do {
             REALLOC_N(buf_out, uchar, buf_out_idx + ZIP_BUFFER_SIZE);
+            zstrm.avail_out = ZIP_BUFFER_SIZE;
             zstrm.next_out = buf_out + buf_out_idx;
             ret = inflate(&zstrm, Z_NO_FLUSH);
             assert(ret != Z_STREAM_ERROR);  /* state not clobbered */
@@ -1286,14 +1286,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
                 zraise(ret);
             }
             buf_out_idx += ZIP_BUFFER_SIZE - zstrm.avail_out;
-        } while (zstrm.avail_out == 0);
+        } while (ret != Z_STREAM_END && zstrm.avail_out == 0);
     } while (ret != Z_STREAM_END && zip_len != 0);
 
     /* clean up */
     (void)inflateEnd(&zstrm);
 
-    buf_out[buf_out_idx] = '\0';
     REALLOC_N(buf_out, uchar, buf_out_idx + 1);
+    buf_out[buf_out_idx] = '\0';
     *len = buf_out_idx;
     return (char *)buf_out;
 }
@@ -1356,14 +1356,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
 
     do {
         read_len = zip_len > ZIP_BUFFER_SIZE ? ZIP_BUFFER_SIZE : zip_len;
-        is_read_bytes(is, (uchar *)buf_in, zip_len);
+        is_read_bytes(is, (uchar *)buf_in, read_len);
         zip_len -= read_len;
         zstrm.avail_in = read_len;
         zstrm.next_in = buf_in;
-        zstrm.avail_out = ZIP_BUFFER_SIZE;
 
         do {
             REALLOC_N(buf_out, char, buf_out_idx + ZIP_BUFFER_SIZE);
+            zstrm.avail_out = ZIP_BUFFER_SIZE;
             zstrm.next_out = buf_out + buf_out_idx;
             ret = BZ2_bzDecompress(&zstrm);
             assert(ret != BZ_SEQUENCE_ERROR);  /* state not clobbered */
@@ -1372,14 +1372,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
                 zraise(ret);
             }
             buf_out_idx += ZIP_BUFFER_SIZE - zstrm.avail_out;
-        } while (zstrm.avail_out == 0);
+        } while (ret != BZ_STREAM_END && zstrm.avail_out == 0);
     } while (ret != BZ_STREAM_END && zip_len != 0);
 
     /* clean up */
     (void)BZ2_bzDecompressEnd(&zstrm);
 
-    buf_out[buf_out_idx] = '\0';
     REALLOC_N(buf_out, char, buf_out_idx + 1);
+    buf_out[buf_out_idx] = '\0';
     *len = buf_out_idx;
     return (char *)buf_out;
 }
@@ -1849,15 +1849,15 @@ static int os_write_zipped_bytes(OutStream* out_stream, uchar *data, int length)
 
     zstrm.avail_in = length;
     zstrm.next_in = data;
-    zstrm.avail_out = ZIP_BUFFER_SIZE;
-    zstrm.next_out = out_buffer;
 
     do {
+        zstrm.avail_out = ZIP_BUFFER_SIZE;
+        zstrm.next_out = out_buffer;
         ret = deflate(&zstrm, Z_FINISH); /* no bad return value */
         assert(ret != Z_STREAM_ERROR) ;  /* state not clobbered */
         zip_len += buf_size = ZIP_BUFFER_SIZE - zstrm.avail_out;
         os_write_bytes(out_stream, out_buffer, buf_size);
-    } while (zstrm.avail_out == 0);
+    } while (ret != Z_STREAM_END);
     assert(zstrm.avail_in == 0);         /* all input will be used */
 
     /* clean up */
@@ -1877,15 +1877,15 @@ static int os_write_zipped_bytes(OutStream* out_stream, uchar *data, int length)
 
     zstrm.avail_in = length;
     zstrm.next_in = (char *)data;
-    zstrm.avail_out = ZIP_BUFFER_SIZE;
-    zstrm.next_out = out_buffer;
 
     do {
+        zstrm.avail_out = ZIP_BUFFER_SIZE;
+        zstrm.next_out = out_buffer;
         ret = BZ2_bzCompress(&zstrm, BZ_FINISH); /* no bad return value */
         assert(ret != BZ_SEQUENCE_ERROR);        /* state not clobbered */
         zip_len += buf_size = ZIP_BUFFER_SIZE - zstrm.avail_out;
         os_write_bytes(out_stream, (uchar *)out_buffer, buf_size);
-    } while (zstrm.avail_out == 0);
+    } while (ret != BZ_STREAM_END);
     assert(zstrm.avail_in == 0);       /* all input will be used */
 
     /* clean up */
-- 
2.43.0


From 981ff1ec8718c003dbd50526f69d065c7fa3e174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:23 +0000
Subject: [PATCH 06/59] fix: keep the segments file in use, not the one a crash
 left unfinished, when cleaning up

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 2646567..9752955 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3847,7 +3847,7 @@ void deleter_find_deletable_files(Deleter *dlr)
     /* Then go through all files in the Directory that are Ferret index files,
      * and add to deletable if they are not referenced by the current segments
      * info: */
-    sis_curr_seg_file_name(dfa.curr_seg_file_name, store);
+    segfn_for_generation(dfa.curr_seg_file_name, sis->generation);
 
     store->each(store, &deleter_find_deletable_files_i, &dfa);
     h_destroy(dfa.current);
-- 
2.43.0


From 67a7ce273c653abb4bdb109ce4657ea65f031ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:06 +0000
Subject: [PATCH 07/59] fix: take the current version from complete segments
 files only

---
 c/src/index.c | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 9752955..6f1a305 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1168,20 +1168,14 @@ void sis_write(SegmentInfos *sis, Store *store, Deleter *deleter)
 
 static void sis_read_ver_i(Store *store, FindSegmentsFile *fsf)
 {
-    InStream *is;
-    u64 version = 0;
-    char seg_file_name[SEGMENT_NAME_MAX_LENGTH];
-
-    segfn_for_generation(seg_file_name, (u64)fsf->generation);
-    is = store->open_input(store, seg_file_name);
-
-    TRY
-        is_read_u32(is); // format
-        version = is_read_u64(is);
-    XFINALLY
-        is_close(is);
-    XENDTRY
+    /* read all of it: an unfinished segments file doesn't count */
+    SegmentInfos *sis;
+    u64 version;
 
+    sis_read_i(store, fsf);
+    sis = fsf->ret.sis;
+    version = sis->version;
+    sis_destroy(sis);
     fsf->ret.uint64 = version;
 }
 
-- 
2.43.0


From a3ec2a66aacd888427ef7726de8c8873b1bbd840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:06 +0000
Subject: [PATCH 08/59] fix: do not read past the last buffer of a RAM file
 that fills it exactly

---
 c/src/ram_store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 6052fb1..64278db 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -247,7 +247,7 @@ void ramo_write_to(OutStream *os, OutStream *other_o)
     last_buffer_offset = rf->len % BUFFER_SIZE;
     for (i = 0; i <= last_buffer_number; i++) {
         len = (i == last_buffer_number ? last_buffer_offset : BUFFER_SIZE);
-        os_write_bytes(other_o, rf->buffers[i], len);
+        if (len > 0) os_write_bytes(other_o, rf->buffers[i], len);
     }
 }
 
-- 
2.43.0


From aab5429c14033d279475238334d02cce17cbfa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:26 +0000
Subject: [PATCH 09/59] fix: a reader's commit deleted its own segments file
 when a crash had left one of that generation

---
 c/src/index.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 6f1a305..a37ad9f 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4100,16 +4100,12 @@ static void ir_commit_i(IndexReader *ir)
             ir->set_deleter_i(ir, deleter_new(ir->sis, ir->store));
         }
         if (ir->is_owner) {
-            char curr_seg_fn[MAX_FILE_PATH];
             mutex_lock(&ir->store->mutex);
 
-            sis_curr_seg_file_name(curr_seg_fn, ir->store);
-
             ir->commit_i(ir);
+            /* this also deletes the segments file it replaces */
             sis_write(ir->sis, ir->store, ir->deleter);
 
-            if (ir->deleter) deleter_delete_file(ir->deleter, curr_seg_fn);
-
             mutex_unlock(&ir->store->mutex);
 
             if (NULL != ir->write_lock) {
-- 
2.43.0


From 094aede3b4a7c13fecb3e6a81168b24caa7cc001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:35 +0000
Subject: [PATCH 10/59] fix: start output files empty so that no bytes of a
 file left by a crash survive in them

---
 c/src/fs_store.c  | 2 +-
 c/src/ram_store.c | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index b57a697..52e11d7 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -271,7 +271,7 @@ static OutStream *fs_new_output(Store *store, const char *filename)
 {
     char path[MAX_FILE_PATH];
     int fd = open(join_path(path, store->dir.path, filename),
-                  O_WRONLY | O_CREAT | O_BINARY, store->file_mode);
+                  O_WRONLY | O_CREAT | O_TRUNC | O_BINARY, store->file_mode);
     OutStream *os;
     if (fd < 0) {
         RAISE(IO_ERROR, "couldn't create OutStream %s: <%s>",
diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 64278db..6627e4e 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -284,6 +284,7 @@ static OutStream *ram_new_output(Store *store, const char *filename)
         rf = rf_new(filename);
         h_set(store->dir.ht, rf->name, rf);
     }
+    rf->len = 0;
     REF(rf);
     os->pointer = 0;
     os->file.rf = rf;
-- 
2.43.0


From 1add5e69095e1e8a03d1299c389146b841c2ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:16 +0000
Subject: [PATCH 11/59] fix: an exception leaving a TRY block inside a finally
 block ran that finally block again

---
 c/src/except.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/c/src/except.c b/c/src/except.c
index 4f47613..1a772d1 100644
--- a/c/src/except.c
+++ b/c/src/except.c
@@ -86,17 +86,13 @@ void xraise(int excode, const char *const msg)
 
 void xpop_context()
 {
-    xcontext_t *top_cxt, *context;
+    xcontext_t *top_cxt;
     thread_once(&exception_stack_key_once, *exception_stack_alloc);
     top_cxt = (xcontext_t *)thread_getspecific(exception_stack_key);
-    context = top_cxt->next;
-    thread_setspecific(exception_stack_key, context);
+    thread_setspecific(exception_stack_key, top_cxt->next);
     if (!top_cxt->handled) {
-        if (context) {
-            xraise_context(context, top_cxt->excode, top_cxt->msg);
-        }
-        else {
-            XEXIT(ERROR_TYPES[top_cxt->excode], top_cxt->msg);
-        }
+        /* same rules as for xraise; in particular don't jump back to the
+         * start of a finally block that is already running */
+        xraise(top_cxt->excode, top_cxt->msg);
     }
 }
-- 
2.43.0


From 4fd7acb4138fedefaf0cf2e90b972b65cc4eaa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:16 +0000
Subject: [PATCH 12/59] fix: close the file and free the stream even if the
 last bytes cannot be flushed

---
 c/src/fs_store.c |  2 +-
 c/src/store.c    | 22 ++++++++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index 52e11d7..a30eae1 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -310,10 +310,10 @@ static void fsi_seek_i(InStream *is, off_t pos)
 
 static void fsi_close_i(InStream *is)
 {
+    free(is->d.path);
     if (close(is->file.fd)) {
         RAISE(IO_ERROR, "%s", strerror(errno));
     }
-    free(is->d.path);
 }
 
 static off_t fsi_length_i(InStream *is)
diff --git a/c/src/store.c b/c/src/store.c
index f79ac44..b544461 100644
--- a/c/src/store.c
+++ b/c/src/store.c
@@ -114,9 +114,13 @@ INLINE void os_flush(OutStream *os)
 
 void os_close(OutStream *os)
 {
-    os_flush(os);
-    os->m->close_i(os);
-    free(os);
+    TRY
+        os_flush(os);
+    XFINALLY
+        /* the file must be closed even if what was left can't be written */
+        os->m->close_i(os);
+        free(os);
+    XENDTRY
 }
 
 off_t os_pos(OutStream *os)
@@ -290,10 +294,16 @@ void is_seek(InStream *is, off_t pos)
 void is_close(InStream *is)
 {
     if (--(*(is->ref_cnt_ptr)) < 0) {
-        is->m->close_i(is);
-        free(is->ref_cnt_ptr);
+        TRY
+            is->m->close_i(is);
+        XFINALLY
+            free(is->ref_cnt_ptr);
+            free(is);
+        XENDTRY
+    }
+    else {
+        free(is);
     }
-    free(is);
 }
 
 InStream *is_clone(InStream *is)
-- 
2.43.0


From bfd2e8424d732208ff090e19e6263c6fbfc865c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:16 +0000
Subject: [PATCH 13/59] fix: a failing write of the segments file closed a
 missing stream and left a gap of generations

---
 c/src/index.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index a37ad9f..62ac718 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1132,11 +1132,10 @@ void sis_write(SegmentInfos *sis, Store *store, Deleter *deleter)
     OutStream *volatile os = NULL;
     const int sis_size = sis->size;
     char buf[SEGMENT_NAME_MAX_LENGTH];
-    sis->generation++;
+    const i64 generation = sis->generation + 1;
 
     TRY
-        os = store->new_output(store,
-                               segfn_for_generation(buf, sis->generation));
+        os = store->new_output(store, segfn_for_generation(buf, generation));
         os_write_u32(os, FORMAT);
         os_write_u64(os, ++(sis->version)); /* every write changes the index */
         os_write_u64(os, sis->counter);
@@ -1146,18 +1145,22 @@ void sis_write(SegmentInfos *sis, Store *store, Deleter *deleter)
         }
         fis_write(sis->fis, os);
     XFINALLY
-        os_close(os);
+        if (os) os_close(os);
     XENDTRY
+    /* a failed attempt is overwritten by the next one: readers fall back over
+     * no more than one unfinished segments file */
+    sis->generation = generation;
 
+    os = NULL;
     TRY
         os = store->new_output(store, SEGMENTS_GEN_FILE_NAME);
         os_write_u64(os, sis->generation);
         os_write_u64(os, sis->generation);
     XFINALLY
+        if (os) os_close(os);
         /* It's OK if we fail to write this file since it's
          * used only as one of the retry fallbacks. */
         HANDLED();
-        os_close(os);
     XENDTRY
 
     if (deleter && sis->generation > 0) {
-- 
2.43.0


From b3b6bdbee2e0f5f6cc2d4a027e0e4f44585df704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:16 +0000
Subject: [PATCH 14/59] fix: a file that cannot be deleted yet must not fail a
 commit that has already happened

---
 c/src/index.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 62ac718..8346b70 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3711,6 +3711,8 @@ void deleter_delete_file(Deleter *dlr, char *file_name)
         }
         hs_del(dlr->pending, file_name);
     XCATCHALL
+        /* try again later, it's not a reason to fail the commit */
+        HANDLED();
         hs_add(dlr->pending, estrdup(file_name));
     XENDTRY
 }
-- 
2.43.0


From 59112626ab907881e552efb5cff3aa4e37234217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:48 +0000
Subject: [PATCH 15/59] fix: a failed change left an IndexWriter's mutexes
 locked and its buffers half written

---
 c/include/index.h |   1 +
 c/src/index.c     | 199 +++++++++++++++++++++++++++++-----------------
 2 files changed, 125 insertions(+), 75 deletions(-)

diff --git a/c/include/index.h b/c/include/index.h
index 2a6dadb..66c2800 100644
--- a/c/include/index.h
+++ b/c/include/index.h
@@ -888,6 +888,7 @@ struct FrtIndexWriter
     FrtSimilarity *similarity;
     FrtLock *write_lock;
     FrtDeleter *deleter;
+    bool has_failed;            /* a change failed half way through */
 };
 
 extern void frt_index_create(FrtStore *store, FrtFieldInfos *fis);
diff --git a/c/src/index.c b/c/src/index.c
index 8346b70..2d951a9 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1826,11 +1826,14 @@ FieldsWriter *fw_open(Store *store, const char *segment, FieldInfos *fis)
 
 void fw_close(FieldsWriter *fw)
 {
-    os_close(fw->fdt_out);
-    os_close(fw->fdx_out);
-    ram_destroy_buffer(fw->buffer);
-    ary_free(fw->tv_fields);
-    free(fw);
+    TRY
+        os_close(fw->fdt_out);
+    XFINALLY
+        os_close(fw->fdx_out);
+        ram_destroy_buffer(fw->buffer);
+        ary_free(fw->tv_fields);
+        free(fw);
+    XENDTRY
 }
 
 #ifdef USE_ZLIB
@@ -5361,9 +5364,10 @@ static PostingList **dw_sort_postings(Hash *plists_ht)
 
 static void dw_flush_streams(DocWriter *dw)
 {
+    FieldsWriter *fw = dw->fw;
     mp_reset(dw->mp);
-    fw_close(dw->fw);
     dw->fw = NULL;
+    fw_close(fw);
     h_clear(dw->fields);
     dw->doc_num = 0;
 }
@@ -6247,24 +6251,25 @@ static void iw_merge_segments(IndexWriter *iw, const int min_seg,
     si->doc_cnt = sm_merge(merger);
 
     mutex_lock(&iw->store->mutex);
-    /* delete merged segments */
-    for (i = min_seg; i < max_seg; i++) {
-        si_delete_files(sis->segs[i], iw->fis, iw->deleter);
-    }
-
-    sis_del_from_to(sis, min_seg, max_seg);
-
-    if (iw->config.use_compound_file) {
-        iw_commit_compound_file(iw, si);
-        si->use_compound_file = true;
-    }
+    TRY
+        /* delete merged segments */
+        for (i = min_seg; i < max_seg; i++) {
+            si_delete_files(sis->segs[i], iw->fis, iw->deleter);
+        }
 
-    sis_write(sis, iw->store, iw->deleter);
-    deleter_commit_pending_deletions(iw->deleter);
+        sis_del_from_to(sis, min_seg, max_seg);
 
-    mutex_unlock(&iw->store->mutex);
+        if (iw->config.use_compound_file) {
+            iw_commit_compound_file(iw, si);
+            si->use_compound_file = true;
+        }
 
-    sm_destroy(merger);
+        sis_write(sis, iw->store, iw->deleter);
+        deleter_commit_pending_deletions(iw->deleter);
+    XFINALLY
+        mutex_unlock(&iw->store->mutex);
+        sm_destroy(merger);
+    XENDTRY
 }
 
 static void iw_merge_segments_from(IndexWriter *iw, int min_segment)
@@ -6313,23 +6318,41 @@ static void iw_flush_ram_segment(IndexWriter *iw)
     dw_flush(iw->dw);
 
     mutex_lock(&iw->store->mutex);
-
-    if (iw->config.use_compound_file) {
-        iw_commit_compound_file(iw, si);
-        si->use_compound_file = true;
-    }
-    /* commit the segments file and the fields file */
-    sis_write(iw->sis, iw->store, iw->deleter);
-    deleter_commit_pending_deletions(iw->deleter);
-
-    mutex_unlock(&iw->store->mutex);
+    TRY
+        if (iw->config.use_compound_file) {
+            iw_commit_compound_file(iw, si);
+            si->use_compound_file = true;
+        }
+        /* commit the segments file and the fields file */
+        sis_write(iw->sis, iw->store, iw->deleter);
+        deleter_commit_pending_deletions(iw->deleter);
+    XFINALLY
+        mutex_unlock(&iw->store->mutex);
+    XENDTRY
 
     iw_maybe_merge_segments(iw);
 }
 
-void iw_add_doc(IndexWriter *iw, Document *doc)
+/* Wrap these around a change to the index. If the change fails the IndexWriter
+ * is left somewhere in the middle of it, so it accepts no further changes. All
+ * that is left to do is to close it, which keeps what was last committed. */
+#define IW_BEGIN_CHANGE(iw)\
+    mutex_lock(&iw->mutex);\
+    TRY\
+        if (iw->has_failed) {\
+            RAISE(STATE_ERROR, "An earlier change to the index failed. The "\
+                               "IndexWriter needs to be closed and reopened");\
+        }
+
+#define IW_END_CHANGE(iw)\
+    XCATCHALL\
+        iw->has_failed = true;\
+        mutex_unlock(&iw->mutex);\
+    XENDTRY\
+    mutex_unlock(&iw->mutex);
+
+static void iw_add_doc_i(IndexWriter *iw, Document *doc)
 {
-    mutex_lock(&iw->mutex);
     if (NULL == iw->dw) {
         iw->dw = dw_open(iw, sis_new_segment(iw->sis, 0, iw->store));
     }
@@ -6341,7 +6364,13 @@ void iw_add_doc(IndexWriter *iw, Document *doc)
         || iw->dw->doc_num >= iw->config.max_buffered_docs) {
         iw_flush_ram_segment(iw);
     }
-    mutex_unlock(&iw->mutex);
+}
+
+void iw_add_doc(IndexWriter *iw, Document *doc)
+{
+    IW_BEGIN_CHANGE(iw)
+        iw_add_doc_i(iw, doc);
+    IW_END_CHANGE(iw)
 }
 
 static void iw_commit_i(IndexWriter *iw)
@@ -6353,9 +6382,9 @@ static void iw_commit_i(IndexWriter *iw)
 
 void iw_commit(IndexWriter *iw)
 {
-    mutex_lock(&iw->mutex);
-    iw_commit_i(iw);
-    mutex_unlock(&iw->mutex);
+    IW_BEGIN_CHANGE(iw)
+        iw_commit_i(iw);
+    IW_END_CHANGE(iw)
 }
 
 void iw_delete_term(IndexWriter *iw, Symbol field, const char *term)
@@ -6363,7 +6392,7 @@ void iw_delete_term(IndexWriter *iw, Symbol field, const char *term)
     int field_num = fis_get_field_num(iw->fis, field);
     if (field_num >= 0) {
         int i;
-        mutex_lock(&iw->mutex);
+        IW_BEGIN_CHANGE(iw)
         iw_commit_i(iw);
         do {
             SegmentInfos *sis = iw->sis;
@@ -6384,11 +6413,14 @@ void iw_delete_term(IndexWriter *iw, Symbol field, const char *term)
             }
             if (did_delete) {
                 mutex_lock(&iw->store->mutex);
-                sis_write(iw->sis, iw->store, iw->deleter);
-                mutex_unlock(&iw->store->mutex);
+                TRY
+                    sis_write(iw->sis, iw->store, iw->deleter);
+                XFINALLY
+                    mutex_unlock(&iw->store->mutex);
+                XENDTRY
             }
         } while (0);
-        mutex_unlock(&iw->mutex);
+        IW_END_CHANGE(iw)
     }
 }
 
@@ -6398,7 +6430,7 @@ void iw_delete_terms(IndexWriter *iw, Symbol field,
     int field_num = fis_get_field_num(iw->fis, field);
     if (field_num >= 0) {
         int i;
-        mutex_lock(&iw->mutex);
+        IW_BEGIN_CHANGE(iw)
         iw_commit_i(iw);
         do {
             SegmentInfos *sis = iw->sis;
@@ -6423,11 +6455,14 @@ void iw_delete_terms(IndexWriter *iw, Symbol field,
             }
             if (did_delete) {
                 mutex_lock(&iw->store->mutex);
-                sis_write(iw->sis, iw->store, iw->deleter);
-                mutex_unlock(&iw->store->mutex);
+                TRY
+                    sis_write(iw->sis, iw->store, iw->deleter);
+                XFINALLY
+                    mutex_unlock(&iw->store->mutex);
+                XENDTRY
             }
         } while (0);
-        mutex_unlock(&iw->mutex);
+        IW_END_CHANGE(iw)
     }
 }
 
@@ -6449,31 +6484,43 @@ static void iw_optimize_i(IndexWriter *iw)
 
 void iw_optimize(IndexWriter *iw)
 {
-    mutex_lock(&iw->mutex);
-    iw_optimize_i(iw);
-    mutex_unlock(&iw->mutex);
+    IW_BEGIN_CHANGE(iw)
+        iw_optimize_i(iw);
+    IW_END_CHANGE(iw)
 }
 
 void iw_close(IndexWriter *iw)
 {
     mutex_lock(&iw->mutex);
-    iw_commit_i(iw);
-    if (iw->dw) {
-        dw_close(iw->dw);
-    }
-    a_deref(iw->analyzer);
-    sis_destroy(iw->sis);
-    fis_deref(iw->fis);
-    sim_destroy(iw->similarity);
+    TRY
+        if (!iw->has_failed) {
+            iw->has_failed = true;
+            iw_commit_i(iw);
+            iw->has_failed = false;
+        }
+    XFINALLY
+        /* give everything back whether or not we were able to commit */
+        if (iw->dw) {
+            if (iw->has_failed) {
+                iw->dw->doc_num = 0;    /* don't try to flush them again */
+            }
+            dw_close(iw->dw);
+        }
+        a_deref(iw->analyzer);
+        sis_destroy(iw->sis);
+        fis_deref(iw->fis);
+        sim_destroy(iw->similarity);
 
-    iw->write_lock->release(iw->write_lock);
-    close_lock(iw->write_lock);
-    iw->write_lock = NULL;
-    store_deref(iw->store);
-    deleter_destroy(iw->deleter);
+        iw->write_lock->release(iw->write_lock);
+        close_lock(iw->write_lock);
+        iw->write_lock = NULL;
+        store_deref(iw->store);
+        deleter_destroy(iw->deleter);
 
-    mutex_destroy(&iw->mutex);
-    free(iw);
+        mutex_unlock(&iw->mutex);
+        mutex_destroy(&iw->mutex);
+        free(iw);
+    XENDTRY
 }
 
 IndexWriter *iw_open(Store *store, Analyzer *volatile analyzer,
@@ -6788,19 +6835,21 @@ static void iw_add_segments(IndexWriter *iw, IndexReader *ir)
 void iw_add_readers(IndexWriter *iw, IndexReader **readers, const int r_cnt)
 {
     int i;
-    mutex_lock(&iw->mutex);
-    iw_optimize_i(iw);
-
-    for (i = 0; i < r_cnt; i++) {
-        iw_add_segments(iw, readers[i]);
-    }
+    IW_BEGIN_CHANGE(iw)
+        iw_optimize_i(iw);
 
-    mutex_lock(&iw->store->mutex);
+        for (i = 0; i < r_cnt; i++) {
+            iw_add_segments(iw, readers[i]);
+        }
 
-    /* commit the segments file and the fields file */
-    sis_write(iw->sis, iw->store, iw->deleter);
-    mutex_unlock(&iw->store->mutex);
+        mutex_lock(&iw->store->mutex);
+        TRY
+            /* commit the segments file and the fields file */
+            sis_write(iw->sis, iw->store, iw->deleter);
+        XFINALLY
+            mutex_unlock(&iw->store->mutex);
+        XENDTRY
 
-    iw_optimize_i(iw);
-    mutex_unlock(&iw->mutex);
+        iw_optimize_i(iw);
+    IW_END_CHANGE(iw)
 }
-- 
2.43.0


From 11201654aff3af7682ad13f8858f74d5ae9456b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:01 +0000
Subject: [PATCH 16/59] fix: a failed call on an IndexReader left its mutex
 locked and its write lock held

---
 c/src/index.c | 195 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 122 insertions(+), 73 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 2d951a9..88aa8eb 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -2142,8 +2142,11 @@ static int sti_get_index_offset(SegmentTermIndex *sti, const char *term)
 #define SFI_ENSURE_INDEX_IS_READ(sfi, sti) do {\
     if (NULL == sti->index_terms) {\
         mutex_lock(&sfi->mutex);\
-        sti_ensure_index_is_read(sti, sfi->index_te);\
-        mutex_unlock(&sfi->mutex);\
+        TRY\
+            sti_ensure_index_is_read(sti, sfi->index_te);\
+        XFINALLY\
+            mutex_unlock(&sfi->mutex);\
+        XENDTRY\
     }\
 } while (0)
 
@@ -3974,10 +3977,13 @@ int ir_doc_freq(IndexReader *ir, Symbol field, const char *term)
 static void ir_set_norm_i(IndexReader *ir, int doc_num, int field_num, uchar val)
 {
     mutex_lock(&ir->mutex);
-    ir->acquire_write_lock(ir);
-    ir->set_norm_i(ir, doc_num, field_num, val);
-    ir->has_changes = true;
-    mutex_unlock(&ir->mutex);
+    TRY
+        ir->acquire_write_lock(ir);
+        ir->set_norm_i(ir, doc_num, field_num, val);
+        ir->has_changes = true;
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
 }
 
 void ir_set_norm(IndexReader *ir, int doc_num, Symbol field, uchar val)
@@ -4024,20 +4030,26 @@ uchar *ir_get_norms_into(IndexReader *ir, Symbol field, uchar *buf)
 void ir_undelete_all(IndexReader *ir)
 {
     mutex_lock(&ir->mutex);
-    ir->acquire_write_lock(ir);
-    ir->undelete_all_i(ir);
-    ir->has_changes = true;
-    mutex_unlock(&ir->mutex);
+    TRY
+        ir->acquire_write_lock(ir);
+        ir->undelete_all_i(ir);
+        ir->has_changes = true;
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
 }
 
 void ir_delete_doc(IndexReader *ir, int doc_num)
 {
     if (doc_num >= 0 && doc_num < ir->max_doc(ir)) {
         mutex_lock(&ir->mutex);
-        ir->acquire_write_lock(ir);
-        ir->delete_doc_i(ir, doc_num);
-        ir->has_changes = true;
-        mutex_unlock(&ir->mutex);
+        TRY
+            ir->acquire_write_lock(ir);
+            ir->delete_doc_i(ir, doc_num);
+            ir->has_changes = true;
+        XFINALLY
+            mutex_unlock(&ir->mutex);
+        XENDTRY
     }
 }
 
@@ -4109,12 +4121,13 @@ static void ir_commit_i(IndexReader *ir)
         }
         if (ir->is_owner) {
             mutex_lock(&ir->store->mutex);
-
-            ir->commit_i(ir);
-            /* this also deletes the segments file it replaces */
-            sis_write(ir->sis, ir->store, ir->deleter);
-
-            mutex_unlock(&ir->store->mutex);
+            TRY
+                ir->commit_i(ir);
+                /* this also deletes the segments file it replaces */
+                sis_write(ir->sis, ir->store, ir->deleter);
+            XFINALLY
+                mutex_unlock(&ir->store->mutex);
+            XENDTRY
 
             if (NULL != ir->write_lock) {
                 /* release write lock */
@@ -4133,36 +4146,49 @@ static void ir_commit_i(IndexReader *ir)
 void ir_commit(IndexReader *ir)
 {
     mutex_lock(&ir->mutex);
-    ir_commit_i(ir);
-    mutex_unlock(&ir->mutex);
+    TRY
+        ir_commit_i(ir);
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
 }
 
 void ir_close(IndexReader *ir)
 {
     mutex_lock(&ir->mutex);
     if (0 == --(ir->ref_cnt)) {
-        ir_commit_i(ir);
-        ir->close_i(ir);
-        if (ir->store) {
-            store_deref(ir->store);
-        }
-        if (ir->is_owner && ir->sis) {
-            sis_destroy(ir->sis);
-        }
-        if (ir->cache) {
-            h_destroy(ir->cache);
-        }
-        if (ir->field_index_cache) {
-            h_destroy(ir->field_index_cache);
-        }
-        if (ir->deleter && ir->is_owner) {
-            deleter_destroy(ir->deleter);
-        }
-        free(ir->fake_norms);
+        TRY
+            ir_commit_i(ir);
+        XFINALLY
+            /* give everything back whether or not we were able to commit */
+            ir->close_i(ir);
+            if (NULL != ir->write_lock) {
+                ir->write_lock->release(ir->write_lock);
+                close_lock(ir->write_lock);
+                ir->write_lock = NULL;
+            }
+            if (ir->store) {
+                store_deref(ir->store);
+            }
+            if (ir->is_owner && ir->sis) {
+                sis_destroy(ir->sis);
+            }
+            if (ir->cache) {
+                h_destroy(ir->cache);
+            }
+            if (ir->field_index_cache) {
+                h_destroy(ir->field_index_cache);
+            }
+            if (ir->deleter && ir->is_owner) {
+                deleter_destroy(ir->deleter);
+            }
+            free(ir->fake_norms);
 
-        mutex_destroy(&ir->mutex);
-        mutex_destroy(&ir->field_index_mutex);
-        free(ir);
+            mutex_unlock(&ir->mutex);
+            mutex_destroy(&ir->mutex);
+            mutex_destroy(&ir->field_index_mutex);
+            free(ir);
+        XENDTRY
     }
     else {
         mutex_unlock(&ir->mutex);
@@ -4472,36 +4498,45 @@ static int sr_max_doc(IndexReader *ir)
 
 static Document *sr_get_doc(IndexReader *ir, int doc_num)
 {
-    Document *doc;
+    Document *volatile doc = NULL;
     mutex_lock(&ir->mutex);
-    if (sr_is_deleted_i(SR(ir), doc_num)) {
+    TRY
+        if (sr_is_deleted_i(SR(ir), doc_num)) {
+            RAISE(STATE_ERROR, "Document %d has already been deleted",
+                  doc_num);
+        }
+        doc = fr_get_doc(SR(ir)->fr, doc_num);
+    XFINALLY
         mutex_unlock(&ir->mutex);
-        RAISE(STATE_ERROR, "Document %d has already been deleted", doc_num);
-    }
-    doc = fr_get_doc(SR(ir)->fr, doc_num);
-    mutex_unlock(&ir->mutex);
+    XENDTRY
     return doc;
 }
 
 static LazyDoc *sr_get_lazy_doc(IndexReader *ir, int doc_num)
 {
-    LazyDoc *lazy_doc;
+    LazyDoc *volatile lazy_doc = NULL;
     mutex_lock(&ir->mutex);
-    if (sr_is_deleted_i(SR(ir), doc_num)) {
+    TRY
+        if (sr_is_deleted_i(SR(ir), doc_num)) {
+            RAISE(STATE_ERROR, "Document %d has already been deleted",
+                  doc_num);
+        }
+        lazy_doc = fr_get_lazy_doc(SR(ir)->fr, doc_num);
+    XFINALLY
         mutex_unlock(&ir->mutex);
-        RAISE(STATE_ERROR, "Document %d has already been deleted", doc_num);
-    }
-    lazy_doc = fr_get_lazy_doc(SR(ir)->fr, doc_num);
-    mutex_unlock(&ir->mutex);
+    XENDTRY
     return lazy_doc;
 }
 
 static uchar *sr_get_norms(IndexReader *ir, int field_num)
 {
-    uchar *norms;
+    uchar *volatile norms = NULL;
     mutex_lock(&ir->mutex);
-    norms = sr_get_norms_i(SR(ir), field_num);
-    mutex_unlock(&ir->mutex);
+    TRY
+        norms = sr_get_norms_i(SR(ir), field_num);
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
     return norms;
 }
 
@@ -4509,8 +4544,11 @@ static uchar *sr_get_norms_into(IndexReader *ir, int field_num,
                               uchar *buf)
 {
     mutex_lock(&ir->mutex);
-    sr_get_norms_into_i(SR(ir), field_num, buf);
-    mutex_unlock(&ir->mutex);
+    TRY
+        sr_get_norms_into_i(SR(ir), field_num, buf);
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
     return buf;
 }
 
@@ -4768,7 +4806,7 @@ int mr_get_field_num(MultiReader *mr, int ir_num, int f_num)
 
 static uchar *mr_get_norms(IndexReader *ir, int field_num)
 {
-    uchar *bytes;
+    uchar *volatile bytes;
 
     mutex_lock(&ir->mutex);
     bytes = (uchar *)h_get_int(MR(ir)->norms_cache, field_num);
@@ -4778,13 +4816,19 @@ static uchar *mr_get_norms(IndexReader *ir, int field_num)
 
         bytes = ALLOC_AND_ZERO_N(uchar, MR(ir)->max_doc);
 
-        for (i = 0; i < mr_reader_cnt; i++) {
-            int fnum = mr_get_field_num(MR(ir), i, field_num);
-            if (fnum >= 0) {
-                IndexReader *reader = MR(ir)->sub_readers[i];
-                reader->get_norms_into(reader, fnum, bytes + MR(ir)->starts[i]);
+        TRY
+            for (i = 0; i < mr_reader_cnt; i++) {
+                int fnum = mr_get_field_num(MR(ir), i, field_num);
+                if (fnum >= 0) {
+                    IndexReader *reader = MR(ir)->sub_readers[i];
+                    reader->get_norms_into(reader, fnum,
+                                           bytes + MR(ir)->starts[i]);
+                }
             }
-        }
+        XCATCHALL
+            free(bytes);
+            mutex_unlock(&ir->mutex);
+        XENDTRY
         h_set_int(MR(ir)->norms_cache, field_num, bytes); /* update cache */
     }
     mutex_unlock(&ir->mutex);
@@ -4804,13 +4848,18 @@ static uchar *mr_get_norms_into(IndexReader *ir, int field_num, uchar *buf)
     else {
         int i;
         const int mr_reader_cnt = MR(ir)->r_cnt;
-        for (i = 0; i < mr_reader_cnt; i++) {
-            int fnum = mr_get_field_num(MR(ir), i, field_num);
-            if (fnum >= 0) {
-                IndexReader *reader = MR(ir)->sub_readers[i];
-                reader->get_norms_into(reader, fnum, buf + MR(ir)->starts[i]);
+        TRY
+            for (i = 0; i < mr_reader_cnt; i++) {
+                int fnum = mr_get_field_num(MR(ir), i, field_num);
+                if (fnum >= 0) {
+                    IndexReader *reader = MR(ir)->sub_readers[i];
+                    reader->get_norms_into(reader, fnum,
+                                           buf + MR(ir)->starts[i]);
+                }
             }
-        }
+        XCATCHALL
+            mutex_unlock(&ir->mutex);
+        XENDTRY
     }
     mutex_unlock(&ir->mutex);
     return buf;
-- 
2.43.0


From b28476b62134dd78927fda2f8fa0c789420ac147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:03 +0000
Subject: [PATCH 17/59] fix: a failed read or write left bytes in the buffers
 that were taken for, or written again as, data

---
 c/src/fs_store.c | 11 ++++++-----
 c/src/index.c    | 51 ++++++++++++++++++++++++++++++++----------------
 c/src/store.c    | 19 +++++++++++-------
 3 files changed, 52 insertions(+), 29 deletions(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index a30eae1..a5e217c 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -284,18 +284,19 @@ static OutStream *fs_new_output(Store *store, const char *filename)
     return os;
 }
 
-static void fsi_read_i(InStream *is, uchar *path, int len)
+static void fsi_read_i(InStream *is, uchar *buf, int len)
 {
     int fd = is->file.fd;
     off_t pos = is_pos(is);
-    if (pos != lseek(fd, 0, SEEK_CUR)) {
-        lseek(fd, pos, SEEK_SET);
+    if (pos != lseek(fd, 0, SEEK_CUR) && pos != lseek(fd, pos, SEEK_SET)) {
+        RAISE(IO_ERROR, "seeking pos %"OFF_T_PFX"d in %s: <%s>",
+              pos, is->d.path, strerror(errno));
     }
-    if (read(fd, path, len) != len) {
+    if (read(fd, buf, len) != len) {
         /* win: the wrong value can be returned for some reason so double check */
         if (lseek(fd, 0, SEEK_CUR) != (pos + len)) {
             RAISE(IO_ERROR, "couldn't read %d chars from %s: <%s>",
-                  len, path, strerror(errno));
+                  len, is->d.path, strerror(errno));
         }
     }
 }
diff --git a/c/src/index.c b/c/src/index.c
index 88aa8eb..7b971fb 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -2088,27 +2088,44 @@ static void sti_ensure_index_is_read(SegmentTermIndex *sti,
         int i;
         int index_cnt = sti->index_cnt;
         off_t index_ptr = 0;
-        ste_reset(index_te);
-        is_seek(STE(index_te)->is, sti->index_ptr);
-        STE(index_te)->size = sti->index_cnt;
+        char **index_terms = ALLOC_AND_ZERO_N(char *, index_cnt);
+        int *index_term_lens = ALLOC_N(int, index_cnt);
+        TermInfo *index_term_infos = ALLOC_N(TermInfo, index_cnt);
+        off_t *index_ptrs = ALLOC_N(off_t, index_cnt);
 
-        sti->index_terms = ALLOC_N(char *, index_cnt);
-        sti->index_term_lens = ALLOC_N(int, index_cnt);
-        sti->index_term_infos = ALLOC_N(TermInfo, index_cnt);
-        sti->index_ptrs = ALLOC_N(off_t, index_cnt);
+        TRY
+            ste_reset(index_te);
+            is_seek(STE(index_te)->is, sti->index_ptr);
+            STE(index_te)->size = sti->index_cnt;
 
-        for (i = 0; NULL != ste_next(index_te); i++) {
+            for (i = 0; NULL != ste_next(index_te); i++) {
 #ifdef DEBUG
-            if (i >= index_cnt) {
-                RAISE(FERRET_ERROR, "index term enum read too many terms");
-            }
+                if (i >= index_cnt) {
+                    RAISE(FERRET_ERROR, "index term enum read too many terms");
+                }
 #endif
-            sti->index_terms[i] = te_get_term(index_te);
-            sti->index_term_lens[i] = index_te->curr_term_len;
-            sti->index_term_infos[i] = index_te->curr_ti;
-            index_ptr += is_read_voff_t(STE(index_te)->is);
-            sti->index_ptrs[i] = index_ptr;
-        }
+                index_terms[i] = te_get_term(index_te);
+                index_term_lens[i] = index_te->curr_term_len;
+                index_term_infos[i] = index_te->curr_ti;
+                index_ptr += is_read_voff_t(STE(index_te)->is);
+                index_ptrs[i] = index_ptr;
+            }
+        XCATCHALL
+            for (i = 0; i < index_cnt; i++) {
+                free(index_terms[i]);
+            }
+            free(index_terms);
+            free(index_term_lens);
+            free(index_term_infos);
+            free(index_ptrs);
+        XENDTRY
+
+        /* other threads look at index_terms without holding the mutex so it
+         * must be set when everything else is in place */
+        sti->index_term_lens = index_term_lens;
+        sti->index_term_infos = index_term_infos;
+        sti->index_ptrs = index_ptrs;
+        sti->index_terms = index_terms;
     }
 }
 
diff --git a/c/src/store.c b/c/src/store.c
index b544461..eb5027b 100644
--- a/c/src/store.c
+++ b/c/src/store.c
@@ -107,9 +107,12 @@ OutStream *os_new()
  */
 INLINE void os_flush(OutStream *os)
 {
-    os->m->flush_i(os, os->buf.buf, os->buf.pos);
-    os->buf.start += os->buf.pos;
+    const int len = os->buf.pos;
+    /* if this fails some of the bytes may have been written already so they
+     * must not be written again by a later flush */
     os->buf.pos = 0;
+    os->m->flush_i(os, os->buf.buf, len);
+    os->buf.start += len;
 }
 
 void os_close(OutStream *os)
@@ -215,16 +218,18 @@ static void is_refill(InStream *is)
         last = flen;
     }
 
-    is->buf.len = last - start;
-    if (is->buf.len <= 0) {
+    /* the buffer holds nothing until the read has succeeded */
+    is->buf.start = start;
+    is->buf.pos = 0;
+    is->buf.len = 0;
+    if (last <= start) {
         RAISE(EOF_ERROR, "current pos = %"OFF_T_PFX"d, "
               "file length = %"OFF_T_PFX"d", start, flen);
     }
 
-    is->m->read_i(is, is->buf.buf, is->buf.len);
+    is->m->read_i(is, is->buf.buf, last - start);
 
-    is->buf.start = start;
-    is->buf.pos = 0;
+    is->buf.len = last - start;
 }
 
 /**
-- 
2.43.0


From a9acd500c09626cbb9840b6198917462fcc8b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:03 +0000
Subject: [PATCH 18/59] fix: locks could be taken away by handles that never
 held them, and were kept by calls that failed

---
 c/include/store.h |  1 +
 c/src/fs_store.c  | 36 +++++++++++++++++++-----------------
 c/src/index.c     | 41 +++++++++++++++++++++++++++++------------
 c/src/ram_store.c | 13 ++++++++++---
 c/src/store.c     | 31 ++++++++++++++++---------------
 5 files changed, 75 insertions(+), 47 deletions(-)

diff --git a/c/include/store.h b/c/include/store.h
index 34ba0ee..318de8f 100644
--- a/c/include/store.h
+++ b/c/include/store.h
@@ -147,6 +147,7 @@ struct FrtLock
 {
     char *name;
     FrtStore *store;
+    bool is_held;               /* true while this object holds the lock */
     int (*obtain)(FrtLock *lock);
     int (*is_locked)(FrtLock *lock);
     void (*release)(FrtLock *lock);
diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index a5e217c..8ce4f6e 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -210,19 +210,16 @@ static void fs_clear_all(Store *store)
 
 /**
  * Destroy the store.
+ * The locks which were obtained through this store and not released yet are
+ * released. Other locks in the directory may be held by other processes.
  *
  * @param p the store to destroy
- * @raise IO_ERROR if there is an error deleting the locks
  */
 static void fs_destroy(Store *store)
 {
-    TRY
-        fs_clear_locks(store);
-    XCATCHALL
-        HANDLED();
-    XENDTRY
-    free(store->dir.path);
+    char *path = store->dir.path;
     store_destroy(store);
+    free(path);
 }
 
 static off_t fs_length(Store *store, const char *filename)
@@ -366,6 +363,7 @@ static int fs_lock_obtain(Lock *lock)
     }
     if (f >= 0) {
         close(f);
+        lock->is_held = true;
         return true;
     }
     else {
@@ -375,21 +373,21 @@ static int fs_lock_obtain(Lock *lock)
 
 static int fs_lock_is_locked(Lock *lock)
 {
-    int f = open(lock->name, O_CREAT | O_EXCL | O_WRONLY, S_IRUSR | S_IWUSR);
-    if (f >= 0) {
-        if (close(f) || remove(lock->name)) {
-            RAISE(IO_ERROR, "couldn't close lock \"%s\": <%s>", lock->name,
-                  strerror(errno));
-        }
-        return false;
-    }
-    else {
+    /* just look. Creating the file would be taking the lock */
+    struct stat stt;
+    if (0 == stat(lock->name, &stt)) {
         return true;
     }
+    if (ENOENT != errno) {
+        RAISE(IO_ERROR, "couldn't check lock \"%s\": <%s>", lock->name,
+              strerror(errno));
+    }
+    return false;
 }
 
 static void fs_lock_release(Lock *lock)
 {
+    lock->is_held = false;
     remove(lock->name);
 }
 
@@ -401,6 +399,7 @@ static Lock *fs_open_lock_i(Store *store, const char *lockname)
     snprintf(lname, 100, "%s%s.lck", LOCK_PREFIX, lockname);
     lock->name = estrdup(join_path(path, store->dir.path, lname));
     lock->store = store;
+    lock->is_held = false;
     lock->obtain = &fs_lock_obtain;
     lock->release = &fs_lock_release;
     lock->is_locked = &fs_lock_is_locked;
@@ -409,7 +408,10 @@ static Lock *fs_open_lock_i(Store *store, const char *lockname)
 
 static void fs_close_lock_i(Lock *lock)
 {
-    remove(lock->name);
+    /* if we don't hold the lock then it belongs to somebody else */
+    if (lock->is_held) {
+        fs_lock_release(lock);
+    }
     free(lock->name);
     free(lock);
 }
diff --git a/c/src/index.c b/c/src/index.c
index 7b971fb..dade78f 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3911,8 +3911,10 @@ static void ir_acquire_write_lock(IndexReader *ir)
     }
 
     if (NULL == ir->write_lock) {
-        ir->write_lock = open_lock(ir->store, WRITE_LOCK_NAME);
-        if (!ir->write_lock->obtain(ir->write_lock)) {/* obtain write lock */
+        Lock *write_lock = open_lock(ir->store, WRITE_LOCK_NAME);
+        volatile i64 version = 0;
+        if (!write_lock->obtain(write_lock)) {/* obtain write lock */
+            close_lock(write_lock);
             RAISE(LOCK_ERROR, "Could not obtain write lock when trying to "
                               "write changes to the index. Check that there "
                               "are no stale locks in the index. Look for "
@@ -3923,20 +3925,25 @@ static void ir_acquire_write_lock(IndexReader *ir)
 
         /* we have to check whether index has changed since this reader was
          * opened.  if so, this reader is no longer valid for deletion */
-        if (sis_read_current_version(ir->store) > ir->sis->version) {
+        TRY
+            version = sis_read_current_version(ir->store);
+        XCATCHALL
+            write_lock->release(write_lock);
+            close_lock(write_lock);
+        XENDTRY
+        if (version != ir->sis->version) {
             ir->is_stale = true;
-            ir->write_lock->release(ir->write_lock);
-            close_lock(ir->write_lock);
-            ir->write_lock = NULL;
+            write_lock->release(write_lock);
+            close_lock(write_lock);
             RAISE(STATE_ERROR, "IndexReader out of date and no longer valid "
                                "for delete, undelete, or set_norm operations. "
                                "The current version is <%"I64_PFX"d>, but this "
                                "readers version is <%"I64_PFX"d>. To perform "
                                "any of these operations on the index you need "
                                "to close and reopen the index",
-                               sis_read_current_version(ir->store),
-                               ir->sis->version);
+                               version, ir->sis->version);
         }
+        ir->write_lock = write_lock;
     }
 }
 
@@ -6610,14 +6617,27 @@ IndexWriter *iw_open(Store *store, Analyzer *volatile analyzer,
         iw->sis = sis_read(store);
         iw->fis = iw->sis->fis;
         REF(iw->fis);
+
+        iw->deleter = deleter_new(iw->sis, store);
+        deleter_delete_deletable_files(iw->deleter);
+        if (iw->deleter->pending->size > 0) {
+            /* we are going to use the names of these files again */
+            RAISE(IO_ERROR, "Couldn't delete \"%s\" when opening IndexWriter",
+                  (char *)iw->deleter->pending->first->elem);
+        }
     XCATCHALL
+        if (iw->deleter) deleter_destroy(iw->deleter);
         if (iw->write_lock) {
-            iw->write_lock->release(iw->write_lock);
+            if (iw->write_lock->is_held) {
+                iw->write_lock->release(iw->write_lock);
+            }
             close_lock(iw->write_lock);
             iw->write_lock = NULL;
         }
+        if (iw->fis) fis_deref(iw->fis);
         if (iw->sis) sis_destroy(iw->sis);
         if (analyzer) a_deref((Analyzer *)analyzer);
+        mutex_destroy(&iw->mutex);
         free(iw);
     XENDTRY
 
@@ -6625,9 +6645,6 @@ IndexWriter *iw_open(Store *store, Analyzer *volatile analyzer,
     iw->analyzer = analyzer ? (Analyzer *)analyzer
                             : mb_standard_analyzer_new(true);
 
-    iw->deleter = deleter_new(iw->sis, store);
-    deleter_delete_deletable_files(iw->deleter);
-
     REF(store);
     return iw;
 }
diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 6627e4e..c9dc24c 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -115,6 +115,7 @@ static void ram_close_i(Store *store)
 {
     Hash *ht = store->dir.ht;
     int i;
+    hs_clear(store->locks);     /* while they can still be removed */
     for (i = 0; i <= ht->mask; i++) {
         RAMFile *rf = (RAMFile *)ht->table[i].value;
         if (rf) {
@@ -379,12 +380,12 @@ static InStream *ram_open_input(Store *store, const char *filename)
 
 static int ram_lock_obtain(Lock *lock)
 {
-    int ret = true;
     if (ram_exists(lock->store, lock->name)) {
-        ret = false;
+        return false;
     }
     ram_touch(lock->store, lock->name);
-    return ret;
+    lock->is_held = true;
+    return true;
 }
 
 static int ram_lock_is_locked(Lock *lock)
@@ -394,6 +395,7 @@ static int ram_lock_is_locked(Lock *lock)
 
 static void ram_lock_release(Lock *lock)
 {
+    lock->is_held = false;
     ram_remove(lock->store, lock->name);
 }
 
@@ -404,6 +406,7 @@ static Lock *ram_open_lock_i(Store *store, const char *lockname)
     snprintf(lname, 100, "%s%s.lck", LOCK_PREFIX, lockname);
     lock->name = estrdup(lname);
     lock->store = store;
+    lock->is_held = false;
     lock->obtain = &ram_lock_obtain;
     lock->release = &ram_lock_release;
     lock->is_locked = &ram_lock_is_locked;
@@ -412,6 +415,10 @@ static Lock *ram_open_lock_i(Store *store, const char *lockname)
 
 static void ram_close_lock_i(Lock *lock)
 {
+    /* if we don't hold the lock then it belongs to somebody else */
+    if (lock->is_held) {
+        ram_lock_release(lock);
+    }
     free(lock->name);
     free(lock);
 }
diff --git a/c/src/store.c b/c/src/store.c
index eb5027b..0ad41b5 100644
--- a/c/src/store.c
+++ b/c/src/store.c
@@ -5,31 +5,27 @@
 #define VINT_MAX_LEN 10
 #define VINT_END BUFFER_SIZE - VINT_MAX_LEN
 
-/*
- * TODO: add try finally
- */
 void with_lock(Lock *lock, void (*func)(void *arg), void *arg)
 {
     if (!lock->obtain(lock)) {
         RAISE(LOCK_ERROR, "couldn't obtain lock \"%s\"", lock->name);
     }
-    func(arg);
-    lock->release(lock);
+    TRY
+        func(arg);
+    XFINALLY
+        lock->release(lock);
+    XENDTRY
 }
 
-/*
- * TODO: add try finally
- */
 void with_lock_name(Store *store, const char *lock_name,
                     void (*func)(void *arg), void *arg)
 {
     Lock *lock = store->open_lock_i(store, lock_name);
-    if (!lock->obtain(lock)) {
-        RAISE(LOCK_ERROR, "couldn't obtain lock \"%s\"", lock->name);
-    }
-    func(arg);
-    lock->release(lock);
-    store->close_lock_i(lock);
+    TRY
+        with_lock(lock, func, arg);
+    XFINALLY
+        store->close_lock_i(lock);
+    XENDTRY
 }
 
 void store_deref(Store *store)
@@ -46,13 +42,18 @@ void store_deref(Store *store)
 Lock *open_lock(Store *store, const char *lockname)
 {
     Lock *lock = store->open_lock_i(store, lockname);
+    mutex_lock(&store->mutex_i);
     hs_add(store->locks, lock);
+    mutex_unlock(&store->mutex_i);
     return lock;
 }
 
 void close_lock(Lock *lock)
 {
-    hs_del(lock->store->locks, lock);
+    Store *store = lock->store;
+    mutex_lock(&store->mutex_i);
+    hs_del(store->locks, lock);
+    mutex_unlock(&store->mutex_i);
 }
 
 static void close_lock_i(Lock *lock)
-- 
2.43.0


From 2bcd5528aadc1d6f1606d8c469dee279d4c2f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:50 +0000
Subject: [PATCH 19/59] fix: files that could not be deleted were forgotten,
 norms that could not be read were written

---
 c/src/index.c     | 8 +++++---
 c/src/ram_store.c | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index dade78f..93d9d89 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3729,8 +3729,9 @@ void deleter_delete_file(Deleter *dlr, char *file_name)
 {
     Store *store = dlr->store;
     TRY
-        if (store->exists(store, file_name)) {
-            store->remove(store, file_name);
+        if (store->exists(store, file_name)
+            && 0 != store->remove(store, file_name)) {
+            RAISE(IO_ERROR, "Couldn't delete \"%s\"", file_name);
         }
         hs_del(dlr->pending, file_name);
     XCATCHALL
@@ -4368,10 +4369,11 @@ static void sr_set_norm_i(IndexReader *ir, int doc_num, int field_num, uchar b)
 {
     Norm *norm = (Norm *)h_get_int(SR(ir)->norms, field_num);
     if (NULL != norm) { /* has_norms */
+        uchar *bytes = sr_get_norms_i(SR(ir), field_num);
         ir->has_changes = true;
         norm->is_dirty = true; /* mark it dirty */
         SR(ir)->norms_dirty = true;
-        sr_get_norms_i(SR(ir), field_num)[doc_num] = b;
+        bytes[doc_num] = b;
     }
 }
 
diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index c9dc24c..0a7ba08 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -60,10 +60,10 @@ static int ram_remove(Store *store, const char *filename)
     if (rf != NULL) {
         DEREF(rf);
         rf_close(rf);
-        return true;
+        return 0;
     }
     else {
-        return false;
+        return -1;
     }
 }
 
-- 
2.43.0


From 4d63549adb07d4249fe282444d795d40d2338d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:49 +0000
Subject: [PATCH 20/59] fix: a read error made readers fall back from a
 complete commit to the one before it

---
 c/src/index.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 93d9d89..2953827 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -829,6 +829,29 @@ static char *sis_next_seg_file_name(char *buf, Store *store)
 
 #define GEN_FILE_RETRY_COUNT 10
 #define GEN_LOOK_AHEAD_COUNT 10
+static void sis_read_i(Store *store, FindSegmentsFile *fsf);
+
+/* A segments file which was written completely is a commit. If it can be read
+ * but the files of its segments can't then that's no reason to go back to the
+ * commit before it. */
+static bool sis_is_complete(Store *store, i64 generation)
+{
+    FindSegmentsFile fsf;
+    fsf.generation = generation;
+    fsf.ret.sis = NULL;
+    TRY
+        sis_read_i(store, &fsf);
+    XCATCHALL
+        HANDLED();
+        fsf.ret.sis = NULL;
+    XENDTRY
+    if (NULL == fsf.ret.sis) {
+        return false;
+    }
+    sis_destroy(fsf.ret.sis);
+    return true;
+}
+
 static void sis_find_segments_file(Store *store, FindSegmentsFile *fsf,
                             void (*run)(Store *store, FindSegmentsFile *fsf))
 {
@@ -981,7 +1004,8 @@ static void sis_find_segments_file(Store *store, FindSegmentsFile *fsf,
                  * and try it if so: */
                 char prev_seg_file_name[SEGMENT_NAME_MAX_LENGTH];
                 segfn_for_generation(prev_seg_file_name, gen - 1);
-                if (store->exists(store, prev_seg_file_name)) {
+                if (store->exists(store, prev_seg_file_name)
+                    && !sis_is_complete(store, gen)) {
                     /* TODO:LOG "fallback to prior segment file '" +
                      * prevSegmentFileName + "'" */
                     TRY
-- 
2.43.0


From b00ff3c619a32750ade086bff1567f3121cd1a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:51 +0000
Subject: [PATCH 21/59] fix: reading past the end of a memory file returned
 garbage, and clones of a memory stream moved one another

---
 c/src/ram_store.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 0a7ba08..2c9f01e 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -300,9 +300,15 @@ static void rami_read_i(InStream *is, uchar *b, int len)
     int offset = 0;
     int buffer_number, buffer_offset, bytes_in_buffer, bytes_to_copy;
     int remainder = len;
-    off_t start = is->d.pointer;
+    off_t start = is_pos(is);
     uchar *buffer;
 
+    if ((start + len) > rf->len) {
+        RAISE(EOF_ERROR, "Tried to read past end of file. File length is "
+              "<%"OFF_T_PFX"d> and tried to read to <%"OFF_T_PFX"d>",
+              rf->len, start + len);
+    }
+
     while (remainder > 0) {
         buffer_number = (int) (start / BUFFER_SIZE);
         buffer_offset = start % BUFFER_SIZE;
@@ -321,7 +327,7 @@ static void rami_read_i(InStream *is, uchar *b, int len)
         remainder -= bytes_to_copy;
     }
 
-    is->d.pointer += len;
+    is->d.pointer = start;
 }
 
 static off_t rami_length_i(InStream *is)
-- 
2.43.0


From 19a55ad96a40981883ab4154c3aec76c540e65e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:12 +0000
Subject: [PATCH 22/59] fix: a reader of an index without segments always
 claimed to be the latest version

---
 c/src/index.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 2953827..2369c91 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -5024,6 +5024,10 @@ static bool mr_is_latest_i(IndexReader *ir)
 {
     int i;
     const int mr_reader_cnt = MR(ir)->r_cnt;
+    if (ir->is_owner) {
+        /* the segments of one index. There may be none of them */
+        return (sis_read_current_version(ir->store) == ir->sis->version);
+    }
     for (i = 0; i < mr_reader_cnt; i++) {
         if (!ir_is_latest(MR(ir)->sub_readers[i])) {
             return false;
-- 
2.43.0


From 3565690f9881ef37878064f1eff6144e9794a916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:12 +0000
Subject: [PATCH 23/59] fix: after the clock went back, a re-created index
 could repeat the version of the one it replaced

---
 c/src/index.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 2369c91..f9be1dc 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6269,6 +6269,20 @@ static int sm_merge(SegmentMerger *sm)
 void index_create(Store *store, FieldInfos *fis)
 {
     SegmentInfos *sis = sis_new(fis);
+    if (sis_current_segment_generation(store) >= 0) {
+        /* readers of the index that is replaced must be able to tell that
+         * theirs isn't the latest version, whatever the clock says */
+        TRY
+        {
+            u64 version = sis_read_current_version(store);
+            if (sis->version <= version) {
+                sis->version = version + 1;
+            }
+        }
+        XCATCHALL
+            HANDLED();      /* there is no complete index to replace */
+        XENDTRY
+    }
     store->clear_all(store);
     sis_write(sis, store, NULL);
     sis_destroy(sis);
-- 
2.43.0


From b3ebaecf4815862d9fc1f339db20b1e586756a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:12 +0000
Subject: [PATCH 24/59] fix: adding an index brought its deleted documents back
 and dropped its norm changes

---
 c/src/index.c | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index f9be1dc..0470db0 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6697,8 +6697,9 @@ IndexWriter *iw_open(Store *store, Analyzer *volatile analyzer,
 /*** Add Indexes ***/
 /*******************/
 static void iw_cp_fields(IndexWriter *iw, SegmentReader *sr,
-                         const char *segment, int *map)
+                         SegmentInfo *si, int *map)
 {
+    const char *segment = si->name;
     char file_name[SEGMENT_NAME_MAX_LENGTH];
     OutStream *fdt_out, *fdx_out;
     InStream *fdt_in, *fdx_in;
@@ -6716,16 +6717,12 @@ static void iw_cp_fields(IndexWriter *iw, SegmentReader *sr,
     sprintf(file_name, "%s.fdx", sr_segment);
     fdx_in = store_in->open_input(store_in, file_name);
 
-    sprintf(file_name, "%s.del", sr_segment);
-    if (store_in->exists(store_in, file_name)) {
-        OutStream *del_out;
-        InStream *del_in = store_in->open_input(store_in, file_name);
-        sprintf(file_name, "%s.del", segment);
-        del_out = store_out->new_output(store_out, file_name);
-        is2os_copy_bytes(del_in, del_out, is_length(del_in));
+    if (sr->deleted_docs && sr->deleted_docs->count > 0) {
+        si->del_gen = 0;
+        fn_for_generation(file_name, segment, "del", si->del_gen);
+        bv_write(sr->deleted_docs, store_out, file_name);
     }
 
-
     if (map) {
         int i;
         const int max_doc = sr_max_doc(IR(sr));
@@ -6858,7 +6855,6 @@ static void iw_cp_norms(IndexWriter *iw, SegmentReader *sr,
     int i;
     FieldInfos *fis = IR(sr)->fis;
     const int field_cnt = fis->size;
-    InStream *norms_in;
     OutStream *norms_out;
     Store *store_out = iw->store;
     char file_name_in[SEGMENT_NAME_MAX_LENGTH];
@@ -6867,18 +6863,15 @@ static void iw_cp_norms(IndexWriter *iw, SegmentReader *sr,
     for (i = 0; i < field_cnt; i++) {
         if (fi_has_norms(fis->fields[i])
             && si_norm_file_name(sr->si, file_name_in, i)) {
-            Store *store = (sr->si->use_compound_file
-                            && sr->si->norm_gens[i] == 0) ? sr->cfs_store
-                                                          : IR(sr)->store;
+            /* as the reader shows them, including changes not yet committed */
+            uchar *norms = IR(sr)->get_norms(IR(sr), i);
             int field_num = map ? map[i] : i;
 
-            norms_in = store->open_input(store, file_name_in);
             si_advance_norm_gen(si, field_num);
             si_norm_file_name(si, file_name_out, field_num);
             norms_out = store_out->new_output(store_out, file_name_out);
-            is2os_copy_bytes(norms_in, norms_out, is_length(norms_in));
+            os_write_bytes(norms_out, norms, IR(sr)->max_doc(IR(sr)));
             os_close(norms_out);
-            is_close(norms_in);
         }
     }
 }
@@ -6896,7 +6889,7 @@ static void iw_cp_map_files(IndexWriter *iw, SegmentReader *sr,
         field_map[i] = fis_get_field_num(to_fis, from_fis->fields[i]->name);
     }
 
-    iw_cp_fields(iw, sr, si->name, field_map);
+    iw_cp_fields(iw, sr, si,       field_map);
     iw_cp_terms( iw, sr, si->name, field_map);
     iw_cp_norms( iw, sr, si,       field_map);
 
@@ -6906,7 +6899,7 @@ static void iw_cp_map_files(IndexWriter *iw, SegmentReader *sr,
 static void iw_cp_files(IndexWriter *iw, SegmentReader *sr,
                         SegmentInfo *si)
 {
-    iw_cp_fields(iw, sr, si->name, NULL);
+    iw_cp_fields(iw, sr, si,       NULL);
     iw_cp_terms( iw, sr, si->name, NULL);
     iw_cp_norms( iw, sr, si,       NULL);
 }
-- 
2.43.0


From 30ec3aa1ed71ca9b0e00069cfee6c272e482ac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:22 +0000
Subject: [PATCH 25/59] fix: an error in a call of an Index left its mutex
 locked or a closed handle in use

A call that failed (a missing document, a lock held by somebody else, a failing
read or write) returned with the mutex of the Index locked, so the next call
never returned. A reader or writer that failed to close was used again. Fetching
a document by term could replace the reader whose enumeration was still open.
---
 c/src/ind.c | 151 +++++++++++++++++++++++++---------------------------
 1 file changed, 74 insertions(+), 77 deletions(-)

diff --git a/c/src/ind.c b/c/src/ind.c
index 1f0df48..417fc8e 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -7,17 +7,34 @@
 static const char *NON_UNIQUE_KEY_ERROR_MSG =
     "Tried to use a key that was not unique";
 
+/* forget the handles first: they are gone even if closing them fails */
 #define INDEX_CLOSE_READER(self) do { \
-    if (self->sea) {                  \
-        searcher_close(self->sea);    \
-        self->sea = NULL;             \
-        self->ir = NULL;              \
-    } else if (self->ir) {            \
-        ir_close(self->ir);           \
-        self->ir = NULL;              \
+    Searcher *sea_i = self->sea;      \
+    IndexReader *ir_i = self->ir;     \
+    self->sea = NULL;                 \
+    self->ir = NULL;                  \
+    if (sea_i) {                      \
+        searcher_close(sea_i);        \
+    } else if (ir_i) {                \
+        ir_close(ir_i);               \
     }                                 \
 } while (0)
 
+#define INDEX_CLOSE_WRITER(self) do { \
+    IndexWriter *iw_i = self->iw;     \
+    self->iw = NULL;                  \
+    if (iw_i) iw_close(iw_i);         \
+} while (0)
+
+#define INDEX_LOCK(self)              \
+    mutex_lock(&self->mutex);         \
+    TRY
+
+#define INDEX_UNLOCK(self)            \
+    XFINALLY                          \
+        mutex_unlock(&self->mutex);   \
+    XENDTRY
+
 #define AUTOFLUSH_IR(self) do {                 \
      if (self->auto_flush) ir_commit(self->ir); \
     else self->has_writes = true;               \
@@ -25,8 +42,7 @@ static const char *NON_UNIQUE_KEY_ERROR_MSG =
 
 #define AUTOFLUSH_IW(self) do {  \
     if (self->auto_flush) {      \
-        iw_close(self->iw);      \
-        self->iw = NULL;         \
+        INDEX_CLOSE_WRITER(self);\
     } else {                     \
         self->has_writes = true; \
     }                            \
@@ -96,22 +112,24 @@ Index *index_new(Store *store, Analyzer *analyzer, HashSet *def_fields,
 void index_destroy(Index *self)
 {
     mutex_destroy(&self->mutex);
-    INDEX_CLOSE_READER(self);
-    if (self->iw) iw_close(self->iw);
-    store_deref(self->store);
-    a_deref(self->analyzer);
-    if (self->qp) qp_destroy(self->qp);
-    if (self->key) hs_destroy(self->key);
-    free(self);
+    TRY
+        INDEX_CLOSE_READER(self);
+        INDEX_CLOSE_WRITER(self);
+    XFINALLY
+        store_deref(self->store);
+        a_deref(self->analyzer);
+        if (self->qp) qp_destroy(self->qp);
+        if (self->key) hs_destroy(self->key);
+        free(self);
+    XENDTRY
 }
 
 void index_flush(Index *self)
 {
     if (self->ir) {
         ir_commit(self->ir);
-    } else if (self->iw) {
-        iw_close(self->iw);
-        self->iw = NULL;
+    } else {
+        INDEX_CLOSE_WRITER(self);
     }
     self->has_writes = false;
 }
@@ -137,10 +155,7 @@ INLINE void ensure_reader_open(Index *self)
         }
         return;
     }
-    if (self->iw) {
-        iw_close(self->iw);
-        self->iw = NULL;
-    }
+    INDEX_CLOSE_WRITER(self);
     self->ir = ir_open(self->store);
 }
 
@@ -154,48 +169,40 @@ INLINE void ensure_searcher_open(Index *self)
 
 int index_size(Index *self)
 {
-    int size;
-    mutex_lock(&self->mutex);
-    {
+    volatile int size = 0;
+    INDEX_LOCK(self)
         ensure_reader_open(self);
         size = self->ir->num_docs(self->ir);
-    }
-    mutex_unlock(&self->mutex);
+    INDEX_UNLOCK(self)
     return size;
 }
 
 void index_optimize(Index *self)
 {
-    mutex_lock(&self->mutex);
-    {
+    INDEX_LOCK(self)
         ensure_writer_open(self);
         iw_optimize(self->iw);
         AUTOFLUSH_IW(self);
-    }
-    mutex_unlock(&self->mutex);
+    INDEX_UNLOCK(self)
 }
 
 bool index_has_del(Index *self)
 {
-    bool has_del;
-    mutex_lock(&self->mutex);
-    {
+    volatile bool has_del = false;
+    INDEX_LOCK(self)
         ensure_reader_open(self);
         has_del = self->ir->has_deletions(self->ir);
-    }
-    mutex_unlock(&self->mutex);
+    INDEX_UNLOCK(self)
     return has_del;
 }
 
 bool index_is_deleted(Index *self, int doc_num)
 {
-    bool is_del;
-    mutex_lock(&self->mutex);
-    {
+    volatile bool is_del = false;
+    INDEX_LOCK(self)
         ensure_reader_open(self);
         is_del = self->ir->is_deleted(self->ir, doc_num);
-    }
-    mutex_unlock(&self->mutex);
+    INDEX_UNLOCK(self)
     return is_del;
 }
 
@@ -249,11 +256,9 @@ static INLINE void index_add_doc_i(Index *self, Document *doc)
 
 void index_add_doc(Index *self, Document *doc)
 {
-    mutex_lock(&self->mutex);
-    {
+    INDEX_LOCK(self)
         index_add_doc_i(self, doc);
-    }
-    mutex_unlock(&self->mutex);
+    INDEX_UNLOCK(self)
 }
 
 void index_add_string(Index *self, char *str)
@@ -311,12 +316,10 @@ Document *index_get_doc(Index *self, int doc_num)
 
 Document *index_get_doc_ts(Index *self, int doc_num)
 {
-    Document *doc;
-    mutex_lock(&self->mutex);
-    {
+    Document *volatile doc = NULL;
+    INDEX_LOCK(self)
         doc = index_get_doc(self, doc_num);
-    }
-    mutex_unlock(&self->mutex);
+    INDEX_UNLOCK(self)
     return doc;
 }
 
@@ -336,18 +339,20 @@ int index_term_id(Index *self, Symbol field, const char *term)
 Document *index_get_doc_term(Index *self, Symbol field,
                              const char *term)
 {
-    Document *doc = NULL;
+    Document *volatile doc = NULL;
     TermDocEnum *tde;
-    mutex_lock(&self->mutex);
-    {
+    INDEX_LOCK(self)
         ensure_reader_open(self);
         tde = ir_term_docs_for(self->ir, field, term);
-        if (tde->next(tde)) {
-            doc = index_get_doc(self, tde->doc_num(tde));
-        }
-        tde->close(tde);
-    }
-    mutex_unlock(&self->mutex);
+        TRY
+            if (tde->next(tde)) {
+                /* of the same reader, even if it isn't the latest any more */
+                doc = self->ir->get_doc(self->ir, tde->doc_num(tde));
+            }
+        XFINALLY
+            tde->close(tde);
+        XENDTRY
+    INDEX_UNLOCK(self)
     return doc;
 }
 
@@ -358,20 +363,17 @@ Document *index_get_doc_id(Index *self, const char *id)
 
 void index_delete(Index *self, int doc_num)
 {
-    mutex_lock(&self->mutex);
-    {
+    INDEX_LOCK(self)
         ensure_reader_open(self);
         ir_delete_doc(self->ir, doc_num);
         AUTOFLUSH_IR(self);
-    }
-    mutex_unlock(&self->mutex);
+    INDEX_UNLOCK(self)
 }
 
 void index_delete_term(Index *self, Symbol field, const char *term)
 {
     TermDocEnum *tde;
-    mutex_lock(&self->mutex);
-    {
+    INDEX_LOCK(self)
         if (self->ir) {
             tde = ir_term_docs_for(self->ir, field, term);
             TRY
@@ -386,8 +388,7 @@ void index_delete_term(Index *self, Symbol field, const char *term)
             ensure_writer_open(self);
             iw_delete_term(self->iw, field, term);
         }
-    }
-    mutex_unlock(&self->mutex);
+    INDEX_UNLOCK(self)
 }
 
 void index_delete_id(Index *self, const char *id)
@@ -404,13 +405,11 @@ static void index_qdel_i(Searcher *sea, int doc_num, float score, void *arg)
 void index_delete_query(Index *self, Query *q, Filter *f,
                         PostFilter *post_filter)
 {
-    mutex_lock(&self->mutex);
-    {
+    INDEX_LOCK(self)
         ensure_searcher_open(self);
         searcher_search_each(self->sea, q, f, post_filter, &index_qdel_i, 0);
         AUTOFLUSH_IR(self);
-    }
-    mutex_unlock(&self->mutex);
+    INDEX_UNLOCK(self)
 }
 
 void index_delete_query_str(Index *self, char *qstr, Filter *f,
@@ -423,12 +422,10 @@ void index_delete_query_str(Index *self, char *qstr, Filter *f,
 
 Explanation *index_explain(Index *self, Query *q, int doc_num)
 {
-    Explanation *expl;
-    mutex_lock(&self->mutex);
-    {
+    Explanation *volatile expl = NULL;
+    INDEX_LOCK(self)
         ensure_searcher_open(self);
         expl = searcher_explain(self->sea, q, doc_num);
-    }
-    mutex_unlock(&self->mutex);
+    INDEX_UNLOCK(self)
     return expl;
 }
-- 
2.43.0


From cca5aefd757d570690eb68997938129822580eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:22 +0000
Subject: [PATCH 26/59] fix: asking a reader of an empty index for a document
 read outside its list of segments

---
 c/src/index.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 0470db0..cac61f8 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4802,6 +4802,9 @@ static int mr_reader_index_i(MultiReader *mr, int doc_num)
             return mid;
         }
     }
+    if (hi < 0) {
+        RAISE(ARG_ERROR, "Document %d does not exist in this index", doc_num);
+    }
     return hi;
 }
 
-- 
2.43.0


From b8e0d70a929c86ad8849f3611f271a18468443e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:57 +0000
Subject: [PATCH 27/59] fix: the tables that all threads share were used
 without a lock

---
 c/src/global.c |  4 ++++
 c/src/hash.c   | 16 +++++++++++-----
 c/src/index.c  |  8 +++++---
 c/src/symbol.c | 13 +++++++++++--
 4 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/c/src/global.c b/c/src/global.c
index 9a880f4..5fdccf7 100644
--- a/c/src/global.c
+++ b/c/src/global.c
@@ -1,6 +1,7 @@
 #include "global.h"
 #include "symbol.h"
 #include "hash.h"
+#include "threading.h"
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -333,10 +334,12 @@ typedef struct FreeMe
 static FreeMe *free_mes = NULL;
 static int free_mes_size = 0;
 static int free_mes_capa = 0;
+static mutex_t free_mes_mutex = MUTEX_INITIALIZER;
 
 void register_for_cleanup(void *p, free_ft free_func)
 {
     FreeMe *free_me;
+    mutex_lock(&free_mes_mutex);
     if (free_mes_capa == 0) {
         free_mes_capa = 16;
         free_mes = ALLOC_N(FreeMe, free_mes_capa);
@@ -348,6 +351,7 @@ void register_for_cleanup(void *p, free_ft free_func)
     free_me = free_mes + free_mes_size++;
     free_me->p = p;
     free_me->free_func = free_func;
+    mutex_unlock(&free_mes_mutex);
 }
 
 void clean_up()
diff --git a/c/src/hash.c b/c/src/hash.c
index 9d379b8..b81936b 100644
--- a/c/src/hash.c
+++ b/c/src/hash.c
@@ -1,5 +1,6 @@
 #include "hash.h"
 #include "global.h"
+#include "threading.h"
 #include <string.h>
 #include "internal.h"
 
@@ -20,6 +21,8 @@ static char *dummy_int_key = "i";
 
 static Hash *free_hts[MAX_FREE_HASH_TABLES];
 static int num_free_hts = 0;
+/* all threads share the free list */
+static mutex_t free_hts_mutex = MUTEX_INITIALIZER;
 
 unsigned long str_hash(const char *const str)
 {
@@ -165,11 +168,13 @@ HashEntry *h_lookup(Hash *self, register const void *key)
 
 Hash *h_new_str(free_ft free_key, free_ft free_value)
 {
-    Hash *self;
+    Hash *self = NULL;
+    mutex_lock(&free_hts_mutex);
     if (num_free_hts > 0) {
         self = free_hts[--num_free_hts];
     }
-    else {
+    mutex_unlock(&free_hts_mutex);
+    if (NULL == self) {
         self = ALLOC(Hash);
     }
     self->fill = 0;
@@ -242,12 +247,13 @@ void h_destroy(Hash *self)
             free(self->table);
         }
 
+        mutex_lock(&free_hts_mutex);
         if (num_free_hts < MAX_FREE_HASH_TABLES) {
             free_hts[num_free_hts++] = self;
+            self = NULL;
         }
-        else {
-            free(self);
-        }
+        mutex_unlock(&free_hts_mutex);
+        free(self);
     }
 }
 
diff --git a/c/src/index.c b/c/src/index.c
index cac61f8..1a2d883 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3665,11 +3665,13 @@ static Hash *fn_extensions = NULL;
 static void file_name_filter_init()
 {
     int i;
-    fn_extensions = h_new_str((free_ft)NULL, (free_ft)NULL);
+    Hash *extensions = h_new_str((free_ft)NULL, (free_ft)NULL);
     for (i = 0; i < NELEMS(INDEX_EXTENSIONS); i++) {
-      h_set(fn_extensions, INDEX_EXTENSIONS[i], (char *)INDEX_EXTENSIONS[i]);
+      h_set(extensions, INDEX_EXTENSIONS[i], (char *)INDEX_EXTENSIONS[i]);
     }
-    register_for_cleanup(fn_extensions, (free_ft)&h_destroy);
+    register_for_cleanup(extensions, (free_ft)&h_destroy);
+    /* other threads may use it from here on so it must be complete */
+    fn_extensions = extensions;
 }
 
 bool file_name_filter_is_index_file(const char *file_name, bool include_locks)
diff --git a/c/src/symbol.c b/c/src/symbol.c
index a81f4a0..e69b0b0 100644
--- a/c/src/symbol.c
+++ b/c/src/symbol.c
@@ -1,8 +1,11 @@
 #include "symbol.h"
 #include "hash.h"
+#include "threading.h"
 #include "internal.h"
 
 static Hash *symbol_table = NULL;
+/* all threads share the table */
+static mutex_t symbol_mutex = MUTEX_INITIALIZER;
 
 
 void symbol_init()
@@ -13,17 +16,22 @@ void symbol_init()
 
 Symbol intern(const char *str)
 {
-    Symbol symbol = (Symbol)h_get(symbol_table, str);
+    Symbol symbol;
+    mutex_lock(&symbol_mutex);
+    symbol = (Symbol)h_get(symbol_table, str);
     if (!symbol) {
         symbol = (Symbol)estrdup(str);
         h_set(symbol_table, (void *)symbol, (void *)symbol);
     }
+    mutex_unlock(&symbol_mutex);
     return symbol;
 }
 
 Symbol intern_and_free(char *str)
 {
-    Symbol symbol = (Symbol)h_get(symbol_table, str);
+    Symbol symbol;
+    mutex_lock(&symbol_mutex);
+    symbol = (Symbol)h_get(symbol_table, str);
     if (!symbol) {
         symbol = (Symbol)str;
         h_set(symbol_table, str, str);
@@ -31,5 +39,6 @@ Symbol intern_and_free(char *str)
     else {
         free(str);
     }
+    mutex_unlock(&symbol_mutex);
     return symbol;
 }
-- 
2.43.0


From 6bf0106c49c2525e93c5d8c611198cd135651b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:18 +0000
Subject: [PATCH 28/59] fix: a thread could look a term up in the field another
 thread had chosen

---
 c/src/index.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 1a2d883..3d1a35e 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -2688,10 +2688,12 @@ static INLINE TermEnum *tir_enum(TermInfosReader *tir)
 
 TermInfosReader *tir_set_field(TermInfosReader *tir, int field_num)
 {
-    if (field_num != tir->field_num) {
-        ste_set_field(tir_enum(tir), field_num);
-        tir->field_num = field_num;
+    TermEnum *te = tir_enum(tir);
+    /* every thread has its own enumerator so it must be the one that counts */
+    if (field_num != te->field_num) {
+        ste_set_field(te, field_num);
     }
+    tir->field_num = field_num;
     return tir;
 }
 
@@ -2713,10 +2715,10 @@ static TermInfo *tir_get_ti_field(TermInfosReader *tir, int field_num,
     TermEnum *te = tir_enum(tir);
     char *match;
 
-    if (field_num != tir->field_num) {
+    if (field_num != te->field_num) {
         ste_set_field(te, field_num);
-        tir->field_num = field_num;
     }
+    tir->field_num = field_num;
 
     if (NULL != (match = ste_scan_to(te, term))
         && 0 == strcmp(match, term)) {
-- 
2.43.0


From 582e447706b47aa87e54e4637ab2ddbc86155935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:18 +0000
Subject: [PATCH 29/59] fix: a store could be freed while another thread opened
 it

---
 c/src/fs_store.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index 8ce4f6e..5b68c21 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -425,7 +425,13 @@ static mutex_t stores_mutex = MUTEX_INITIALIZER;
 static void fs_close_i(Store *store)
 {
     mutex_lock(&stores_mutex);
-    h_del(stores, store->dir.path);
+    if (store->ref_cnt > 0) {
+        /* opened again by another thread before we got here */
+        mutex_unlock(&store->mutex_i);
+    }
+    else {
+        h_del(stores, store->dir.path);
+    }
     mutex_unlock(&stores_mutex);
 }
 
@@ -482,12 +488,11 @@ Store *open_fs_store(const char *pathname)
 {
     Store *store = NULL;
 
+    mutex_lock(&stores_mutex);
     if (!stores) {
         stores = h_new_str(NULL, (free_ft)fs_destroy);
         register_for_cleanup(stores, (free_ft)h_destroy);
     }
-
-    mutex_lock(&stores_mutex);
     store = (Store *)h_get(stores, pathname);
     if (store) {
         mutex_lock(&store->mutex);
-- 
2.43.0


From 48b35e4fa44a20412a8ff4ed5cb45c322a5e4bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:18 +0000
Subject: [PATCH 30/59] fix: deleting by term through an Index used an
 out-of-date reader and did not flush

---
 c/src/ind.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/ind.c b/c/src/ind.c
index 417fc8e..c3a6000 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -375,6 +375,8 @@ void index_delete_term(Index *self, Symbol field, const char *term)
     TermDocEnum *tde;
     INDEX_LOCK(self)
         if (self->ir) {
+            /* documents may have been added since it was opened */
+            ensure_reader_open(self);
             tde = ir_term_docs_for(self->ir, field, term);
             TRY
                 while (tde->next(tde)) {
@@ -387,6 +389,7 @@ void index_delete_term(Index *self, Symbol field, const char *term)
         } else {
             ensure_writer_open(self);
             iw_delete_term(self->iw, field, term);
+            AUTOFLUSH_IW(self);
         }
     INDEX_UNLOCK(self)
 }
-- 
2.43.0


From 341ab3a9b84d0c58368dd43544491f647858d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:37 +0000
Subject: [PATCH 31/59] fix: opening an index hung when a segments file could
 not be looked for

sis_find_segments_file asked whether the previous segments file exists from
within its exception handler.  When that raised (too many open files, say) the
same handler was started again, forever if the error persisted.
---
 c/src/index.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 3d1a35e..3145032 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -852,6 +852,19 @@ static bool sis_is_complete(Store *store, i64 generation)
     return true;
 }
 
+/* An error raised in an exception handler would start that same handler again,
+ * so a file which can't be looked for counts as a file which isn't there */
+static bool sis_file_exists(Store *store, const char *file_name)
+{
+    volatile bool exists = false;
+    TRY
+        exists = store->exists(store, file_name);
+    XCATCHALL
+        HANDLED();
+    XENDTRY
+    return exists;
+}
+
 static void sis_find_segments_file(Store *store, FindSegmentsFile *fsf,
                             void (*run)(Store *store, FindSegmentsFile *fsf))
 {
@@ -1004,7 +1017,7 @@ static void sis_find_segments_file(Store *store, FindSegmentsFile *fsf,
                  * and try it if so: */
                 char prev_seg_file_name[SEGMENT_NAME_MAX_LENGTH];
                 segfn_for_generation(prev_seg_file_name, gen - 1);
-                if (store->exists(store, prev_seg_file_name)
+                if (sis_file_exists(store, prev_seg_file_name)
                     && !sis_is_complete(store, gen)) {
                     /* TODO:LOG "fallback to prior segment file '" +
                      * prevSegmentFileName + "'" */
-- 
2.43.0


From 620c560b2c5492279aff8be8aabcc33d864f8816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:31 +0000
Subject: [PATCH 32/59] fix: the deletions file of a merged non-compound
 segment was never removed

---
 c/src/index.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 3145032..4b2359f 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -703,9 +703,6 @@ static void si_delete_files(SegmentInfo *si, FieldInfos *fis, Deleter *dlr)
     if (si->use_compound_file) {
         memcpy(ext, "cfs", 4);
         DEL(file_name);
-        if (0 <= si->del_gen) {
-            DEL(fn_for_generation(file_name, si->name, "del", si->del_gen));
-        }
     }
     else {
         for (i = NELEMS(INDEX_EXTENSIONS) - 1; i >= 0; i--) {
@@ -713,6 +710,9 @@ static void si_delete_files(SegmentInfo *si, FieldInfos *fis, Deleter *dlr)
             DEL(file_name);
         }
     }
+    if (0 <= si->del_gen) {
+        DEL(fn_for_generation(file_name, si->name, "del", si->del_gen));
+    }
 }
 
 /****************************************************************************
-- 
2.43.0


From 1c1936dc8dc395337b6e1bf0a8a7a422ef2a86e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:31 +0000
Subject: [PATCH 33/59] fix: superseded files were left behind when deletions
 were committed

Deleting by term through a writer, and committing changes made through a
reader, queued the files they replaced for deletion but never deleted them.
---
 c/src/index.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 4b2359f..7e357b1 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4191,6 +4191,7 @@ static void ir_commit_i(IndexReader *ir)
                 ir->commit_i(ir);
                 /* this also deletes the segments file it replaces */
                 sis_write(ir->sis, ir->store, ir->deleter);
+                deleter_commit_pending_deletions(ir->deleter);
             XFINALLY
                 mutex_unlock(&ir->store->mutex);
             XENDTRY
@@ -6552,6 +6553,7 @@ void iw_delete_term(IndexWriter *iw, Symbol field, const char *term)
                 mutex_lock(&iw->store->mutex);
                 TRY
                     sis_write(iw->sis, iw->store, iw->deleter);
+                    deleter_commit_pending_deletions(iw->deleter);
                 XFINALLY
                     mutex_unlock(&iw->store->mutex);
                 XENDTRY
@@ -6594,6 +6596,7 @@ void iw_delete_terms(IndexWriter *iw, Symbol field,
                 mutex_lock(&iw->store->mutex);
                 TRY
                     sis_write(iw->sis, iw->store, iw->deleter);
+                    deleter_commit_pending_deletions(iw->deleter);
                 XFINALLY
                     mutex_unlock(&iw->store->mutex);
                 XENDTRY
-- 
2.43.0


From 68e6f7d405c8a2cef0501c82b6ca2c9fc9939bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:58 +0000
Subject: [PATCH 34/59] fix: an untokenized value of exactly 255 bytes overran
 the term buffers

Terms are kept in buffers of MAX_WORD_SIZE (255) bytes including the
terminating zero, so that longer values are cut to 254 bytes. A value of
exactly 255 bytes was not cut.
---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 7e357b1..45e9858 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -5745,7 +5745,7 @@ Hash *dw_invert_field(DocWriter *dw,
         for (i = 0; i < df_size; i++) {
             int len = df->lengths[i];
             char *data_ptr = df->data[i];
-            if (len > MAX_WORD_SIZE) {
+            if (len >= MAX_WORD_SIZE) {
                 len = MAX_WORD_SIZE - 1;
                 data_ptr = (char *)memcpy(buf, df->data[i], len);
             }
-- 
2.43.0


From 5aa86f6174f604d823380c34480eebcaa30dc441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:46 +0000
Subject: [PATCH 35/59] fix: merging long terms overwrote the last term of the
 term index

The buffer of recent terms must hold index_interval + 2 terms, as its
comment says, but it had room for one less. With terms near the maximum
length the previous index term was overwritten before it was compared
with the next, and the merge failed or wrote a wrong dictionary.
---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 45e9858..a95c3fc 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6205,7 +6205,7 @@ static void sm_merge_terms(SegmentMerger *sm)
      * term put in the index with the next one. So the size of the buffer must
      * by index_interval + 2. */
     sm->term_buf_ptr = 0;
-    sm->term_buf_size = (sm->config->index_interval + 1) * MAX_WORD_SIZE;
+    sm->term_buf_size = (sm->config->index_interval + 2) * MAX_WORD_SIZE;
     sm->term_buf = ALLOC_N(char, sm->term_buf_size + MAX_WORD_SIZE);
 
     sm->queue = pq_new(sm->seg_cnt, (lt_ft)&smi_lt, NULL);
-- 
2.43.0


From 48618295a31d9a9c9b982f604670e627fa3e3045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:42 +0000
Subject: [PATCH 36/59] fix: a segments file that could not be opened was taken
 for an unfinished one

With too many files open the newest segments file could not be read and a
writer went back to the one before, if that still existed, and removed the
files of the newest commit. Only a file that is missing or too short is an
unfinished commit; any other error is reported.
---
 c/src/fs_store.c |  4 ++++
 c/src/index.c    | 17 +++++++++--------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index 5b68c21..47e3afc 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -336,6 +336,10 @@ static InStream *fs_open_input(Store *store, const char *filename)
     char path[MAX_FILE_PATH];
     int fd = open(join_path(path, store->dir.path, filename), O_RDONLY | O_BINARY);
     if (fd < 0) {
+        if (errno != ENOENT) {
+            RAISE(IO_ERROR, "couldn't open \"%s\": <%s>", path,
+                  strerror(errno));
+        }
         RAISE(FILE_NOT_FOUND_ERROR,
               "tried to open \"%s\" but it doesn't exist: <%s>",
               path, strerror(errno));
diff --git a/c/src/index.c b/c/src/index.c
index a95c3fc..440715d 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -832,24 +832,25 @@ static char *sis_next_seg_file_name(char *buf, Store *store)
 static void sis_read_i(Store *store, FindSegmentsFile *fsf);
 
 /* A segments file which was written completely is a commit. If it can be read
- * but the files of its segments can't then that's no reason to go back to the
- * commit before it. */
+ * but the files of its segments can't, or if we failed to read it at all, then
+ * that's no reason to go back to the commit before it. */
 static bool sis_is_complete(Store *store, i64 generation)
 {
     FindSegmentsFile fsf;
+    volatile bool complete = true;
     fsf.generation = generation;
     fsf.ret.sis = NULL;
     TRY
         sis_read_i(store, &fsf);
+        sis_destroy(fsf.ret.sis);
+        break;
+    case FILE_NOT_FOUND_ERROR: case EOF_ERROR:
+        HANDLED();
+        complete = false;
     XCATCHALL
         HANDLED();
-        fsf.ret.sis = NULL;
     XENDTRY
-    if (NULL == fsf.ret.sis) {
-        return false;
-    }
-    sis_destroy(fsf.ret.sis);
-    return true;
+    return complete;
 }
 
 /* An error raised in an exception handler would start that same handler again,
-- 
2.43.0


From b0b38751f7c6af7fc974fb4a31699c796325e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:33 +0000
Subject: [PATCH 37/59] fix: adding an index left its and the new segment's
 files open when copying failed

---
 c/src/index.c | 248 ++++++++++++++++++++++++--------------------------
 1 file changed, 119 insertions(+), 129 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 440715d..94dd831 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6725,158 +6725,145 @@ static void iw_cp_fields(IndexWriter *iw, SegmentReader *sr,
 {
     const char *segment = si->name;
     char file_name[SEGMENT_NAME_MAX_LENGTH];
-    OutStream *fdt_out, *fdx_out;
-    InStream *fdt_in, *fdx_in;
+    OutStream *volatile fdt_out = NULL;
+    OutStream *volatile fdx_out = NULL;
+    InStream *volatile fdt_in = NULL;
+    InStream *volatile fdx_in = NULL;
     Store *store_in = sr->cfs_store ? sr->cfs_store : sr->ir.store;
     Store *store_out = iw->store;
     char *sr_segment = sr->si->name;
 
-    sprintf(file_name, "%s.fdt", segment);
-    fdt_out = store_out->new_output(store_out, file_name);
-    sprintf(file_name, "%s.fdx", segment);
-    fdx_out = store_out->new_output(store_out, file_name);
+    TRY
+        sprintf(file_name, "%s.fdt", segment);
+        fdt_out = store_out->new_output(store_out, file_name);
+        sprintf(file_name, "%s.fdx", segment);
+        fdx_out = store_out->new_output(store_out, file_name);
 
-    sprintf(file_name, "%s.fdt", sr_segment);
-    fdt_in = store_in->open_input(store_in, file_name);
-    sprintf(file_name, "%s.fdx", sr_segment);
-    fdx_in = store_in->open_input(store_in, file_name);
+        sprintf(file_name, "%s.fdt", sr_segment);
+        fdt_in = store_in->open_input(store_in, file_name);
+        sprintf(file_name, "%s.fdx", sr_segment);
+        fdx_in = store_in->open_input(store_in, file_name);
 
-    if (sr->deleted_docs && sr->deleted_docs->count > 0) {
-        si->del_gen = 0;
-        fn_for_generation(file_name, segment, "del", si->del_gen);
-        bv_write(sr->deleted_docs, store_out, file_name);
-    }
+        if (sr->deleted_docs && sr->deleted_docs->count > 0) {
+            si->del_gen = 0;
+            fn_for_generation(file_name, segment, "del", si->del_gen);
+            bv_write(sr->deleted_docs, store_out, file_name);
+        }
 
-    if (map) {
-        int i;
-        const int max_doc = sr_max_doc(IR(sr));
-        for (i = 0; i < max_doc; i++) {
-            int j, data_len = 0;
-            const int field_cnt = is_read_vint(fdt_in);
-            int tv_cnt;
-            off_t doc_start_ptr = os_pos(fdt_out);
-
-            os_write_u64(fdx_out, doc_start_ptr);
-            os_write_vint(fdt_out, field_cnt);
-
-            for (j = 0; j < field_cnt; j++) {
-                int k;
-                const int field_num = map[is_read_vint(fdt_in)];
-                const int df_size = is_read_vint(fdt_in);
-                os_write_vint(fdt_out, field_num);
-                os_write_vint(fdt_out, df_size);
-                /* sum total lengths of DocField */
-                for (k = 0; k < df_size; k++) {
-                    /* Each field has one ' ' byte so add 1 */
-                    const int flen = is_read_vint(fdt_in);
-                    os_write_vint(fdt_out, flen);
-                    data_len +=  flen + 1;
+        if (map) {
+            int i;
+            const int max_doc = sr_max_doc(IR(sr));
+            for (i = 0; i < max_doc; i++) {
+                int j, data_len = 0;
+                const int field_cnt = is_read_vint(fdt_in);
+                int tv_cnt;
+                off_t doc_start_ptr = os_pos(fdt_out);
+
+                os_write_u64(fdx_out, doc_start_ptr);
+                os_write_vint(fdt_out, field_cnt);
+
+                for (j = 0; j < field_cnt; j++) {
+                    int k;
+                    const int field_num = map[is_read_vint(fdt_in)];
+                    const int df_size = is_read_vint(fdt_in);
+                    os_write_vint(fdt_out, field_num);
+                    os_write_vint(fdt_out, df_size);
+                    /* sum total lengths of DocField */
+                    for (k = 0; k < df_size; k++) {
+                        /* Each field has one ' ' byte so add 1 */
+                        const int flen = is_read_vint(fdt_in);
+                        os_write_vint(fdt_out, flen);
+                        data_len +=  flen + 1;
+                    }
+                }
+                is2os_copy_bytes(fdt_in, fdt_out, data_len);
+
+                /* Write TermVectors */
+                /* write TVs up to TV index */
+                is2os_copy_bytes(fdt_in, fdt_out,
+                                 (int)(is_read_u64(fdx_in)
+                                       + (u64)is_read_u32(fdx_in)
+                                       - (u64)is_pos(fdt_in)));
+
+                /* Write TV index pos */
+                os_write_u32(fdx_out, (u32)(os_pos(fdt_out) - doc_start_ptr));
+                tv_cnt = is_read_vint(fdt_in);
+                os_write_vint(fdt_out, tv_cnt);
+                for (j = 0; j < tv_cnt; j++) {
+                    const int field_num = map[is_read_vint(fdt_in)];
+                    const int tv_size = is_read_vint(fdt_in);
+                    os_write_vint(fdt_out, field_num);
+                    os_write_vint(fdt_out, tv_size);
                 }
             }
-            is2os_copy_bytes(fdt_in, fdt_out, data_len);
-
-            /* Write TermVectors */
-            /* write TVs up to TV index */
-            is2os_copy_bytes(fdt_in, fdt_out,
-                             (int)(is_read_u64(fdx_in)
-                                   + (u64)is_read_u32(fdx_in)
-                                   - (u64)is_pos(fdt_in)));
-
-            /* Write TV index pos */
-            os_write_u32(fdx_out, (u32)(os_pos(fdt_out) - doc_start_ptr));
-            tv_cnt = is_read_vint(fdt_in);
-            os_write_vint(fdt_out, tv_cnt);
-            for (j = 0; j < tv_cnt; j++) {
-                const int field_num = map[is_read_vint(fdt_in)];
-                const int tv_size = is_read_vint(fdt_in);
-                os_write_vint(fdt_out, field_num);
-                os_write_vint(fdt_out, tv_size);
+        }
+        else {
+            is2os_copy_bytes(fdt_in, fdt_out, is_length(fdt_in));
+            is2os_copy_bytes(fdx_in, fdx_out, is_length(fdx_in));
+        }
+    XFINALLY
+        if (fdt_in)  is_close(fdt_in);
+        if (fdx_in)  is_close(fdx_in);
+        if (fdt_out) os_close(fdt_out);
+        if (fdx_out) os_close(fdx_out);
+    XENDTRY
+}
+
+static void iw_cp_file(Store *store_in, const char *segment_in,
+                       Store *store_out, const char *segment_out,
+                       const char *ext, int *map)
+{
+    char file_name[SEGMENT_NAME_MAX_LENGTH];
+    OutStream *os;
+    InStream *volatile is = NULL;
+
+    sprintf(file_name, "%s.%s", segment_out, ext);
+    os = store_out->new_output(store_out, file_name);
+    TRY
+        sprintf(file_name, "%s.%s", segment_in, ext);
+        is = store_in->open_input(store_in, file_name);
+
+        if (map) {
+            int field_cnt = is_read_u32(is);
+            os_write_u32(os, field_cnt);
+            os_write_vint(os, is_read_vint(is));            /* index_interval */
+            os_write_vint(os, is_read_vint(is));            /* skip_interval */
+
+            for (; field_cnt > 0; field_cnt--) {
+                os_write_vint(os, map[is_read_vint(is)]);   /* mapped field */
+                os_write_voff_t(os, is_read_voff_t(is));    /* index ptr */
+                os_write_voff_t(os, is_read_voff_t(is));    /* dict ptr */
+                os_write_vint(os, is_read_vint(is));        /* index size */
+                os_write_vint(os, is_read_vint(is));        /* dict size */
             }
         }
-    }
-    else {
-        is2os_copy_bytes(fdt_in, fdt_out, is_length(fdt_in));
-        is2os_copy_bytes(fdx_in, fdx_out, is_length(fdx_in));
-    }
-    is_close(fdt_in);
-    is_close(fdx_in);
-    os_close(fdt_out);
-    os_close(fdx_out);
+        else {
+            is2os_copy_bytes(is, os, is_length(is));
+        }
+    XFINALLY
+        if (is) is_close(is);
+        os_close(os);
+    XENDTRY
 }
 
 static void iw_cp_terms(IndexWriter *iw, SegmentReader *sr,
                         const char *segment, int *map)
 {
-    char file_name[SEGMENT_NAME_MAX_LENGTH];
-    OutStream *tix_out, *tis_out, *tfx_out, *frq_out, *prx_out;
-    InStream *tix_in, *tis_in, *tfx_in, *frq_in, *prx_in;
     Store *store_out = iw->store;
     Store *store_in = sr->cfs_store ? sr->cfs_store : sr->ir.store;
     char *sr_segment = sr->si->name;
 
-    sprintf(file_name, "%s.tix", segment);
-    tix_out = store_out->new_output(store_out, file_name);
-    sprintf(file_name, "%s.tix", sr_segment);
-    tix_in = store_in->open_input(store_in, file_name);
-
-    sprintf(file_name, "%s.tis", segment);
-    tis_out = store_out->new_output(store_out, file_name);
-    sprintf(file_name, "%s.tis", sr_segment);
-    tis_in = store_in->open_input(store_in, file_name);
-
-    sprintf(file_name, "%s.tfx", segment);
-    tfx_out = store_out->new_output(store_out, file_name);
-    sprintf(file_name, "%s.tfx", sr_segment);
-    tfx_in = store_in->open_input(store_in, file_name);
-
-    sprintf(file_name, "%s.frq", segment);
-    frq_out = store_out->new_output(store_out, file_name);
-    sprintf(file_name, "%s.frq", sr_segment);
-    frq_in = store_in->open_input(store_in, file_name);
-
-    sprintf(file_name, "%s.prx", segment);
-    prx_out = store_out->new_output(store_out, file_name);
-    sprintf(file_name, "%s.prx", sr_segment);
-    prx_in = store_in->open_input(store_in, file_name);
-
-    if (map) {
-        int field_cnt = is_read_u32(tfx_in);
-        os_write_u32(tfx_out, field_cnt);
-        os_write_vint(tfx_out, is_read_vint(tfx_in)); /* index_interval */
-        os_write_vint(tfx_out, is_read_vint(tfx_in)); /* skip_interval */
-
-        for (; field_cnt > 0; field_cnt--) {
-            os_write_vint(tfx_out, map[is_read_vint(tfx_in)]);/* mapped field */
-            os_write_voff_t(tfx_out, is_read_voff_t(tfx_in)); /* index ptr */
-            os_write_voff_t(tfx_out, is_read_voff_t(tfx_in)); /* dict ptr */
-            os_write_vint(tfx_out, is_read_vint(tfx_in));     /* index size */
-            os_write_vint(tfx_out, is_read_vint(tfx_in));     /* dict size */
-        }
-    }
-    else {
-        is2os_copy_bytes(tfx_in, tfx_out, is_length(tfx_in));
-    }
-    is2os_copy_bytes(tix_in, tix_out, is_length(tix_in));
-    is2os_copy_bytes(tis_in, tis_out, is_length(tis_in));
-    is2os_copy_bytes(frq_in, frq_out, is_length(frq_in));
-    is2os_copy_bytes(prx_in, prx_out, is_length(prx_in));
-
-    is_close(tix_in);
-    os_close(tix_out);
-    is_close(tis_in);
-    os_close(tis_out);
-    is_close(tfx_in);
-    os_close(tfx_out);
-    is_close(frq_in);
-    os_close(frq_out);
-    is_close(prx_in);
-    os_close(prx_out);
+    iw_cp_file(store_in, sr_segment, store_out, segment, "tfx", map);
+    iw_cp_file(store_in, sr_segment, store_out, segment, "tix", NULL);
+    iw_cp_file(store_in, sr_segment, store_out, segment, "tis", NULL);
+    iw_cp_file(store_in, sr_segment, store_out, segment, "frq", NULL);
+    iw_cp_file(store_in, sr_segment, store_out, segment, "prx", NULL);
 }
 
 static void iw_cp_norms(IndexWriter *iw, SegmentReader *sr,
                         SegmentInfo *si, int *map)
 {
-    int i;
+    volatile int i;
     FieldInfos *fis = IR(sr)->fis;
     const int field_cnt = fis->size;
     OutStream *norms_out;
@@ -6894,8 +6881,11 @@ static void iw_cp_norms(IndexWriter *iw, SegmentReader *sr,
             si_advance_norm_gen(si, field_num);
             si_norm_file_name(si, file_name_out, field_num);
             norms_out = store_out->new_output(store_out, file_name_out);
-            os_write_bytes(norms_out, norms, IR(sr)->max_doc(IR(sr)));
-            os_close(norms_out);
+            TRY
+                os_write_bytes(norms_out, norms, IR(sr)->max_doc(IR(sr)));
+            XFINALLY
+                os_close(norms_out);
+            XENDTRY
         }
     }
 }
-- 
2.43.0


From b47e9ca694580d5bf50c291fd9375a3c975aaac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:33 +0000
Subject: [PATCH 38/59] fix: deleting by term left the segment's files open
 when it failed

---
 c/src/index.c | 58 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 94dd831..1ed3fe9 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6526,6 +6526,34 @@ void iw_commit(IndexWriter *iw)
     IW_END_CHANGE(iw)
 }
 
+static bool iw_delete_terms_from(IndexWriter *iw, int seg_num, int field_num,
+                                 char **terms, const int term_cnt)
+{
+    volatile bool did_delete = false;
+    TermDocEnum *volatile tde = NULL;
+    IndexReader *ir = sr_open(iw->sis, iw->fis, seg_num, false);
+    TRY
+    {
+        int j;
+        tde = ir->term_docs(ir);
+        ir->deleter = iw->deleter;
+        for (j = 0 ; j < term_cnt; j++) {
+            stde_seek(tde, field_num, terms[j]);
+            while (tde->next(tde)) {
+                did_delete = true;
+                sr_delete_doc_i(ir, STDE(tde)->doc_num);
+            }
+        }
+        sr_commit_i(ir);
+    }
+    XFINALLY
+        ir->has_changes = false; /* committed already or not to be committed */
+        if (tde) tde_destroy(tde);
+        ir_close(ir);
+    XENDTRY
+    return did_delete;
+}
+
 void iw_delete_term(IndexWriter *iw, Symbol field, const char *term)
 {
     int field_num = fis_get_field_num(iw->fis, field);
@@ -6538,17 +6566,8 @@ void iw_delete_term(IndexWriter *iw, Symbol field, const char *term)
             const int seg_cnt = sis->size;
             bool did_delete = false;
             for (i = 0; i < seg_cnt; i++) {
-                IndexReader *ir = sr_open(sis, iw->fis, i, false);
-                TermDocEnum *tde = ir->term_docs(ir);
-                ir->deleter = iw->deleter;
-                stde_seek(tde, field_num, term);
-                while (tde->next(tde)) {
-                    did_delete = true;
-                    sr_delete_doc_i(ir, STDE(tde)->doc_num);
-                }
-                tde_destroy(tde);
-                sr_commit_i(ir);
-                ir_close(ir);
+                did_delete |= iw_delete_terms_from(iw, i, field_num,
+                                                   (char **)&term, 1);
             }
             if (did_delete) {
                 mutex_lock(&iw->store->mutex);
@@ -6577,21 +6596,8 @@ void iw_delete_terms(IndexWriter *iw, Symbol field,
             const int seg_cnt = sis->size;
             bool did_delete = false;
             for (i = 0; i < seg_cnt; i++) {
-                IndexReader *ir = sr_open(sis, iw->fis, i, false);
-                TermDocEnum *tde = ir->term_docs(ir);
-                int j;
-                for (j = 0 ; j < term_cnt; j++) {
-                    const char *term = terms[j];
-                    ir->deleter = iw->deleter;
-                    stde_seek(tde, field_num, term);
-                    while (tde->next(tde)) {
-                        did_delete = true;
-                        sr_delete_doc_i(ir, STDE(tde)->doc_num);
-                    }
-                }
-                tde_destroy(tde);
-                sr_commit_i(ir);
-                ir_close(ir);
+                did_delete |= iw_delete_terms_from(iw, i, field_num,
+                                                   terms, term_cnt);
             }
             if (did_delete) {
                 mutex_lock(&iw->store->mutex);
-- 
2.43.0


From 6fa958a07a4fc845cfbd620267d79e1dd7543dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:33 +0000
Subject: [PATCH 39/59] fix: a failed merge left the files it was reading and
 writing open

---
 c/src/compound_io.c | 106 ++++++------
 c/src/index.c       | 388 ++++++++++++++++++++++++--------------------
 2 files changed, 268 insertions(+), 226 deletions(-)

diff --git a/c/src/compound_io.c b/c/src/compound_io.c
index 10624a3..79760af 100644
--- a/c/src/compound_io.c
+++ b/c/src/compound_io.c
@@ -244,17 +244,17 @@ Store *open_cmpd_store(Store *store, const char *name)
             entry->offset = offset;
             h_set(cmpd->entries, fname, entry);
         }
+
+        /* set the length of the final entry */
+        if (entry != NULL) {
+            entry->length = is_length(is) - entry->offset;
+        }
     XCATCHALL
         if (is) is_close(is);
         if (cmpd->entries) h_destroy(cmpd->entries);
         free(cmpd);
     XENDTRY
 
-    /* set the length of the final entry */
-    if (entry != NULL) {
-        entry->length = is_length(is) - entry->offset;
-    }
-
     new_store               = store_new();
     new_store->dir.cmpd     = cmpd;
     new_store->touch        = &cmpd_touch;
@@ -311,32 +311,34 @@ static void cw_copy_file(CompoundWriter *cw, CWFileEntry *src, OutStream *os)
 
     InStream *is = cw->store->open_input(cw->store, src->name);
 
-    remainder = length = is_length(is);
-
-    while (remainder > 0) {
-        len = MIN(remainder, BUFFER_SIZE);
-        is_read_bytes(is, buffer, len);
-        os_write_bytes(os, buffer, len);
-        remainder -= len;
-    }
+    TRY
+        remainder = length = is_length(is);
 
-    /* Verify that remainder is 0 */
-    if (remainder != 0) {
-        RAISE(IO_ERROR, "There seems to be an error in the compound file "
-              "should have read to the end but there are <%"OFF_T_PFX"d> "
-              "bytes left", remainder);
-    }
+        while (remainder > 0) {
+            len = MIN(remainder, BUFFER_SIZE);
+            is_read_bytes(is, buffer, len);
+            os_write_bytes(os, buffer, len);
+            remainder -= len;
+        }
 
-    /* Verify that the output length diff is equal to original file */
-    end_ptr = os_pos(os);
-    len = end_ptr - start_ptr;
-    if (len != length) {
-        RAISE(IO_ERROR, "Difference in compound file output file offsets "
-              "<%"OFF_T_PFX"d> does not match the original file lenght "
-              "<%"OFF_T_PFX"d>", len, length);
-    }
+        /* Verify that remainder is 0 */
+        if (remainder != 0) {
+            RAISE(IO_ERROR, "There seems to be an error in the compound file "
+                  "should have read to the end but there are <%"OFF_T_PFX"d> "
+                  "bytes left", remainder);
+        }
 
-    is_close(is);
+        /* Verify that the output length diff is equal to original file */
+        end_ptr = os_pos(os);
+        len = end_ptr - start_ptr;
+        if (len != length) {
+            RAISE(IO_ERROR, "Difference in compound file output file offsets "
+                  "<%"OFF_T_PFX"d> does not match the original file lenght "
+                  "<%"OFF_T_PFX"d>", len, length);
+        }
+    XFINALLY
+        is_close(is);
+    XENDTRY
 }
 
 void cw_close(CompoundWriter *cw)
@@ -350,33 +352,33 @@ void cw_close(CompoundWriter *cw)
 
     os = cw->store->new_output(cw->store, cw->name);
 
-    os_write_vint(os, ary_size(cw->file_entries));
-
-    /* Write the directory with all offsets at 0.
-     * Remember the positions of directory entries so that we can adjust the
-     * offsets later */
-    for (i = 0; i < ary_size(cw->file_entries); i++) {
-        cw->file_entries[i].dir_offset = os_pos(os);
-        os_write_u64(os, 0);  /* for now */
-        os_write_string(os, cw->file_entries[i].name);
-    }
-
-    /* Open the files and copy their data into the stream.  Remember the
-     * locations of each file's data section. */
-    for (i = 0; i < ary_size(cw->file_entries); i++) {
-        cw->file_entries[i].data_offset = os_pos(os);
-        cw_copy_file(cw, &cw->file_entries[i], os);
-    }
+    TRY
+        os_write_vint(os, ary_size(cw->file_entries));
+
+        /* Write the directory with all offsets at 0.
+         * Remember the positions of directory entries so that we can adjust the
+         * offsets later */
+        for (i = 0; i < ary_size(cw->file_entries); i++) {
+            cw->file_entries[i].dir_offset = os_pos(os);
+            os_write_u64(os, 0);  /* for now */
+            os_write_string(os, cw->file_entries[i].name);
+        }
 
-    /* Write the data offsets into the directory of the compound stream */
-    for (i = 0; i < ary_size(cw->file_entries); i++) {
-        os_seek(os, cw->file_entries[i].dir_offset);
-        os_write_u64(os, cw->file_entries[i].data_offset);
-    }
+        /* Open the files and copy their data into the stream.  Remember the
+         * locations of each file's data section. */
+        for (i = 0; i < ary_size(cw->file_entries); i++) {
+            cw->file_entries[i].data_offset = os_pos(os);
+            cw_copy_file(cw, &cw->file_entries[i], os);
+        }
 
-    if (os) {
+        /* Write the data offsets into the directory of the compound stream */
+        for (i = 0; i < ary_size(cw->file_entries); i++) {
+            os_seek(os, cw->file_entries[i].dir_offset);
+            os_write_u64(os, cw->file_entries[i].data_offset);
+        }
+    XFINALLY
         os_close(os);
-    }
+    XENDTRY
 
     hs_destroy(cw->ids);
     ary_free(cw->file_entries);
diff --git a/c/src/index.c b/c/src/index.c
index 1ed3fe9..afc29c9 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -5868,29 +5868,45 @@ static void smi_load_doc_map(SegmentMergeInfo *smi)
     smi->doc_cnt = j;
 }
 
+static void smi_destroy(SegmentMergeInfo *smi)
+{
+    if (smi->store != smi->orig_store) {
+        store_deref(smi->store);
+    }
+    if (smi->deleted_docs) {
+        bv_destroy(smi->deleted_docs);
+        free(smi->doc_map);
+    }
+    free(smi);
+}
+
 static SegmentMergeInfo *smi_new(int base, Store *store, SegmentInfo *si)
 {
-    SegmentMergeInfo *smi = ALLOC_AND_ZERO(SegmentMergeInfo);
+    SegmentMergeInfo *volatile smi = ALLOC_AND_ZERO(SegmentMergeInfo);
     char file_name[SEGMENT_NAME_MAX_LENGTH];
     char *segment = si->name;
     smi->base = base;
     smi->si = si;
     smi->orig_store = smi->store = store;
-    sprintf(file_name, "%s.cfs", segment);
-    if (store->exists(store, file_name)) {
-        smi->store = open_cmpd_store(store, file_name);
-    }
+    TRY
+        sprintf(file_name, "%s.cfs", segment);
+        if (store->exists(store, file_name)) {
+            smi->store = open_cmpd_store(store, file_name);
+        }
 
 
-    sprintf(file_name, "%s.fdx", segment);
-    smi->doc_cnt = smi->max_doc
-        = smi->store->length(smi->store, file_name) / FIELDS_IDX_PTR_SIZE;
+        sprintf(file_name, "%s.fdx", segment);
+        smi->doc_cnt = smi->max_doc
+            = smi->store->length(smi->store, file_name) / FIELDS_IDX_PTR_SIZE;
 
-    if (si->del_gen >= 0) {
-        fn_for_generation(file_name, segment, "del", si->del_gen);
-        smi->deleted_docs = bv_read(store, file_name);
-        smi_load_doc_map(smi);
-    }
+        if (si->del_gen >= 0) {
+            fn_for_generation(file_name, segment, "del", si->del_gen);
+            smi->deleted_docs = bv_read(store, file_name);
+            smi_load_doc_map(smi);
+        }
+    XCATCHALL
+        smi_destroy(smi);
+    XENDTRY
     return smi;
 }
 
@@ -5912,23 +5928,11 @@ static void smi_load_term_input(SegmentMergeInfo *smi)
 
 static void smi_close_term_input(SegmentMergeInfo *smi)
 {
-    ste_close(smi->te);
-    sfi_close(smi->sfi);
-    stpe_close(smi->tde);
-    is_close(smi->frq_in);
-    is_close(smi->prx_in);
-}
-
-static void smi_destroy(SegmentMergeInfo *smi)
-{
-    if (smi->store != smi->orig_store) {
-        store_deref(smi->store);
-    }
-    if (smi->deleted_docs) {
-        bv_destroy(smi->deleted_docs);
-        free(smi->doc_map);
-    }
-    free(smi);
+    if (smi->te)     ste_close(smi->te);
+    if (smi->sfi)    sfi_close(smi->sfi);
+    if (smi->tde)    stpe_close(smi->tde);
+    if (smi->frq_in) is_close(smi->frq_in);
+    if (smi->prx_in) is_close(smi->prx_in);
 }
 
 static char *smi_next(SegmentMergeInfo *smi)
@@ -5959,58 +5963,54 @@ typedef struct SegmentMerger {
     OutStream *prx_out;
 } SegmentMerger;
 
+static void sm_destroy(SegmentMerger *sm)
+{
+    int i;
+    const int seg_cnt = sm->seg_cnt;
+    for (i = 0; i < seg_cnt; i++) {
+        smi_destroy(sm->smis[i]);
+    }
+    free(sm->smis);
+    free(sm);
+}
+
 static SegmentMerger *sm_create(IndexWriter *iw, SegmentInfo *si,
                                 SegmentInfo **seg_infos, const int seg_cnt)
 {
-    int i;
-    SegmentMerger *sm = ALLOC_AND_ZERO_N(SegmentMerger, seg_cnt);
+    SegmentMerger *volatile sm = ALLOC_AND_ZERO_N(SegmentMerger, seg_cnt);
     sm->store = iw->store;
     sm->fis = iw->fis;
     sm->si = si;
     sm->doc_cnt = 0;
     sm->smis = ALLOC_N(SegmentMergeInfo *, seg_cnt);
-    for (i = 0; i < seg_cnt; i++) {
-        sm->smis[i] = smi_new(sm->doc_cnt, seg_infos[i]->store,
-                              seg_infos[i]);
-        sm->doc_cnt += sm->smis[i]->doc_cnt;
-    }
-    sm->seg_cnt = seg_cnt;
+    TRY
+        while (sm->seg_cnt < seg_cnt) {
+            SegmentInfo *seg_info = seg_infos[sm->seg_cnt];
+            SegmentMergeInfo *smi = smi_new(sm->doc_cnt, seg_info->store,
+                                            seg_info);
+            sm->smis[sm->seg_cnt++] = smi;
+            sm->doc_cnt += smi->doc_cnt;
+        }
+    XCATCHALL
+        sm_destroy(sm);
+    XENDTRY
     sm->config = &iw->config;
     return sm;
 }
 
-static void sm_destroy(SegmentMerger *sm)
+static void sm_merge_segment_fields(SegmentMergeInfo *smi,
+                                    OutStream *fdt_out, OutStream *fdx_out)
 {
-    int i;
-    const int seg_cnt = sm->seg_cnt;
-    for (i = 0; i < seg_cnt; i++) {
-        smi_destroy(sm->smis[i]);
-    }
-    free(sm->smis);
-    free(sm);
-}
-
-static void sm_merge_fields(SegmentMerger *sm)
-{
-    int i, j;
+    int j;
     off_t start, end = 0;
     char file_name[SEGMENT_NAME_MAX_LENGTH];
-    OutStream *fdt_out, *fdx_out;
-    Store *store = sm->store;
-    const int seg_cnt = sm->seg_cnt;
-
-    sprintf(file_name, "%s.fdt", sm->si->name);
-    fdt_out = store->new_output(store, file_name);
-
-    sprintf(file_name, "%s.fdx", sm->si->name);
-    fdx_out = store->new_output(store, file_name);
+    const int max_doc = smi->max_doc;
+    InStream *volatile fdt_in = NULL;
+    InStream *volatile fdx_in = NULL;
+    char *segment = smi->si->name;
+    Store *store = smi->store;
 
-    for (i = 0; i < seg_cnt; i++) {
-        SegmentMergeInfo *smi = sm->smis[i];
-        const int max_doc = smi->max_doc;
-        InStream *fdt_in, *fdx_in;
-        char *segment = smi->si->name;
-        store = smi->store;
+    TRY
         sprintf(file_name, "%s.fdt", segment);
         fdt_in = store->open_input(store, file_name);
         sprintf(file_name, "%s.fdx", segment);
@@ -6036,11 +6036,35 @@ static void sm_merge_fields(SegmentMerger *sm)
                 is2os_copy_bytes(fdt_in, fdt_out, end - start);
             }
         }
-        is_close(fdt_in);
-        is_close(fdx_in);
-    }
-    os_close(fdt_out);
-    os_close(fdx_out);
+    XFINALLY
+        if (fdt_in) is_close(fdt_in);
+        if (fdx_in) is_close(fdx_in);
+    XENDTRY
+}
+
+static void sm_merge_fields(SegmentMerger *sm)
+{
+    int i;
+    char file_name[SEGMENT_NAME_MAX_LENGTH];
+    OutStream *volatile fdt_out = NULL;
+    OutStream *volatile fdx_out = NULL;
+    Store *store = sm->store;
+    const int seg_cnt = sm->seg_cnt;
+
+    TRY
+        sprintf(file_name, "%s.fdt", sm->si->name);
+        fdt_out = store->new_output(store, file_name);
+
+        sprintf(file_name, "%s.fdx", sm->si->name);
+        fdx_out = store->new_output(store, file_name);
+
+        for (i = 0; i < seg_cnt; i++) {
+            sm_merge_segment_fields(sm->smis[i], fdt_out, fdx_out);
+        }
+    XFINALLY
+        if (fdt_out) os_close(fdt_out);
+        if (fdx_out) os_close(fdx_out);
+    XENDTRY
 }
 
 static int sm_append_postings(SegmentMerger *sm, SegmentMergeInfo **matches,
@@ -6139,137 +6163,149 @@ static void sm_merge_term_infos(SegmentMerger *sm)
 
     matches = ALLOC_N(SegmentMergeInfo *, seg_cnt);
 
-    for (j = 0; j < seg_cnt; j++) {
-        smi_load_term_input(sm->smis[j]);
-    }
-
-    for (i = 0; i < fis_size; i++) {
-        tiw_start_field(sm->tiw, i);
+    TRY
         for (j = 0; j < seg_cnt; j++) {
-            smi = sm->smis[j];
-            ste_set_field(smi->te, i);
-            if (NULL != smi_next(smi)) {
-                pq_push(sm->queue, smi); /* initialize @queue */
-            }
+            smi_load_term_input(sm->smis[j]);
         }
-        while (sm->queue->size > 0) {
-            /*
-               for (i = 1; i <= sm->queue->count; i++) {
-               printf("<{%s:%s}>", ((SegmentMergeInfo *)sm->queue->heap[i])->tb->field,
-               ((SegmentMergeInfo *)sm->queue->heap[i])->tb->text);
-               }printf("\n\n");
-               */
-            match_size = 0;     /* pop matching terms */
-            matches[0] = (SegmentMergeInfo *)pq_pop(sm->queue);
-            match_size++;
-            term = matches[0]->term;
-            top = (SegmentMergeInfo *)pq_top(sm->queue);
-            while ((NULL != top) && (0 == strcmp(term, top->term))) {
-                matches[match_size] = (SegmentMergeInfo *)pq_pop(sm->queue);
+
+        for (i = 0; i < fis_size; i++) {
+            tiw_start_field(sm->tiw, i);
+            for (j = 0; j < seg_cnt; j++) {
+                smi = sm->smis[j];
+                ste_set_field(smi->te, i);
+                if (NULL != smi_next(smi)) {
+                    pq_push(sm->queue, smi); /* initialize @queue */
+                }
+            }
+            while (sm->queue->size > 0) {
+                /*
+                   for (i = 1; i <= sm->queue->count; i++) {
+                   printf("<{%s:%s}>", ((SegmentMergeInfo *)sm->queue->heap[i])->tb->field,
+                   ((SegmentMergeInfo *)sm->queue->heap[i])->tb->text);
+                   }printf("\n\n");
+                   */
+                match_size = 0;     /* pop matching terms */
+                matches[0] = (SegmentMergeInfo *)pq_pop(sm->queue);
                 match_size++;
+                term = matches[0]->term;
                 top = (SegmentMergeInfo *)pq_top(sm->queue);
-            }
+                while ((NULL != top) && (0 == strcmp(term, top->term))) {
+                    matches[match_size] = (SegmentMergeInfo *)pq_pop(sm->queue);
+                    match_size++;
+                    top = (SegmentMergeInfo *)pq_top(sm->queue);
+                }
 
-            /* printf(">%s:%s<\n", matches[0]->tb->field, matches[0]->tb->text); */
-            sm_merge_term_info(sm, matches, match_size);/* add new TermInfo */
+                /* printf(">%s:%s<\n", matches[0]->tb->field, matches[0]->tb->text); */
+                sm_merge_term_info(sm, matches, match_size);/* add new TermInfo */
 
-            while (match_size > 0) {
-                match_size--;
-                smi = matches[match_size];
-                if (NULL != smi_next(smi)) {
-                    pq_push(sm->queue, smi);   /* restore queue */
+                while (match_size > 0) {
+                    match_size--;
+                    smi = matches[match_size];
+                    if (NULL != smi_next(smi)) {
+                        pq_push(sm->queue, smi);   /* restore queue */
+                    }
                 }
             }
         }
-    }
-    free(matches);
-    for (j = 0; j < seg_cnt; j++) {
-        smi_close_term_input(sm->smis[j]);
-    }
+    XFINALLY
+        free(matches);
+        for (j = 0; j < seg_cnt; j++) {
+            smi_close_term_input(sm->smis[j]);
+        }
+    XENDTRY
 }
 
 static void sm_merge_terms(SegmentMerger *sm)
 {
     char file_name[SEGMENT_NAME_MAX_LENGTH];
 
-    sprintf(file_name, "%s.frq", sm->si->name);
-    sm->frq_out = sm->store->new_output(sm->store, file_name);
-    sprintf(file_name, "%s.prx", sm->si->name);
-    sm->prx_out = sm->store->new_output(sm->store, file_name);
-
-    sm->tiw = tiw_open(sm->store, sm->si->name, sm->config->index_interval,
-                       sm->config->skip_interval);
-    sm->skip_buf = skip_buf_new(sm->frq_out, sm->prx_out);
+    TRY
+        sprintf(file_name, "%s.frq", sm->si->name);
+        sm->frq_out = sm->store->new_output(sm->store, file_name);
+        sprintf(file_name, "%s.prx", sm->si->name);
+        sm->prx_out = sm->store->new_output(sm->store, file_name);
+
+        sm->tiw = tiw_open(sm->store, sm->si->name, sm->config->index_interval,
+                           sm->config->skip_interval);
+        sm->skip_buf = skip_buf_new(sm->frq_out, sm->prx_out);
+
+        /* terms_buf_ptr holds a buffer of terms since the TermInfosWriter needs
+         * to keep the last index_interval terms so that it can compare the last
+         * term put in the index with the next one. So the size of the buffer must
+         * by index_interval + 2. */
+        sm->term_buf_ptr = 0;
+        sm->term_buf_size = (sm->config->index_interval + 2) * MAX_WORD_SIZE;
+        sm->term_buf = ALLOC_N(char, sm->term_buf_size + MAX_WORD_SIZE);
 
-    /* terms_buf_ptr holds a buffer of terms since the TermInfosWriter needs
-     * to keep the last index_interval terms so that it can compare the last
-     * term put in the index with the next one. So the size of the buffer must
-     * by index_interval + 2. */
-    sm->term_buf_ptr = 0;
-    sm->term_buf_size = (sm->config->index_interval + 2) * MAX_WORD_SIZE;
-    sm->term_buf = ALLOC_N(char, sm->term_buf_size + MAX_WORD_SIZE);
+        sm->queue = pq_new(sm->seg_cnt, (lt_ft)&smi_lt, NULL);
 
-    sm->queue = pq_new(sm->seg_cnt, (lt_ft)&smi_lt, NULL);
+        sm_merge_term_infos(sm);
+    XFINALLY
+        if (sm->frq_out)  os_close(sm->frq_out);
+        if (sm->prx_out)  os_close(sm->prx_out);
+        if (sm->tiw)      tiw_close(sm->tiw);
+        if (sm->queue)    pq_destroy(sm->queue);
+        if (sm->skip_buf) skip_buf_destroy(sm->skip_buf);
+        free(sm->term_buf);
+    XENDTRY
+}
 
-    sm_merge_term_infos(sm);
+static void sm_merge_segment_norms(SegmentMergeInfo *smi, int field_num,
+                                   OutStream *os)
+{
+    int k;
+    char file_name[SEGMENT_NAME_MAX_LENGTH];
+    SegmentInfo *si = smi->si;
 
-    os_close(sm->frq_out);
-    os_close(sm->prx_out);
-    tiw_close(sm->tiw);
-    pq_destroy(sm->queue);
-    skip_buf_destroy(sm->skip_buf);
-    free(sm->term_buf);
+    if (si_norm_file_name(si, file_name, field_num)) {
+        const int max_doc = smi->max_doc;
+        BitVector *deleted_docs =  smi->deleted_docs;
+        Store *store = (si->use_compound_file && si->norm_gens[field_num])
+                       ? smi->orig_store : smi->store;
+        InStream *is = store->open_input(store, file_name);
+        TRY
+            if (deleted_docs) {
+                for (k = 0; k < max_doc; k++) {
+                    uchar byte = is_read_byte(is);
+                    if (!bv_get(deleted_docs, k)) {
+                        os_write_byte(os, byte);
+                    }
+                }
+            }
+            else {
+                is2os_copy_bytes(is, os, max_doc);
+            }
+        XFINALLY
+            is_close(is);
+        XENDTRY
+    }
+    else {
+        const int doc_cnt = smi->doc_cnt;
+        for (k = 0; k < doc_cnt; k++) {
+            os_write_byte(os, '\0');
+        }
+    }
 }
 
 static void sm_merge_norms(SegmentMerger *sm)
 {
-    SegmentInfo *si;
-    int i, j, k;
-    Store *store;
-    uchar byte;
-    FieldInfo *fi;
+    volatile int i;
+    int j;
     OutStream *os;
-    InStream *is;
     char file_name[SEGMENT_NAME_MAX_LENGTH];
-    SegmentMergeInfo *smi;
     const int seg_cnt = sm->seg_cnt;
     for (i = sm->fis->size - 1; i >= 0; i--) {
-        fi = sm->fis->fields[i];
-        if (fi_has_norms(fi))  {
-            si = sm->si;
-            si_advance_norm_gen(si, i);
-            si_norm_file_name(si, file_name, i);
+        if (fi_has_norms(sm->fis->fields[i]))  {
+            si_advance_norm_gen(sm->si, i);
+            si_norm_file_name(sm->si, file_name, i);
             os = sm->store->new_output(sm->store, file_name);
-            for (j = 0; j < seg_cnt; j++) {
-                smi = sm->smis[j];
-                si = smi->si;
-                if (si_norm_file_name(si, file_name, i)) {
-                    const int max_doc = smi->max_doc;
-                    BitVector *deleted_docs =  smi->deleted_docs;
-                    store = (si->use_compound_file && si->norm_gens[i])
-                             ? smi->orig_store : smi->store;
-                    is = store->open_input(store, file_name);
-                    if (deleted_docs) {
-                        for (k = 0; k < max_doc; k++) {
-                            byte = is_read_byte(is);
-                            if (!bv_get(deleted_docs, k)) {
-                                os_write_byte(os, byte);
-                            }
-                        }
-                    }
-                    else {
-                        is2os_copy_bytes(is, os, max_doc);
-                    }
-                    is_close(is);
-                }
-                else {
-                    const int doc_cnt = smi->doc_cnt;
-                    for (k = 0; k < doc_cnt; k++) {
-                        os_write_byte(os, '\0');
-                    }
+            TRY
+                for (j = 0; j < seg_cnt; j++) {
+                    sm_merge_segment_norms(sm->smis[j], i, os);
                 }
-            }
-            os_close(os);
+            XFINALLY
+                os_close(os);
+            XENDTRY
         }
     }
 }
@@ -6387,7 +6423,11 @@ static void iw_merge_segments(IndexWriter *iw, const int min_seg,
                                       max_seg - min_seg);
 
     /* This is where all the action happens. */
-    si->doc_cnt = sm_merge(merger);
+    TRY
+        si->doc_cnt = sm_merge(merger);
+    XCATCHALL
+        sm_destroy(merger);
+    XENDTRY
 
     mutex_lock(&iw->store->mutex);
     TRY
-- 
2.43.0


From 5dc1930381dcab939f925678acc07da69a34cdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:33 +0000
Subject: [PATCH 40/59] fix: a failed flush or commit left the files it was
 writing open

---
 c/src/index.c | 130 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 82 insertions(+), 48 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index afc29c9..0220b79 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1842,17 +1842,22 @@ TermVector *fr_get_field_tv(FieldsReader *fr, int doc_num, int field_num)
 
 FieldsWriter *fw_open(Store *store, const char *segment, FieldInfos *fis)
 {
-    FieldsWriter *fw = ALLOC(FieldsWriter);
+    FieldsWriter *fw = ALLOC_AND_ZERO(FieldsWriter);
     char file_name[SEGMENT_NAME_MAX_LENGTH];
     size_t segment_len = strlen(segment);
 
     memcpy(file_name, segment, segment_len);
 
-    strcpy(file_name + segment_len, ".fdt");
-    fw->fdt_out = store->new_output(store, file_name);
+    TRY
+        strcpy(file_name + segment_len, ".fdt");
+        fw->fdt_out = store->new_output(store, file_name);
 
-    strcpy(file_name + segment_len, ".fdx");
-    fw->fdx_out = store->new_output(store, file_name);
+        strcpy(file_name + segment_len, ".fdx");
+        fw->fdx_out = store->new_output(store, file_name);
+    XCATCHALL
+        if (fw->fdt_out) os_close(fw->fdt_out);
+        free(fw);
+    XENDTRY
 
     fw->buffer = ram_new_buffer();
 
@@ -2789,7 +2794,7 @@ TermInfosWriter *tiw_open(Store *store,
                           int skip_interval)
 {
     char file_name[SEGMENT_NAME_MAX_LENGTH];
-    TermInfosWriter *tiw = ALLOC(TermInfosWriter);
+    TermInfosWriter *tiw = ALLOC_AND_ZERO(TermInfosWriter);
     size_t segment_len = strlen(segment);
 
     memcpy(file_name, segment, segment_len);
@@ -2799,13 +2804,20 @@ TermInfosWriter *tiw_open(Store *store,
     tiw->skip_interval = skip_interval;
     tiw->last_index_ptr = 0;
 
-    strcpy(file_name + segment_len, ".tix");
-    tiw->tix_writer = tw_new(store, file_name);
-    strcpy(file_name + segment_len, ".tis");
-    tiw->tis_writer = tw_new(store, file_name);
-    strcpy(file_name + segment_len, ".tfx");
-    tiw->tfx_out = store->new_output(store, file_name);
-    os_write_u32(tiw->tfx_out, 0); /* make space for field_count */
+    TRY
+        strcpy(file_name + segment_len, ".tix");
+        tiw->tix_writer = tw_new(store, file_name);
+        strcpy(file_name + segment_len, ".tis");
+        tiw->tis_writer = tw_new(store, file_name);
+        strcpy(file_name + segment_len, ".tfx");
+        tiw->tfx_out = store->new_output(store, file_name);
+        os_write_u32(tiw->tfx_out, 0); /* make space for field_count */
+    XCATCHALL
+        if (tiw->tfx_out) os_close(tiw->tfx_out);
+        if (tiw->tis_writer) tw_close(tiw->tis_writer);
+        if (tiw->tix_writer) tw_close(tiw->tix_writer);
+        free(tiw);
+    XENDTRY
 
     /* The following two numbers are the first numbers written to the field
      * index when tiw_start_field is called. But they'll be zero to start with
@@ -2916,16 +2928,19 @@ void tiw_start_field(TermInfosWriter *tiw, int field_num)
 void tiw_close(TermInfosWriter *tiw)
 {
     OutStream *tfx_out = tiw->tfx_out;
-    os_write_vint(tfx_out, tiw->tix_writer->counter);
-    os_write_vint(tfx_out, tiw->tis_writer->counter);
-    os_seek(tfx_out, 0);
-    os_write_u32(tfx_out, tiw->field_count);
-    os_close(tfx_out);
+    TRY
+        os_write_vint(tfx_out, tiw->tix_writer->counter);
+        os_write_vint(tfx_out, tiw->tis_writer->counter);
+        os_seek(tfx_out, 0);
+        os_write_u32(tfx_out, tiw->field_count);
+    XFINALLY
+        os_close(tfx_out);
 
-    tw_close(tiw->tix_writer);
-    tw_close(tiw->tis_writer);
+        tw_close(tiw->tix_writer);
+        tw_close(tiw->tis_writer);
 
-    free(tiw);
+        free(tiw);
+    XENDTRY
 }
 
 /****************************************************************************
@@ -4324,8 +4339,11 @@ static void norm_rewrite(Norm *norm, Store *store, Deleter *dlr,
     si_advance_norm_gen(si, field_num);
     si_norm_file_name(si, norm_file_name, field_num);
     os = store->new_output(store, norm_file_name);
-    os_write_bytes(os, norm->bytes, doc_count);
-    os_close(os);
+    TRY
+        os_write_bytes(os, norm->bytes, doc_count);
+    XFINALLY
+        os_close(os);
+    XENDTRY
     norm->is_dirty = false;
 }
 
@@ -4452,11 +4470,14 @@ static void bv_write(BitVector *bv, Store *store, char *name)
 {
     int i;
     OutStream *os = store->new_output(store, name);
-    os_write_vint(os, bv->size);
-    for (i = ((bv->size-1) >> 5); i >= 0; i--) {
-        os_write_u32(os, bv->bits[i]);
-    }
-    os_close(os);
+    TRY
+        os_write_vint(os, bv->size);
+        for (i = ((bv->size-1) >> 5); i >= 0; i--) {
+            os_write_u32(os, bv->bits[i]);
+        }
+    XFINALLY
+        os_close(os);
+    XENDTRY
 }
 
 static BitVector *bv_read(Store *store, char *name)
@@ -5462,8 +5483,11 @@ static void dw_write_norms(DocWriter *dw, FieldInverter *fld_inv)
     si_advance_norm_gen(dw->si, fld_inv->fi->number);
     si_norm_file_name(dw->si, file_name, fld_inv->fi->number);
     norms_out = dw->store->new_output(dw->store, file_name);
-    os_write_bytes(norms_out, fld_inv->norms, dw->doc_num);
-    os_close(norms_out);
+    TRY
+        os_write_bytes(norms_out, fld_inv->norms, dw->doc_num);
+    XFINALLY
+        os_close(norms_out);
+    XENDTRY
 }
 
 /* we'll use the postings Hash's table area to sort the postings as it is
@@ -5497,10 +5521,11 @@ static void dw_flush_streams(DocWriter *dw)
     dw->doc_num = 0;
 }
 
-static void dw_flush(DocWriter *dw)
+static void dw_write_postings(DocWriter *dw, TermInfosWriter *tiw,
+                              OutStream *frq_out, OutStream *prx_out,
+                              SkipBuffer *skip_buf)
 {
     int i, j, last_doc, doc_code, doc_freq, last_pos, posting_count;
-    int skip_interval = dw->skip_interval;
     FieldInfos *fis = dw->fis;
     const int fields_count = fis->size;
     FieldInverter *fld_inv;
@@ -5508,19 +5533,7 @@ static void dw_flush(DocWriter *dw)
     PostingList **pls, *pl;
     Posting *p;
     Occurence *occ;
-    Store *store = dw->store;
-    TermInfosWriter *tiw = tiw_open(store, dw->si->name,
-                                    dw->index_interval, skip_interval);
     TermInfo ti;
-    char file_name[SEGMENT_NAME_MAX_LENGTH];
-    OutStream *frq_out, *prx_out;
-    SkipBuffer *skip_buf;
-
-    sprintf(file_name, "%s.frq", dw->si->name);
-    frq_out = store->new_output(store, file_name);
-    sprintf(file_name, "%s.prx", dw->si->name);
-    prx_out = store->new_output(store, file_name);
-    skip_buf = skip_buf_new(frq_out, prx_out);
 
     for (i = 0; i < fields_count; i++) {
         fi = fis->fields[i];
@@ -5570,10 +5583,31 @@ static void dw_flush(DocWriter *dw)
             tiw_add(tiw, pl->term, pl->term_len, &ti);
         }
     }
-    os_close(prx_out);
-    os_close(frq_out);
-    tiw_close(tiw);
-    skip_buf_destroy(skip_buf);
+}
+
+static void dw_flush(DocWriter *dw)
+{
+    Store *store = dw->store;
+    char file_name[SEGMENT_NAME_MAX_LENGTH];
+    OutStream *volatile frq_out = NULL;
+    OutStream *volatile prx_out = NULL;
+    SkipBuffer *volatile skip_buf = NULL;
+    TermInfosWriter *tiw = tiw_open(store, dw->si->name, dw->index_interval,
+                                    dw->skip_interval);
+
+    TRY
+        sprintf(file_name, "%s.frq", dw->si->name);
+        frq_out = store->new_output(store, file_name);
+        sprintf(file_name, "%s.prx", dw->si->name);
+        prx_out = store->new_output(store, file_name);
+        skip_buf = skip_buf_new(frq_out, prx_out);
+        dw_write_postings(dw, tiw, frq_out, prx_out, skip_buf);
+    XFINALLY
+        if (prx_out) os_close(prx_out);
+        if (frq_out) os_close(frq_out);
+        tiw_close(tiw);
+        if (skip_buf) skip_buf_destroy(skip_buf);
+    XENDTRY
     dw_flush_streams(dw);
 }
 
-- 
2.43.0


From 5247681e920c867a999202fe5802333b4da01b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:34 +0000
Subject: [PATCH 41/59] fix: opening a reader or a term enumerator left files
 open when it failed

---
 c/src/index.c | 177 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 106 insertions(+), 71 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 0220b79..6b4f04b 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1548,8 +1548,7 @@ LazyDocField *frt_lazy_doc_get(LazyDoc *self, Symbol field)
 
 FieldsReader *fr_open(Store *store, const char *segment, FieldInfos *fis)
 {
-    FieldsReader *fr = ALLOC(FieldsReader);
-    InStream *fdx_in;
+    FieldsReader *volatile fr = ALLOC_AND_ZERO(FieldsReader);
     char file_name[SEGMENT_NAME_MAX_LENGTH];
     size_t segment_len = strlen(segment);
 
@@ -1557,12 +1556,18 @@ FieldsReader *fr_open(Store *store, const char *segment, FieldInfos *fis)
 
     fr->fis = fis;
 
-    strcpy(file_name + segment_len, ".fdt");
-    fr->fdt_in = store->open_input(store, file_name);
-    strcpy(file_name + segment_len, ".fdx");
-    fdx_in = fr->fdx_in = store->open_input(store, file_name);
-    fr->size = is_length(fdx_in) / FIELDS_IDX_PTR_SIZE;
-    fr->store = store;
+    TRY
+        strcpy(file_name + segment_len, ".fdt");
+        fr->fdt_in = store->open_input(store, file_name);
+        strcpy(file_name + segment_len, ".fdx");
+        fr->fdx_in = store->open_input(store, file_name);
+        fr->size = is_length(fr->fdx_in) / FIELDS_IDX_PTR_SIZE;
+        fr->store = store;
+    XCATCHALL
+        if (fr->fdt_in) is_close(fr->fdt_in);
+        if (fr->fdx_in) is_close(fr->fdx_in);
+        free(fr);
+    XENDTRY
 
     return fr;
 }
@@ -2213,34 +2218,41 @@ static int sti_get_index_offset(SegmentTermIndex *sti, const char *term)
 SegmentFieldIndex *sfi_open(Store *store, const char *segment)
 {
     int field_count;
-    SegmentFieldIndex *sfi = ALLOC(SegmentFieldIndex);
+    SegmentFieldIndex *volatile sfi = ALLOC(SegmentFieldIndex);
     char file_name[SEGMENT_NAME_MAX_LENGTH];
     InStream *is;
 
     mutex_init(&sfi->mutex, NULL);
-
-    sprintf(file_name, "%s.tfx", segment);
-    is = store->open_input(store, file_name);
-    field_count = (int)is_read_u32(is);
-    sfi->index_interval = is_read_vint(is);
-    sfi->skip_interval = is_read_vint(is);
-
     sfi->field_dict = h_new_int((free_ft)&sti_destroy);
 
-    for (; field_count > 0; field_count--) {
-        int field_num = is_read_vint(is);
-        SegmentTermIndex *sti = ALLOC_AND_ZERO(SegmentTermIndex);
-        sti->index_ptr = is_read_voff_t(is);
-        sti->ptr = is_read_voff_t(is);
-        sti->index_cnt = is_read_vint(is);
-        sti->size = is_read_vint(is);
-        h_set_int(sfi->field_dict, field_num, sti);
-    }
-    is_close(is);
+    TRY
+        sprintf(file_name, "%s.tfx", segment);
+        is = store->open_input(store, file_name);
+        TRY
+            field_count = (int)is_read_u32(is);
+            sfi->index_interval = is_read_vint(is);
+            sfi->skip_interval = is_read_vint(is);
+
+            for (; field_count > 0; field_count--) {
+                int field_num = is_read_vint(is);
+                SegmentTermIndex *sti = ALLOC_AND_ZERO(SegmentTermIndex);
+                h_set_int(sfi->field_dict, field_num, sti);
+                sti->index_ptr = is_read_voff_t(is);
+                sti->ptr = is_read_voff_t(is);
+                sti->index_cnt = is_read_vint(is);
+                sti->size = is_read_vint(is);
+            }
+        XFINALLY
+            is_close(is);
+        XENDTRY
 
-    sprintf(file_name, "%s.tix", segment);
-    is = store->open_input(store, file_name);
-    sfi->index_te = ste_new(is, sfi);
+        sprintf(file_name, "%s.tix", segment);
+        sfi->index_te = ste_new(store->open_input(store, file_name), sfi);
+    XCATCHALL
+        mutex_destroy(&sfi->mutex);
+        h_destroy(sfi->field_dict);
+        free(sfi);
+    XENDTRY
     return sfi;
 }
 
@@ -2508,7 +2520,9 @@ static void tew_destroy(TermEnumWrapper *tew)
     if (tew->doc_map) {
         free(tew->doc_map);
     }
-    tew->te->close(tew->te);
+    if (tew->te) {
+        tew->te->close(tew->te);
+    }
 }
 
 static TermEnumWrapper *tew_setup(TermEnumWrapper *tew, int index, TermEnum *te,
@@ -2635,38 +2649,42 @@ TermEnum *mte_new(MultiReader *mr, int field_num, const char *term)
     mte->tew_queue      = pq_new(r_cnt, (lt_ft)&tew_lt, (free_ft)NULL);
     mte->field_num_map  = mr->field_num_map;
 
-    for (i = 0; i < r_cnt; i++) {
-        int fnum = mr_get_field_num(mr, i, field_num);
-        TermEnum *sub_te;
-        reader = readers[i];
+    TRY
+        for (i = 0; i < r_cnt; i++) {
+            int fnum = mr_get_field_num(mr, i, field_num);
+            TermEnum *sub_te;
+            reader = readers[i];
 
-        if (fnum >= 0) {
-            TermEnumWrapper *tew;
+            if (fnum >= 0) {
+                TermEnumWrapper *tew;
+
+                if (NULL != term) {
+                    sub_te = reader->terms_from(reader, fnum, term);
+                }
+                else {
+                    sub_te = reader->terms(reader, fnum);
+                }
 
-            if (NULL != term) {
-                sub_te = reader->terms_from(reader, fnum, term);
+                tew = tew_setup(&(mte->tews[i]), i, sub_te, reader);
+                if (((NULL == term) && tew_next(tew))
+                    || (tew->term && (tew->term[0] != '\0'))) {
+                    pq_push(mte->tew_queue, tew);          /* initialize queue */
+                }
             }
             else {
-                sub_te = reader->terms(reader, fnum);
-            }
-
-            tew = tew_setup(&(mte->tews[i]), i, sub_te, reader);
-            if (((NULL == term) && tew_next(tew))
-                || (tew->term && (tew->term[0] != '\0'))) {
-                pq_push(mte->tew_queue, tew);          /* initialize queue */
+                /* add the term_enum_wrapper just in case */
+                sub_te = reader->terms(reader, 0);
+                sub_te->field_num = -1;
+                tew_setup(&(mte->tews[i]), i, sub_te, reader);
             }
         }
-        else {
-            /* add the term_enum_wrapper just in case */
-            sub_te = reader->terms(reader, 0);
-            sub_te->field_num = -1;
-            tew_setup(&(mte->tews[i]), i, sub_te, reader);
-        }
-    }
 
-    if ((NULL != term) && (0 < mte->tew_queue->size)) {
-        mte_next(TE(mte));
-    }
+        if ((NULL != term) && (0 < mte->tew_queue->size)) {
+            mte_next(TE(mte));
+        }
+    XCATCHALL
+        mte_close(TE(mte));
+    XENDTRY
 
     return TE(mte);
 }
@@ -2681,11 +2699,14 @@ TermEnum *mte_new(MultiReader *mr, int field_num, const char *term)
 TermInfosReader *tir_open(Store *store,
                           SegmentFieldIndex *sfi, const char *segment)
 {
-    TermInfosReader *tir = ALLOC(TermInfosReader);
+    TermInfosReader *tir;
     char file_name[SEGMENT_NAME_MAX_LENGTH];
+    TermEnum *orig_te;
 
     sprintf(file_name, "%s.tis", segment);
-    tir->orig_te = ste_new(store->open_input(store, file_name), sfi);
+    orig_te = ste_new(store->open_input(store, file_name), sfi);
+    tir = ALLOC(TermInfosReader);
+    tir->orig_te = orig_te;
     thread_key_create(&tir->thread_te, NULL);
     tir->te_bucket = ary_new();
     tir->field_num = -1;
@@ -4405,9 +4426,12 @@ static INLINE void sr_get_norms_into_i(SegmentReader *sr, int field_num,
     else {
         InStream *norm_in = is_clone(norm->is);
         /* read from disk */
-        is_seek(norm_in, 0);
-        is_read_bytes(norm_in, buf, SR_SIZE(sr));
-        is_close(norm_in);
+        TRY
+            is_seek(norm_in, 0);
+            is_read_bytes(norm_in, buf, SR_SIZE(sr));
+        XFINALLY
+            is_close(norm_in);
+        XENDTRY
     }
 }
 
@@ -4420,7 +4444,11 @@ static INLINE uchar *sr_get_norms_i(SegmentReader *sr, int field_num)
 
     if (NULL == norm->bytes) {                    /* value not yet read */
         uchar *bytes = ALLOC_N(uchar, SR_SIZE(sr));
-        sr_get_norms_into_i(sr, field_num, bytes);
+        TRY
+            sr_get_norms_into_i(sr, field_num, bytes);
+        XCATCHALL
+            free(bytes);
+        XENDTRY
         norm->bytes = bytes;                        /* cache it */
     }
     return norm->bytes;
@@ -4486,11 +4514,11 @@ static BitVector *bv_read(Store *store, char *name)
     volatile bool success = false;
     InStream *volatile is = store->open_input(store, name);
     BitVector *volatile bv = ALLOC_AND_ZERO(BitVector);
-    bv->size = (int)is_read_vint(is);
-    bv->capa = (bv->size >> 5) + 1;
-    bv->bits = ALLOC_AND_ZERO_N(u32, bv->capa);
     bv->ref_cnt = 1;
     TRY
+        bv->size = (int)is_read_vint(is);
+        bv->capa = (bv->size >> 5) + 1;
+        bv->bits = ALLOC_AND_ZERO_N(u32, bv->capa);
         for (i = ((bv->size-1) >> 5); i >= 0; i--) {
             bv->bits[i] = is_read_u32(is);
         }
@@ -4644,17 +4672,24 @@ static uchar *sr_get_norms_into(IndexReader *ir, int field_num,
 
 static TermEnum *sr_terms(IndexReader *ir, int field_num)
 {
-    TermEnum *te = SR(ir)->tir->orig_te;
-    te = ste_clone(te);
-    return ste_set_field(te, field_num);
+    TermEnum *te = ste_clone(SR(ir)->tir->orig_te);
+    TRY
+        ste_set_field(te, field_num);
+    XCATCHALL
+        ste_close(te);
+    XENDTRY
+    return te;
 }
 
 static TermEnum *sr_terms_from(IndexReader *ir, int field_num, const char *term)
 {
-    TermEnum *te = SR(ir)->tir->orig_te;
-    te = ste_clone(te);
-    ste_set_field(te, field_num);
-    ste_scan_to(te, term);
+    TermEnum *te = ste_clone(SR(ir)->tir->orig_te);
+    TRY
+        ste_set_field(te, field_num);
+        ste_scan_to(te, term);
+    XCATCHALL
+        ste_close(te);
+    XENDTRY
     return te;
 }
 
-- 
2.43.0


From 8f6df0d3cbff7c35bb6eccf74d278bbb15e3a247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:34 +0000
Subject: [PATCH 42/59] fix: an error in a search's callback left the files of
 the search open

---
 c/src/search.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 9f7a937..00752f4 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -1148,20 +1148,23 @@ static void isea_search_each_w(Searcher *self, Weight *weight, Filter *filter,
         return;
     }
 
-    while (scorer->next(scorer)) {
-        float score;
-        if (bits && !bv_get(bits, scorer->doc)) continue;
-        score = scorer->score(scorer);
-        if (post_filter &&
-            !(filter_factor = post_filter->filter_func(scorer->doc,
-                                                       score,
-                                                       self,
-                                                       post_filter->arg))) {
-            continue;
+    TRY
+        while (scorer->next(scorer)) {
+            float score;
+            if (bits && !bv_get(bits, scorer->doc)) continue;
+            score = scorer->score(scorer);
+            if (post_filter &&
+                !(filter_factor = post_filter->filter_func(scorer->doc,
+                                                           score,
+                                                           self,
+                                                           post_filter->arg))) {
+                continue;
+            }
+            fn(self, scorer->doc, filter_factor * score, arg);
         }
-        fn(self, scorer->doc, filter_factor * score, arg);
-    }
-    scorer->destroy(scorer);
+    XFINALLY
+        scorer->destroy(scorer);
+    XENDTRY
 }
 
 static void isea_search_each(Searcher *self, Query *query, Filter *filter,
@@ -1170,8 +1173,11 @@ static void isea_search_each(Searcher *self, Query *query, Filter *filter,
                              void *arg)
 {
     Weight *weight = q_weight(query, self);
-    isea_search_each_w(self, weight, filter, post_filter, fn, arg);
-    weight->destroy(weight);
+    TRY
+        isea_search_each_w(self, weight, filter, post_filter, fn, arg);
+    XFINALLY
+        weight->destroy(weight);
+    XENDTRY
 }
 
 /*
-- 
2.43.0


From a01b903bfdbd910f15235d45dd92b892b13e8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:34 +0000
Subject: [PATCH 43/59] fix: an error while listing a directory left it open,
 and a file that could not be created was not reported

---
 c/src/fs_store.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index 47e3afc..bf8f28c 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -49,7 +49,7 @@ static void fs_touch(Store *store, const char *filename)
     int f;
     char path[MAX_FILE_PATH];
     join_path(path, store->dir.path, filename);
-    if ((f = creat(path, store->file_mode)) == 0) {
+    if ((f = creat(path, store->file_mode)) < 0) {
         RAISE(IO_ERROR, "couldn't create file %s: <%s>", path,
               strerror(errno));
     }
@@ -125,13 +125,16 @@ static void fs_each(Store *store, void (*func)(const char *fname, void *arg), vo
               store->dir.path, strerror(errno));
     }
 
-    while ((de = readdir(d)) != NULL) {
-        if (de->d_name[0] > '/' /* skip ., .., / and '\0'*/
-                && !file_is_lock(de->d_name)) {
-            func(de->d_name, arg);
+    TRY
+        while ((de = readdir(d)) != NULL) {
+            if (de->d_name[0] > '/' /* skip ., .., / and '\0'*/
+                    && !file_is_lock(de->d_name)) {
+                func(de->d_name, arg);
+            }
         }
-    }
-    closedir(d);
+    XFINALLY
+        closedir(d);
+    XENDTRY
 }
 
 static void fs_clear_locks(Store *store)
-- 
2.43.0


From 15f18be964bedfb591483e2a256a4042c5d747a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:03 +0000
Subject: [PATCH 44/59] fix: moving a position enumerator to another term kept
 positions of the previous one

---
 c/src/index.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 6b4f04b..e97a74d 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3228,6 +3228,7 @@ static void stpe_seek_ti(SegmentTermDocEnum *stde, TermInfo *ti)
         stde_seek_ti(stde, ti);
         is_seek(stde->prx_in, ti->prx_ptr);
     }
+    stde->prx_cnt = 0;
 }
 
 static void stpe_seek(TermDocEnum *tde, int field_num, const char *term)
@@ -3235,7 +3236,11 @@ static void stpe_seek(TermDocEnum *tde, int field_num, const char *term)
     SegmentTermDocEnum *stde = STDE(tde);
     TermInfo *ti = tir_get_ti_field(stde->tir, field_num, term);
     stpe_seek_ti(stde, ti);
-    stde->prx_cnt = 0;
+}
+
+static void stpe_seek_te(TermDocEnum *tde, TermEnum *te)
+{
+    stpe_seek_ti(STDE(tde), &(te->curr_ti));
 }
 
 static bool stpe_next(TermDocEnum *tde)
@@ -3299,6 +3304,7 @@ TermDocEnum *stpe_new(TermInfosReader *tir,
 
     /* TermDocEnum methods */
     tde->seek                = &stpe_seek;
+    tde->seek_te             = &stpe_seek_te;
     tde->next                = &stpe_next;
     tde->read                = &stpe_read;
     tde->next_position       = &stpe_next_position;
-- 
2.43.0


From 23f9868eaf9850b93cac672b268da3c984e953df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:03 +0000
Subject: [PATCH 45/59] fix: an enumerator over several segments moved to a
 missing term stayed on the previous one

---
 c/src/index.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/src/index.c b/c/src/index.c
index e97a74d..88560c0 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3400,6 +3400,7 @@ static void mtde_seek(TermDocEnum *tde, int field_num, const char *term)
     }
     else {
         memset(mtde->state, 0, mtde->ir_cnt);
+        mtde->curr_tde = NULL;
     }
 }
 
-- 
2.43.0


From 0c5eb31cae21f2df87c2703d91976530af64cf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:23 +0000
Subject: [PATCH 46/59] fix: a constant score query gave no results when its
 filter had been used before

---
 c/src/q_const_score.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/c/src/q_const_score.c b/c/src/q_const_score.c
index 0269f3d..e2b9dba 100644
--- a/c/src/q_const_score.c
+++ b/c/src/q_const_score.c
@@ -23,14 +23,20 @@ static float cssc_score(Scorer *self)
     return CScSc(self)->score;
 }
 
-static bool cssc_next(Scorer *self)
+static bool cssc_skip_to(Scorer *self, int doc_num)
 {
-    return ((self->doc = bv_scan_next(CScSc(self)->bv)) >= 0);
+    /* the filter's bit vector is shared so its scan position can't be used */
+    int doc = bv_scan_next_from(CScSc(self)->bv, doc_num);
+    if (doc < 0) {
+        return false;
+    }
+    self->doc = doc;
+    return true;
 }
 
-static bool cssc_skip_to(Scorer *self, int doc_num)
+static bool cssc_next(Scorer *self)
 {
-    return ((self->doc = bv_scan_next_from(CScSc(self)->bv, doc_num)) >= 0);
+    return cssc_skip_to(self, self->doc + 1);
 }
 
 static Explanation *cssc_explain(Scorer *self, int doc_num)
@@ -47,6 +53,7 @@ static Scorer *cssc_new(Weight *weight, IndexReader *ir)
     CScSc(self)->score  = weight->value;
     CScSc(self)->bv     = filt_get_bv(filter, ir);
 
+    self->doc       = -1;
     self->score     = &cssc_score;
     self->next      = &cssc_next;
     self->skip_to   = &cssc_skip_to;
-- 
2.43.0


From 4abf70d1dc34f7ff7bf63d9855ec7b30a3c90cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:23 +0000
Subject: [PATCH 47/59] fix: a filtered query whose query matches nothing
 crashed

---
 c/src/q_filtered_query.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index 31f8c07..964f685 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -127,6 +127,9 @@ static Scorer *fqw_scorer(Weight *self, IndexReader *ir)
     Scorer *scorer = sub_weight->scorer(sub_weight, ir);
     Filter *filter = FQQ(self->query)->filter;
 
+    if (!scorer) {
+        return NULL;
+    }
     return fqsc_new(scorer, filt_get_bv(filter, ir), self->similarity);
 }
 
-- 
2.43.0


From bc976c5a77c7e9434779d1b2e6d2f747211ab857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:23 +0000
Subject: [PATCH 48/59] fix: a span query on a field without norms crashed

---
 c/src/q_span.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index da844a8..54c5573 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -297,7 +297,7 @@ static Scorer *spansc_new(Weight *weight, IndexReader *ir)
         SpSc(self)->more        = true;
         SpSc(self)->spans       = SpQ(spanq)->get_spans(spanq, ir);
         SpSc(self)->sim         = weight->similarity;
-        SpSc(self)->norms       = ir->get_norms(ir, field_num);
+        SpSc(self)->norms       = ir_get_norms_i(ir, field_num);
         SpSc(self)->weight      = weight;
         SpSc(self)->value       = weight->value;
         SpSc(self)->freq        = 0.0;
-- 
2.43.0


From 444fce4e4dfe93e0cf4a975754c12b2db0885136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:23 +0000
Subject: [PATCH 49/59] fix: a span scorer that was asked to skip missed or
 repeated documents

---
 c/src/q_span.c | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 54c5573..dd979ef 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -243,23 +243,14 @@ static bool spansc_skip_to(Scorer *self, int target)
     SpanScorer *spansc = SpSc(self);
     SpanEnum *se = spansc->spans;
 
-    spansc->more = se->skip_to(se, target);
-    if (!spansc->more) {
-        return false;
-    }
-
-    spansc->freq = 0.0;
-    self->doc = se->doc(se);
-
-    while (spansc->more && (se->doc(se) == target)) {
-        spansc->freq += sim_sloppy_freq(spansc->sim, se->end(se) - se->start(se));
-        spansc->more = se->next(se);
-        if (spansc->first_time) {
-            spansc->first_time = false;
-        }
+    /* the spans are already one document ahead of the scorer so they must
+     * only be moved when they are still before the target */
+    if (spansc->first_time || (spansc->more && se->doc(se) < target)) {
+        spansc->more = se->skip_to(se, target);
+        spansc->first_time = false;
     }
 
-    return (spansc->more || (spansc->freq != 0.0));
+    return spansc_next(self);
 }
 
 static Explanation *spansc_explain(Scorer *self, int target)
-- 
2.43.0


From 84f25d95bc23ac71aa0b0ccc21bd3d3af4faab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:23 +0000
Subject: [PATCH 50/59] fix: a span query for a missing term among several
 failed on an index of several segments

---
 c/src/q_span.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index dd979ef..29a1c3a 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -462,7 +462,8 @@ static bool tpew_less_than(const TermPosEnumWrapper *tpew1,
 static bool tpew_next(TermPosEnumWrapper *self)
 {
     TermDocEnum *tpe = self->tpe;
-    if (0 > (self->pos = tpe->next_position(tpe))) {
+    /* there are no positions before the first document */
+    if (self->doc < 0 || 0 > (self->pos = tpe->next_position(tpe))) {
         if (!tpe->next(tpe)) return false;
         self->doc = tpe->doc_num(tpe);
         self->pos = tpe->next_position(tpe);
-- 
2.43.0


From f5dd8061886689a0d85655239d8d5f844e23809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:23 +0000
Subject: [PATCH 51/59] fix: a span-or query within a span-near or span-not
 query crashed

---
 c/src/q_span.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 29a1c3a..22f3c78 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -839,6 +839,9 @@ static bool spanoe_skip_to(SpanEnum *self, int target)
 static int spanoe_doc(SpanEnum *self)
 {
     SpanEnum *se = SpOEn_Top_SE(self);
+    if (se == NULL) { /* not started or all done */
+        return SpOEn(self)->first_time ? -1 : INT_MAX;
+    }
     return se->doc(se);
 }
 
-- 
2.43.0


From 2fd9f654bbe978a329026ab5568a77d4276b9651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:48 +0000
Subject: [PATCH 52/59] fix: a typed range query matched terms that are no
 numbers

---
 c/src/q_range.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/q_range.c b/c/src/q_range.c
index 4270909..30467c4 100644
--- a/c/src/q_range.c
+++ b/c/src/q_range.c
@@ -330,8 +330,8 @@ typedef enum {
 #define SET_DOCS(cond)\
 do {\
     if (term[0] > '9') break; /* done */\
-    sscanf(term, "%lg%n", &num, &len);\
-    if (len == te->curr_term_len) { /* We have a number */\
+    if (sscanf(term, "%lg%n", &num, &len) == 1\
+        && len == te->curr_term_len) { /* We have a number */\
         if (cond) {\
             tde->seek_te(tde, te);\
             while (tde->next(tde)) {\
-- 
2.43.0


From 20ff1369ea31bc79022677046043dc4281b5fa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:48 +0000
Subject: [PATCH 53/59] fix: a filtered query could not be searched over
 several searchers

---
 c/src/q_filtered_query.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index 964f685..000fa74 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -185,6 +185,23 @@ static char *fq_to_s(Query *self, Symbol default_field)
     return buffer;;
 }
 
+static void fq_extract_terms(Query *self, HashSet *terms)
+{
+    Query *query = FQQ(self)->query;
+    query->extract_terms(query, terms);
+}
+
+static unsigned long fq_hash(Query *self)
+{
+    return filt_hash(FQQ(self)->filter) ^ q_hash(FQQ(self)->query);
+}
+
+static int fq_eq(Query *self, Query *o)
+{
+    return filt_eq(FQQ(self)->filter, FQQ(o)->filter)
+        && q_eq(FQQ(self)->query, FQQ(o)->query);
+}
+
 static void fq_destroy(Query *self)
 {
     filt_deref(FQQ(self)->filter);
@@ -207,7 +224,10 @@ Query *fq_new(Query *query, Filter *filter)
     FQQ(self)->filter       = filter;
 
     self->type              = FILTERED_QUERY;
+    self->extract_terms     = &fq_extract_terms;
     self->to_s              = &fq_to_s;
+    self->hash              = &fq_hash;
+    self->eq                = &fq_eq;
     self->destroy_i         = &fq_destroy;
     self->create_weight_i   = &fq_new_weight;
 
-- 
2.43.0


From e2b95d00c2fcb88d56f777d057ecfb79b310294c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:48 +0000
Subject: [PATCH 54/59] fix: a phrase scorer crashed when it was used after a
 skip past its end

---
 c/src/q_phrase.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index 03e37c7..c93cfd4 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -265,6 +265,11 @@ static bool phsc_skip_to(Scorer *self, int doc_num)
 {
     PhraseScorer *phsc = PhSc(self);
     int i;
+
+    phsc->first_time = false;
+    if (!phsc->more) {
+        return false;
+    }
     for (i = phsc->pp_cnt - 1; i >= 0; i--) {
         if (!(phsc->more = pp_skip_to(phsc->phrase_pos[i], doc_num))) {
             break;
-- 
2.43.0


From d58e2a4c1a409ed18d095ab1159b7e583753b176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:48 +0000
Subject: [PATCH 55/59] fix: a conjunction matched a wrong document after a
 skip past its end

---
 c/src/q_boolean.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index 17028ab..dc6fb59 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -396,12 +396,12 @@ static bool csc_skip_to(Scorer *self, int doc_num)
             more = sub_scorer->skip_to(sub_scorer, doc_num);
         }
     }
+    csc->more = more;
     if (more) {
         /* resort the scorers */
         csc_sort_scorers(csc);
     }
 
-    csc->more = more;
     return csc_do_next(self);
 }
 
-- 
2.43.0


From ffb794913f37ee8ef5f540e1e6f436ed1b50f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:48 +0000
Subject: [PATCH 56/59] fix: a span-not enumerator used its parts after their
 end when skipping

---
 c/src/q_span.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 22f3c78..e8d7f5e 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1292,11 +1292,11 @@ static bool spanxe_skip_to(SpanEnum *self, int target)
     SpanEnum *inc = sxe->inc, *exc = sxe->exc;
     int doc;
 
-    if (sxe->more_inc) {                        /*  move to next incl */
-        if (!(sxe->more_inc=sxe->inc->skip_to(sxe->inc, target))) return false;
-    }
+    if (!sxe->more_inc) return false;
+    /*  move to next incl */
+    if (!(sxe->more_inc=sxe->inc->skip_to(sxe->inc, target))) return false;
 
-    if (sxe->more_inc && ((doc=inc->doc(inc)) > exc->doc(exc))) {
+    if (sxe->more_exc && ((doc=inc->doc(inc)) > exc->doc(exc))) {
         sxe->more_exc = exc->skip_to(exc, doc);
     }
 
-- 
2.43.0


From 768cae88925ce1b31309064948f728a57907978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:15 +0000
Subject: [PATCH 57/59] fix: searching a span query changed it, so that its
 next search missed documents

---
 c/src/q_span.c | 77 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 30 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index e8d7f5e..6c4b0fc 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1736,15 +1736,18 @@ static HashSet *spanfq_get_terms(Query *self)
 
 static Query *spanfq_rewrite(Query *self, IndexReader *ir)
 {
-    Query *q, *rq;
+    Query *q = SpFQ(self)->match;
+    Query *rq = q->rewrite(q, ir);
 
-    q = SpFQ(self)->match;
-    rq = q->rewrite(q, ir);
-    q_deref(q);
-    SpFQ(self)->match = rq;
+    if (rq == q) {                  /* no clauses rewrote */
+        q_deref(rq);
+        self->ref_cnt++;
+        return self;
+    }
 
-    self->ref_cnt++;
-    return self;                    /* no clauses rewrote */
+    q = spanfq_new_nr(rq, SpFQ(self)->end);
+    q->boost = self->boost;
+    return q;
 }
 
 static void spanfq_destroy_i(Query *self)
@@ -1868,18 +1871,25 @@ static SpanEnum *spanoq_get_spans(Query *self, IndexReader *ir)
 static Query *spanoq_rewrite(Query *self, IndexReader *ir)
 {
     SpanOrQuery *soq = SpOQ(self);
+    Query *q = spanoq_new();
+    bool rewrote = false;
     int i;
 
-    /* replace clauses with their rewritten queries */
     for (i = 0; i < soq->c_cnt; i++) {
         Query *clause = soq->clauses[i];
         Query *rewritten = clause->rewrite(clause, ir);
-        q_deref(clause);
-        soq->clauses[i] = rewritten;
+        if (rewritten != clause) rewrote = true;
+        spanoq_add_clause_nr(q, rewritten);
     }
 
-    self->ref_cnt++;
-    return self;
+    if (!rewrote) {                 /* no clauses rewrote */
+        q_deref(q);
+        self->ref_cnt++;
+        return self;
+    }
+
+    q->boost = self->boost;
+    return q;
 }
 
 static void spanoq_destroy_i(Query *self)
@@ -2053,16 +2063,25 @@ static SpanEnum *spannq_get_spans(Query *self, IndexReader *ir)
 static Query *spannq_rewrite(Query *self, IndexReader *ir)
 {
     SpanNearQuery *snq = SpNQ(self);
+    Query *q = spannq_new(snq->slop, snq->in_order);
+    bool rewrote = false;
     int i;
+
     for (i = 0; i < snq->c_cnt; i++) {
         Query *clause = snq->clauses[i];
         Query *rewritten = clause->rewrite(clause, ir);
-        q_deref(clause);
-        snq->clauses[i] = rewritten;
+        if (rewritten != clause) rewrote = true;
+        spannq_add_clause_nr(q, rewritten);
     }
 
-    self->ref_cnt++;
-    return self;
+    if (!rewrote) {                 /* no clauses rewrote */
+        q_deref(q);
+        self->ref_cnt++;
+        return self;
+    }
+
+    q->boost = self->boost;
+    return q;
 }
 
 static void spannq_destroy(Query *self)
@@ -2202,22 +2221,20 @@ static HashSet *spanxq_get_terms(Query *self)
 static Query *spanxq_rewrite(Query *self, IndexReader *ir)
 {
     SpanNotQuery *sxq = SpXQ(self);
-    Query *q, *rq;
+    Query *q;
+    Query *inc = sxq->inc->rewrite(sxq->inc, ir);
+    Query *exc = sxq->exc->rewrite(sxq->exc, ir);
 
-    /* rewrite inclusive query */
-    q = sxq->inc;
-    rq = q->rewrite(q, ir);
-    q_deref(q);
-    sxq->inc = rq;
-
-    /* rewrite exclusive query */
-    q = sxq->exc;
-    rq = q->rewrite(q, ir);
-    q_deref(q);
-    sxq->exc = rq;
+    if (inc == sxq->inc && exc == sxq->exc) {   /* no clauses rewrote */
+        q_deref(inc);
+        q_deref(exc);
+        self->ref_cnt++;
+        return self;
+    }
 
-    self->ref_cnt++;
-    return self;
+    q = spanxq_new_nr(inc, exc);
+    q->boost = self->boost;
+    return q;
 }
 
 static void spanxq_destroy(Query *self)
-- 
2.43.0


From 75a9d1e46f9213ebc7b55b8c85775907df17f262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:04 +0000
Subject: [PATCH 58/59] fix: references to a store counted by several threads
 at once were lost

---
 c/include/internal.h |  1 +
 c/include/store.h    |  7 +++++++
 c/src/fs_store.c     | 23 +++++++++++++++--------
 c/src/ind.c          |  2 +-
 c/src/index.c        |  4 ++--
 c/src/store.c        |  7 +++++++
 6 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/c/include/internal.h b/c/include/internal.h
index c3db266..080802c 100644
--- a/c/include/internal.h
+++ b/c/include/internal.h
@@ -927,6 +927,7 @@
 #define store_deref                                    frt_store_deref
 #define store_destroy                                  frt_store_destroy
 #define store_new                                      frt_store_new
+#define store_ref                                      frt_store_ref
 #define store_to_s                                     frt_store_to_s
 #define stpe_new                                       frt_stpe_new
 #define str_hash                                       frt_str_hash
diff --git a/c/include/store.h b/c/include/store.h
index 318de8f..4ac64ba 100644
--- a/c/include/store.h
+++ b/c/include/store.h
@@ -441,6 +441,13 @@ extern void frt_with_lock(FrtLock *lock, void (*func)(void *arg), void *arg);
 extern void frt_with_lock_name(FrtStore *store, const char *lock_name,
                            void (*func)(void *arg), void *arg);
 
+/**
+ * Add a reference to the store.
+ *
+ * @param store the store to be referenced
+ */
+extern void frt_store_ref(FrtStore *store);
+
 /**
  * Remove a reference to the store. If the reference count gets to zero free
  * all resources used by the store.
diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index bf8f28c..7f1f15a 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -431,15 +431,24 @@ static mutex_t stores_mutex = MUTEX_INITIALIZER;
 
 static void fs_close_i(Store *store)
 {
+    /* other threads may open the store again, and close it, until we have
+     * stores_mutex. It must not be waited for with mutex_i locked as they lock
+     * mutex_i after it */
+    char *path = estrdup(store->dir.path);
+    mutex_unlock(&store->mutex_i);
+
     mutex_lock(&stores_mutex);
-    if (store->ref_cnt > 0) {
-        /* opened again by another thread before we got here */
+    if (store == (Store *)h_get(stores, path)) {
+        bool in_use;
+        mutex_lock(&store->mutex_i);
+        in_use = (store->ref_cnt > 0);
         mutex_unlock(&store->mutex_i);
-    }
-    else {
-        h_del(stores, store->dir.path);
+        if (!in_use) {
+            h_del(stores, path);
+        }
     }
     mutex_unlock(&stores_mutex);
+    free(path);
 }
 
 static Store *fs_store_new(const char *pathname)
@@ -502,9 +511,7 @@ Store *open_fs_store(const char *pathname)
     }
     store = (Store *)h_get(stores, pathname);
     if (store) {
-        mutex_lock(&store->mutex);
-        store->ref_cnt++;
-        mutex_unlock(&store->mutex);
+        store_ref(store);
     }
     else {
         store = fs_store_new(pathname);
diff --git a/c/src/ind.c b/c/src/ind.c
index c3a6000..791b133 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -69,7 +69,7 @@ Index *index_new(Store *store, Analyzer *analyzer, HashSet *def_fields,
     mutex_init(&self->mutex, NULL);
     self->has_writes = false;
     if (store) {
-        REF(store);
+        store_ref(store);
         self->store = store;
     } else {
         self->store = open_ram_store();
diff --git a/c/src/index.c b/c/src/index.c
index 88560c0..b02c484 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4041,7 +4041,7 @@ static IndexReader *ir_setup(IndexReader *ir, Store *store, SegmentInfos *sis,
 
     if (store) {
         ir->store = store;
-        REF(store);
+        store_ref(store);
     }
     ir->sis = sis;
     ir->fis = fis;
@@ -6835,7 +6835,7 @@ IndexWriter *iw_open(Store *store, Analyzer *volatile analyzer,
     iw->analyzer = analyzer ? (Analyzer *)analyzer
                             : mb_standard_analyzer_new(true);
 
-    REF(store);
+    store_ref(store);
     return iw;
 }
 
diff --git a/c/src/store.c b/c/src/store.c
index 0ad41b5..a4ad611 100644
--- a/c/src/store.c
+++ b/c/src/store.c
@@ -28,6 +28,13 @@ void with_lock_name(Store *store, const char *lock_name,
     XENDTRY
 }
 
+void store_ref(Store *store)
+{
+    mutex_lock(&store->mutex_i);
+    REF(store);
+    mutex_unlock(&store->mutex_i);
+}
+
 void store_deref(Store *store)
 {
     mutex_lock(&store->mutex_i);
-- 
2.43.0


From 0c714caa323f3b0f9c9a00cf2e4b6eac52a04eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:08 +0000
Subject: [PATCH 59/59] fix: a query whose parts could not all be opened left
 the files of the others open

---
 c/src/index.c     | 12 ++++++++++--
 c/src/q_boolean.c |  7 ++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index b02c484..47c43fc 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4205,7 +4205,11 @@ TermDocEnum *ir_term_docs_for(IndexReader *ir, Symbol field,
     int field_num = fis_get_field_num(ir->fis, field);
     TermDocEnum *tde = ir->term_docs(ir);
     if (field_num >= 0) {
-        tde->seek(tde, field_num, term);
+        TRY
+            tde->seek(tde, field_num, term);
+        XCATCHALL
+            tde->close(tde);
+        XENDTRY
     }
     return tde;
 }
@@ -4216,7 +4220,11 @@ TermDocEnum *ir_term_positions_for(IndexReader *ir, Symbol field,
     int field_num = fis_get_field_num(ir->fis, field);
     TermDocEnum *tde = ir->term_positions(ir);
     if (field_num >= 0) {
-        tde->seek(tde, field_num, term);
+        TRY
+            tde->seek(tde, field_num, term);
+        XCATCHALL
+            tde->close(tde);
+        XENDTRY
     }
     return tde;
 }
diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index dc6fb59..a8626b5 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -1146,7 +1146,12 @@ static Scorer *bw_scorer(Weight *self, IndexReader *ir)
     for (i = 0; i < BW(self)->w_cnt; i++) {
         BooleanClause *clause = bq->clauses[i];
         Weight *weight = BW(self)->weights[i];
-        Scorer *sub_scorer = weight->scorer(weight, ir);
+        Scorer *volatile sub_scorer = NULL;
+        TRY
+            sub_scorer = weight->scorer(weight, ir);
+        XCATCHALL
+            bsc->destroy(bsc);
+        XENDTRY
         if (sub_scorer) {
             bsc_add_scorer(bsc, sub_scorer, clause->occur);
         }
-- 
2.43.0


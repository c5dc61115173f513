From 20c4c61d189d2f09e32765fd4cd5ba46b51371be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:24 +0000
Subject: [PATCH 01/66] fix: decode x-uuencode line by line, within the input

The newline after the begin line and after each data line was taken as a
length character, so uuencoded text was never decoded properly, and the
decoder ran past the end of the input and of the output buffer.
---
 rfc822.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rfc822.c b/rfc822.c
index c3dcdfb..7cd5c44 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -548,13 +548,15 @@ static char *unencode_data(struct msg_src *src, char *input, int input_len, cons
         /* skip to EOL */
         while (q < end_input && *q != '\n')
           q++;
+        q++; /* Point at first data line */
         p = result;
         while (q < end_input) { /* process line */
 #define DEC(c) (((c) - ' ') & 077)
           int len = DEC(*q++);
           if (len == 0)
             break;
-          for (; len > 0; q += 4, len -= 3) {
+          /* A truncated group at the end of the input is ignored. */
+          for (; len > 0 && end_input - q >= 4; q += 4, len -= 3) {
             if (len >= 3) {
               *p++ = DEC(q[0]) << 2 | DEC(q[1]) >> 4;
               *p++ = DEC(q[1]) << 4 | DEC(q[2]) >> 2;
@@ -568,6 +570,7 @@ static char *unencode_data(struct msg_src *src, char *input, int input_len, cons
           }
           while (q < end_input && *q != '\n')
             q++;
+          q++; /* Point at next line */
         }
         end_result = p;
       }
-- 
2.43.0


From ab2cc1f04ac7ace200a0f78e2c800e4b8d3092ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:24 +0000
Subject: [PATCH 02/66] fix: do not read past the end of quoted-printable data

A body ending in '=' or in an incomplete escape made the decoder look at
bytes beyond the body, and beyond the mapped file when that filled its last
page.
---
 rfc822.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 7cd5c44..a59a070 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -436,18 +436,14 @@ static void parse_content_type(struct nvp *ct_nvp, struct content_type_header *r
 }
 
 /*}}}*/
-static char *looking_at_ws_then_newline(char *start)/*{{{*/
+static char *looking_at_ws_then_newline(char *start, char *end)/*{{{*/
 {
   char *result;
-  result = start;
-  do {
+  for (result = start; result < end; result++) {
          if (*result == '\n')   return result;
     else if (!isspace(*(unsigned char *) result)) return NULL;
-    else                        result++;
-  } while (1);
-
-  /* Can't get here */
-  assert(0);
+  }
+  return NULL;
 }
 /*}}}*/
 
@@ -488,11 +484,12 @@ static char *unencode_data(struct msg_src *src, char *input, int input_len, cons
             char *r;
             int val;
             q++;
-            r = looking_at_ws_then_newline(q);
+            r = looking_at_ws_then_newline(q, end_input);
             if (r) {
               q = r + 1; /* Point into next line */
               continue;
             }
+            if (end_input - q < 2) break; /* truncated escape at end of data */
             /* not that case. */
             val =  hex_to_val(*q++) << 4;
             val += hex_to_val(*q++);
-- 
2.43.0


From 7a0227fe916a31943c821b0ecc85fc4b9d94567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:51 +0000
Subject: [PATCH 03/66] fix: recompute threads when purging

After a purge the messages kept thread numbers from before it, which can be
as large as the old message count; a search with -t then wrote and read past
the end of its table of threads.
---
 db.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/db.c b/db.c
index 3b37ace..f791ee2 100644
--- a/db.c
+++ b/db.c
@@ -1310,6 +1310,12 @@ int cull_dead_messages(struct database *db, int do_integrity_checks)/*{{{*/
 
   free(new_idx);
 
+  if (any_culled) {
+    /* Thread numbers must stay below the (now smaller) number of messages,
+     * and a culled message no longer joins others into one thread. */
+    find_threading(db);
+  }
+
   /* .. and cull dead mboxen */
   cull_dead_mboxen(db);
 
-- 
2.43.0


From 65fea3833f36e8a887301f068a591294216afbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:51 +0000
Subject: [PATCH 04/66] fix: a deleted message no longer drags its thread into
 a -t search

A message that is gone but not yet purged cannot be a match, so it must not
select its thread either.
---
 search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 27b02b8..1d02f52 100644
--- a/search.c
+++ b/search.c
@@ -1057,7 +1057,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
     tids = new_array(char, db->n_msgs);
     memset(tids, 0, db->n_msgs);
     for (i=0; i<db->n_msgs; i++) {
-      if (hit3[i]) {
+      if (hit3[i] && rd_msg_type(db, i) != DB_MSG_DEAD) {
         tids[db->tid_table[i]] = 1;
       }
     }
-- 
2.43.0


From 60eaf3def41386592cecd5d69b9e10880994de38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:51 +0000
Subject: [PATCH 05/66] fix: p: no longer aborts on a database with IMAP
 messages

---
 search.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 1d02f52..8eee977 100644
--- a/search.c
+++ b/search.c
@@ -308,6 +308,7 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
     unsigned int mbix, msgix;
     switch (rd_msg_type(db, i)) {
       case DB_MSG_FILE:
+      case DB_MSG_IMAP:
         token = db->data + db->path_offsets[i];
         break;
       case DB_MSG_MBOX:
@@ -315,7 +316,7 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
         token = db->data + db->mbox_paths_table[mbix];
         break;
       case DB_MSG_DEAD:
-        hits[i] = 0; /* never match on dead paths */
+        /* never match on dead paths */
         goto next_message;
     }
 
-- 
2.43.0


From 9e1a2d4e7c2e44a7cd268f21d43c088794ec7794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:51 +0000
Subject: [PATCH 06/66] fix: p: combined with other fields adds to their
 matches

In an expression like sp:word the path match overwrote the result of the
match on the other fields instead of being combined with it.
---
 search.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/search.c b/search.c
index 8eee977..24d6e1c 100644
--- a/search.c
+++ b/search.c
@@ -292,7 +292,7 @@ static void match_substring_in_table(struct read_db *db, struct toktable_db *tt,
 static void match_substring_in_paths(struct read_db *db, char *substring, int max_errors, int left_anchor, char *hits)/*{{{*/
 {
 
-  int i;
+  int i, got_hit;
   unsigned long a[256];
   unsigned long *r=NULL, *nr=NULL;
   unsigned long hit;
@@ -326,21 +326,25 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
       /* Optimise common cases for few errors to allow optimizer to keep bitmaps
        * in registers */
       case 0:
-        hits[i] = substring_match_0(a, hit, left_anchor, token);
+        got_hit = substring_match_0(a, hit, left_anchor, token);
         break;
       case 1:
-        hits[i] = substring_match_1(a, hit, left_anchor, token);
+        got_hit = substring_match_1(a, hit, left_anchor, token);
         break;
       case 2:
-        hits[i] = substring_match_2(a, hit, left_anchor, token);
+        got_hit = substring_match_2(a, hit, left_anchor, token);
         break;
       case 3:
-        hits[i] = substring_match_3(a, hit, left_anchor, token);
+        got_hit = substring_match_3(a, hit, left_anchor, token);
         break;
       default:
-        hits[i] = substring_match_general(a, hit, left_anchor, token, max_errors, r, nr);
+        got_hit = substring_match_general(a, hit, left_anchor, token, max_errors, r, nr);
         break;
     }
+    /* Other fields may have been matched already (e.g. sp:word) */
+    if (got_hit) {
+      hits[i] = 1;
+    }
 next_message:
     (void) 0;
   }
-- 
2.43.0


From 92b5e31ec99a4ac8393522419749dc112fa413f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:51 +0000
Subject: [PATCH 07/66] fix: sort by date compares dates instead of their
 truncated difference

---
 search.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 24d6e1c..c30b3fb 100644
--- a/search.c
+++ b/search.c
@@ -797,7 +797,10 @@ static int db_date_cmp(const void *va, const void *vb)
   const int *ap = (const int *) va;
   const int *bp = (const int *) vb;
 
-  return qsortdb->date_table[*ap] - qsortdb->date_table[*bp];
+  unsigned int ad = qsortdb->date_table[*ap];
+  unsigned int bd = qsortdb->date_table[*bp];
+
+  return (ad > bd) - (ad < bd);
 }
 
 static int do_search(struct read_db *db, char **args, char *output_path, int show_threads, enum folder_type ft, int verbose, const char *imap_pipe, const char *imap_server, const char *imap_username, const char *imap_password, int please_clear, int sort_by_date)/*{{{*/
-- 
2.43.0


From 8a7f9732fca3a281ec861d21333528d49d0c37f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:21 +0000
Subject: [PATCH 08/66] fix: don't drop the last byte of an mbox message
 without a blank line after it

When copying an mbox message to a maildir or MH mfolder, the last byte was
always dropped, as though it were the newline of the separating blank line.
The last message of an mbox, or one in MMDF format, need not have that line.
---
 search.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index c30b3fb..c44300c 100644
--- a/search.c
+++ b/search.c
@@ -754,7 +754,11 @@ static void try_copy_to_path(struct read_db *db, int msg_index, char *target_pat
     if (out) {
       fprintf(out, "X-source-folder: %s\n",
               db->data + db->mbox_paths_table[mbi]);
-      fwrite(start, sizeof(char), msg_len?msg_len-1:0, out);
+      /* The blank line that separates messages isn't part of this one. */
+      if ((msg_len >= 2) && (start[msg_len-1] == '\n') && (start[msg_len-2] == '\n')) {
+        msg_len--;
+      }
+      fwrite(start, sizeof(char), msg_len, out);
       fclose(out);
     }
   }
-- 
2.43.0


From 726f1aafe61ad9f0c592c4d900fe55b13371efe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:06 +0000
Subject: [PATCH 09/66] fix: never overwrite a user's message through a link in
 the mfolder

With --augment, the name chosen for a copied mbox or IMAP message could be
that of a (sym)link left by an earlier search, and the copy was then written
over the message which that link refers to.
---
 search.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/search.c b/search.c
index c44300c..6434acf 100644
--- a/search.c
+++ b/search.c
@@ -667,6 +667,8 @@ static void append_data_to_mbox(const char *data, size_t len, void *arg)/*{{{*/
 static void write_to_file(const char *data, size_t len, void *arg)/*{{{*/
 {
   FILE *fp;
+  /* Never write through a link to a message, see try_copy_to_path */
+  unlink((char *)arg);
   if (!(fp = fopen((char *)arg, "w"))) {
     fprintf(stderr, "Cannot write matched message to \"%s\": %s\n", (char *)arg, strerror(errno));
     return;
@@ -750,6 +752,9 @@ static void try_copy_to_path(struct read_db *db, int msg_index, char *target_pat
   get_validated_mbox_msg(db, msg_index, &mbi, &data, &mbox_len, &start, &msg_len);
 
   if (start) {
+    /* With --augment, an earlier search may have left a link to some other
+     * message under this name.  Don't overwrite that message! */
+    unlink(target_path);
     out = fopen(target_path, "wb");
     if (out) {
       fprintf(out, "X-source-folder: %s\n",
-- 
2.43.0


From 4f0ec4249b99fed6038deac42e5a990af9f3149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:16 +0000
Subject: [PATCH 10/66] fix: --augment with an MH mfolder adds messages after
 those already there

The numbering restarted from 1, so that the matches of the new search were
lost wherever an earlier search had used the number.
---
 search.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/search.c b/search.c
index 6434acf..b308992 100644
--- a/search.c
+++ b/search.c
@@ -599,6 +599,25 @@ static char *mk_mh_path(int token, char *output_dir)/*{{{*/
   return result;
 }
 /*}}}*/
+static int highest_mh_number(const char *dir)/*{{{*/
+{
+  /* Highest number in use in an MH folder, 0 if it's empty */
+  DIR *d;
+  struct dirent *de;
+  int result = 0;
+  d = opendir(dir);
+  if (d) {
+    while ((de = readdir(d))) {
+      if (valid_mh_filename_p(de->d_name)) {
+        int n = atoi(de->d_name);
+        if (n > result) result = n;
+      }
+    }
+    closedir(d);
+  }
+  return result;
+}
+/*}}}*/
 static int looks_like_maildir_new_p(const char *p)/*{{{*/
 {
   const char *s1, *s2;
@@ -828,6 +847,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
   int imap_tried = 0;
   struct imap_ll *imapc;
   int *results;
+  int mh_base; /* number of messages to leave alone in an MH mfolder */
 
 #define GET_IMAP if (!imap_tried) {\
         imap_tried = 1;\
@@ -1137,19 +1157,20 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
       break;
 /*}}}*/
     case FT_MH:/*{{{*/
+      mh_base = highest_mh_number(output_path);
       for (ii=0; ii<n_hits; ii++) {
         i = results[ii];
         switch (rd_msg_type(db, i)) {
           case DB_MSG_FILE:
             {
-              char *target_path = mk_mh_path(ii, output_path);
+              char *target_path = mk_mh_path(mh_base + ii, output_path);
               create_symlink(db->data + db->path_offsets[i], target_path);
               free(target_path);
             }
             break;
           case DB_MSG_IMAP:
             {
-              char *target_path = mk_mh_path(ii, output_path);
+              char *target_path = mk_mh_path(mh_base + ii, output_path);
               GET_IMAP;
               if (imapc) imap_fetch_message_raw(db->data + db->path_offsets[i], imapc, write_to_file, target_path);
               free(target_path);
@@ -1157,7 +1178,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
             break;
           case DB_MSG_MBOX:
             {
-              char *target_path = mk_mh_path(ii, output_path);
+              char *target_path = mk_mh_path(mh_base + ii, output_path);
               try_copy_to_path(db, i, target_path);
               free(target_path);
             }
-- 
2.43.0


From 202b615408ddea892b3432017047fa53dc5f54a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:47 +0000
Subject: [PATCH 11/66] fix: notice a changed message whose mtime is unchanged
 but whose size differs

The manual page says that both are compared, but only the mtime was.
---
 db.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db.c b/db.c
index f791ee2..08db0a7 100644
--- a/db.c
+++ b/db.c
@@ -942,7 +942,8 @@ int update_database(struct database *db, struct msgpath *sorted_paths, int n_msg
           } else {
             switch (do_stat(sorted_paths + matched_index)) {
               case STAT_RESULT_FILE:
-                if (sorted_paths[matched_index].src.mpf.mtime == db->msgs[i].src.mpf.mtime) {
+                if ((sorted_paths[matched_index].src.mpf.mtime == db->msgs[i].src.mpf.mtime) &&
+                    (sorted_paths[matched_index].src.mpf.size == db->msgs[i].src.mpf.size)) {
                   /* Treat stale files as though the path has changed. */
                   file_in_db[matched_index] = 1;
                   file_in_new_list[i] = 1;
-- 
2.43.0


From b9737e2f51f623e691f37bf2130e06bc5c76dc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:52 +0000
Subject: [PATCH 12/66] fix: use the value of MAIRIX_MAILDIR_FOLDERS instead of
 a misspelt variable

---
 mairix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index dfef26b..2a0573a 100644
--- a/mairix.c
+++ b/mairix.c
@@ -647,7 +647,7 @@ int main (int argc, char **argv)/*{{{*/
   }
 
   if (getenv("MAIRIX_MAILDIR_FOLDERS")) {
-    maildir_folders = getenv("MAIRIX_MAIDIR_FOLDERS");
+    maildir_folders = getenv("MAIRIX_MAILDIR_FOLDERS");
   }
 
   if (getenv("MAIRIX_MH_FOLDERS")) {
-- 
2.43.0


From a12587a3e58faa116f0b3497484f8189f6527a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:28 +0000
Subject: [PATCH 13/66] fix: don't unmap a decompressed mbox that is still in
 the cache

---
 rfc822.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rfc822.c b/rfc822.c
index a59a070..1c7a59f 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1333,6 +1333,8 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
     if (ro) {
       *data = ro->map;
       *len = ro->len;
+      /* owned by the cache */
+      data_alloc_type = ALLOC_NONE;
       return;
     }
 
-- 
2.43.0


From c5eba4eaa6de0647f8c72b4d76bfa2ffe34b9bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:45 +0000
Subject: [PATCH 14/66] fix: a compressed mbox that cannot be decompressed no
 longer crashes mairix

---
 rfc822.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 1c7a59f..b3a657d 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1325,7 +1325,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
 #if USE_GZIP_MBOX || USE_BZIP_MBOX || USE_XZ_MBOX
   if(cb == MAP_DECOMPRESS_IF_APPLICABLE && is_compressed(filename)) {
     unsigned char *p;
-    size_t cur_read;
+    int cur_read;
     struct ro_mapping *ro;
     FILE *tmpf;
 
@@ -1354,7 +1354,13 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
     }
     p = new_array(unsigned char, SIZE_STEP);
     cur_read = xx_zread(zf, p, SIZE_STEP);
-    if (fwrite(p, cur_read, 1, tmpf) != 1) {
+    if (cur_read < 0) {
+      fprintf(stderr, "Could not decompress %s\n", filename);
+      free(p);
+      xx_zclose(zf);
+      goto comp_error;
+    }
+    if (cur_read > 0 && fwrite(p, cur_read, 1, tmpf) != 1) {
       fprintf(stderr, "failed writing to temp file for %s\n", filename);
       goto comp_error;
     }
-- 
2.43.0


From def079dac999a4d4b9c72342e970322348288f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:53 +0000
Subject: [PATCH 15/66] fix: forget the entries of messages truncated from an
 mbox

---
 mbox.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbox.c b/mbox.c
index 49e973a..c91e882 100644
--- a/mbox.c
+++ b/mbox.c
@@ -1028,6 +1028,9 @@ int add_mbox_messages(struct database *db)/*{{{*/
       if (va) {
         free_ro_mapping(va, valen);
       }
+    } else {
+      /* Nothing new; forget the messages that have gone off the end. */
+      mb->n_msgs = mb->n_old_msgs_valid;
     }
   }
   return any_new;
-- 
2.43.0


From 55aa25cfe6d6105f75375c5e5dedfd9f116acb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:11 +0000
Subject: [PATCH 16/66] fix: write every field of IMAP and dead messages to the
 database

---
 writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/writer.c b/writer.c
index 4b37274..37f0c2b 100644
--- a/writer.c
+++ b/writer.c
@@ -358,6 +358,8 @@ static char *write_messages(struct database *db, struct write_map *map, unsigned
       case MTY_IMAP:
         slen = strlen(db->msgs[i].src.mpf.path);
         uidata[map->path_offset + i] = cdata - data;
+        uidata[map->mtime_offset + i] = db->msgs[i].src.mpf.mtime;
+        uidata[map->size_offset + i] = db->msgs[i].src.mpf.size;
         uidata[map->date_offset + i] = db->msgs[i].date;
         uidata[map->tid_offset + i]  = db->msgs[i].tid;
         memcpy(cdata, db->msgs[i].src.mpf.path, 1 + slen); /* include trailing null */
@@ -380,6 +382,7 @@ static char *write_messages(struct database *db, struct write_map *map, unsigned
         uidata[map->path_offset + i] = 0; /* Can't ever happen for real */
         uidata[map->mtime_offset + i] = 0; /* For cleanliness */
         uidata[map->size_offset + i] = 0;  /* For cleanliness */
+        uidata[map->date_offset + i] = 0;  /* For cleanliness */
         /* The following line is necessary, otherwise 'random' tid
          * information is written to the database, which can crash the search
          * functions. */
-- 
2.43.0


From 97e6cce43ba20075b0fc513836f5095b072071da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:20 +0000
Subject: [PATCH 17/66] fix: initialise the entry of a misformatted mbox
 message

---
 mbox.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbox.c b/mbox.c
index c91e882..4bfc27e 100644
--- a/mbox.c
+++ b/mbox.c
@@ -1003,6 +1003,7 @@ int add_mbox_messages(struct database *db)/*{{{*/
         /* Only do this once a valid rfc822 structure has been obtained. */
         maybe_grow_message_arrays(db);
         n = db->n_msgs;
+        memset(&db->msgs[n], 0, sizeof(struct msgpath));
         db->type[n] = MTY_MBOX;
         db->msgs[n].src.mbox.file_index = i;
         db->msgs[n].src.mbox.msg_index = j;
-- 
2.43.0


From 8e42929c09e2824fee47dd00a8f5803f577c69d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:20 +0000
Subject: [PATCH 18/66] fix: initialise the highest entry of an empty match
 list

---
 reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.c b/reader.c
index d04a75e..d7b91ea 100644
--- a/reader.c
+++ b/reader.c
@@ -89,7 +89,7 @@ int int_list_reader_read(struct int_list_reader *ilr, int *result) {
 
 void int_list_reader_copy(struct int_list_reader *ilr, struct matches *out) {
   const unsigned char *base = ilr->pos;
-  int size, index;
+  int size, index = 0;
   while (int_list_reader_read(ilr, &index));
   size = ilr->pos - base;
 
-- 
2.43.0


From 528e644671ef914d351f4bd26cb441fde265f78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:38 +0000
Subject: [PATCH 19/66] fix: reject a database unless the whole magic number
 matches

---
 reader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.c b/reader.c
index d7b91ea..e59b159 100644
--- a/reader.c
+++ b/reader.c
@@ -205,8 +205,8 @@ struct read_db *open_db(char *filename)/*{{{*/
   result->data = data;
 
   /*{{{ Magic number check */
-  if (ucdata[0] == HEADER_MAGIC0 ||
-      ucdata[1] == HEADER_MAGIC1 ||
+  if (ucdata[0] == HEADER_MAGIC0 &&
+      ucdata[1] == HEADER_MAGIC1 &&
       ucdata[2] == HEADER_MAGIC2) {
     if (ucdata[3] != HEADER_MAGIC3) {
       fprintf(stderr, "Another version of this program produced the existing database!  Please rebuild.\n");
-- 
2.43.0


From 64366c8685703f8ff7327e73da7c11a29cc717b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:38 +0000
Subject: [PATCH 20/66] fix: notice changes of an mbox reached through a
 symlink

---
 mbox.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbox.c b/mbox.c
index 4bfc27e..026766b 100644
--- a/mbox.c
+++ b/mbox.c
@@ -835,6 +835,8 @@ void build_mbox_lists(struct database *db, const char *folder_base, /*{{{*/
         if (verbose) {
           printf("%s is a link - skipping\n", path);
         }
+      } else if (S_ISLNK(sb.st_mode) && stat(path, &sb) < 0) {
+        /* dangling symlink */
       } else {
         extant_mboxen[n_extant].full_path = new_string(path);
         extant_mboxen[n_extant].mtime = sb.st_mtime;
-- 
2.43.0


From 77ffb93f10b9c3b0f3bf6a88e85a43d12ef97c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:04 +0000
Subject: [PATCH 21/66] fix: accept an mbox separator whose address has a
 one-letter domain

Messages after a line like 'From bob@x Mon Jan  1 12:34:56 2001' were merged
with the one before, or lost at the start of the file.
---
 fromcheck.nfa | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fromcheck.nfa b/fromcheck.nfa
index 97bce23..fa8add4 100644
--- a/fromcheck.nfa
+++ b/fromcheck.nfa
@@ -91,7 +91,7 @@ BLOCK email {
 
     STATE start_of_domain
         LEFTSQUARE -> dotted_quad
-        DOMAIN -> after_at
+        DOMAIN -> after_at, out
 
     STATE dotted_quad
         DIGIT | PERIOD -> dotted_quad
-- 
2.43.0


From 2f2d83287882fc63d9662256d081e314607b2ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:31 +0000
Subject: [PATCH 22/66] fix: a signal no longer makes mairix hang

The handler called exit(), which deadlocks when the signal interrupted malloc
or stdio; mairix then stayed, and kept the database locked.
---
 mairix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index 2a0573a..fa8cd78 100644
--- a/mairix.c
+++ b/mairix.c
@@ -446,7 +446,9 @@ static void print_version(void)/*{{{*/
 /*}}}*/
 static void handlesig(int signo)/*{{{*/
 {
-  unlock_and_exit(7);
+  /* exit() isn't safe here : the signal may have interrupted malloc or stdio */
+  unlock_database();
+  _exit(7);
 }
 /*}}}*/
 static void usage(void)/*{{{*/
-- 
2.43.0


From 3a7c83fa36c2c5d44c897e2110956804f930fc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:31 +0000
Subject: [PATCH 23/66] fix: only a process that has got the database lock
 works on it or removes it

When the lock was released between the attempt to take it and the attempt to
read it, mairix carried on without any lock.  A signal received before the
lock was taken, or after it was released, removed the lock of another process.
---
 dotlock.c | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/dotlock.c b/dotlock.c
index a5b4ead..77e7e67 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -25,8 +25,23 @@
 #include <sys/types.h>
 #include <pwd.h>
 #include <unistd.h>
+#include <signal.h>
 
 static char *lock_file_name = NULL;
+static int lock_held = 0; /* the lock file is ours */
+
+static void block_signals(sigset_t *old)/*{{{*/
+{
+  /* The lock and what we know of it must not get out of step if a signal makes
+   * us exit. */
+  sigset_t block;
+  sigemptyset(&block);
+  sigaddset(&block, SIGHUP);
+  sigaddset(&block, SIGINT);
+  sigaddset(&block, SIGQUIT);
+  sigprocmask(SIG_BLOCK, &block, old);
+}
+/*}}}*/
 
 /* This locking code was originally written for tdl */
 
@@ -39,6 +54,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   char *tname;
   struct stat sb;
   FILE *out;
+  sigset_t old_signals;
 
   if (uname(&uu) < 0) {
     perror("uname");
@@ -55,7 +71,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   sprintf(lock_file_name, "%s.lock", path);
 
   if (forced_unlock) {
-    unlock_database();
+    unlink(lock_file_name);
     forced_unlock = 0;
   }
 
@@ -64,6 +80,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   len += (10 + 2);
   tname = new_array(char, len);
   sprintf(tname, "%s.%d.%s", lock_file_name, pid, uu.nodename);
+  block_signals(&old_signals);
   out = fopen(tname, "w");
   if (!out) {
     fprintf(stderr, "Cannot open lock file %s for writing\n", tname);
@@ -87,9 +104,12 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
           fgets(line, sizeof(line), in);
           line[strlen(line)-1] = 0; /* strip trailing newline */
           fprintf(stderr, "Database %s appears to be locked by (pid,node,user)=(%s)\n", path, line);
-          unlink(tname);
-          exit(1);
+        } else {
+          /* The lock was released just now; but we haven't got it. */
+          fprintf(stderr, "Database %s appears to be locked\n", path);
         }
+        unlink(tname);
+        exit(1);
       } else {
         /* lock succeeded apparently */
       }
@@ -97,14 +117,22 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   } else {
     /* lock succeeded apparently */
   }
+  lock_held = 1;
   unlink(tname);
   free(tname);
+  sigprocmask(SIG_SETMASK, &old_signals, NULL);
   return;
 }
 /*}}}*/
 void unlock_database(void)/*{{{*/
 {
-  if (lock_file_name) unlink(lock_file_name);
+  sigset_t old_signals;
+  block_signals(&old_signals);
+  if (lock_held) {
+    lock_held = 0;
+    unlink(lock_file_name);
+  }
+  sigprocmask(SIG_SETMASK, &old_signals, NULL);
   return;
 }
 /*}}}*/
-- 
2.43.0


From 65778960faaeac3896555a6dba620cd457b3814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:42 +0000
Subject: [PATCH 24/66] fix: an empty lock file made mairix use an
 uninitialised buffer

---
 dotlock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dotlock.c b/dotlock.c
index 77e7e67..6155ff7 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -101,8 +101,8 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
         in = fopen(lock_file_name, "r");
         if (in) {
           char line[2048];
-          fgets(line, sizeof(line), in);
-          line[strlen(line)-1] = 0; /* strip trailing newline */
+          if (!fgets(line, sizeof(line), in)) line[0] = 0;
+          line[strcspn(line, "\n")] = 0; /* strip trailing newline */
           fprintf(stderr, "Database %s appears to be locked by (pid,node,user)=(%s)\n", path, line);
         } else {
           /* The lock was released just now; but we haven't got it. */
-- 
2.43.0


From 910e7755932913f5b4d7485a2a5192d1291b3551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:50 +0000
Subject: [PATCH 25/66] fix: warn about matches in an mbox that has gone or
 become empty

---
 search.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index b308992..c4c66a8 100644
--- a/search.c
+++ b/search.c
@@ -717,7 +717,11 @@ static void get_validated_mbox_msg(struct read_db *db, int msg_index,/*{{{*/
 
   create_ro_mapping(db->data + db->mbox_paths_table[mbi], mbox_data, mbox_len,
       MAP_DECOMPRESS_IF_APPLICABLE);
-  if (!*mbox_data) return;
+  if (!*mbox_data) {
+    /* The mbox has gone or become empty */
+    had_failed_checksum = 1;
+    return;
+  }
 
   start = *mbox_data + db->mtime_table[msg_index];
 
-- 
2.43.0


From 8dd5ddea21c9748cc9eb05c83019551ef5e28f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:50 +0000
Subject: [PATCH 26/66] fix: don't append a changed mbox message to an IMAP
 mfolder

---
 search.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index c4c66a8..03c52d9 100644
--- a/search.c
+++ b/search.c
@@ -1356,7 +1356,9 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               unsigned char *start, *data;
               int mbox_len, msg_len, mbi;
               get_validated_mbox_msg(db, i, &mbi, &data, &mbox_len, &start, &msg_len);
-              imap_append_new_message(imapc, output_path, start, msg_len, is_seen, is_replied, is_flagged);
+              if (start) {
+                imap_append_new_message(imapc, output_path, start, msg_len, is_seen, is_replied, is_flagged);
+              }
               if (data) {
                 free_ro_mapping(data, mbox_len);
               }
-- 
2.43.0


From d96ab4c8d47c572c86f8e838d64d7e865199e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:57 +0000
Subject: [PATCH 27/66] fix: glob patterns of more than 31 characters, and with
 an unclosed [

---
 glob.c | 97 ++++++++++++++++++++++++----------------------------------
 mbox.c |  2 +-
 2 files changed, 41 insertions(+), 58 deletions(-)

diff --git a/glob.c b/glob.c
index 67f423e..a69ed0d 100644
--- a/glob.c
+++ b/glob.c
@@ -27,11 +27,17 @@
 #include "mairix.h"
 
 
+/* What precedes and what may be at each position in the pattern */
+struct glob_pos {
+  unsigned char star;
+  unsigned char twostar;
+  unsigned char pat[256];
+};
+
 struct globber {
-  unsigned int pat[256];
-  unsigned int starpat;
-  unsigned int twostarpat;
-  unsigned int hit;
+  int n; /* Number of positions; pos[n] is the end of the pattern */
+  struct glob_pos *pos;
+  unsigned char *reg; /* Positions that the string so far can be at */
 };
 
 struct globber_array {
@@ -39,7 +45,7 @@ struct globber_array {
   struct globber **globs;
 };
 
-static const char *parse_charclass(const char *in, struct globber *result, unsigned int mask)/*{{{*/
+static const char *parse_charclass(const char *in, unsigned char *pat)/*{{{*/
 {
   int first = 1;
   int prev = -1;
@@ -47,7 +53,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
   while (*in) {
     if (*in == ']') {
       if (first) {
-        result->pat[(int)']'] |= mask;
+        pat[(int)']'] = 1;
       } else {
         return in;
       }
@@ -56,7 +62,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
       if ((prev < 0) || !in[1] || (in[1]==']')) {
         /* - at either end of string (or right after an earlier range) means
          * normal - */
-        result->pat['-'] |= mask;
+        pat['-'] = 1;
       } else {
         int next = in[1];
         int hi, lo;
@@ -69,7 +75,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
         }
         for (i=lo; i<=hi; i++) {
           int index = 0xff & i;
-          result->pat[index] |= mask;
+          pat[index] = 1;
         }
         /* require 1 extra increment */
         in++;
@@ -77,7 +83,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
       }
     } else {
       int index = 0xff & (int)*in;
-      result->pat[index] |= mask;
+      pat[index] = 1;
     }
     prev = *in;
     first = 0;
@@ -94,104 +100,81 @@ struct globber *make_globber(const char *wildstring)/*{{{*/
   const char *p;
   char c;
   int index;
-  unsigned int mask;
+  struct glob_pos *pos;
 
   result = new(struct globber);
-  memset(&result->pat, 0x00, 256*sizeof(unsigned int));
-  memset(&result->starpat, 0x00, sizeof(unsigned int));
-  memset(&result->twostarpat, 0x00, sizeof(unsigned int));
-  mask = 0x1;
+  n = strlen(wildstring) + 1; /* maybe oversize */
+  result->pos = new_array(struct glob_pos, n);
+  memset(result->pos, 0x00, n * sizeof(struct glob_pos));
+  result->reg = new_array(unsigned char, n);
 
   n = 0;
   for (p=wildstring; *p; p++) {
-    mask = 1<<n;
+    pos = result->pos + n;
     c = *p;
     switch (c) {
       case '*':/*{{{*/
         if (p[1] == '*') {
-          result->twostarpat |= mask;
+          pos->twostar = 1;
           p++;
         } else {
           /* Match zero or more of anything */
-          result->starpat |= mask;
+          pos->star = 1;
         }
         break;
 /*}}}*/
       case '[':/*{{{*/
-        p = parse_charclass(p, result, mask);
+        p = parse_charclass(p, pos->pat);
         n++;
+        if (!*p) p--; /* no closing ] */
         break;
 /*}}}*/
       case '?':/*{{{*/
         for (i=0; i<256; i++) {
-          result->pat[i] |= mask;
+          pos->pat[i] = 1;
         }
         n++;
         break;
 /*}}}*/
       default:/*{{{*/
         index = 0xff & (int)c;
-        result->pat[index] |= mask;
+        pos->pat[index] = 1;
         n++;
         break;
 /*}}}*/
     }
   }
 
-  result->hit = (1<<n);
+  result->n = n;
   return result;
 
 }
 /*}}}*/
 void free_globber(struct globber *old)/*{{{*/
 {
+  free(old->pos);
+  free(old->reg);
   free(old);
 }
 /*}}}*/
 
-#define DODEBUG 0
-
 int is_glob_match(struct globber *g, const char *s)/*{{{*/
 {
-  unsigned int reg;
-  unsigned int stars;
-  unsigned int twostars;
-  unsigned int stars2;
+  unsigned char *reg = g->reg;
   int index;
+  int i;
 
-  reg = 0x1;
-  while (*s) {
+  memset(reg, 0, g->n + 1);
+  reg[0] = 1;
+  for (; *s; s++) {
     index = 0xff & (int) *s;
-#if DODEBUG
-    printf("*s=%c index=%02x old_reg=%08lx pat=%08lx //",
-           *s, index, reg, g->pat[index]);
-#endif
-    stars = (reg & g->starpat);
-    twostars = (reg & g->twostarpat);
-    if (index != '/') {
-      stars2 = stars | twostars;
-    } else {
-      stars2 = twostars;
+    for (i=g->n; i>=0; i--) {
+      /* A star swallows the character, or the pattern moves on by one. */
+      reg[i] = (reg[i] && (g->pos[i].twostar || (g->pos[i].star && index != '/'))) ||
+               (i > 0 && reg[i-1] && g->pos[i-1].pat[index]);
     }
-    reg &= g->pat[index];
-    reg <<= 1;
-    reg |= stars2;
-#if DODEBUG
-    printf(" new_reg=%08lx ", reg);
-    printf("starpat=%08lx stars=%08lx stars2=%08lx\n", g->starpat, stars, stars2);
-#endif
-    s++;
-  }
-
-#if DODEBUG
-  printf("reg=%08lx hit=%08lx\n", reg, g->hit);
-#endif
-  reg &= g->hit;
-  if (reg) {
-    return 1;
-  } else {
-    return 0;
   }
+  return reg[g->n];
 }
 /*}}}*/
 
diff --git a/mbox.c b/mbox.c
index 026766b..78c45f9 100644
--- a/mbox.c
+++ b/mbox.c
@@ -661,7 +661,7 @@ static void handle_wild(char *path, int base_len, char *last_comp, struct string
 
   free(temp_path);
   free(xpath);
-  free(gg);
+  free_globber(gg);
 }
 /*}}}*/
 static void handle_single(char *path, int base_len, struct string_list *list,/*{{{*/
-- 
2.43.0


From 4f92322445e099861d760baace554e088044fe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:48 +0000
Subject: [PATCH 28/66] fix: limit the number of errors in an approximate match
 to what makes a difference

---
 search.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/search.c b/search.c
index 03c52d9..ed65c91 100644
--- a/search.c
+++ b/search.c
@@ -1026,6 +1026,9 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
       if (equal && (equal[1] == '\0' || isdigit(equal[1]))) {
         *equal = 0;
         max_errors = atoi(equal + 1);
+        /* As many errors as the pattern can have characters (31) always
+         * match, so there's no need to allow for more of them. */
+        if (max_errors < 0 || max_errors > 31) max_errors = 31;
         /* Extend this to do anchoring etc */
       } else {
         equal = NULL;
-- 
2.43.0


From cb95be0b8f81fc1f418ad5aef49aba465a27766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:17 +0000
Subject: [PATCH 29/66] fix: date searches more than 68 years back

---
 dates.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dates.c b/dates.c
index e2bbf31..330c5c4 100644
--- a/dates.c
+++ b/dates.c
@@ -125,14 +125,15 @@ static int scan_date_expr(char *first, char *last, struct tm *start, struct tm *
   type = discover_type(first, last);
 
   if (type == DS_SCALED) {/*{{{*/
-    int v;
+    long long v; /* 69 years in seconds don't fit into an int */
     char *p;
     time_t then;
 
     p = first;
     v = 0;
     while (isdigit(*p)) {
-      v = (v*10) + (*p - '0');
+      /* That many days are before any message already */
+      if (v < 10000000) v = (v*10) + (*p - '0');
       p++;
     }
     switch(*p) {
-- 
2.43.0


From 6bf5d6e20baea81c7f315b68216d421725ee7045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:56 +0000
Subject: [PATCH 30/66] fix: deeply nested message parts exhaust the stack and
 memory

---
 rfc822.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rfc822.c b/rfc822.c
index b3a657d..bbc177a 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -676,6 +676,10 @@ static void do_multipart(struct msg_src *src, char *input, int input_len,
     const char *boundary, struct attachment *atts,
     enum data_to_rfc822_error *error);
 
+/* Parts of a message that are nested deeper than this aren't looked at; each
+ * level takes stack space and a copy of what it contains. */
+#define MAX_NESTING 100
+
 /*{{{ do_body() */
 static void do_body(struct msg_src *src,
     char *body_start, int body_len,
@@ -684,10 +688,16 @@ static void do_body(struct msg_src *src,
     struct attachment *atts,
     enum data_to_rfc822_error *error)
 {
+  static int nesting = 0;
   char *decoded_body;
   int decoded_body_len;
   const char *content_transfer_encoding;
   content_transfer_encoding = NULL;
+  if (nesting >= MAX_NESTING) {
+    fprintf(stderr, "Ignoring parts of %s nested more than %d levels deep\n",
+        format_msg_src(src), MAX_NESTING);
+    return;
+  }
   if (cte_nvp) {
     content_transfer_encoding = nvp_first(cte_nvp);
     if (!content_transfer_encoding) {
@@ -703,7 +713,9 @@ static void do_body(struct msg_src *src,
     struct content_type_header ct;
     parse_content_type(ct_nvp, &ct);
     if (ct.major && !strcasecmp(ct.major, "multipart")) {
+      ++nesting;
       do_multipart(src, decoded_body, decoded_body_len, ct.boundary, atts, error);
+      --nesting;
       /* Don't need decoded body any longer - copies have been taken if
        * required when handling multipart attachments. */
       free(decoded_body);
@@ -748,7 +760,9 @@ static void do_body(struct msg_src *src,
       }
 
       if (new_att->ct == CT_MESSAGE_RFC822) {
+        ++nesting;
         new_att->data.rfc822 = data_to_rfc822(src, decoded_body, decoded_body_len, error);
+        --nesting;
         free(decoded_body); /* data no longer needed */
       } else {
         new_att->data.normal.len = decoded_body_len;
-- 
2.43.0


From 77b8c95f24e403725787a366620e7864c4df7e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:12 +0000
Subject: [PATCH 31/66] fix: a message the IMAP server did not return is not
 indexed as empty

If fetching a message failed, make_rfc822_from_imap returned an uninitialised
pointer; and the message would have been recorded without any words and never
looked at again.  Leave it out, so the next run fetches it.
---
 db.c            | 12 +++++++++++-
 imapinterface.c |  7 +++++--
 imapinterface.h |  2 +-
 search.c        |  2 +-
 4 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/db.c b/db.c
index 08db0a7..418d979 100644
--- a/db.c
+++ b/db.c
@@ -716,7 +716,17 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
         break;
       case MTY_IMAP:
         if (verbose) fprintf(stderr, "Scanning IMAP <%s>\n", db->msgs[i].src.mpf.path);
-        msg = make_rfc822_from_imap(db->msgs[i].src.mpf.path, imapc);
+        {
+          int fetched;
+          msg = make_rfc822_from_imap(db->msgs[i].src.mpf.path, imapc, &fetched);
+          if (!fetched) {
+            /* Not scanned : leave it to the next run, where it is new again */
+            free(db->msgs[i].src.mpf.path);
+            db->msgs[i].src.mpf.path = NULL;
+            db->type[i] = MTY_DEAD;
+            continue;
+          }
+        }
         break;
     }
     if(msg)
diff --git a/imapinterface.c b/imapinterface.c
index 2dcb4a9..45b2cc6 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -264,12 +264,15 @@ struct msg_src src;	/* assuming this is for error message presentation only! */
 }
 
 struct rfc822 *
-make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc)
+make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc, int *fetched)
 {
 struct make_rfc822_from_imap_s s;
+int got;
 
 	s.pseudopath = pseudopath;
-	imap_fetch_message_raw(pseudopath, imapc, callback822, &s);
+	s.r = NULL;
+	got = imap_fetch_message_raw(pseudopath, imapc, callback822, &s);
+	if (fetched) *fetched = got;
 	return s.r;
 }
 
diff --git a/imapinterface.h b/imapinterface.h
index 71f7a4f..32631ed 100644
--- a/imapinterface.h
+++ b/imapinterface.h
@@ -22,7 +22,7 @@ int imap_fetch_message_raw(
 );
 
 struct rfc822 *
-make_rfc822_from_imap(const char *pseudopath, struct imap_ll *);
+make_rfc822_from_imap(const char *pseudopath, struct imap_ll *, int *fetched);
 
 void imap_clear_folder(struct imap_ll *, const char *);
 void imap_append_new_message(struct imap_ll *, const char *folder, const unsigned char *data, size_t len, int seen, int answered, int flagged);
diff --git a/search.c b/search.c
index ed65c91..2954f18 100644
--- a/search.c
+++ b/search.c
@@ -1275,7 +1275,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               filename = db->data + db->path_offsets[i];
               printf("%s\n", filename);
               GET_IMAP;
-              parsed = imapc ? make_rfc822_from_imap(filename, imapc) : NULL;
+              parsed = imapc ? make_rfc822_from_imap(filename, imapc, NULL) : NULL;
             }
             break;
           case DB_MSG_MBOX:
-- 
2.43.0


From d03326aac7c6884a02d881a44a44a481967bea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:12 +0000
Subject: [PATCH 32/66] fix: send IMAP strings with a backslash as literals

A backslash in a quoted string is an escape character, so a folder name, user
name or password containing one reached the server wrongly or was rejected.
---
 imap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/imap.c b/imap.c
index 6e3105e..bb6a901 100644
--- a/imap.c
+++ b/imap.c
@@ -548,6 +548,7 @@ char close = 0;
 				if (
 					(t->leaf[i] < 32) ||
 					(t->leaf[i] == 34) ||
+					(t->leaf[i] == 92) ||
 					(t->leaf[i] > 126)
 				) break;
 			}
-- 
2.43.0


From 1df57236a3641da502f23d89e51554ee09e4bcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:12 +0000
Subject: [PATCH 33/66] fix: understand backslash escapes in quoted strings
 from an IMAP server

A message or other string sent quoted, containing a double quote or backslash,
was cut short or got extra backslashes.
---
 imap.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/imap.c b/imap.c
index bb6a901..79cf8b6 100644
--- a/imap.c
+++ b/imap.c
@@ -242,6 +242,7 @@ char cur;
 struct imap_ll_tokenlist *line = NULL;
 struct imap_ll_tokenlist *node = NULL;
 int linestate = 0;
+int escaped = 0;
 int recv_tag = 0;
 char *curtoken = NULL;
 size_t curtoken_now = 0;
@@ -365,11 +366,16 @@ token_extend:
 					break;
 				case 5:
 					/* quoted string */
-					if (cur == 34) {
+					if ((cur == 92) && (!escaped)) {
+						escaped = 1;
+						break;
+					}
+					if ((cur == 34) && (!escaped)) {
 						growlist(&node, mktoken(TLTYPE_STRING, curtoken, curtoken_now));
 						curtoken = NULL;
 						linestate = 4;
 					} else {
+						escaped = 0;
 						goto token_extend;
 					}
 					break;
-- 
2.43.0


From f402e536d2c25151994555ea92d1f709e717e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:12 +0000
Subject: [PATCH 34/66] fix: append to an IMAP result folder that does not
 exist yet

Selecting the folder first, which APPEND does not need, failed before the
folder could be created, so local messages were not delivered.
---
 imapinterface.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/imapinterface.c b/imapinterface.c
index 45b2cc6..fcc94a5 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -383,7 +383,6 @@ imap_append_new_message(
 {
 struct imap_ll_tokenlist *flags, *cmd, *result;
 
-	if (!imap_select(imapc, folder, -1, 1, NULL)) return;
 	flags = imap_ll_build(TLTYPE_LIST, TLTYPE_END);
 	if (seen) {
 		imap_ll_append(flags, imap_ll_build(
-- 
2.43.0


From b58bc71c96f2b0045700316e566ef4d73fe60ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:12 +0000
Subject: [PATCH 35/66] fix: no IMAP folder is selected after a failed SELECT

The folder selected before was still assumed to be, so a missing folder in
the list made the server reject the following commands for the other one.
---
 imap.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/imap.c b/imap.c
index 79cf8b6..6642bc1 100644
--- a/imap.c
+++ b/imap.c
@@ -1262,6 +1262,10 @@ long exists = 0;
 		return ll->selected_folder_uidvalidity;
 	}
 
+	/* if this fails, the server has no folder selected */
+	if (ll->selected_folder) free(ll->selected_folder);
+	ll->selected_folder = NULL;
+
 	command_name = need_write ? "SELECT" : "EXAMINE";
 	cmd = imap_ll_build(
 		TLTYPE_TAGGED,
@@ -1314,7 +1318,6 @@ long exists = 0;
 		return NULL;
 	}
 
-	if (ll->selected_folder) free(ll->selected_folder);
 	if (ll->selected_folder_uidvalidity) free(ll->selected_folder_uidvalidity);
 	ll->selected_folder = malloc(foldername_len);
 	if (ll->selected_folder) {
-- 
2.43.0


From 496f154c3e6a4acacd8595a2727afe9e1ac91cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:12 +0000
Subject: [PATCH 36/66] fix: short untagged responses from an IMAP server
 crashed mairix

An untagged response of one word, such as an empty SEARCH, was taken to have
a second one.
---
 imap.c          | 1 +
 imapinterface.c | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/imap.c b/imap.c
index 6642bc1..90821bd 100644
--- a/imap.c
+++ b/imap.c
@@ -1055,6 +1055,7 @@ find_capability_list_in_untagged_response(struct imap_ll_tokenlist *l)
 	for (l = l->first; l; l = l->next) {
 		if (
 			((l->type) == TLTYPE_UNTAGGED) &&
+			(l->first) &&
 			((l->first->type) == TLTYPE_ATOM) &&
 			(0 == strcmp(l->first->leaf, "CAPABILITY"))
 		) return l->first->next;
diff --git a/imapinterface.c b/imapinterface.c
index fcc94a5..1b317c3 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -105,10 +105,10 @@ long exists;
 		if (!l2) continue;
 		if (l2->type != TLTYPE_ATOM) continue;	/* sequence */
 		l2 = l2->next;
-		if (l2->type != TLTYPE_ATOM) continue;
+		if (!l2 || (l2->type != TLTYPE_ATOM)) continue;
 		if (0 != strcmp(l2->leaf, "FETCH")) continue;
 		l2 = l2->next;
-		if (l2->type != TLTYPE_LIST) continue;
+		if (!l2 || (l2->type != TLTYPE_LIST)) continue;
 		uid = NULL;
 		deleted = 0;
 		for (l2 = l2->first; l2 && (l2->next); l2 = l2->next) {
@@ -216,10 +216,10 @@ const char *actual_uidvalidity, *got_uid, *got_raw;
 		if (!l2) continue;
 		if (l2->type != TLTYPE_ATOM) continue;	/* sequence */
 		l2 = l2->next;
-		if (l2->type != TLTYPE_ATOM) continue;
+		if (!l2 || (l2->type != TLTYPE_ATOM)) continue;
 		if (0 != strcmp(l2->leaf, "FETCH")) continue;
 		l2 = l2->next;
-		if (l2->type != TLTYPE_LIST) continue;
+		if (!l2 || (l2->type != TLTYPE_LIST)) continue;
 		got_uid = got_raw = NULL;
 		for (l2 = l2->first; l2 && (l2->next); l2 = l2->next) {
 			if (l2->type != TLTYPE_ATOM) continue;
-- 
2.43.0


From 814fa56a4fa149a153b1efbbfb1f3bd1e6346f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:12 +0000
Subject: [PATCH 37/66] fix: a lost connection to the IMAP server crashed
 mairix

There is no response then, which several places dereferenced, and the next
command was cut off by SIGPIPE, leaving the database locked.
---
 imap.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/imap.c b/imap.c
index 90821bd..3827ff6 100644
--- a/imap.c
+++ b/imap.c
@@ -94,6 +94,7 @@ int s;
 	memset(ll, 0, sizeof(*ll));
 	ll->w_socket = ll->r_socket = s;
 	ll->current_tag_number = -1;
+	signal(SIGPIPE, SIG_IGN);	/* the write fails instead */
 #ifdef USE_OPENSSL
 	ll->ssl = NULL;
 #endif
@@ -154,6 +155,7 @@ int r[2], w[2];
 	ll->w_socket = w[1];
 	ll->r_socket = r[0];
 	ll->current_tag_number = -1;
+	signal(SIGPIPE, SIG_IGN);	/* the write fails instead */
 #ifdef USE_OPENSSL
 	ll->ssl = NULL;
 #endif
@@ -844,6 +846,7 @@ imap_ll_append(struct imap_ll_tokenlist *list, struct imap_ll_tokenlist *item)
 const char *
 imap_ll_status(struct imap_ll_tokenlist *t)
 {
+	if (!t) return "BAD";	/* no response */
 	t = t->last->first;
 	if (!t) return "BAD";
 	if ((t->type) != TLTYPE_ATOM) return "BAD";
@@ -993,6 +996,11 @@ int plusindent = 0;
 int i;
 const char *close = NULL;
 
+	if (!t) {
+		fprintf(out, "no response from IMAP server\n");
+		return;
+	}
+
 	switch (t->type) {
 		case TLTYPE_UNTAGGED:
 			for (i = 0; i < indent; i++) fputc(9, out);
@@ -1052,6 +1060,7 @@ const char *close = NULL;
 static struct imap_ll_tokenlist *
 find_capability_list_in_untagged_response(struct imap_ll_tokenlist *l)
 {
+	if (!l) return NULL;
 	for (l = l->first; l; l = l->next) {
 		if (
 			((l->type) == TLTYPE_UNTAGGED) &&
-- 
2.43.0


From b19444561787d962cd71335f37c3d15b7bc30516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:35 +0000
Subject: [PATCH 38/66] fix: refuse to put search results into an indexed IMAP
 folder

As with local folders, doing so would delete all of the mail in it.
---
 imapinterface.c | 24 ++++++++++++++++++++++++
 imapinterface.h |  3 +++
 mairix.c        |  7 +++----
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/imapinterface.c b/imapinterface.c
index 1b317c3..d143285 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -153,6 +153,30 @@ int i;
 	}
 }
 
+int
+is_indexed_imap_folder(const char *folder, const char *folders, struct globber_array *omit_globs)
+{
+char **folderlist;
+int n_folders;
+int i;
+int result = 0;
+
+	split_on_colons(folders, &n_folders, &folderlist);
+	for (i = 0; i < n_folders; i++) {
+		/* the name of the inbox, alone, is case-insensitive */
+		if (
+			((0 == strcmp(folder, folderlist[i])) ||
+			 ((0 == strcasecmp(folder, "INBOX")) && (0 == strcasecmp(folderlist[i], "INBOX")))) &&
+			(!is_globber_array_match(omit_globs, folderlist[i]))
+		) {
+			result = 1;
+		}
+		free(folderlist[i]);
+	}
+	free(folderlist);
+	return result;
+}
+
 int
 imap_fetch_message_raw(
 	const char *pseudopath, struct imap_ll *imapc,
diff --git a/imapinterface.h b/imapinterface.h
index 32631ed..ee190f6 100644
--- a/imapinterface.h
+++ b/imapinterface.h
@@ -12,6 +12,9 @@ imap_start(const char *pipe, const char *server, const char *username, const cha
 void
 build_imap_message_list(const char *folders, struct msgpath_array *msgs, struct globber_array *omit_globs, struct imap_ll *);
 
+int
+is_indexed_imap_folder(const char *folder, const char *folders, struct globber_array *omit_globs);
+
 /* returns 1 on success, 0 otherwise */
 int imap_fetch_message_raw(
 	const char *pseudopath, struct imap_ll *imapc,
diff --git a/mairix.c b/mairix.c
index fa8cd78..b9bc048 100644
--- a/mairix.c
+++ b/mairix.c
@@ -755,11 +755,10 @@ int main (int argc, char **argv)/*{{{*/
       case FT_RAW:
       case FT_EXCERPT:
         break;
-      case FT_IMAP:
-        /* the same check as below could be implemented in the future */
-        break;
       default:
-        if ((member_of(complete_mfolder,folder_base, maildir_folders, FT_MAILDIR, omit_globs)||
+        if ((output_folder_type == FT_IMAP)
+            ? (imap_folders && is_indexed_imap_folder(complete_mfolder, imap_folders, omit_globs))
+            : (member_of(complete_mfolder,folder_base, maildir_folders, FT_MAILDIR, omit_globs)||
              member_of (complete_mfolder, folder_base, mh_folders, FT_MH, omit_globs) ||
              member_of (complete_mfolder, folder_base, mboxen, FT_MBOX, omit_globs))) {
           fprintf (stderr,
-- 
2.43.0


From 608512712ab446ecbc6f855b44779af8c3b31ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:49 +0000
Subject: [PATCH 39/66] fix: maildir flags were looked for in the directory
 names too

---
 db.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db.c b/db.c
index 418d979..12cd2b3 100644
--- a/db.c
+++ b/db.c
@@ -676,7 +676,8 @@ static void scan_maildir_flags(struct msgpath *m)/*{{{*/
   m->replied = 0;
   m->flagged = 0;
   for (p=start; *p; p++) {}
-  for (p--; (p >= start) && ((*p) != ':'); p--) {}
+  /* Only in the file name itself, not in those of the directories above it */
+  for (p--; (p >= start) && ((*p) != ':') && ((*p) != '/'); p--) {}
   if (p >= start) {
     if (!strncmp(p, ":2,", 3)) {
       p += 3;
-- 
2.43.0


From cac013a1a0b2c20618adee3405e13b29528399ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:02 +0000
Subject: [PATCH 40/66] fix: a word split over two encoded-words in a header
 wasn't found

---
 rfc822.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index bbc177a..c5c69e7 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -297,13 +297,18 @@ static void decode_header_value(char *text){/*{{{*/
   /* rfc2047 decode, written by Mikael Ylikoski */
 
   char *s, *a, *b, *e, *p, *q;
+  char *word_end = NULL; /* end of previous encoded-word */
+  char *gap; /* set if only white space separates it from this one */
 
   for (p = q = s = text; (s = strstr(s, "=?")); s = e + 2) {
+    gap = NULL;
     if (p == q)
       p = q = s;
-    else
+    else {
+      if ((q == word_end) && (q + strspn(q, " \t\r\n") == s)) gap = p;
       while (q != s)
         *p++ = *q++;
+    }
     s += 2;
     a = strchr(s, '?');
     if (!a) break;
@@ -316,6 +321,8 @@ static void decode_header_value(char *text){/*{{{*/
     /* have found an encoded-word */
     if (b - a != 2)
       continue; /* unknown encoding */
+    /* White space between adjacent encoded-words isn't part of the text */
+    if (gap && strchr("qQbB", *a)) p = gap;
     if (*a == 'q' || *a == 'Q') {
       int val;
       q = b;
@@ -356,7 +363,7 @@ static void decode_header_value(char *text){/*{{{*/
     } else {
       continue; /* unknown encoding */
     }
-    q = e + 2;
+    q = word_end = e + 2;
   }
   if (p == q) return;
   while (*q != '\0')
-- 
2.43.0


From 1f2950680698fccc4d882d8088ee50e7e557b36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:13 +0000
Subject: [PATCH 41/66] fix: the name= parameter of Content-Type was matched
 case-sensitively

---
 rfc822.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rfc822.c b/rfc822.c
index c5c69e7..72514d6 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -741,7 +741,7 @@ static void do_body(struct msg_src *src,
         } else {
           /* Some messages have name=... in content-type: instead of
            * filename=... in content-disposition. */
-          lookup = nvp_lookup(ct_nvp, "name");
+          lookup = nvp_lookupcase(ct_nvp, "name");
           if (lookup) {
             new_att->filename = new_string(lookup);
           } else {
-- 
2.43.0


From 9b1619a530d1f0f35a84db0c2b9b2ae5eac92d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:46 +0000
Subject: [PATCH 42/66] fix: a maildir message that couldn't be parsed lost its
 flags

---
 db.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db.c b/db.c
index 12cd2b3..f499934 100644
--- a/db.c
+++ b/db.c
@@ -730,10 +730,10 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
         }
         break;
     }
+    scan_maildir_flags(&db->msgs[i]);
     if(msg)
     {
       db->msgs[i].date = msg->hdrs.date;
-      scan_maildir_flags(&db->msgs[i]);
       tokenise_message(i, db, msg);
       free_rfc822(msg);
     }
-- 
2.43.0


From 9fd733c83edcea6c824fa3a088f299e4b19c5b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:18 +0000
Subject: [PATCH 43/66] fix: an attachment name given both plainly and
 charset-tagged was garbled

---
 nvp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nvp.c b/nvp.c
index 3cd99f5..6a7191a 100644
--- a/nvp.c
+++ b/nvp.c
@@ -293,7 +293,7 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
 		    *tempdst++ = *tempsrc;
 	    }
             *tempdst = 0;
-            if (current_action == GOT_NAMEVALUE_CSET)
+            if (last_action == GOT_NAMEVALUE_CSET)
               append_namevalue(result, &name, &value);
             else
               combine_namevalue(result, &name, &value);
-- 
2.43.0


From dc1a07edbeb5862e45a865a0f95b9b8459d76cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:33 +0000
Subject: [PATCH 44/66] fix: show the day of the Date header in excerpts in
 every time zone

The date is computed as the start of a day in local time, so gmtime() made it
the day before everywhere east of Greenwich.
---
 search.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 2954f18..0134539 100644
--- a/search.c
+++ b/search.c
@@ -1318,7 +1318,8 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
                                     printf("  Message-ID: %s\n", parsed->hdrs.message_id);
           if (parsed->hdrs.in_reply_to)
                                     printf("  In-Reply-To:%s\n", parsed->hdrs.in_reply_to);
-          thetm = gmtime(&parsed->hdrs.date);
+          /* The date was computed as the start of a day in local time */
+          thetm = localtime(&parsed->hdrs.date);
           strftime(datebuf, sizeof(datebuf), "%a, %d %b %Y", thetm);
           printf("  Date:        %s\n", datebuf);
           free_rfc822(parsed);
-- 
2.43.0


From 5e9f4252d0ea372e10ef531d2945a60c3d3d6d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:26 +0000
Subject: [PATCH 45/66] fix: accept more than ten percent-encoded sections of a
 MIME parameter

---
 nvp.nfa | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nvp.nfa b/nvp.nfa
index 0f2ccd9..47f5fae 100644
--- a/nvp.nfa
+++ b/nvp.nfa
@@ -114,6 +114,7 @@ Block namevalue {
         OWS ; <name:in->out> ; [*] ; OWS ; [=] -> rhs_charset
         OWS ; <name:in->out> ; [*] ; [0] ; [*] ; OWS ; [=] -> rhs_charset
         OWS ; <name:in->out> ; [*] ; [1-9A-Za-z] ; [*] ; OWS ; [=] -> rhs_charset_continue
+        OWS ; <name:in->out> ; [*] ; [1-9] ; <digits:in->out> ; [*] ; OWS ; [=] -> rhs_charset_continue
 
     State rhs_normal
         OWS ; <qvalue:in->out> ; OWS -> out_normal
-- 
2.43.0


From e807f2411686c36adb34fda1c71649228193b52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:18 +0000
Subject: [PATCH 46/66] fix: a MIME parameter in sections beside a plain one of
 the same name is not appended to it

---
 nvp.c   | 4 +++-
 nvp.nfa | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/nvp.c b/nvp.c
index 6a7191a..2e00225 100644
--- a/nvp.c
+++ b/nvp.c
@@ -104,7 +104,9 @@ static void append_namevalue(struct nvp *nvp, char **name, char **value)/*{{{*/
 static void combine_namevalue(struct nvp *nvp, char **name, char **value)/*{{{*/
 {
   struct nvp_entry *n;
-  for (n=nvp->first; n; n=n->next) {
+  /* The section before this one is the latest with this name : a complete
+   * parameter of the same name may be given alongside the sections. */
+  for (n=nvp->last; n; n=n->prev) {
     if (n->type == NVP_NAMEVALUE) {
       if (!strcmp(n->lhs, *name)) {
         char *new_rhs;
diff --git a/nvp.nfa b/nvp.nfa
index 47f5fae..b50a823 100644
--- a/nvp.nfa
+++ b/nvp.nfa
@@ -110,7 +110,9 @@ Block minor {
 Block namevalue {
     State in
         OWS ; <name:in->out> ; OWS ; [=] -> rhs_normal
-        OWS ; <name:in->out> ; [*] ; <digits:in->out> ; OWS ; [=] -> rhs_continue
+        OWS ; <name:in->out> ; [*] ; [0] ; OWS ; [=] -> rhs_normal
+        OWS ; <name:in->out> ; [*] ; [1-9] ; OWS ; [=] -> rhs_continue
+        OWS ; <name:in->out> ; [*] ; [1-9] ; <digits:in->out> ; OWS ; [=] -> rhs_continue
         OWS ; <name:in->out> ; [*] ; OWS ; [=] -> rhs_charset
         OWS ; <name:in->out> ; [*] ; [0] ; [*] ; OWS ; [=] -> rhs_charset
         OWS ; <name:in->out> ; [*] ; [1-9A-Za-z] ; [*] ; OWS ; [=] -> rhs_charset_continue
-- 
2.43.0


From 369533f5a4f79e31fc3249b12b2eb17e826a952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:16 +0000
Subject: [PATCH 47/66] fix: an IMAP response with {n} inside its text is not a
 literal

---
 imap.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imap.c b/imap.c
index 3827ff6..59d6e7e 100644
--- a/imap.c
+++ b/imap.c
@@ -396,7 +396,9 @@ token_extend:
 					/* CRLF after {nn} */
 					if (cur == 13) break;
 					if (cur != 10) {
+						/* not a literal after all, e.g. "* OK {5} new" */
 						linestate = 3;
+						break;
 					}
 					MKPRETOKEN(recv_tag);
 					if (recv_tag == 0) {
-- 
2.43.0


From 08e45939e34914fb7748a03fbb24c7d366c8651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:03 +0000
Subject: [PATCH 48/66] fix: a message file that can't be read is left to the
 next indexing run

---
 db.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/db.c b/db.c
index f499934..2e8f43d 100644
--- a/db.c
+++ b/db.c
@@ -713,6 +713,14 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
         break;
       case MTY_FILE:
         if (verbose) fprintf(stderr, "Scanning <%s>\n", db->msgs[i].src.mpf.path);
+        if (access(db->msgs[i].src.mpf.path, R_OK) < 0) {
+          /* Not scanned : leave it to the next run, where it is new again */
+          fprintf(stderr, "Skipping %s (could not read message)\n", db->msgs[i].src.mpf.path);
+          free(db->msgs[i].src.mpf.path);
+          db->msgs[i].src.mpf.path = NULL;
+          db->type[i] = MTY_DEAD;
+          continue;
+        }
         msg = make_rfc822(db->msgs[i].src.mpf.path);
         break;
       case MTY_IMAP:
-- 
2.43.0


From f70a2b23262a61218b9ce8465987368c69a050ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:15 +0000
Subject: [PATCH 49/66] fix: a compressed mbox that can't be opened was taken
 for an empty one

---
 rfc822.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rfc822.c b/rfc822.c
index 72514d6..107d166 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1424,8 +1424,9 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
     return;
 
 comp_error:
+    /* Unknown rather than empty */
     *data = NULL;
-    *len = 0;
+    *len = -1;
     if (tmpf)
       fclose(tmpf);
     return;
-- 
2.43.0


From 4a1d5a1ef7699bd71923524d713c4bf65e3a6b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:25 +0000
Subject: [PATCH 50/66] fix: an empty MIME parameter made the whole header
 unreadable

---
 nvp.c   | 7 +++++--
 nvp.nfa | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/nvp.c b/nvp.c
index 2e00225..a5a920f 100644
--- a/nvp.c
+++ b/nvp.c
@@ -115,6 +115,8 @@ static void combine_namevalue(struct nvp *nvp, char **name, char **value)/*{{{*/
         strcat(new_rhs, *value);
         free(n->rhs);
         n->rhs = new_rhs;
+        free(*value);
+        *value = NULL;
         return;
       }
     }
@@ -268,7 +270,8 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
             append_majorminor(result, &name, &minor);
             break;
           case GOT_NAMEVALUE:
-            append_namevalue(result, &name, &value);
+            /* An empty value is as good as none */
+            if (value) append_namevalue(result, &name, &value);
             break;
           case GOT_NAMEVALUE_CSET:
           case GOT_NAMEVALUE_CCONT:
@@ -301,7 +304,7 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
               combine_namevalue(result, &name, &value);
             break;
           case GOT_NAMEVALUE_CONT:
-            combine_namevalue(result, &name, &value);
+            if (value) combine_namevalue(result, &name, &value);
             break;
           default:
             break;
diff --git a/nvp.nfa b/nvp.nfa
index b50a823..a780fad 100644
--- a/nvp.nfa
+++ b/nvp.nfa
@@ -81,6 +81,8 @@ Block qvalue {
 
     State qv0
         QVALUE -> qv1
+        # Empty string
+        -> qv2
 
     State qv1
         = COPY_TO_VALUE
@@ -121,7 +123,8 @@ Block namevalue {
     State rhs_normal
         OWS ; <qvalue:in->out> ; OWS -> out_normal
         OWS ; <value:in->out> ; OWS -> out_normal
-        OWS ; ; EOS -> out_normal
+        # Empty value
+        OWS -> out_normal
 
     State rhs_continue
         OWS ; <qvalue:in->out> ; OWS -> out_continue
-- 
2.43.0


From 18e9b0276c12dbce3a0976f4dca70f87db34124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:50 +0000
Subject: [PATCH 51/66] fix: white space before the = of a MIME parameter
 became part of its name

---
 nvp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nvp.c b/nvp.c
index a5a920f..71f53c7 100644
--- a/nvp.c
+++ b/nvp.c
@@ -211,6 +211,10 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
           case COPY_TO_NAME:
             free(name);
             name = newstring;
+            /* White space before the '=' isn't part of the name */
+            tempdst = name + strlen(name);
+            while (tempdst > name && isspace(*(unsigned char *) (tempdst - 1))) tempdst--;
+            *tempdst = 0;
 #ifdef VERBOSE_TEST
             fprintf(stderr, "  COPY_TO_NAME \"%s\"\n", name);
 #endif
-- 
2.43.0


From 1331528f5a5cad9ba427b3fb1d5f50837c82ab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:22 +0000
Subject: [PATCH 52/66] fix: 8-bit characters in a MIME parameter made the
 whole header unreadable

---
 nvp.nfa | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nvp.nfa b/nvp.nfa
index a780fad..2cbde5a 100644
--- a/nvp.nfa
+++ b/nvp.nfa
@@ -20,7 +20,7 @@
 # =======================================================================
 
 Tokens EOS
-Abbrev VALUE = [\041-~]~[\\";]
+Abbrev VALUE = [\041-~\200-\377]~[\\";]
 Abbrev QVALUE = VALUE | [\011\040;] | <escape:in->out>
 Abbrev NAME1 = [0-9a-zA-Z_\-]
 Abbrev MINOR = NAME1 | [\.\-+]
-- 
2.43.0


From e2fbe2ae6ba47de99346633932b5ca231ae3b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:05 +0000
Subject: [PATCH 53/66] fix: quoted-pairs in a MIME parameter cut off what was
 before them

---
 nvp.c   |  6 ++++++
 nvp.nfa | 14 +++++++-------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/nvp.c b/nvp.c
index 71f53c7..9146111 100644
--- a/nvp.c
+++ b/nvp.c
@@ -229,6 +229,12 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
           case COPY_TO_VALUE:
             free(value);
             value = newstring;
+            /* Only quoted-pairs in quoted strings have a backslash */
+            for (tempsrc = tempdst = value; *tempsrc; tempsrc++) {
+              if (*tempsrc == '\\' && tempsrc[1]) tempsrc++;
+              *tempdst++ = *tempsrc;
+            }
+            *tempdst = 0;
 #ifdef VERBOSE_TEST
             fprintf(stderr, "  COPY_TO_VALUE \"%s\"\n", value);
 #endif
diff --git a/nvp.nfa b/nvp.nfa
index 2cbde5a..48da76f 100644
--- a/nvp.nfa
+++ b/nvp.nfa
@@ -21,7 +21,7 @@
 
 Tokens EOS
 Abbrev VALUE = [\041-~\200-\377]~[\\";]
-Abbrev QVALUE = VALUE | [\011\040;] | <escape:in->out>
+Abbrev QVALUE = VALUE | [\011\040;]
 Abbrev NAME1 = [0-9a-zA-Z_\-]
 Abbrev MINOR = NAME1 | [\.\-+]
 Abbrev OWS = <optwhite:in->out>
@@ -30,12 +30,6 @@ Abbrev OWS = <optwhite:in->out>
 #include "nvptypes.h"
 %}
 
-Block escape {
-    State in
-        [\\] ; [\\] -> out
-        [\\] ; ["]  -> out
-}
-
 Block optwhite {
     State in
         -> out
@@ -81,12 +75,18 @@ Block qvalue {
 
     State qv0
         QVALUE -> qv1
+        [\\] -> qescape
         # Empty string
         -> qv2
 
+    State qescape
+        = COPY_TO_VALUE
+        QVALUE | [\\"] -> qv1
+
     State qv1
         = COPY_TO_VALUE
         QVALUE -> qv1
+        [\\] -> qescape
         -> qv2
 
     State qv2
-- 
2.43.0


From bcb87622faf59893783abc4f9216511854e51007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:15 +0000
Subject: [PATCH 54/66] fix: a NUL byte at the start of a line of the rc file
 was read as a line of length 0

---
 mairix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index b9bc048..4e7a5e8 100644
--- a/mairix.c
+++ b/mairix.c
@@ -232,7 +232,7 @@ static void parse_rc_file(char *name)/*{{{*/
       exit(2);
     }
 
-    if (line[len-1] == '\n') {
+    if ((len > 0) && (line[len-1] == '\n')) {
       line[len-1] = '\0';
     }
 
-- 
2.43.0


From 109aa2a95f9ce3c645e3c3b624720c963db03a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:15 +0000
Subject: [PATCH 55/66] fix: crash on 'folders' without '=' in the rc file

---
 mairix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mairix.c b/mairix.c
index 4e7a5e8..87fbfbd 100644
--- a/mairix.c
+++ b/mairix.c
@@ -150,6 +150,8 @@ static void add_folders(char **folders, char *extra_folders)/*{{{*/
 {
   /* note : extra_pointers is stale after this routine exits. */
 
+  if (!extra_folders) return; /* there was no '=' */
+
   if (!*folders) {
     *folders = extra_folders;
   } else {
-- 
2.43.0


From 911190c8c7b7aa0960862e81362bc1457b12d8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:48 +0000
Subject: [PATCH 56/66] fix: a database that was cut short gave wrong results
 or a crash

---
 reader.c | 6 ++++++
 reader.h | 3 +++
 writer.c | 1 +
 3 files changed, 10 insertions(+)

diff --git a/reader.c b/reader.c
index e59b159..c182e33 100644
--- a/reader.c
+++ b/reader.c
@@ -226,6 +226,12 @@ struct read_db *open_db(char *filename)/*{{{*/
     unlock_and_exit(2);
   }
   /* }}} */
+  /* {{{ Length check */
+  if (uidata[UI_FILE_LEN] && (uidata[UI_FILE_LEN] != len)) {
+    fprintf(stderr, "Database file %s is incomplete (actual size %d, expected size %u). Please rebuild.\n", filename, len, uidata[UI_FILE_LEN]);
+    unlock_and_exit(2);
+  }
+  /* }}} */
 
 #define GET_TABLE(dest, start_index, table_size) {\
   unsigned int table_offset = uidata[(start_index)];\
diff --git a/reader.h b/reader.h
index 71b7eab..2bb63cf 100644
--- a/reader.h
+++ b/reader.h
@@ -77,6 +77,9 @@
 #define UI_ATTACHMENT_NAME_BASE 31
 #define UI_MSGID_BASE     34
 
+/* Length of the whole file (0 in databases written by older versions) */
+#define UI_FILE_LEN       38
+
 /* Larger than the last table offset. */
 #define UI_HEADER_LEN     40
 #define UC_HEADER_LEN     ((UI_HEADER_LEN) << 2)
diff --git a/writer.c b/writer.c
index 37f0c2b..977ad19 100644
--- a/writer.c
+++ b/writer.c
@@ -602,6 +602,7 @@ void write_database(struct database *db, char *filename, int do_integrity_checks
   cdata = data + (4 * map.beyond_last_ui_offset);
 
   write_header(data, uidata, db, &map);
+  uidata[UI_FILE_LEN] = file_len;
   cdata = write_type_and_flag_table(db, uidata, data, cdata);
   cdata = write_messages(db, &map, uidata, data, cdata);
   cdata = write_mbox_headers(db, &map, uidata, data, cdata);
-- 
2.43.0


From 637408e580af31b5c779ccbad33d7c628e1e44ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:36 +0000
Subject: [PATCH 57/66] fix: an interrupted indexing run left a half-written
 database that was taken for a good one

---
 writer.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/writer.c b/writer.c
index 977ad19..f59fd0d 100644
--- a/writer.c
+++ b/writer.c
@@ -250,16 +250,6 @@ static void compute_mapping(struct database *db, struct write_map *map)/*{{{*/
 /*}}}*/
 static void write_header(char *data, unsigned int *uidata, struct database *db, struct write_map *map)/*{{{*/
 {
-  /* Endianness-independent writes - at least the magic number will be
-   * recognized if the database is read by this program on a machine of
-   * opposite endianness. */
-  unsigned char *ucdata = (unsigned char *) data;
-
-  ucdata[0] = HEADER_MAGIC0;
-  ucdata[1] = HEADER_MAGIC1;
-  ucdata[2] = HEADER_MAGIC2;
-  ucdata[3] = HEADER_MAGIC3;
-
   uidata[UI_ENDIAN] = 0x44332211; /* For checking reversed endianness on read */
   uidata[UI_N_MSGS] = db->n_msgs;
   uidata[UI_MSG_CDATA] = map->path_offset; /* offset table of ptrs to filenames */
@@ -309,6 +299,19 @@ static void write_header(char *data, unsigned int *uidata, struct database *db,
   return;
 }
 /*}}}*/
+static void write_magic(char *data)/*{{{*/
+{
+  /* Endianness-independent writes - at least the magic number will be
+   * recognized if the database is read by this program on a machine of
+   * opposite endianness. */
+  unsigned char *ucdata = (unsigned char *) data;
+
+  ucdata[0] = HEADER_MAGIC0;
+  ucdata[1] = HEADER_MAGIC1;
+  ucdata[2] = HEADER_MAGIC2;
+  ucdata[3] = HEADER_MAGIC3;
+}
+/*}}}*/
 static char *write_type_and_flag_table(struct database *db, unsigned int *uidata, char *data, char *cdata)/*{{{*/
 {
   int i;
@@ -601,6 +604,9 @@ void write_database(struct database *db, char *filename, int do_integrity_checks
   uidata = (unsigned int *) data; /* align(int) < align(page)! */
   cdata = data + (4 * map.beyond_last_ui_offset);
 
+  /* The magic number comes last, so that what an interrupted run leaves is not
+   * taken for a database. */
+  memset(data, 0, 4);
   write_header(data, uidata, db, &map);
   uidata[UI_FILE_LEN] = file_len;
   cdata = write_type_and_flag_table(db, uidata, data, cdata);
@@ -614,6 +620,7 @@ void write_database(struct database *db, char *filename, int do_integrity_checks
   cdata = write_toktable(db->body, &map.body, uidata, data, cdata, "Body");
   cdata = write_toktable(db->attachment_name, &map.attachment_name, uidata, data, cdata, "Attachment Name");
   cdata = write_toktable2(db->msg_ids, &map.msg_ids, uidata, data, cdata, "(Threading)");
+  write_magic(data);
 
   /* Write data */
   /* Unmap / close file */
-- 
2.43.0


From cdaf9b8bc5b5b84ca64b1b9245b7b4aab2bc3ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:07 +0000
Subject: [PATCH 58/66] fix: a huge literal size from an IMAP server overflowed
 and corrupted the heap

---
 imap.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/imap.c b/imap.c
index 59d6e7e..82f5341 100644
--- a/imap.c
+++ b/imap.c
@@ -18,7 +18,9 @@
 #if defined(__FreeBSD__)
 #define __BSD_VISIBLE 1
 #endif
+#include <limits.h>
 #include "imap.h"
+#include "mairix.h"
 
 struct imap_ll {
 	int w_socket;
@@ -299,7 +301,7 @@ struct pollfd pfd;
 							/* wrong tag */
 							linestate = 3;
 						}
-					} else if ((cur >= '0') && (cur <= '9')) {
+					} else if ((cur >= '0') && (cur <= '9') && (recv_tag < INT_MAX / 10)) {
 						recv_tag *= 10;
 						recv_tag += cur - '0';
 					} else {
@@ -385,7 +387,7 @@ token_extend:
 					/* literal count */
 					if (cur == 125) {
 						linestate = 7;
-					} else if ((cur >= '0') && (cur <= '9')) {
+					} else if ((cur >= '0') && (cur <= '9') && (recv_tag < INT_MAX / 10)) {
 						recv_tag *= 10;
 						recv_tag += cur - '0';
 					} else {
-- 
2.43.0


From 72b87a0a4c93d403fdeee53adcb1b146bf185480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:08 +0000
Subject: [PATCH 59/66] fix: running out of memory left the database locked

---
 mairix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index 87fbfbd..be33364 100644
--- a/mairix.c
+++ b/mairix.c
@@ -412,7 +412,7 @@ void out_of_mem(char *file, int line, size_t size)/*{{{*/
   write(2, ", ", 2);
   emit_int(size);
   write(2, msg2, sizeof(msg2)-1);
-  exit(2);
+  unlock_and_exit(2);
 }
 /*}}}*/
 void report_error(const char *str, const char *filename)/*{{{*/
-- 
2.43.0


From ff61e2eee7c5479276476d627a230d9c9d30433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:08 +0000
Subject: [PATCH 60/66] fix: running out of memory while talking to an IMAP
 server left the database locked and exited with status 0

---
 imap.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/imap.c b/imap.c
index 82f5341..6cf3786 100644
--- a/imap.c
+++ b/imap.c
@@ -182,7 +182,7 @@ struct imap_ll_tokenlist *tl;
 	if (!tl) {
 		fprintf(stderr, "imap_ll mktoken: malloc failed (fatal)\n");
 		sleep(1);
-		_exit(0);
+		unlock_and_exit(2);
 	}
 	tl->type = type;
 	tl->first = tl->last = NULL;
@@ -229,7 +229,7 @@ struct imap_ll_tokenlist *t2, *next;
 	if (!curtoken) { \
 		fprintf(stderr, "imap_ll_waitline(%d): malloc failed (fatal)\n", (alloc_size)); \
 		sleep(1); \
-		_exit(0); \
+		unlock_and_exit(2); \
 	} \
 	curtoken_now = 0; \
 	curtoken_max = (alloc_size); \
@@ -362,7 +362,7 @@ token_extend:
 							if (!curtoken) {
 								fprintf(stderr, "imap_ll_waitline(size=%d): malloc failed (fatal)\n", (int)curtoken_max);
 								sleep(1);
-								_exit(0);
+								unlock_and_exit(2);
 							}
 						}
 						curtoken[curtoken_now++] = cur;
-- 
2.43.0


From fb151d6803448539da20e3b6bf2eea14f9a16a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:08 +0000
Subject: [PATCH 61/66] fix: crash when there was no room to decompress a
 mailbox

---
 rfc822.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rfc822.c b/rfc822.c
index 107d166..e26591e 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1411,6 +1411,10 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
     /* this branch never returns things that are freeable */
     data_alloc_type = ALLOC_NONE;
 
+    if (fflush(tmpf) != 0) {
+      fprintf(stderr, "failed writing to temp file for %s\n", filename);
+      goto comp_error;
+    }
     if(*len > 0) {
       ro = add_ro_cache(filename, fileno(tmpf), *len);
       if (!ro)
-- 
2.43.0


From 077aa1f79056afee5f628b672a65b4ad230371e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:08 +0000
Subject: [PATCH 62/66] fix: a search that could not write its results said
 nothing

---
 search.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/search.c b/search.c
index 0134539..d5a8237 100644
--- a/search.c
+++ b/search.c
@@ -637,9 +637,10 @@ static int looks_like_maildir_new_p(const char *p)/*{{{*/
 /*}}}*/
 static void create_symlink(char *link_target, char *new_link)/*{{{*/
 {
-  if ((!do_hardlinks && symlink(link_target, new_link) < 0) || link(link_target, new_link)) {
-    if (verbose) {
-      perror("symlink");
+  if ((do_hardlinks ? link(link_target, new_link) : symlink(link_target, new_link)) < 0) {
+    /* With --augment, the link may well be there already */
+    if (verbose || (errno != EEXIST)) {
+      perror(do_hardlinks ? "link" : "symlink");
       fprintf(stderr, "Failed path <%s> -> <%s>\n", link_target, new_link);
     }
   }
@@ -692,8 +693,9 @@ static void write_to_file(const char *data, size_t len, void *arg)/*{{{*/
     fprintf(stderr, "Cannot write matched message to \"%s\": %s\n", (char *)arg, strerror(errno));
     return;
   }
-  fwrite(data, 1, len, fp);
-  fclose(fp);
+  if ((fwrite(data, 1, len, fp) != len) | (fclose(fp) != 0)) {
+    fprintf(stderr, "Cannot write matched message to \"%s\": %s\n", (char *)arg, strerror(errno));
+  }
 }
 /*}}}*/
 
@@ -786,8 +788,11 @@ static void try_copy_to_path(struct read_db *db, int msg_index, char *target_pat
       if ((msg_len >= 2) && (start[msg_len-1] == '\n') && (start[msg_len-2] == '\n')) {
         msg_len--;
       }
-      fwrite(start, sizeof(char), msg_len, out);
-      fclose(out);
+      if ((fwrite(start, sizeof(char), msg_len, out) != msg_len) | (fclose(out) != 0)) {
+        report_error("Cannot write matched message to", target_path);
+      }
+    } else {
+      report_error("Cannot write matched message to", target_path);
     }
   }
 
@@ -1224,7 +1229,10 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               break;
           }
         }
-        fclose(out);
+        if (ferror(out) | (fclose(out) != 0)) {
+          fprintf(stderr, "Cannot write output folder %s\n", output_path);
+          unlock_and_exit(1);
+        }
       }
 
       break;
@@ -1535,7 +1543,9 @@ static void clear_mh_folder(char *path)/*{{{*/
 /*}}}*/
 static void clear_mbox_folder(char *path)/*{{{*/
 {
-  unlink(path);
+  if ((unlink(path) < 0) && (errno != ENOENT)) {
+    fprintf(stderr, "Unlinking %s failed\n", path);
+  }
 }
 /*}}}*/
 
-- 
2.43.0


From 3ca006046d1a7f42bfd1b7572fcf4da0036e7f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:08 +0000
Subject: [PATCH 63/66] fix: a message that could not be opened in one run was
 taken for empty from then on

---
 db.c     | 19 +++++++++++--------
 mairix.h |  2 +-
 rfc822.c |  9 +++++++--
 search.c |  2 +-
 4 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/db.c b/db.c
index 2e8f43d..b049a6d 100644
--- a/db.c
+++ b/db.c
@@ -713,15 +713,18 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
         break;
       case MTY_FILE:
         if (verbose) fprintf(stderr, "Scanning <%s>\n", db->msgs[i].src.mpf.path);
-        if (access(db->msgs[i].src.mpf.path, R_OK) < 0) {
-          /* Not scanned : leave it to the next run, where it is new again */
-          fprintf(stderr, "Skipping %s (could not read message)\n", db->msgs[i].src.mpf.path);
-          free(db->msgs[i].src.mpf.path);
-          db->msgs[i].src.mpf.path = NULL;
-          db->type[i] = MTY_DEAD;
-          continue;
+        {
+          int readable = (access(db->msgs[i].src.mpf.path, R_OK) >= 0);
+          if (readable) msg = make_rfc822(db->msgs[i].src.mpf.path, &readable);
+          if (!readable) {
+            /* Not scanned : leave it to the next run, where it is new again */
+            fprintf(stderr, "Skipping %s (could not read message)\n", db->msgs[i].src.mpf.path);
+            free(db->msgs[i].src.mpf.path);
+            db->msgs[i].src.mpf.path = NULL;
+            db->type[i] = MTY_DEAD;
+            continue;
+          }
         }
-        msg = make_rfc822(db->msgs[i].src.mpf.path);
         break;
       case MTY_IMAP:
         if (verbose) fprintf(stderr, "Scanning IMAP <%s>\n", db->msgs[i].src.mpf.path);
diff --git a/mairix.h b/mairix.h
index b63bf46..7ee408c 100644
--- a/mairix.h
+++ b/mairix.h
@@ -332,7 +332,7 @@ void build_message_list(char *folder_base, char *folders, enum folder_type ft,
     struct msgpath_array *msgs, struct globber_array *omit_globs);
 
 /* In rfc822.c */
-struct rfc822 *make_rfc822(char *filename);
+struct rfc822 *make_rfc822(char *filename, int *readable);
 void free_rfc822(struct rfc822 *msg);
 enum data_to_rfc822_error {
   DTR8_OK,
diff --git a/rfc822.c b/rfc822.c
index e26591e..205bc68 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1340,6 +1340,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
   {
     report_error("stat", filename);
     *data = NULL;
+    *len = -1;
     return;
   }
 
@@ -1453,6 +1454,7 @@ comp_error:
   {
     report_error("open", filename);
     *data = NULL;
+    *len = -1;
     return;
   }
 
@@ -1462,6 +1464,7 @@ comp_error:
   if (*data == MAP_FAILED) {
     report_error("rfc822:mmap", filename);
     *data = NULL;
+    *len = -1;
     return;
   }
   data_alloc_type = ALLOC_MMAP;
@@ -1493,8 +1496,9 @@ static struct msg_src *setup_msg_src(char *filename)/*{{{*/
   return &result;
 }
 /*}}}*/
-struct rfc822 *make_rfc822(char *filename)/*{{{*/
+struct rfc822 *make_rfc822(char *filename, int *readable)/*{{{*/
 {
+  /* *readable is cleared if the file couldn't be read, as opposed to parsed */
   int len;
   unsigned char *data;
   struct rfc822 *result;
@@ -1515,6 +1519,7 @@ struct rfc822 *make_rfc822(char *filename)/*{{{*/
     free_ro_mapping(data, len);
   }
 
+  if (readable) *readable = data || (len >= 0) || is_compressed(filename);
   return result;
 }
 /*}}}*/
@@ -1605,7 +1610,7 @@ int main (int argc, char **argv)/*{{{*/
     unlock_and_exit(2);
   }
 
-  msg = make_rfc822(argv[1]);
+  msg = make_rfc822(argv[1], NULL);
   show_rfc822(msg, 0);
   free_rfc822(msg);
 
diff --git a/search.c b/search.c
index d5a8237..c909f37 100644
--- a/search.c
+++ b/search.c
@@ -1273,7 +1273,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               printf("---------------------------------\n");
               filename = db->data + db->path_offsets[i];
               printf("%s\n", filename);
-              parsed = make_rfc822(filename);
+              parsed = make_rfc822(filename, NULL);
             }
             break;
           case DB_MSG_IMAP:
-- 
2.43.0


From e1e17dff96efa6997fe759b29dcdddf955092b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:24 +0000
Subject: [PATCH 64/66] fix: out of memory while composing an IMAP command
 crashed

---
 imap.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/imap.c b/imap.c
index 6cf3786..33e53c4 100644
--- a/imap.c
+++ b/imap.c
@@ -777,10 +777,8 @@ enum imap_ll_tltype next_type = maintype;
 				l = malloc(sizeof(*l));
 				if (!l) {
 nomem:
-					fprintf(stderr, "imap_ll_build: malloc failure\n");
-					imap_ll_freeline(top);
-					va_end(ap);
-					return NULL;
+					fprintf(stderr, "imap_ll_build: malloc failed (fatal)\n");
+					unlock_and_exit(2);
 				}
 				l->type = next_type;
 				l->leaf = malloc(slen+1);
@@ -1334,11 +1332,13 @@ long exists = 0;
 
 	if (ll->selected_folder_uidvalidity) free(ll->selected_folder_uidvalidity);
 	ll->selected_folder = malloc(foldername_len);
-	if (ll->selected_folder) {
-		memcpy(ll->selected_folder, foldername, foldername_len);
+	ll->selected_folder_uidvalidity = strdup(uidvalidity);
+	if (!ll->selected_folder || !ll->selected_folder_uidvalidity) {
+		fprintf(stderr, "imap_select: malloc failed (fatal)\n");
+		unlock_and_exit(2);
 	}
+	memcpy(ll->selected_folder, foldername, foldername_len);
 	ll->selected_folder_namelen = foldername_len;
-	ll->selected_folder_uidvalidity = strdup(uidvalidity);
 	ll->selected_folder_writable = need_write;
 	ll->selected_folder_exists = exists;
 	if (exists_p) *exists_p = exists;
-- 
2.43.0


From fceefc7bc1433df906dfb6d517f7dcb3e021082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:59 +0000
Subject: [PATCH 65/66] fix: indexing crashed and left the lock when the disc
 was full

---
 writer.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/writer.c b/writer.c
index f59fd0d..f2b99c8 100644
--- a/writer.c
+++ b/writer.c
@@ -104,14 +104,26 @@ static void create_rw_mapping(char *filename, size_t len, int *out_fd, char **ou
   }
 
   if (sb.st_size < len) {
-    /* Extend */
-    if (lseek(fd, len - 1, SEEK_SET) < 0) {
+    /* Extend.  Fill the new part rather than leave a hole in it, so that a full
+     * disc shows up here and not as a SIGBUS on a store into the mapping. */
+    static const char zeros[65536];
+    size_t todo = len - sb.st_size;
+    ssize_t done;
+    if (lseek(fd, sb.st_size, SEEK_SET) < 0) {
       report_error("lseek", filename);
       unlock_and_exit(2);
     }
-    if (write(fd, "\000", 1) < 0) {
-      report_error("write", filename);
-      unlock_and_exit(2);
+    while (todo > 0) {
+      done = write(fd, zeros, (todo < sizeof(zeros)) ? todo : sizeof(zeros));
+      if (done < 0) {
+        report_error("write", filename);
+        /* Whatever was there before is still intact */
+        if (ftruncate(fd, sb.st_size) < 0) {
+          report_error("ftruncate", filename);
+        }
+        unlock_and_exit(2);
+      }
+      todo -= done;
     }
   } else if (sb.st_size > len) {
     /* Truncate */
-- 
2.43.0


From ee87cc1e16e1fdbdc27483c38de99f6f4594e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:47 +0000
Subject: [PATCH 66/66] fix: build without the compression libraries

---
 rfc822.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rfc822.c b/rfc822.c
index 205bc68..8f6ec28 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1519,7 +1519,12 @@ struct rfc822 *make_rfc822(char *filename, int *readable)/*{{{*/
     free_ro_mapping(data, len);
   }
 
-  if (readable) *readable = data || (len >= 0) || is_compressed(filename);
+  if (readable) {
+    *readable = data || (len >= 0);
+#if USE_GZIP_MBOX || USE_BZIP_MBOX || USE_XZ_MBOX
+    if (is_compressed(filename)) *readable = 1;
+#endif
+  }
   return result;
 }
 /*}}}*/
-- 
2.43.0


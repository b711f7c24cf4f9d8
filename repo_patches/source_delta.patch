From 345428f82f9ae4ae3d6055ab5e696c1023bc9b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 01/28] fix: release the item when incr/decr hits a collection
 item

---
 engines/default/items.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/default/items.c b/engines/default/items.c
index 0ecb68b..0c39363 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -370,8 +370,8 @@ ENGINE_ERROR_CODE item_arithmetic(const void *key, const uint32_t nkey,
             ret = ENGINE_EBADTYPE;
         } else {
             ret = do_add_delta(it, increment, delta, cas, result, cookie);
-            do_item_release(it);
         }
+        do_item_release(it);
     } else {
         if (create) {
             char buffer[128];
-- 
2.43.0


From 5264e0b67066e3c9881028206e6d37f59d178a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 02/28] fix: release the collection item when applying a
 snapshot file fails

---
 engines/default/chkpt_snapshot.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/default/chkpt_snapshot.c b/engines/default/chkpt_snapshot.c
index 9c44827..bed8994 100644
--- a/engines/default/chkpt_snapshot.c
+++ b/engines/default/chkpt_snapshot.c
@@ -790,14 +790,14 @@ int chkpt_snapshot_file_apply(const char *filepath)
                 }
             }
         } else if (loghdr->logtype == LOG_SNAPSHOT_DONE) {
-            if (last_coll_it != NULL) {
-                item_release(last_coll_it);
-            }
             logger->log(EXTENSION_LOG_INFO, NULL, "[RECOVERY - SNAPSHOT] success.\n");
             break;
         }
     }
 
+    if (last_coll_it != NULL) {
+        item_release(last_coll_it);
+    }
     close(fd);
     return ret;
 }
-- 
2.43.0


From eb0a1d5552c2d6ff3b6a1683c5f3a38bd88ad861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:58 +0000
Subject: [PATCH 03/28] fix: swallow the field list of a rejected noreply mop
 delete

---
 memcached.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index a2cbf79..e5b4bdc 100644
--- a/memcached.c
+++ b/memcached.c
@@ -12499,7 +12499,11 @@ static void process_mop_command(conn *c, token_t *tokens, const size_t ntokens)
                 numfields > ((lenfields/2) + 1)) {
                 out_string(c, "CLIENT_ERROR bad value");
                 c->sbytes = lenfields + 2;
-                c->write_and_go = conn_swallow;
+                if (c->state == conn_write) {
+                    c->write_and_go = conn_swallow;
+                } else { /* conn_new_cmd (by noreply) */
+                    conn_set_state(c, conn_swallow);
+                }
                 return;
             }
         }
-- 
2.43.0


From 6fd5b99b8141a54a9003a5aa3dfd81653dd3ce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:58 +0000
Subject: [PATCH 04/28] fix: swallow the whole field list of mop delete after a
 pipe error

---
 memcached.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index e5b4bdc..e4380b2 100644
--- a/memcached.c
+++ b/memcached.c
@@ -12536,7 +12536,7 @@ static void process_mop_command(conn *c, token_t *tokens, const size_t ntokens)
             }
         } else { /* pipe error */
             if (lenfields > 0) {
-                c->sbytes = lenfields;
+                c->sbytes = lenfields + 2;
                 conn_set_state(c, conn_swallow);
             } else {
                 conn_set_state(c, conn_new_cmd);
-- 
2.43.0


From 2ad5e3e05ad28b10e3705680369c7bd2edf8de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 05/28] fix: keep sticky item statistics right when a store
 changes stickiness

Replacing a sticky item by a non-sticky one (or the reverse) left
sticky_items and sticky_bytes as they were, so that the following unlink
made them wrap around and every later sticky store failed.
---
 engines/default/item_base.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engines/default/item_base.c b/engines/default/item_base.c
index 550bd02..2e34b53 100644
--- a/engines/default/item_base.c
+++ b/engines/default/item_base.c
@@ -243,8 +243,13 @@ static inline void do_item_stat_replace(hash_item *old_it, hash_item *new_it)
     }
     /* update item stats imformation */
 #ifdef ENABLE_STICKY_ITEM
+    if (IS_STICKY_EXPTIME(old_it->exptime)) {
+        statsp->sticky_bytes -= old_stotal;
+        statsp->sticky_items -= 1;
+    }
     if (IS_STICKY_EXPTIME(new_it->exptime)) {
-        statsp->sticky_bytes += new_stotal - old_stotal;
+        statsp->sticky_bytes += new_stotal;
+        statsp->sticky_items += 1;
     }
 #endif
     statsp->curr_bytes += new_stotal - old_stotal;
-- 
2.43.0


From 3b11f0e68c6ae01b20bc8b78f68e4c5a6a509055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 06/28] fix: count binary delete requests in cmd_delete,
 delete_hits and delete_misses

---
 memcached.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memcached.c b/memcached.c
index e4380b2..1788be7 100644
--- a/memcached.c
+++ b/memcached.c
@@ -7555,18 +7555,23 @@ static void process_bin_delete(conn *c)
 
     switch (ret) {
     case ENGINE_SUCCESS:
+        STATS_HITS(c, delete, key, nkey);
         write_bin_response(c, NULL, 0, 0, 0);
         break;
     case ENGINE_KEY_EEXISTS:
+        STATS_CMD_NOKEY(c, delete);
         write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_KEY_EEXISTS, 0);
         break;
     case ENGINE_KEY_ENOENT:
+        STATS_MISSES(c, delete, key, nkey);
         write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_KEY_ENOENT, 0);
         break;
     case ENGINE_NOT_MY_VBUCKET:
+        STATS_CMD_NOKEY(c, delete);
         write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_NOT_MY_VBUCKET, 0);
         break;
     default:
+        STATS_CMD_NOKEY(c, delete);
         write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_EINVAL, 0);
     }
 }
-- 
2.43.0


From 6f7d6de47e0c59b46e95e89c275a5de73cfbd9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:12 +0000
Subject: [PATCH 07/28] fix: mop get with repeated fields wrote past its
 element array

The array had room for the elements of the map, but every listed field that
is found takes an entry, so naming a field more often than the map has
elements overran the heap block and crashed the server.
---
 engines/default/coll_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/default/coll_map.c b/engines/default/coll_map.c
index 91ab5eb..28fc17b 100644
--- a/engines/default/coll_map.c
+++ b/engines/default/coll_map.c
@@ -887,7 +887,7 @@ ENGINE_ERROR_CODE map_elem_get(const char *key, const uint32_t nkey,
             if (info->ccnt <= 0) {
                 ret = ENGINE_ELEM_ENOENT; break;
             }
-            if (numfields == 0 || info->ccnt < numfields) {
+            if (numfields == 0) {
                 eresult->elem_array = (eitem **)malloc(info->ccnt * sizeof(eitem*));
             } else {
                 eresult->elem_array = (eitem **)malloc(numfields * sizeof(eitem*));
-- 
2.43.0


From 9bef84e9eb94864ab7fbf3cd5ee6e143e5535c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 08/28] fix: binary getk of a missing long key wrote past the
 write buffer

The key was copied into the 2048 byte wbuf behind the header, while keys may
be 16000 bytes long; send it from the request instead.
---
 memcached.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/memcached.c b/memcached.c
index 1788be7..6944fc7 100644
--- a/memcached.c
+++ b/memcached.c
@@ -4001,11 +4001,9 @@ static void process_bin_get(conn *c)
             conn_set_state(c, conn_new_cmd);
         } else {
             if (c->cmd == PROTOCOL_BINARY_CMD_GETK) {
-                char *ofs = c->wbuf + sizeof(protocol_binary_response_header);
                 add_bin_header(c, PROTOCOL_BINARY_RESPONSE_KEY_ENOENT,
                         0, nkey, nkey);
-                memcpy(ofs, key, nkey);
-                add_iov(c, ofs, nkey);
+                add_iov(c, key, nkey);
                 conn_set_state(c, conn_mwrite);
             } else {
                 write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_KEY_ENOENT, 0);
-- 
2.43.0


From 6df07f43d92fdace83203fd71ac6ce9f74e5f273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 09/28] fix: reject binary b+tree requests whose bkey, eflag or
 filter lengths exceed their fields

---
 memcached.c | 60 ++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index 6944fc7..7af670c 100644
--- a/memcached.c
+++ b/memcached.c
@@ -5401,6 +5401,35 @@ static void process_bin_sop_get(conn *c)
     }
 }
 
+/* The lengths and the operator codes of a binary b+tree request come from
+ * the client as they are: check them before they are used.
+ */
+static bool bin_bop_bkrange_valid(const bkey_range *bkrange)
+{
+    return (bkrange->from_nbkey <= MAX_BKEY_LENG &&
+            (bkrange->to_nbkey <= MAX_BKEY_LENG || bkrange->to_nbkey == BKEY_NULL));
+}
+
+static bool bin_bop_efilter_valid(const eflag_filter *efilter)
+{
+    if (efilter->offset + efilter->ncompval > MAX_EFLAG_LENG) {
+        return false;
+    }
+    if (efilter->nbitwval > 0 &&
+        (efilter->nbitwval > efilter->ncompval || efilter->bitwop >= BITWISE_OP_MAX)) {
+        return false;
+    }
+    if (efilter->compop >= COMPARE_OP_MAX) {
+        return false;
+    }
+    if (efilter->compvcnt > 1 &&
+        (efilter->compvcnt > MAX_EFLAG_COMPARE_COUNT ||
+         (efilter->compop != COMPARE_OP_EQ && efilter->compop != COMPARE_OP_NE))) {
+        return false;
+    }
+    return true;
+}
+
 static void process_bin_bop_create(conn *c)
 {
     assert(c != NULL);
@@ -5493,6 +5522,10 @@ static void process_bin_bop_prepare_nread(conn *c)
 
     /* fix byteorder in the request */
     protocol_binary_request_bop_insert* req = binary_get_request(c);
+    if (req->message.body.nbkey > MAX_BKEY_LENG || req->message.body.neflag > MAX_EFLAG_LENG) {
+        handle_binary_protocol_error(c);
+        return;
+    }
     if (req->message.body.nbkey == 0) {
         uint64_t bkey_temp;
         memcpy((uint8_t*)&bkey_temp, req->message.body.bkey, sizeof(uint64_t));
@@ -5722,6 +5755,11 @@ static void process_bin_bop_update_prepare_nread(conn *c)
 
     /* fix byteorder in the request */
     protocol_binary_request_bop_update* req = binary_get_request(c);
+    if (req->message.body.nbkey > MAX_BKEY_LENG ||
+        (req->message.body.neflag > MAX_EFLAG_LENG && req->message.body.neflag != EFLAG_NULL)) {
+        handle_binary_protocol_error(c);
+        return;
+    }
     if (req->message.body.nbkey == 0) {
         uint64_t bkey_temp;
         memcpy((uint8_t*)&bkey_temp, req->message.body.bkey, sizeof(uint64_t));
@@ -5740,7 +5778,7 @@ static void process_bin_bop_update_prepare_nread(conn *c)
     c->coll_eupdate.offset = req->message.body.offset;
     c->coll_eupdate.bitwop = req->message.body.bitwop;
     c->coll_eupdate.neflag = req->message.body.neflag;
-    if (req->message.body.neflag > 0) {
+    if (req->message.body.neflag > 0 && req->message.body.neflag != EFLAG_NULL) {
         memcpy(c->coll_eupdate.eflag, req->message.body.eflag, req->message.body.neflag);
     }
 
@@ -5810,6 +5848,10 @@ static void process_bin_bop_delete(conn *c)
     protocol_binary_request_bop_delete* req = binary_get_request(c);
     bkey_range   *bkrange = &req->message.body.bkrange;
     eflag_filter *efilter = &req->message.body.efilter;
+    if (!bin_bop_bkrange_valid(bkrange) || !bin_bop_efilter_valid(efilter)) {
+        handle_binary_protocol_error(c);
+        return;
+    }
     if (bkrange->from_nbkey == 0) {
         uint64_t bkey_temp;
         memcpy((unsigned char*)&bkey_temp, bkrange->from_bkey, sizeof(uint64_t));
@@ -5954,6 +5996,10 @@ static void process_bin_bop_get(conn *c)
     protocol_binary_request_bop_get* req = binary_get_request(c);
     bkey_range   *bkrange = &req->message.body.bkrange;
     eflag_filter *efilter = &req->message.body.efilter;
+    if (!bin_bop_bkrange_valid(bkrange) || !bin_bop_efilter_valid(efilter)) {
+        handle_binary_protocol_error(c);
+        return;
+    }
     if (bkrange->from_nbkey == 0) {
         uint64_t bkey_temp;
         memcpy((unsigned char*)&bkey_temp, bkrange->from_bkey, sizeof(uint64_t));
@@ -6043,6 +6089,10 @@ static void process_bin_bop_count(conn *c)
     protocol_binary_request_bop_count* req = binary_get_request(c);
     bkey_range   *bkrange = &req->message.body.bkrange;
     eflag_filter *efilter = &req->message.body.efilter;
+    if (!bin_bop_bkrange_valid(bkrange) || !bin_bop_efilter_valid(efilter)) {
+        handle_binary_protocol_error(c);
+        return;
+    }
     if (bkrange->from_nbkey == 0) {
         uint64_t bkey_temp;
         memcpy((unsigned char*)&bkey_temp, bkrange->from_bkey, sizeof(uint64_t));
@@ -6133,6 +6183,10 @@ static void process_bin_bop_prepare_nread_keys(conn *c)
     /* fix byteorder in the request */
     protocol_binary_request_bop_mkeys* req = binary_get_request(c);
     bkey_range   *bkrange = &req->message.body.bkrange;
+    if (!bin_bop_bkrange_valid(bkrange) || !bin_bop_efilter_valid(&req->message.body.efilter)) {
+        handle_binary_protocol_error(c);
+        return;
+    }
     if (bkrange->from_nbkey == 0) {
         uint64_t bkey_temp;
         memcpy((unsigned char*)&bkey_temp, bkrange->from_bkey, sizeof(uint64_t));
@@ -6772,6 +6826,10 @@ static void process_bin_setattr(conn *c)
         attr_data.maxcount = req->message.body.maxcount;
     }
     if (req->message.body.maxbkeyrange.len != BKEY_NULL) {
+        if (req->message.body.maxbkeyrange.len > MAX_BKEY_LENG) {
+            handle_binary_protocol_error(c);
+            return;
+        }
         attr_ids[attr_count++] = ATTR_MAXBKEYRANGE;
         if (req->message.body.maxbkeyrange.len == 0) {
             uint64_t bkey_temp;
-- 
2.43.0


From ae46bddaf1effe4f900f9dfc1fda5a57a486464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:12 +0000
Subject: [PATCH 10/28] fix: smget accepted an offset and count whose sum wraps
 around

---
 memcached.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/memcached.c b/memcached.c
index 7af670c..68463f3 100644
--- a/memcached.c
+++ b/memcached.c
@@ -6251,7 +6251,8 @@ static void process_bin_bop_prepare_nread_keys(conn *c)
             int kmis_rshdr_size; /* the size of result header about the missed keys */
 
             if (req->message.body.key_count > MAX_SMGET_KEY_COUNT ||
-                (req->message.body.req_offset + req->message.body.req_count) > MAX_SMGET_REQ_COUNT) {
+                req->message.body.req_count > MAX_SMGET_REQ_COUNT ||
+                req->message.body.req_offset > MAX_SMGET_REQ_COUNT - req->message.body.req_count) {
                 ret = ENGINE_EBADVALUE; break;
             }
             smget_count = req->message.body.req_offset + req->message.body.req_count;
@@ -6270,7 +6271,8 @@ static void process_bin_bop_prepare_nread_keys(conn *c)
             int emis_rshdr_size; /* the size of result header about the missed keys */
 
             if (req->message.body.key_count > MAX_SMGET_KEY_COUNT ||
-                (req->message.body.req_offset + req->message.body.req_count) > MAX_SMGET_REQ_COUNT) {
+                req->message.body.req_count > MAX_SMGET_REQ_COUNT ||
+                req->message.body.req_offset > MAX_SMGET_REQ_COUNT - req->message.body.req_count) {
                 ret = ENGINE_EBADVALUE; break;
             }
             elem_array_size = (req->message.body.req_count + req->message.body.key_count) * sizeof(eitem*);
@@ -13154,7 +13156,8 @@ static void process_bop_command(conn *c, token_t *tokens, const size_t ntokens)
 #endif
 #ifdef SUPPORT_BOP_SMGET
         if (subcommid == OPERATION_BOP_SMGET) {
-            if (numkeys > MAX_SMGET_KEY_COUNT || (offset+count) > MAX_SMGET_REQ_COUNT) {
+            if (numkeys > MAX_SMGET_KEY_COUNT || count > MAX_SMGET_REQ_COUNT ||
+                offset > MAX_SMGET_REQ_COUNT - count) {
                 /* ENGINE_EBADVALUE */
                 out_string(c, "CLIENT_ERROR bad value");
                 c->sbytes = lenkeys;
-- 
2.43.0


From 876b3265b2b6fd2704fa953ed6f7c4910fa40eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:39 +0000
Subject: [PATCH 11/28] fix: a long topkeys line was cut but sent with its full
 length

---
 topkeys.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topkeys.h b/topkeys.h
index 75955e6..813f580 100644
--- a/topkeys.h
+++ b/topkeys.h
@@ -60,7 +60,7 @@
 /* A list of attribute operations */
 #define TK_AOPS(C)  C(getattr_hits) C(getattr_misses) C(setattr_hits) C(setattr_misses)
 
-#define TK_MAX_VAL_LEN 250
+#define TK_MAX_VAL_LEN 512
 
 /* Update the correct stat for a given operation */
 #define TK(tk, op, key, nkey, ctime) { \
-- 
2.43.0


From 661919c3cdc068949a75f33a9bc54b2d817a1ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:01 +0000
Subject: [PATCH 12/28] fix: a truncated statistics value was sent with its
 full length

---
 memcached.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memcached.c b/memcached.c
index 68463f3..418f26d 100644
--- a/memcached.c
+++ b/memcached.c
@@ -8108,6 +8108,9 @@ void append_stat(const char *name, ADD_STAT add_stats, conn *c,
     va_start(ap, fmt);
     vlen = vsnprintf(val_str, sizeof(val_str) - 1, fmt, ap);
     va_end(ap);
+    if (vlen > (int)sizeof(val_str) - 2) {
+        vlen = sizeof(val_str) - 2; /* truncated */
+    }
 
     add_stats(name, strlen(name), val_str, vlen, c);
 }
-- 
2.43.0


From 4844037ecea71eaf55ee6e0fc984f90a25901d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:09 +0000
Subject: [PATCH 13/28] fix: the printable form of a long key was terminated
 one byte past its buffer

---
 memcached.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index 418f26d..b7900cb 100644
--- a/memcached.c
+++ b/memcached.c
@@ -3486,7 +3486,7 @@ static ssize_t key_to_printable_buffer(char *dest, size_t destsz,
     }
 
     char *ptr = dest + nw;
-    destsz -= nw;
+    destsz -= nw + 1; /* leave room for the terminating null */
     if (nkey > destsz) {
         nkey = destsz;
     }
-- 
2.43.0


From ab4ff3fde82eebd576ca612a19cccaa395466368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:09 +0000
Subject: [PATCH 14/28] fix: a dump kept a pointer to the prefix in the request
 that started it

---
 engines/default/chkpt_snapshot.c | 10 ++++++----
 engines/default/default_engine.h |  3 ++-
 engines/default/items.c          | 10 +++++++++-
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/engines/default/chkpt_snapshot.c b/engines/default/chkpt_snapshot.c
index bed8994..1c2e14f 100644
--- a/engines/default/chkpt_snapshot.c
+++ b/engines/default/chkpt_snapshot.c
@@ -54,7 +54,7 @@ typedef struct _snapshot_st {
    uint64_t snapped;    /* # of cache item snapped */
    time_t   started;    /* snapshot start time */
    time_t   stopped;    /* snapshot stop time */
-   char    *prefix;     /* prefix name */
+   char     prefix[DUMP_PREFIX_LENGTH]; /* prefix name (a copy) */
    int      nprefix;    /* prefix name length */
    struct snapshot_file   file;
    struct snapshot_buffer buffer;
@@ -324,8 +324,10 @@ static void do_snapshot_prepare(snapshot_st *ss,
     ss->snapped = 0;
     ss->started = time(NULL);
     ss->stopped = 0;
-    ss->prefix = (char*)prefix;
-    ss->nprefix = nprefix;
+    /* The given prefix is valid only until the request is done. */
+    snprintf(ss->prefix, DUMP_PREFIX_LENGTH, "%.*s",
+             nprefix > 0 ? nprefix : 0, nprefix > 0 ? prefix : "");
+    ss->nprefix = nprefix < DUMP_PREFIX_LENGTH ? nprefix : DUMP_PREFIX_LENGTH-1;
     ss->cb_snapshot_done = callback;
 
     /* prepare snapshot file */
@@ -588,7 +590,7 @@ ENGINE_ERROR_CODE chkpt_snapshot_init(void *engine_ptr)
     ss->stopped = 0;
 
     /* snapshot prefix */
-    ss->prefix = NULL;
+    ss->prefix[0] = '\0';
     ss->nprefix = -1;
 
     /* snapshot file */
diff --git a/engines/default/default_engine.h b/engines/default/default_engine.h
index 48c4be3..4d5815f 100644
--- a/engines/default/default_engine.h
+++ b/engines/default/default_engine.h
@@ -42,6 +42,7 @@ struct default_engine;
 #include "slabs.h"
 
 #define MAX_FILEPATH_LENGTH 4096
+#define DUMP_PREFIX_LENGTH 256
 #define MAX_FILENAME_LENGTH 256
 
 /**
@@ -127,7 +128,7 @@ struct engine_dumper {
    time_t          started; /* dump start time */
    time_t          stopped; /* dump stop time */
    char            filepath[MAX_FILEPATH_LENGTH]; /* dump file path */
-   char           *prefix;  /* prefix of keys for dumping */
+   char            prefix[DUMP_PREFIX_LENGTH]; /* prefix of keys for dumping (a copy) */
    int             nprefix;
 };
 
diff --git a/engines/default/items.c b/engines/default/items.c
index 0c39363..27d5286 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -1577,9 +1577,17 @@ ENGINE_ERROR_CODE item_dump_start(struct default_engine *engine,
             ret = ENGINE_FAILED; break;
         }
 
+        if (nprefix >= DUMP_PREFIX_LENGTH) {
+            logger->log(EXTENSION_LOG_INFO, NULL,
+                        "Failed to start dumping. Too long prefix.\n");
+            ret = ENGINE_FAILED; break;
+        }
+
         snprintf(dumper->filepath, MAX_FILEPATH_LENGTH-1, "%s",
                 (filepath != NULL ? filepath : "arcus_dump.txt"));
-        dumper->prefix = (char*)prefix;
+        /* The given prefix is valid only until this request is done. */
+        snprintf(dumper->prefix, DUMP_PREFIX_LENGTH, "%.*s",
+                 nprefix > 0 ? nprefix : 0, nprefix > 0 ? prefix : "");
         dumper->nprefix = nprefix;
         dumper->mode = mode;
         dumper->started = time(NULL);
-- 
2.43.0


From 54bf75f6e631634aa67da07736f0f23aab0accd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 15/28] fix: a command log path of exactly the maximum length
 was written past its buffer

---
 cmdlog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdlog.c b/cmdlog.c
index 6517fd9..40e4576 100644
--- a/cmdlog.c
+++ b/cmdlog.c
@@ -285,7 +285,7 @@ int cmdlog_start(char *file_path, bool *already_started)
             ret = -1; break;
         }
         /* check the length of file_path */
-        if (file_path != NULL && strlen(file_path) > CMDLOG_DIRPATH_LENGTH) {
+        if (file_path != NULL && strlen(file_path) >= CMDLOG_DIRPATH_LENGTH) {
             mc_logger->log(EXTENSION_LOG_WARNING, NULL,
                            "Too long cmdlog file path.\n");
             ret = -1; break;
-- 
2.43.0


From 9eefe9bd310a704494fc3e0e950f8b9c44c8ded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:32 +0000
Subject: [PATCH 16/28] fix: an eflag filter with one compare value too many
 was written past its array

---
 memcached.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/memcached.c b/memcached.c
index b7900cb..5391bd7 100644
--- a/memcached.c
+++ b/memcached.c
@@ -12268,10 +12268,11 @@ static inline int get_efilter_from_tokens(token_t *tokens, const int ntokens, ef
             efilter->compvcnt = 0;
             ptr = strtok_r(tokens[token_count+1].value, ",", &saveptr);
             while (ptr != NULL) {
-                length = get_eflag_from_str(ptr, &efilter->compval[efilter->compvcnt*efilter->ncompval]);
-                if (++efilter->compvcnt > MAX_EFLAG_COMPARE_COUNT) {
+                if (efilter->compvcnt >= MAX_EFLAG_COMPARE_COUNT) {
                     return -1;
                 }
+                length = get_eflag_from_str(ptr, &efilter->compval[efilter->compvcnt*efilter->ncompval]);
+                efilter->compvcnt++;
                 if (efilter->compvcnt == 1) {
                     if (length < 0 || (offset+length) > MAX_EFLAG_LENG)
                         return -1;
-- 
2.43.0


From b6e1721245a65a85d7706402b0b7173c07440bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:36 +0000
Subject: [PATCH 17/28] fix: the summary of a dump was cut when its prefix is
 long

---
 engines/default/items.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/default/items.c b/engines/default/items.c
index 27d5286..c0ecdac 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -1506,7 +1506,7 @@ static void *item_dumper_main(void *arg)
     item_scan_close(&scan, NULL, (ret==0));
 
     if (ret == 0) {
-        int summary_length = 256; /* just, enough memory space size */
+        int summary_length = 256 + DUMP_PREFIX_LENGTH; /* just, enough memory space size */
         if ((cur_buflen + summary_length) > max_buflen) {
             nwritten = write(fd, dump_buffer, cur_buflen);
             if (nwritten != cur_buflen) {
-- 
2.43.0


From 2febe88c200c525eb2d23a037e9866eee0c99680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 18/28] fix: skipping leading spaces of a command line ran past
 the read buffer

---
 memcached.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index 5391bd7..3f5ec00 100644
--- a/memcached.c
+++ b/memcached.c
@@ -13857,7 +13857,8 @@ static int try_read_command_ascii(conn *c)
              * large multiget, if not we should just nuke the connection.
              */
             char *ptr = c->rcurr;
-            while (*ptr == ' ') { /* ignore leading whitespaces */
+            char *end = c->rcurr + c->rbytes;
+            while (ptr < end && *ptr == ' ') { /* ignore leading whitespaces */
                 ++ptr;
             }
             if (ptr - c->rcurr > 100) {
-- 
2.43.0


From 321e94c3697fbf364c529ed768b0d23acf0585d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:44 +0000
Subject: [PATCH 19/28] fix: a collection size limit cut by the engine was kept
 uncut in the settings

---
 memcached.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memcached.c b/memcached.c
index 3f5ec00..b0d47d3 100644
--- a/memcached.c
+++ b/memcached.c
@@ -9326,6 +9326,10 @@ static void process_maxcollsize_command(conn *c, token_t *tokens, const size_t n
 
         LOCK_SETTING();
         ret = mc_engine.v1->set_config(mc_engine.v0, c, config_key, (void*)&maxsize);
+        if (ret == ENGINE_SUCCESS) {
+            /* the engine may have cut the value: take the one it uses. */
+            ret = mc_engine.v1->get_config(mc_engine.v0, c, config_key, (void*)&maxsize);
+        }
         if (ret == ENGINE_SUCCESS) {
             switch (coll_type) {
             case ITEM_TYPE_LIST:
-- 
2.43.0


From cc1f560b0d9a65c5abcd77617b5fe0eb1e2a7a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:44 +0000
Subject: [PATCH 20/28] fix: config verbosity handed a 4 byte value to an
 engine that reads 8 bytes

---
 memcached.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index b0d47d3..dcf555e 100644
--- a/memcached.c
+++ b/memcached.c
@@ -9450,8 +9450,9 @@ static void process_verbosity_command(conn *c, token_t *tokens, const size_t nto
             out_string(c, "SERVER_ERROR cannot change the verbosity over the limit");
             return;
         }
+        size_t new_verbosity = level; /* the engine reads a size_t value. */
         LOCK_SETTING();
-        mc_engine.v1->set_config(mc_engine.v0, c, config_key, (void*)&level);
+        mc_engine.v1->set_config(mc_engine.v0, c, config_key, (void*)&new_verbosity);
         settings.verbose = level;
         perform_callbacks(ON_LOG_LEVEL, NULL, NULL);
         UNLOCK_SETTING();
-- 
2.43.0


From 65a1717ed2e951f3c415bcf441693d42f1b1e516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:44 +0000
Subject: [PATCH 21/28] fix: the checkpoint settings handed 4 byte variables to
 an engine that uses 8 bytes

---
 memcached.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/memcached.c b/memcached.c
index dcf555e..fa756cb 100644
--- a/memcached.c
+++ b/memcached.c
@@ -9469,7 +9469,8 @@ static void process_chkpt_interval_pct_snapshot_command(conn *c, token_t *tokens
     assert(c != NULL);
     char *config_key = tokens[SUBCOMMAND_TOKEN].value;
     char *config_val = tokens[SUBCOMMAND_TOKEN+1].value;
-    unsigned int chkpt_interval_pct_snapshot;
+    size_t chkpt_interval_pct_snapshot; /* the engine uses a size_t value. */
+    unsigned int new_value;
     ENGINE_ERROR_CODE ret;
 
     if (ntokens == 3) {
@@ -9482,7 +9483,8 @@ static void process_chkpt_interval_pct_snapshot_command(conn *c, token_t *tokens
         } else {
             out_string(c, "NOT_SUPPORTED");
         }
-    } else if (ntokens == 4 && safe_strtoul(config_val, &chkpt_interval_pct_snapshot)) {
+    } else if (ntokens == 4 && safe_strtoul(config_val, &new_value)) {
+        chkpt_interval_pct_snapshot = new_value;
         ret = mc_engine.v1->set_config(mc_engine.v0, c, config_key, (void*)&chkpt_interval_pct_snapshot);
         if (ret == ENGINE_SUCCESS)        out_string(c, "END");
         else if (ret == ENGINE_EBADVALUE) out_string(c, "CLIENT_ERROR bad value");
@@ -9498,7 +9500,8 @@ static void process_chkpt_interval_min_logsize_command(conn *c, token_t *tokens,
     assert(c != NULL);
     char *config_key = tokens[SUBCOMMAND_TOKEN].value;
     char *config_val = tokens[SUBCOMMAND_TOKEN+1].value;
-    unsigned int chkpt_interval_min_logsize;
+    size_t chkpt_interval_min_logsize; /* the engine uses a size_t value. */
+    unsigned int new_value;
     ENGINE_ERROR_CODE ret;
 
     if (ntokens == 3) {
@@ -9511,7 +9514,8 @@ static void process_chkpt_interval_min_logsize_command(conn *c, token_t *tokens,
         } else {
             out_string(c, "NOT_SUPPORTED");
         }
-    } else if (ntokens == 4 && safe_strtoul(config_val, &chkpt_interval_min_logsize)) {
+    } else if (ntokens == 4 && safe_strtoul(config_val, &new_value)) {
+        chkpt_interval_min_logsize = new_value;
         ret = mc_engine.v1->set_config(mc_engine.v0, c, config_key, (void*)&chkpt_interval_min_logsize);
         if (ret == ENGINE_SUCCESS)        out_string(c, "END");
         else if (ret == ENGINE_EBADVALUE) out_string(c, "CLIENT_ERROR bad value");
-- 
2.43.0


From 8f658e45a80a6236dbd62aece8bb3c7c8a8c9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:33 +0000
Subject: [PATCH 22/28] fix: with persistence on, setting or reading an unknown
 config key reported success

---
 engines/default/default_engine.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engines/default/default_engine.c b/engines/default/default_engine.c
index f215324..9539033 100644
--- a/engines/default/default_engine.c
+++ b/engines/default/default_engine.c
@@ -1537,6 +1537,9 @@ default_set_config(ENGINE_HANDLE* handle, const void* cookie,
             engine->config.async_logging = new_async_logging;
             pthread_mutex_unlock(&engine->cache_lock);
         }
+        else {
+            ret = ENGINE_ENOTSUP;
+        }
     }
 #endif
     else {
@@ -1616,6 +1619,9 @@ default_get_config(ENGINE_HANDLE* handle, const void* cookie,
             *(bool*)config_value = engine->config.async_logging;
             pthread_mutex_unlock(&engine->cache_lock);
         }
+        else {
+            ret = ENGINE_ENOTSUP;
+        }
     }
 #endif
     else {
-- 
2.43.0


From 37d5a093863a4736bb18f4983ce9e30a8a75de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:28 +0000
Subject: [PATCH 23/28] fix: a synchronous write was answered when the first
 part of its log record was on disk

The position a request waits for was that of the first byte of its last
record. A record longer than what is left of a flush request is written in
pieces, so the request was answered, and the last piece not even asked to be
flushed, when its first bytes had been synced. Wait for its last byte.
---
 engines/default/cmdlogbuf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engines/default/cmdlogbuf.c b/engines/default/cmdlogbuf.c
index a63e6ea..ee9cf3d 100644
--- a/engines/default/cmdlogbuf.c
+++ b/engines/default/cmdlogbuf.c
@@ -234,6 +234,8 @@ static LogSN do_log_buff_write(LogRec *logrec, bool dual_write)
     /* update nxt_write_lsn */
     current_lsn = log_buff_gl.nxt_write_lsn;
     log_buff_gl.nxt_write_lsn.roffset += total_length;
+    /* the log record is flushed and synced only when its last byte is */
+    current_lsn.roffset += total_length - 1;
 
     /* update log flush request */
     if (logbuff->fque[logbuff->fend].nflush > 0 &&
-- 
2.43.0


From cdb0e109f4507dde56a2e8cd54777db459bac474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:56 +0000
Subject: [PATCH 24/28] fix: recovery stopped without a word at 2 GB of the
 command log

The offsets of cmdlog_file_apply were ints. Beyond 2 GB they became negative,
the loop ended, and recovery reported success without the rest of the log.
---
 engines/default/cmdlogfile.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/engines/default/cmdlogfile.c b/engines/default/cmdlogfile.c
index 34f5245..79717fd 100644
--- a/engines/default/cmdlogfile.c
+++ b/engines/default/cmdlogfile.c
@@ -377,7 +377,7 @@ void cmdlog_file_final(void)
     logger->log(EXTENSION_LOG_INFO, NULL, "CMDLOG FILE module destroyed.\n");
 }
 
-static int do_redo_pending_lrec(int fd, int start_offset, int end_offset)
+static int do_redo_pending_lrec(int fd, off_t start_offset, off_t end_offset)
 {
     char buf[MAX_LOG_RECORD_SIZE];
     LogRec *logrec = (LogRec*)buf;
@@ -385,7 +385,7 @@ static int do_redo_pending_lrec(int fd, int start_offset, int end_offset)
 
     int ret = 0;
     ssize_t nread = 0;
-    int redo_offset = lseek(fd, (start_offset - end_offset), SEEK_CUR);
+    off_t redo_offset = lseek(fd, (start_offset - end_offset), SEEK_CUR);
     while (redo_offset < end_offset) {
         nread = disk_read(fd, loghdr, sizeof(LogHdr));
         if (nread != sizeof(LogHdr)) {
@@ -438,9 +438,9 @@ int cmdlog_file_apply(void)
     }
 
     int  ret = 0;
-    int  seek_offset = 0;
-    int  pending_start_offset = 0;
-    int  pending_end_offset = 0;
+    off_t seek_offset = 0;
+    off_t pending_start_offset = 0;
+    off_t pending_end_offset = 0;
     bool pending = false;
     char buf[MAX_LOG_RECORD_SIZE];
     LogRec *logrec = (LogRec*)buf;
-- 
2.43.0


From d92dfdc1d318f1ddc013e4c68bc05df99d0c4421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:10 +0000
Subject: [PATCH 25/28] fix: recovery left the incomplete end of the command
 log in the file

A crash may leave the log ending inside a record or inside an operation. New
records were written behind the begin of the unfinished operation, so the next
recovery skipped them or refused to start at the next operation, and the rest
of a torn record stayed behind shorter new records. Cut the log off behind the
last complete record or operation.
---
 engines/default/cmdlogfile.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/engines/default/cmdlogfile.c b/engines/default/cmdlogfile.c
index 79717fd..8579670 100644
--- a/engines/default/cmdlogfile.c
+++ b/engines/default/cmdlogfile.c
@@ -549,6 +549,21 @@ int cmdlog_file_apply(void)
             }
         }
     }
+    if (ret == 0 && log_file_gl.initialized) {
+        /* Cut off what was not completely written,
+         * so that new log records follow the last applied one.
+         */
+        if (pending) {
+            seek_offset = pending_start_offset - sizeof(LogHdr);
+        }
+        if (ftruncate(logfile->fd, seek_offset) < 0 ||
+            disk_lseek(logfile->fd, seek_offset, SEEK_SET) < 0) {
+            logger->log(EXTENSION_LOG_WARNING, NULL,
+                        "[RECOVERY - CMDLOG] failed : cut off incomplete log records. "
+                        "path=%s, error=%s.\n", logfile->path, strerror(errno));
+            ret = -1;
+        }
+    }
     if (ret < 0) {
         close(logfile->fd);
     } else {
-- 
2.43.0


From 37f11ff3405058179bb5879fb56cb01f03a56185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:20 +0000
Subject: [PATCH 26/28] fix: the sweep of old checkpoint files removed the last
 checkpoint too

The time in a file name has 14 digits, atoi cannot represent it, so it never
equalled the time of the last checkpoint and its files were unlinked as well.
---
 engines/default/checkpoint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/default/checkpoint.c b/engines/default/checkpoint.c
index 32aa856..fd7b600 100644
--- a/engines/default/checkpoint.c
+++ b/engines/default/checkpoint.c
@@ -99,7 +99,7 @@ static bool do_chkpt_sweep_files(chkpt_st *cs)
         while ((ent = readdir(dir)) != NULL) {
             char *ptr = ent->d_name;
             if (strncmp(CHKPT_SNAPSHOT_PREFIX, ptr, plen) != 0 ||
-                cs->lasttime == atoi(ptr + plen)) {
+                cs->lasttime == atoll(ptr + plen)) {
                 continue;
             }
             sprintf(cs->snapshot_path, "%s/%s", cs->data_path, ent->d_name);
@@ -124,7 +124,7 @@ static bool do_chkpt_sweep_files(chkpt_st *cs)
         while ((ent = readdir(dir)) != NULL) {
             char *ptr = ent->d_name;
             if (strncmp(CHKPT_CMDLOG_PREFIX, ptr, plen) != 0 ||
-                cs->lasttime == atoi(ptr + plen)) {
+                cs->lasttime == atoll(ptr + plen)) {
                 continue;
             }
             sprintf(cs->cmdlog_path, "%s/%s", cs->logs_path, ent->d_name);
-- 
2.43.0


From e2ebfa7b227f022055fe589b7c6a9bdefd867bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:34 +0000
Subject: [PATCH 27/28] fix: a snapshot that could not be synced counted as
 done

The checkpoint it belongs to then replaced the previous one, whose files were
removed, though the new snapshot may not be on disk.
---
 engines/default/chkpt_snapshot.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engines/default/chkpt_snapshot.c b/engines/default/chkpt_snapshot.c
index 1c2e14f..ec2420b 100644
--- a/engines/default/chkpt_snapshot.c
+++ b/engines/default/chkpt_snapshot.c
@@ -135,7 +135,11 @@ static int do_snapshot_buffer_flush(snapshot_st *ss)
         ssb->curlen = 0;
     }
     if (1) { /* Assume that some data are written */
-        (void)fsync(ss->file.fd);
+        if (fsync(ss->file.fd) < 0) {
+            logger->log(EXTENSION_LOG_WARNING, NULL,
+                        "Failed to sync the snapshot: error=%s\n", strerror(errno));
+            return -1;
+        }
     }
     return 0;
 }
-- 
2.43.0


From 3e7124ad1ce8956e1b73c1639aff7c84614071c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:57 +0000
Subject: [PATCH 28/28] fix: begin a scan of the hash table at its first table

assoc_scan_init() left tabidx uninitialised. Until the first
assoc_scan_next(), assoc_scan_in_visited_area() compared it and could take
items of the first bucket for visited: the checkpoint then logged their
changes a second time, and recovery repeated them.
---
 engines/default/assoc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engines/default/assoc.c b/engines/default/assoc.c
index 5f68213..57e0465 100644
--- a/engines/default/assoc.c
+++ b/engines/default/assoc.c
@@ -366,6 +366,7 @@ void assoc_scan_init(struct assoc_scan *scan)
     scan->tabcnt = 0; /* 0 means the scan on the current
                        * bucket chain has not yet started.
                        */
+    scan->tabidx = 0;
     _init_scan_placeholder(scan);
     scan->initialized = true;
 }
-- 
2.43.0


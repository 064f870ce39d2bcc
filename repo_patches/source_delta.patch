From 0dfaa188327dc1a3067962106bac8772f741fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:58 +0000
Subject: [PATCH 001/123] fix: check token space before storing, not after the
 need-more-data return

Feeding a long method, URL or header name in small segments bypassed the
length check and overflowed the token buffer.
---
 src/onion/request_parser.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index e6aa933..49c46c2 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -104,9 +104,6 @@ int token_read_STRING(onion_token * token, onion_buffer * data) {
 
   char c = data->data[data->pos++];
   while (!is_space(c)) {
-    token->str[token->pos++] = c;
-    if (data->pos >= data->size)
-      return OCS_NEED_MORE_DATA;
     if (token->pos >= (sizeof(token->str) - 1)) {
       char tmp[16];
       strncpy(tmp, token->str, 16);
@@ -116,6 +113,9 @@ int token_read_STRING(onion_token * token, onion_buffer * data) {
            token->pos);
       return OCS_INTERNAL_ERROR;
     }
+    token->str[token->pos++] = c;
+    if (data->pos >= data->size)
+      return OCS_NEED_MORE_DATA;
     c = data->data[data->pos++];
   }
   int ret;
@@ -146,16 +146,16 @@ int token_read_until(onion_token * token, onion_buffer * data, char delimiter) {
 
   char c = data->data[data->pos++];
   while (c != delimiter && c != '\n') {
-    if (c != '\r')              // Just ignore it here
-      token->str[token->pos++] = c;
-    if (data->pos >= data->size) {
-      return OCS_NEED_MORE_DATA;
-    }
     if (token->pos >= (sizeof(token->str) - 1)) {
       ONION_ERROR("Token too long to parse it. Part read is %s (%d bytes)",
                   token->str, token->pos);
       return OCS_INTERNAL_ERROR;
     }
+    if (c != '\r')              // Just ignore it here
+      token->str[token->pos++] = c;
+    if (data->pos >= data->size) {
+      return OCS_NEED_MORE_DATA;
+    }
     c = data->data[data->pos++];
   }
   int ret = STRING;
-- 
2.43.0


From 52c05f0525d216e0ab3901c5aaf0cba7a9f352d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:58 +0000
Subject: [PATCH 002/123] fix: bound folded header values, and do not swallow
 the line after an empty continuation line

---
 src/onion/request_parser.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 49c46c2..1814645 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -724,6 +724,9 @@ static onion_connection_status parse_headers_KEY(onion_request * req,
                                                  onion_buffer * data);
 static onion_connection_status parse_headers_VALUE(onion_request * req,
                                                    onion_buffer * data);
+static onion_connection_status
+parse_headers_VALUE_multiline_if_space(onion_request * req,
+                                       onion_buffer * data);
 
 static onion_connection_status
 parse_headers_VALUE_skip_leading_whitespace(onion_request * req,
@@ -732,10 +735,14 @@ parse_headers_VALUE_skip_leading_whitespace(onion_request * req,
     char peek = data->data[data->pos++];
     if (peek != '\t' && peek != ' ') {
       onion_token *token = req->parser_data;
-      if (peek == '\n')
+      if (peek == '\n') {       // Empty continuation line, maybe there is another
+        req->parser = parse_headers_VALUE_multiline_if_space;
         return OCS_NEED_MORE_DATA;
-      token->str[token->pos++] = ' ';
-      token->str[token->pos++] = peek;
+      }
+      if (token->pos + 2 < sizeof(token->str)) {        // Else ignored, as any too long value
+        token->str[token->pos++] = ' ';
+        token->str[token->pos++] = peek;
+      }
       req->parser = parse_headers_VALUE;
       return parse_headers_VALUE(req, data);
     }
-- 
2.43.0


From b72f1a468971f175a8d22618e0a850998c869db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:58 +0000
Subject: [PATCH 003/123] fix: CRLF header lines: no read before the buffer on
 empty values, keep folded continuations

---
 src/onion/request_parser.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 1814645..a995e9c 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -212,10 +212,9 @@ int token_read_LINE(onion_token * token, onion_buffer * data) {
 
     c = data->data[data->pos++];
   }
-  if (token->str[token->pos - 1] == '\r')
-    token->str[token->pos - 1] = '\0';
-  else
-    token->str[token->pos] = '\0';
+  if (token->pos > 0 && token->str[token->pos - 1] == '\r')
+    token->pos--;               // Not part of the line, not even if it continues at next line
+  token->str[token->pos] = '\0';
   //token->pos=0;
 
   //ONION_DEBUG0("Found LINE token %s",token->str);
-- 
2.43.0


From a5abeec01872f69c8d4934e77ec30950e46c87f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:58 +0000
Subject: [PATCH 004/123] fix: a NUL byte at the start of a header line looped
 forever

---
 src/onion/request_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index a995e9c..e265d5e 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -754,7 +754,7 @@ parse_headers_VALUE_multiline_if_space(onion_request * req,
                                        onion_buffer * data) {
   char peek = token_peek_next_char(data);
   ONION_DEBUG0("Multiline if space, peek %d", peek);
-  if (peek == 0) {
+  if (data->pos >= data->size) {
     req->parser = parse_headers_VALUE_multiline_if_space;
     return OCS_NEED_MORE_DATA;
   }
-- 
2.43.0


From 9089ad163757eb6c3728615f6e61617447ca0dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:58 +0000
Subject: [PATCH 005/123] fix: a segment ending between the CR and LF after the
 HTTP version was refused

---
 src/onion/request_parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index e265d5e..cdcd97b 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -298,7 +298,6 @@ int token_read_NEW_LINE(onion_token * token, onion_buffer * data) {
     else
       res = OCS_INTERNAL_ERROR;
   }
-  token->pos = 0;
 
   return res;
 }
-- 
2.43.0


From 88cb18e4c84bab6fbb2092e24b09a1fbbedafc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:58 +0000
Subject: [PATCH 006/123] fix: double free of the body buffer when an
 urlencoded POST is cut before its end

---
 src/onion/request_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index cdcd97b..bf34e64 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -713,7 +713,8 @@ static onion_connection_status parse_POST_urlencode(onion_request * req,
 
   req->POST = onion_dict_new();
   onion_request_parse_query_to_dict(req->POST, token->extra);
-  token->extra = NULL;          // At query to dict, it keeps the pointer and free it when POST is freed.
+  req->free_list = onion_ptr_list_add(req->free_list, token->extra);    // POST keeps pointers into it. Free when the request is freed.
+  token->extra = NULL;
 
   return OCS_REQUEST_READY;
 }
@@ -1046,7 +1047,6 @@ static onion_connection_status prepare_POST(onion_request * req) {
     assert(token->extra == NULL);
     token->extra = onion_low_scalar_malloc(cl + 1);     // Cl + \0
     token->extra_size = cl;
-    req->free_list = onion_ptr_list_add(req->free_list, token->extra);  // Free when the request is freed.
 
     req->parser = parse_POST_urlencode;
     return OCS_NEED_MORE_DATA;
-- 
2.43.0


From 3d4e80702f80db14c2c6713af0b85c3dacfe6288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:14 +0000
Subject: [PATCH 007/123] fix: onion_unquote_inplace read past the end of the
 string on a truncated % escape

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 1e151c3..2ef0718 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -255,7 +255,7 @@ void onion_unquote_inplace(char *str) {
   char *w = str;
   char tmp[3] = { 0, 0, 0 };
   while (*r) {
-    if (*r == '%') {
+    if (*r == '%' && r[1] && r[2]) {    // A truncated escape is left as is
       r++;
       tmp[0] = *r++;
       tmp[1] = *r;
-- 
2.43.0


From 671febf66944a6e43ea4af0245345161a776f1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:43 +0000
Subject: [PATCH 008/123] fix: multipart field data: copy false boundary starts
 from the boundary, not from past the input, and keep trailing newlines

---
 src/onion/request_parser.c | 47 +++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index bf34e64..bb68862 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -497,21 +497,27 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
   char *d = &multipart->data[token->pos];
 
   for (; data->pos < data->size; data->pos++) {
-    if (multipart->pos == 0 && *p == '\n')      // \r is optional.
-      multipart->pos = 1;
+    if (multipart->pos == 0) {
+      if (*p == '\n')           // \r is optional.
+        multipart->startpos = multipart->pos = 1;
+      else
+        multipart->startpos = 0;
+    }
     if (*p == multipart->boundary[multipart->pos]) {    // Check boundary
       multipart->pos++;
       if (multipart->pos == multipart->size) {
-        multipart->pos = 0;
+        multipart->startpos = multipart->pos = 0;
         data->pos++;            // Not sure why this is needed. FIXME.
-        if (token->pos > 0 && *(d - 1) == '\n') {
-          token->pos--;
-          d--;
+        if (multipart->post_total_size < 1) {
+          ONION_ERROR("No space left for this post.");
+          return OCS_INTERNAL_ERROR;
         }
-        if (token->pos > 0 && *(d - 1) == '\r')
-          d--;
-
+        multipart->post_total_size--;
         *d = '\0';
+        if (!multipart->name) {
+          ONION_ERROR("Multipart field without name.");
+          return OCS_INTERNAL_ERROR;
+        }
         ONION_DEBUG0("Adding POST data '%s'", multipart->name);
         onion_dict_add(req->POST, multipart->name, multipart->data, 0);
         multipart->data = multipart->data + token->pos + 1;
@@ -520,21 +526,20 @@ static onion_connection_status parse_POST_multipart_data(onion_request * req,
         return OCS_NEED_MORE_DATA;
       }
     } else {                    // No boundary
-      if (multipart->pos != 0) {        // Maybe i was checking before... so I need to copy as much as I wrongly thought I got.
-        if (multipart->post_total_size <= multipart->pos) {
-          ONION_ERROR("No space left for this post.");
-          return OCS_INTERNAL_ERROR;
-        }
-        multipart->post_total_size -= multipart->pos;
-        memcpy(d, p, multipart->pos);
-        d += multipart->pos;
-        token->pos += multipart->pos;
-        multipart->pos = 0;
-      }
-      if (multipart->post_total_size <= 0) {
+      int r = multipart->pos - multipart->startpos;     // Maybe i was checking before... so I need to copy as much as I wrongly thought I got.
+      if (multipart->post_total_size <= r) {
         ONION_ERROR("No space left for this post.");
         return OCS_INTERNAL_ERROR;
       }
+      if (multipart->pos != 0) {
+        multipart->post_total_size -= r;
+        memcpy(d, multipart->boundary + multipart->startpos, r);
+        d += r;
+        token->pos += r;
+        multipart->startpos = multipart->pos = 0;
+        data->pos--;            // Ignore read charater, try again. May be start of boundary.
+        continue;
+      }
       multipart->post_total_size--;
       //ONION_DEBUG0("%d %d",multipart->post_total_size,token->extra_size - (int) (d-token->extra));
       *d = *p;
-- 
2.43.0


From 310153d79e86f4abcec05363c77330148197b912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:43 +0000
Subject: [PATCH 009/123] fix: multipart name and filename: length from the
 value itself, charged against the buffer

---
 src/onion/request_parser.c | 59 ++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 34 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index bb68862..e0f48b8 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -569,42 +569,33 @@ static onion_connection_status parse_POST_multipart_content_type(onion_request *
   //ONION_DEBUG("Got content type %s",token->str);
 
   onion_multipart_buffer *multipart = (onion_multipart_buffer *) token->extra;
-  const char *name;
-  name = strstr(token->str, "filename=");
-  if (name) {
-    int l = strlen(token->str) - 9;
-    if (l > multipart->post_total_size) {
-      ONION_ERROR("Post buffer exhausted. content-Length wrong passed.");
-      return OCS_INTERNAL_ERROR;
-    }
-    multipart->filename = multipart->data;
-    memcpy(multipart->filename, name + 9, l);
-    multipart->filename[l] = 0;
-    multipart->data = multipart->data + l + 1;
-    if (*multipart->filename == '"' && multipart->filename[l - 2] == '"') {
-      multipart->filename[l - 2] = '\0';
-      multipart->filename++;
+  const char *name = token->str;
+  while (is_space(*name))
+    name++;
+  char **dest = NULL;
+  if (strncmp(name, "filename=", 9) == 0) {
+    name += 9;
+    dest = &multipart->filename;
+  } else if (strncmp(name, "name=", 5) == 0) {
+    name += 5;
+    dest = &multipart->name;
+  }
+  if (dest) {
+    size_t l = strlen(name);
+    if (l >= 2 && name[0] == '"' && name[l - 1] == '"') {
+      name++;
+      l -= 2;
     }
-    ONION_DEBUG0("Set filename '%s'", multipart->filename);
-  } else {
-    name = strstr(token->str, "name=");
-    if (name) {
-      int l = strlen(token->str) - 5;
-      if (l > multipart->post_total_size) {
-        ONION_ERROR("Post buffer exhausted. Content-Length had wrong size.");
-        return OCS_INTERNAL_ERROR;
-      }
-      multipart->name = multipart->data;
-      memcpy(multipart->name, name + 5, l);
-      multipart->name[l] = 0;
-      if (*multipart->name == '"' && multipart->name[l - 2] == '"') {
-        l -= 2;
-        multipart->name[l] = '\0';
-        multipart->name++;
-      }
-      multipart->data = multipart->name + l + 1;
-      ONION_DEBUG0("Set field name '%s'", multipart->name);
+    if (l + 1 > multipart->post_total_size) {
+      ONION_ERROR("Post buffer exhausted. Content-Length had wrong size.");
+      return OCS_INTERNAL_ERROR;
     }
+    memcpy(multipart->data, name, l);
+    multipart->data[l] = 0;
+    *dest = multipart->data;
+    multipart->data += l + 1;
+    multipart->post_total_size -= l + 1;
+    ONION_DEBUG0("Set field name or filename '%s'", *dest);
   }
 
   if (res == STRING_NEW_LINE) {
-- 
2.43.0


From 5c4e992fd97e007ca5995820f5ad2b14daee767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:43 +0000
Subject: [PATCH 010/123] fix: multipart buffer was allocated shorter than
 boundary plus data

---
 src/onion/request_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index e0f48b8..f0311b5 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -1062,11 +1062,11 @@ static onion_connection_status prepare_POST(onion_request * req) {
   token->extra_size = cl;       // Max size of the multipart->data
   onion_multipart_buffer *multipart =
       onion_low_malloc(token->extra_size + sizeof(onion_multipart_buffer) +
-                       mp_token_size + 2);
+                       mp_token_size + 4 + 1);  // \r\n--, and \0
   assert(token->extra == NULL);
   token->extra = (char *)multipart;
 
-  multipart->boundary = (char *)multipart + sizeof(onion_multipart_buffer) + 1;
+  multipart->boundary = (char *)multipart + sizeof(onion_multipart_buffer);
   multipart->size = mp_token_size + 4;
   multipart->pos = 2;           // First boundary already have [\r]\n readen
   multipart->post_total_size = cl;
-- 
2.43.0


From 2f5ad36199d04e50dc621abc8fd8bebba41c9eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:59 +0000
Subject: [PATCH 011/123] fix: close upload temporary files on aborted
 requests, refuse uploads that could not be stored, multipart files without
 name crashed

---
 src/onion/request_parser.c | 60 ++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index f0311b5..478e135 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -61,6 +61,7 @@ typedef struct onion_token_s {
 
   char *extra;                  // Only used when need some previous data, like at header value, i need the key
   size_t extra_size;
+  int fd;                       // Temporal file being written, or -1. Closed at onion_request_parser_data_free.
 } onion_token;
 
 /// @private
@@ -88,7 +89,6 @@ typedef struct onion_multipart_buffer_s {
   char *filename;               /// point to a in data position
   size_t file_total_size;       /// Total size of all file read data
   size_t post_total_size;       /// Total size of post, to check limits
-  int fd;                       /// If file, the file descriptor.
 } onion_multipart_buffer;
 
 static void onion_request_parse_query_to_dict(onion_dict * dict, char *p);
@@ -360,13 +360,8 @@ static onion_connection_status parse_PUT(onion_request * req,
   }
   //ONION_DEBUG0("Writing %d. %d / %d bytes", length, token->pos+length, token->extra_size);
 
-  int *fd = (int *)token->extra;
-  ssize_t w = write(*fd, &data->data[data->pos], length);
-  if (w < 0) {
-    // cleanup
-    close(*fd);
-    onion_low_free(token->extra);
-    token->extra = NULL;
+  ssize_t w = write(token->fd, &data->data[data->pos], length);
+  if (w != length) {
     ONION_ERROR("Could not write all data to temporal file.");
     return OCS_INTERNAL_ERROR;
   }
@@ -379,9 +374,8 @@ static onion_connection_status parse_PUT(onion_request * req,
 #endif
 
   if (exit) {
-    close(*fd);
-    onion_low_free(token->extra);
-    token->extra = NULL;
+    close(token->fd);
+    token->fd = -1;
     return OCS_REQUEST_READY;
   }
 
@@ -415,15 +409,15 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         multipart->startpos = multipart->pos = 0;
         data->pos++;            // Not sure why this is needed. FIXME.
 
-        int w = write(multipart->fd, tmp, tmppos);
+        int w = write(token->fd, tmp, tmppos);
         if (w != tmppos) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
 
-        close(multipart->fd);
+        close(token->fd);
+        token->fd = -1;
         req->parser = parse_POST_multipart_next;
         return OCS_NEED_MORE_DATA;
       }
@@ -437,20 +431,18 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         multipart->file_total_size += multipart->pos;
         int r = multipart->pos - multipart->startpos;
         //ONION_DEBUG0("Write %d bytes",r);
-        int w = write(multipart->fd, tmp, tmppos);
+        int w = write(token->fd, tmp, tmppos);
         if (w != tmppos) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
         tmppos = 0;
 
-        w = write(multipart->fd, multipart->boundary + multipart->startpos, r);
+        w = write(token->fd, multipart->boundary + multipart->startpos, r);
         if (w != r) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
         multipart->startpos = multipart->pos = 0;
@@ -460,11 +452,10 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
       //ONION_DEBUG0("Write 1 byte");
       tmp[tmppos++] = *p;
       if (tmppos == sizeof(tmp)) {
-        int w = write(multipart->fd, tmp, tmppos);
+        int w = write(token->fd, tmp, tmppos);
         if (w != tmppos) {
           ONION_ERROR
               ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-          close(multipart->fd);
           return OCS_INTERNAL_ERROR;
         }
         tmppos = 0;
@@ -473,11 +464,10 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
     multipart->file_total_size++;
     p++;
   }
-  int w = write(multipart->fd, tmp, tmppos);
+  int w = write(token->fd, tmp, tmppos);
   if (w != tmppos) {
     ONION_ERROR
         ("Error writing multipart data to file. Check permissions on temp directory, and available disk.");
-    close(multipart->fd);
     return OCS_INTERNAL_ERROR;
   }
   return OCS_NEED_MORE_DATA;
@@ -638,10 +628,16 @@ static onion_connection_status parse_POST_multipart_headers_key(onion_request *
     multipart->pos = 0;
 
     if (multipart->filename) {
+      if (!multipart->name) {
+        ONION_ERROR("Multipart file without name.");
+        return OCS_INTERNAL_ERROR;
+      }
       char filename[] = "/tmp/onion-XXXXXX";
-      multipart->fd = mkstemp(filename);
-      if (multipart->fd < 0)
+      token->fd = mkstemp(filename);
+      if (token->fd < 0) {
         ONION_ERROR("Could not create temporal file at %s.", filename);
+        return OCS_INTERNAL_ERROR;
+      }
       if (!req->FILES)
         req->FILES = onion_dict_new();
       onion_dict_add(req->POST, multipart->name, multipart->filename, 0);
@@ -914,7 +910,9 @@ static onion_connection_status parse_headers_GET(onion_request * req,
 onion_connection_status onion_request_write(onion_request * req,
                                             const char *data, size_t size) {
   if (!req->parser_data) {
-    req->parser_data = onion_low_calloc(1, sizeof(onion_token));
+    onion_token *token = onion_low_calloc(1, sizeof(onion_token));
+    token->fd = -1;
+    req->parser_data = token;
     req->parser = parse_headers_GET;
   }
 
@@ -1138,8 +1136,10 @@ static onion_connection_status prepare_PUT(onion_request * req) {
 
   char filename[] = "/tmp/onion-XXXXXX";
   int fd = mkstemp(filename);
-  if (fd < 0)
+  if (fd < 0) {
     ONION_ERROR("Could not create temporary file at %s.", filename);
+    return OCS_INTERNAL_ERROR;
+  }
 
   onion_block_add_str(req->data, filename);
   ONION_DEBUG0("Creating PUT file %s (%d bytes long)", filename,
@@ -1159,11 +1159,7 @@ static onion_connection_status prepare_PUT(onion_request * req) {
     return OCS_REQUEST_READY;
   }
 
-  int *pfd = onion_low_scalar_malloc(sizeof(fd));
-  *pfd = fd;
-
-  assert(token->extra == NULL);
-  token->extra = (char *)pfd;
+  token->fd = fd;
   token->extra_size = cl;
   token->pos = 0;
 
@@ -1181,5 +1177,7 @@ void onion_request_parser_data_free(void *t) {
     onion_low_free(token->extra);
     token->extra = NULL;
   }
+  if (token->fd >= 0)
+    close(token->fd);
   onion_low_free(token);
 }
-- 
2.43.0


From e7dc56fb9bb95b06ab06e7bdc4e761f9b0227eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:59 +0000
Subject: [PATCH 012/123] fix: multipart files: count each file byte once
 against the file size limit, and boundaries never

---
 src/onion/request_parser.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 478e135..18fe5d0 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -422,14 +422,14 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         return OCS_NEED_MORE_DATA;
       }
     } else {
+      int r = multipart->pos - multipart->startpos;     // bytes that looked like a boundary, but are file data
+      multipart->file_total_size += (multipart->pos != 0) ? r : 1;
       if (multipart->file_total_size >
           req->connection.listen_point->server->max_file_size) {
         ONION_ERROR("Files on this post too big. Aborting.");
         return OCS_INTERNAL_ERROR;
       }
       if (multipart->pos != 0) {
-        multipart->file_total_size += multipart->pos;
-        int r = multipart->pos - multipart->startpos;
         //ONION_DEBUG0("Write %d bytes",r);
         int w = write(token->fd, tmp, tmppos);
         if (w != tmppos) {
@@ -461,7 +461,6 @@ static onion_connection_status parse_POST_multipart_file(onion_request * req,
         tmppos = 0;
       }
     }
-    multipart->file_total_size++;
     p++;
   }
   int w = write(token->fd, tmp, tmppos);
-- 
2.43.0


From 051d6623065578f2074532072fe6b8197435c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:59 +0000
Subject: [PATCH 013/123] fix: a Content-Length over 2^31 was truncated and its
 body taken as another request

---
 src/onion/request_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index 18fe5d0..ef5f38c 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -801,7 +801,7 @@ static onion_connection_status parse_headers_KEY(onion_request * req,
     if ((req->flags & OR_METHODS) == OR_PUT)
       return prepare_PUT(req);
     if (onion_request_get_header(req, "Content-Length")) {      // Some length, not POST, get data.
-      int n = atoi(onion_request_get_header(req, "Content-Length"));
+      long n = atol(onion_request_get_header(req, "Content-Length"));
       if (n > 0)
         return prepare_CONTENT_LENGTH(req);
     }
-- 
2.43.0


From 866636afc38325d0f13c44e861c2ded7fd8a5e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:59 +0000
Subject: [PATCH 014/123] fix: the CRLF after a multipart body arriving on its
 own was taken as a bad request

---
 src/onion/request_parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/onion/request_parser.c b/src/onion/request_parser.c
index ef5f38c..1d536a4 100644
--- a/src/onion/request_parser.c
+++ b/src/onion/request_parser.c
@@ -874,6 +874,12 @@ static onion_connection_status parse_headers_URL(onion_request * req,
 static onion_connection_status parse_headers_GET(onion_request * req,
                                                  onion_buffer * data) {
   onion_token *token = req->parser_data;
+
+  // Ignore empty lines before the request line, as the one that may follow the body of the previous request.
+  while (token->pos == 0 && data->pos < data->size
+         && (data->data[data->pos] == '\r' || data->data[data->pos] == '\n'))
+    data->pos++;
+
   int res = token_read_STRING(token, data);
 
   if (res <= 1000)
-- 
2.43.0


From aed5f03e10f51ecdd239130c3cba633cbf232828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:46 +0000
Subject: [PATCH 015/123] fix: onion_response_set_length overflowed its buffer
 on lengths over 15 digits

---
 src/onion/response.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 20cc39a..112bc69 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -224,8 +224,8 @@ void onion_response_set_length(onion_response * res, size_t len) {
         ("Trying to set length after headers sent. Undefined onion behaviour.");
     return;
   }
-  char tmp[16];
-  sprintf(tmp, "%lu", (unsigned long)len);
+  char tmp[24];
+  snprintf(tmp, sizeof(tmp), "%lu", (unsigned long)len);
   onion_response_set_header(res, "Content-Length", tmp);
   res->length = len;
   res->flags |= OR_LENGTH_SET;
-- 
2.43.0


From 9229e0981242620306965f6fb533772fcf5eb642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:46 +0000
Subject: [PATCH 016/123] fix: the session cookie header line ended in a bare
 LF

---
 src/onion/response.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 112bc69..dc61f67 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -315,7 +315,7 @@ int onion_response_write_headers(onion_response * res) {
   onion_dict_preorder(res->headers, write_header, res);
 
   if (res->request->session_id && (onion_dict_count(res->request->session) > 0))        // I have session with something, tell user
-    onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\n",
+    onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\r\n",
                           res->request->session_id);
 
   onion_response_write(res, "\r\n", 2);
-- 
2.43.0


From 7d7f80dcdbfc1efd4eb02854f0ccd8deead06d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:46 +0000
Subject: [PATCH 017/123] fix: onion_response_add_cookie wrote past its buffer
 on too long cookies

---
 src/onion/response.c | 48 ++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index dc61f67..b33d1b9 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -600,6 +600,17 @@ onion_dict *onion_response_get_headers(onion_response * res) {
   return res->headers;
 }
 
+/// Appends to the cookie, never past size. When it does not fit, pos ends up >= size.
+static void cookie_append(char *data, size_t size, size_t *pos,
+                          const char *fmt, ...) {
+  if (*pos >= size)
+    return;
+  va_list ap;
+  va_start(ap, fmt);
+  *pos += vsnprintf(data + *pos, size - *pos, fmt, ap);
+  va_end(ap);
+}
+
 /**
  * @short Sets a new cookie into the response.
  * @ingroup response
@@ -624,38 +635,41 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
                                const char *path, const char *domain,
                                int flags) {
   char data[4096];
-  int pos;
-  pos = snprintf(data, sizeof(data), "%s=%s", cookiename, cookievalue);
+  size_t pos = 0;
+  cookie_append(data, sizeof(data), &pos, "%s=%s", cookiename, cookievalue);
   if (validity_t == 0)
-    pos +=
-        snprintf(data + pos, sizeof(data) - pos,
-                 "; expires=Thu, 01 Jan 1970 00:00:00 GMT");
+    cookie_append(data, sizeof(data), &pos,
+                  "; expires=Thu, 01 Jan 1970 00:00:00 GMT");
   else if (validity_t > 0) {
-    struct tm *tmp;
+    struct tm tmp;
+    char expires[128];
     time_t t = time(NULL) + validity_t;
-    tmp = localtime(&t);
-    pos +=
-        strftime(data + pos, sizeof(data) - pos,
-                 "; expires=%a, %d %b %Y %H:%M:%S %Z", tmp);
+    if (!localtime_r(&t, &tmp)
+        || strftime(expires, sizeof(expires), "%a, %d %b %Y %H:%M:%S %Z",
+                    &tmp) == 0) {
+      ONION_WARNING("Invalid cookie expiration. Not added to response.");
+      return false;
+    }
+    cookie_append(data, sizeof(data), &pos, "; expires=%s", expires);
   }
   if (path)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; path=%s", path);
+    cookie_append(data, sizeof(data), &pos, "; path=%s", path);
   if (domain)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; domain=%s", domain);
+    cookie_append(data, sizeof(data), &pos, "; domain=%s", domain);
   if (flags & OC_HTTP_ONLY)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; HttpOnly");
+    cookie_append(data, sizeof(data), &pos, "; HttpOnly");
   if (flags & OC_SECURE)
-    pos += snprintf(data + pos, sizeof(data) - pos, "; Secure");
+    cookie_append(data, sizeof(data), &pos, "; Secure");
 
   switch (flags & (OC_SAMESITE_NONE | OC_SAMESITE_LAX | OC_SAMESITE_STRICT)) {
   case OC_SAMESITE_NONE:
-    pos+=snprintf(data+pos, sizeof(data)-pos, "; SameSite=None");
+    cookie_append(data, sizeof(data), &pos, "; SameSite=None");
     break;
   case OC_SAMESITE_LAX:
-    pos+=snprintf(data+pos, sizeof(data)-pos, "; SameSite=Lax");
+    cookie_append(data, sizeof(data), &pos, "; SameSite=Lax");
     break;
   case OC_SAMESITE_STRICT:
-    pos+=snprintf(data+pos, sizeof(data)-pos, "; SameSite=Strict");
+    cookie_append(data, sizeof(data), &pos, "; SameSite=Strict");
     break;
   default:
     break;
-- 
2.43.0


From e4860fa84402402c4bcc8ce91c7c2efb0347252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:46 +0000
Subject: [PATCH 018/123] fix: adding a second cookie to a response dropped the
 first one

---
 src/onion/response.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index b33d1b9..6a11b9e 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -680,7 +680,7 @@ bool onion_response_add_cookie(onion_response * res, const char *cookiename,
     return false;
   }
 
-  onion_response_set_header(res, "Set-Cookie", data);
+  onion_dict_add(res->headers, "Set-Cookie", data, OD_DUP_ALL); // As many as cookies
   ONION_DEBUG("Set cookie %s", data);
 
   return true;
-- 
2.43.0


From 6a93f4068f78f5a0f68abeaee60e0634518ea96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:46 +0000
Subject: [PATCH 019/123] fix: a handler returning OCS_FORBIDDEN was answered
 with an empty 200 OK

---
 src/onion/request.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 00e0af3..a49cbac 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -580,7 +580,8 @@ onion_connection_status onion_request_process(onion_request * req) {
                            req, res);
 
   if (hs == OCS_INTERNAL_ERROR ||
-      hs == OCS_NOT_IMPLEMENTED || hs == OCS_NOT_PROCESSED) {
+      hs == OCS_NOT_IMPLEMENTED || hs == OCS_NOT_PROCESSED ||
+      hs == OCS_FORBIDDEN) {
     if (hs == OCS_INTERNAL_ERROR)
       req->flags |= OR_INTERNAL_ERROR;
     if (hs == OCS_NOT_IMPLEMENTED)
-- 
2.43.0


From 5d708635a496040894cb89c90174d42e94e8b821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:46 +0000
Subject: [PATCH 020/123] fix: leak on a Cookie header without any complete
 cookie

---
 src/onion/request.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index a49cbac..6751106 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -714,12 +714,15 @@ onion_dict *onion_request_get_cookies_dict(onion_request * req) {
     p++;
   }
   if (key && val && val < p) {  // A final element, with value.
-    if (first)
+    if (first) {
       onion_dict_add(req->cookies, cookies, val, OD_FREE_KEY);
-    else
+      first = 0;
+    } else
       onion_dict_add(req->cookies, key, val, 0);
     ONION_DEBUG0("Add cookie <%s>=<%s> %d", key, val, first);
   }
+  if (first)                    // No cookie at all, nobody owns it
+    onion_low_free(cookies);
 
   return req->cookies;
 }
-- 
2.43.0


From c11b12cc62754ba2f2d81c130931948011464f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:50 +0000
Subject: [PATCH 021/123] fix: partial or failed writes of chunk framing
 corrupted the response and kept the connection alive

---
 src/onion/response.c | 64 +++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 6a11b9e..68c0dd1 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -147,6 +147,30 @@ onion_response *onion_response_new(onion_request * req) {
   return res;
 }
 
+/**
+ * @short Writes all this data to the client, in as many writes as necessary
+ *
+ * If it fails the client can not know where this response ends: no more data is sent for it, and the
+ * connection is not kept alive.
+ *
+ * @returns 0, or <0 on error.
+ */
+static int write_all(onion_response * res, const char *data, size_t length) {
+  onion_request *req = res->request;
+  while (length > 0) {
+    ssize_t w = req->connection.listen_point->write(req, data, length);
+    if (w <= 0) {
+      res->flags |= OR_SKIP_CONTENT;
+      res->flags &= ~OR_CHUNKED;
+      onion_request_set_no_keep_alive(req);
+      return -1;
+    }
+    data += w;
+    length -= w;
+  }
+  return 0;
+}
+
 /**
  * @short Frees the memory consumed by this object
  * @memberof onion_response_t
@@ -169,7 +193,7 @@ onion_connection_status onion_response_free(onion_response * res) {
   onion_request *req = res->request;
 
   if (res->flags & OR_CHUNKED) {        // Set the chunked data end.
-    req->connection.listen_point->write(req, "0\r\n\r\n", 5);
+    write_all(res, "0\r\n\r\n", 5);
   }
 
   int r = OCS_CLOSE_CONNECTION;
@@ -330,7 +354,8 @@ int onion_response_write_headers(onion_response * res) {
   }
   if (chunked) {
     onion_response_flush(res);
-    res->flags |= OR_CHUNKED;
+    if (!(res->flags & OR_SKIP_CONTENT))        // Maybe could not even write the headers
+      res->flags |= OR_CHUNKED;
   }
 
   return 0;
@@ -420,41 +445,30 @@ int onion_response_flush(onion_response * res) {
     return 0;
   ONION_DEBUG0("Flush %d bytes", res->buffer_pos);
 
-  onion_request *req = res->request;
-  ssize_t(*write) (onion_request *, const char *data, size_t len);
-  write = req->connection.listen_point->write;
-
-  ssize_t w;
-  off_t pos = 0;
   //ONION_DEBUG0("Write %d bytes",res->buffer_pos);
   if (res->flags & OR_CHUNKED) {
     char tmp[16];
     snprintf(tmp, sizeof(tmp), "%X\r\n", (unsigned int)res->buffer_pos);
-    if ((w = write(req, tmp, strlen(tmp))) <= 0) {
+    if (write_all(res, tmp, strlen(tmp)) < 0) {
       ONION_CALL_MAX_ONCE_PER_T_COUNT(1, ONION_WARNING, "Error writing chunk encoding length (%X) %s. Aborting write. (x%u)",
         (unsigned int)res->buffer_pos, strerror(errno));
-      
+      res->buffer_pos = 0;
       return OCS_CLOSE_CONNECTION;
     }
-    ONION_DEBUG0("Write %d-%d bytes", res->buffer_pos, w);
   }
   int savederrno = errno;
   errno = 0;
-  while ((w =
-          write(req, &res->buffer[pos], res->buffer_pos)) != res->buffer_pos) {
-    if (w <= 0 || res->buffer_pos < 0) {
-      ONION_ERROR("Error writing %d bytes (%s). Maybe closed connection. Code %d. ",
-                  res->buffer_pos, strerror(errno), w);
-      res->buffer_pos = 0;
-      errno = savederrno;
-      return OCS_CLOSE_CONNECTION;
-    }
-    pos += w;
-    ONION_DEBUG0("Write %d-%d bytes", res->buffer_pos, w);
-    res->buffer_pos -= w;
+  if (write_all(res, res->buffer, res->buffer_pos) < 0) {
+    ONION_ERROR("Error writing %d bytes (%s). Maybe closed connection.",
+                res->buffer_pos, strerror(errno));
+    res->buffer_pos = 0;
+    errno = savederrno;
+    return OCS_CLOSE_CONNECTION;
   }
-  if (res->flags & OR_CHUNKED) {
-    write(req, "\r\n", 2);
+  if ((res->flags & OR_CHUNKED) && write_all(res, "\r\n", 2) < 0) {
+    res->buffer_pos = 0;
+    errno = savederrno;
+    return OCS_CLOSE_CONNECTION;
   }
   res->buffer_pos = 0;
   errno = savederrno;
-- 
2.43.0


From e333f3a1bc4edc277c94802b4c37c084cbdfa76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:50 +0000
Subject: [PATCH 022/123] fix: a yielded response sent its body before the
 headers, and was used after being handed over

---
 src/onion/handler.c  | 2 ++
 src/onion/response.c | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/onion/handler.c b/src/onion/handler.c
index 90a353e..44126a0 100644
--- a/src/onion/handler.c
+++ b/src/onion/handler.c
@@ -66,6 +66,8 @@ onion_connection_status onion_handler_handle(onion_handler * handler,
 #endif
       res = handler->handler(handler->priv_data, request, response);
       ONION_DEBUG0("Result: %d", res);
+      if (res == OCS_YIELD)     // The response now belongs to whoever is going to finish it, may be already gone.
+        return res;
       if (res) {
         // write pending data.
         if (!(response->flags & OR_HEADER_SENT)
diff --git a/src/onion/response.c b/src/onion/response.c
index 68c0dd1..4955e38 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -186,8 +186,12 @@ onion_connection_status onion_response_free(onion_response * res) {
   if (!(res->flags & OR_HEADER_SENT) && res->buffer_pos < sizeof(res->buffer))
     onion_response_set_length(res, res->buffer_pos);
 
-  if (!(res->flags & OR_HEADER_SENT))
-    onion_response_write_headers(res);
+  if (!(res->flags & OR_HEADER_SENT)) {
+    if (res->buffer_pos > 0)    // Headers first, then the data already at buffer
+      onion_response_flush(res);
+    else
+      onion_response_write_headers(res);
+  }
 
   onion_response_flush(res);
   onion_request *req = res->request;
-- 
2.43.0


From 4535c75cd990faf71b05b43d320ec78b7d558a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:32 +0000
Subject: [PATCH 023/123] fix: a HEAD request to a handler that writes a long
 body looped forever

---
 src/onion/response.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index 4955e38..f93d626 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -445,8 +445,10 @@ int onion_response_flush(onion_response * res) {
     onion_response_write(res, tmpb, tmpp);
     return 0;
   }
-  if (res->flags & OR_SKIP_CONTENT)     // HEAD request
+  if (res->flags & OR_SKIP_CONTENT) {   // HEAD request
+    res->buffer_pos = 0;
     return 0;
+  }
   ONION_DEBUG0("Flush %d bytes", res->buffer_pos);
 
   //ONION_DEBUG0("Write %d bytes",res->buffer_pos);
-- 
2.43.0


From 6d46a89f8b0370e82eccf504382afa337abd5a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:32 +0000
Subject: [PATCH 024/123] fix: an empty HTTP/1.0 response without length
 announced close but kept the connection open

---
 src/onion/response.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/response.c b/src/onion/response.c
index f93d626..4b5d342 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -210,7 +210,8 @@ onion_connection_status onion_response_free(onion_response * res) {
          onion_request_keep_alive(req), res->flags & OR_SKIP_CONTENT,
          res->length, res->sent_bytes, res->flags & OR_CHUNKED);
     if (onion_request_keep_alive(req)
-        && (res->flags & OR_SKIP_CONTENT || res->length == res->sent_bytes
+        && (res->flags & OR_SKIP_CONTENT
+            || (res->flags & OR_LENGTH_SET && res->length == res->sent_bytes)
             || res->flags & OR_CHUNKED)
         )
       r = OCS_KEEP_ALIVE;
-- 
2.43.0


From 100a06f38ad4b55d188c2411610b9486bb9a7a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:00 +0000
Subject: [PATCH 025/123] fix: removing from a dict with repeated keys freed
 another entry with the same key

---
 src/onion/dict.c | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index fbbe6e5..55f2abd 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -388,6 +388,33 @@ static void onion_dict_node_data_free(onion_dict_node_data * data) {
   }
 }
 
+/// AA tree rebalance after a removal below this node
+static onion_dict_node *onion_dict_node_rebalance(onion_dict_node * node) {
+  decrease_level(node);
+  node = skew(node);
+  if (node->right) {
+    node->right = skew(node->right);
+    if (node->right->right)
+      node->right->right = skew(node->right->right);
+  }
+  node = split(node);
+  if (node->right)
+    node->right = split(node->right);
+  return node;
+}
+
+/// Removes the first (or last) node of this subtree. Its data is not freed, as it was moved elsewhere.
+static onion_dict_node *onion_dict_node_unlink(onion_dict_node * node, int last) {
+  onion_dict_node **next = last ? &node->right : &node->left;
+  if (!*next) {
+    onion_dict_node *child = last ? node->left : node->right;
+    onion_low_free(node);
+    return child;
+  }
+  *next = onion_dict_node_unlink(*next, last);
+  return onion_dict_node_rebalance(node);
+}
+
 /// AA tree remove the node
 static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
                                                onion_dict_node * node,
@@ -414,8 +441,8 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
         t = t->left;
       //ONION_DEBUG("Set data from %p[%s] to %p[already deleted %s]",t,t->data.key, node, key);
       memcpy(&node->data, &t->data, sizeof(onion_dict_node_data));
-      t->data.flags = 0;        // No double free later, please
-      node->right = onion_dict_node_remove(d, node->right, t->data.key);
+      // By position, as there may be more nodes with that same key
+      node->right = onion_dict_node_unlink(node->right, 0);
       //ONION_DEBUG("%p[%s]->right=%p[%s]",node, node->data.key, node->right, node->right ? node->right->data.key : "NULL");
     } else {
       onion_dict_node *t = node->left;  // Get prev key node
@@ -423,22 +450,11 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
         t = t->right;
 
       memcpy(&node->data, &t->data, sizeof(onion_dict_node_data));
-      t->data.flags = 0;        // No double free later, please
-      node->left = onion_dict_node_remove(d, node->left, t->data.key);
+      node->left = onion_dict_node_unlink(node->left, 1);
       //ONION_DEBUG("%p[%s]->left=%p[%s]",node, node->data.key, node->left, node->left ? node->left->data.key : "NULL");
     }
   }
-  decrease_level(node);
-  node = skew(node);
-  if (node->right) {
-    node->right = skew(node->right);
-    if (node->right->right)
-      node->right->right = skew(node->right->right);
-  }
-  node = split(node);
-  if (node->right)
-    node->right = split(node->right);
-  return node;
+  return onion_dict_node_rebalance(node);
 }
 
 /**
-- 
2.43.0


From 45f2f2f93a0f52d8055788faa7313b4841c09892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:01 +0000
Subject: [PATCH 026/123] fix: onion_dict_remove said it removed keys that were
 not there

---
 src/onion/dict.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index 55f2abd..c49d71f 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -465,6 +465,8 @@ static onion_dict_node *onion_dict_node_remove(const onion_dict * d,
  * Returns if it removed any node.
  */
 int onion_dict_remove(onion_dict * dict, const char *key) {
+  if (!onion_dict_find_node(dict, dict->root, key, NULL))
+    return 0;
   dict->root = onion_dict_node_remove(dict, dict->root, key);
   return 1;
 }
-- 
2.43.0


From 11af74ae688c368f513d292b223029f1aaded95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:01 +0000
Subject: [PATCH 027/123] fix: a hard duplicate of a case insensitive dict was
 case sensitive

---
 src/onion/dict.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index c49d71f..a611717 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -172,6 +172,7 @@ void onion_dict_hard_dup_helper(onion_dict * dict, const char *key,
  */
 onion_dict *onion_dict_hard_dup(onion_dict * dict) {
   onion_dict *d = onion_dict_new();
+  d->cmp = dict->cmp;
   onion_dict_preorder(dict, onion_dict_hard_dup_helper, d);
   return d;
 }
-- 
2.43.0


From ab0a24de3f73b552f67367ff13ee0178564c6aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:36 +0000
Subject: [PATCH 028/123] fix: base64 decode read out of its table and past the
 end of the text, and accepted invalid characters

---
 src/onion/codecs.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 2ef0718..7b9e785 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -72,7 +72,11 @@ static u_int8_t onion_base64_decode_get_next(const char **I){
     c = (int)**I;
   }
   // ONION_DEBUG("GET %c", (char)c);
+  if (c == '\0')                // Never go past the end
+    return 255;
   (*I)++;
+  if (c > 127)
+    return 255;
   return db64[c];
 }
 
@@ -118,9 +122,22 @@ char *onion_base64_decode(const char *orig, int *length) {
 
   if (ol == 0){
     ONION_DEBUG("Empty base64 string.");
+    ret[0] = 0;
     return ret;
   }
 
+  // Ignore trailing whitespace, and count the padding; there may be whitespace around it too.
+  while (*endI == '\n' || *endI == '\r' || *endI == ' ')
+    endI--;
+  int padding = 0;
+  for (I = endI; I > orig && padding < 2; --I){
+    if (*I == '=')
+      padding++;
+    else if (*I != '\n' && *I != '\r' && *I != ' ')
+      break;
+  }
+  ol -= padding;
+
   I = orig;
   char *J = ret;
   while (I < endI){
@@ -130,6 +147,14 @@ char *onion_base64_decode(const char *orig, int *length) {
     const u_int8_t c3 = onion_base64_decode_get_next(&I);
     const u_int8_t c4 = onion_base64_decode_get_next(&I);
 
+    const int nvalid = (c1 != 255) + (c2 != 255) + (c3 != 255) + (c4 != 255);
+    if (nvalid != ((ol < 4) ? ol : 4)) {
+      ONION_DEBUG("Invalid Base64 string. Invalid characters.");
+      onion_low_free(ret);
+      return NULL;
+    }
+    ol -= nvalid;
+
     *J++ = ((c1 & 0x3F) << 2) + ((c2 & 0x30) >> 4);
     *J++ = ((c2 & 0x0F) << 4) + ((c3 & 0x3C) >> 2);
     *J++ = ((c3 & 0x03) << 6) + (c4);
@@ -139,11 +164,7 @@ char *onion_base64_decode(const char *orig, int *length) {
   *J = 0;
 
   // ONION_DEBUG("Two end? %c %c // ll %d, %d", *(I - 2), *(I - 1), max_length,  J - ret);
-  int ll = J - ret;
-  if (*(I - 2) == '=')
-    ll = ll - 2;
-  else if (*(I - 1) == '=')
-    ll = ll - 1;
+  int ll = J - ret - padding;
 
   ret[ll] = 0;
 
-- 
2.43.0


From b527123c2c6d56059184c49b409c390ec2246736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:36 +0000
Subject: [PATCH 029/123] fix: onion_quote wrote past the end of the result
 buffer

---
 src/onion/codecs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 7b9e785..3397a5f 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -322,13 +322,13 @@ int onion_quote(const char *str, char *res, int maxlength) {
   int l = strlen(str);
   int i;
   for (i = 0; i < l; i++) {
-    if (i >= maxlength)
+    if (nl + 1 >= maxlength)    // There must be room for the \0
       break;
     char c = str[i];
     if (is_alnum(c))
       res[nl++] = c;
     else {
-      if (i + 2 >= maxlength)
+      if (nl + 3 >= maxlength)
         break;
 
       res[nl++] = '%';
-- 
2.43.0


From 3ba0eacd10b9c51b57e4a892a9b8cd6cbe2c64cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:36 +0000
Subject: [PATCH 030/123] fix: onion_html_quote_dup crashed on text that needs
 no quoting

---
 src/onion/codecs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 3397a5f..436270e 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -546,7 +546,7 @@ const char *onion_html_quote_dup(const char *str) {
   if (quostr != NULL)
     return quostr;
   else
-    return onion_low_strdup(quostr);
+    return onion_low_strdup(str);
 }
 
 /**
-- 
2.43.0


From 67b4f9caa5e876dd10ba9b810aeaa422543075b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:36 +0000
Subject: [PATCH 031/123] fix: onion_c_quote wrote past the end of the result
 buffer, and changed CR into LF

---
 src/onion/codecs.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 436270e..6222fb6 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -369,6 +369,16 @@ char *onion_c_quote(const char *str, char *ret, int l) {
   *r++ = '"';
   l -= 3;                       // both " at start and end, and \0
   while (*p != '\0') {
+    int need = 1;
+    if (*p == '\n')
+      need = 5;                 // \n"[real newline]"
+    else if (*p == '\r' || *p == '"' || *p == '\\' || *p == '\t')
+      need = 2;
+    else if (*p > 127)
+      need = 4;
+    if (l < need)               // does not fit!
+      break;
+    l -= need;
     if (*p == '\n') {
       *r = '\\';
       r++;
@@ -382,7 +392,7 @@ char *onion_c_quote(const char *str, char *ret, int l) {
     } else if (*p == '\r') {
       *r = '\\';
       r++;
-      *r = 'n';
+      *r = 'r';
     } else if (*p == '"') {
       *r = '\\';
       r++;
@@ -397,10 +407,6 @@ char *onion_c_quote(const char *str, char *ret, int l) {
       *r = 't';
     } else if (*p > 127) {
       int c = *p;
-      if (l < 4) {              // does not fit!
-        *r = '\0';
-        return ret;
-      }
       *r = '\\';
       r++;
       *r = '0' + ((c >> 6) & 0x03);
@@ -413,11 +419,6 @@ char *onion_c_quote(const char *str, char *ret, int l) {
     }
     r++;
     p++;
-    l--;
-    if (l <= 0) {
-      *r = '\0';
-      break;
-    }
   }
   *r++ = '"';
   *r++ = '\0';
-- 
2.43.0


From 4dc1a4eeadb3bfcaee0273ea91a27a29a96837f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:36 +0000
Subject: [PATCH 032/123] fix: JSON reading went past the end of the text on
 unterminated strings and unquoted keys

---
 src/onion/codecs.c | 2 +-
 src/onion/dict.c   | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/onion/codecs.c b/src/onion/codecs.c
index 6222fb6..4644541 100644
--- a/src/onion/codecs.c
+++ b/src/onion/codecs.c
@@ -717,7 +717,7 @@ ssize_t onion_json_unquote_add(onion_block * block, const char *str) {
         continue;
       }
     }
-    if (!eos && !*data) {       // \0, expecting \" as eos
+    if (!*data) {               // \0, in the middle of an escape or expecting \" as eos
       ONION_DEBUG("Expected \" got eof");
       return -1;
     }
diff --git a/src/onion/dict.c b/src/onion/dict.c
index a611717..c688c92 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -771,6 +771,10 @@ static onion_dict *onion_dict_from_json_(const char **_data) {
   onion_block *value = onion_block_new();
   while (*data != '}') {
     // Get Key
+    if (*data != '"') {         // Includes \0
+      ONION_DEBUG("Expected \" got %c", *data);
+      goto error;
+    }
     ssize_t read_bytes = onion_json_unquote_add(key, data);
     if (read_bytes < 0)
       goto error;
-- 
2.43.0


From d08137efb80a1921834b30894e8f9ef15463ef8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:15 +0000
Subject: [PATCH 033/123] fix: reading deeply nested JSON exhausted the stack

---
 src/onion/dict.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index c688c92..acf4cea 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -724,7 +724,10 @@ onion_dict *onion_dict_rget_dict(const onion_dict * dict, const char *key, ...)
   return NULL;
 }
 
-static onion_dict *onion_dict_from_json_(const char **data);
+/// Objects nested deeper than this are not read, as it would exhaust the stack.
+#define ONION_DICT_JSON_MAX_DEPTH 1000
+
+static onion_dict *onion_dict_from_json_(const char **data, int depth);
 
 /**
  * @short Creates a dict from a json
@@ -741,7 +744,7 @@ onion_dict *onion_dict_from_json(const char *data) {
   if (!data)
     return NULL;
   const char *_data[1] = { data };
-  onion_dict *ret = onion_dict_from_json_(_data);
+  onion_dict *ret = onion_dict_from_json_(_data, 0);
   while (is_json_space(*_data[0]))
     ++_data[0];
   if (*_data[0]) {
@@ -754,13 +757,17 @@ onion_dict *onion_dict_from_json(const char *data) {
 
 /// Real dict_from_json, reads until {} matches.
 /// The other checks also that there is nothing after the json data.
-static onion_dict *onion_dict_from_json_(const char **_data) {
+static onion_dict *onion_dict_from_json_(const char **_data, int depth) {
   const char *data = *_data;
   ONION_DEBUG("Parse %s", *_data);
   while (is_json_space(*data))
     ++data;
   if (*data != '{')
     return NULL;
+  if (depth >= ONION_DICT_JSON_MAX_DEPTH) {
+    ONION_DEBUG("JSON nested too deep");
+    return NULL;
+  }
   ++data;
 
   while (is_json_space(*data))
@@ -796,7 +803,7 @@ static onion_dict *onion_dict_from_json_(const char **_data) {
     if (*data == '{') {         // Includes \0
       *_data = data;
 
-      onion_dict *sub = onion_dict_from_json_(_data);
+      onion_dict *sub = onion_dict_from_json_(_data, depth + 1);
       if (!sub) {
         goto error;
       }
-- 
2.43.0


From acc8ae19195103a012f26406a9625c87cc7893ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:23 +0000
Subject: [PATCH 034/123] fix: url groups were lost after a missing optional
 group, and could be hidden by a query parameter

---
 src/onion/url.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/onion/url.c b/src/onion/url.c
index 4d0d643..e3725fe 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -96,10 +96,11 @@ int onion_url_handler(onion_url_data ** dd, onion_request * request,
           tmp[rm->rm_eo - rm->rm_so] = '\0';    // proper finish string
           char tmpn[4];
           snprintf(tmpn, sizeof(tmpn), "%d", i);
-          onion_dict_add(reqheader, tmpn, tmp, OD_DUP_KEY | OD_FREE_VALUE);
+          // Replace, so that the client can not hide the group with a query parameter
+          onion_dict_add(reqheader, tmpn, tmp,
+                         OD_DUP_KEY | OD_FREE_VALUE | OD_REPLACE);
           ONION_DEBUG("Add group %d: %s (%d-%d)", i, tmp, rm->rm_so, rm->rm_eo);
-        } else
-          break;
+        }                       // optional groups may be missing, but followed by others
       }
       onion_request_advance_path(request, match[0].rm_eo);
       ONION_DEBUG0("Ok, regexp match.");
-- 
2.43.0


From 19ebb484821dc82e138102b07e38dc14b792e334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:28 +0000
Subject: [PATCH 035/123] fix: removed sessions stayed valid in the sqlite3
 backend

---
 src/onion/sessions_sqlite3.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/onion/sessions_sqlite3.c b/src/onion/sessions_sqlite3.c
index cf3c1a5..3d68aab 100644
--- a/src/onion/sessions_sqlite3.c
+++ b/src/onion/sessions_sqlite3.c
@@ -41,6 +41,7 @@ typedef struct onion_session_sqlite3_t {
   sqlite3 *db;
   sqlite3_stmt *save;
   sqlite3_stmt *get;
+  sqlite3_stmt *remove;
 #ifdef HAVE_PTHREADS
   pthread_mutex_t mutex;
 #endif
@@ -55,6 +56,7 @@ static void onion_sessions_sqlite3_free(onion_sessions * sessions) {
 #endif
   sqlite3_finalize(p->save);
   sqlite3_finalize(p->get);
+  sqlite3_finalize(p->remove);
   sqlite3_close(p->db);
   onion_low_free(sessions->data);
 
@@ -100,8 +102,30 @@ static onion_dict *onion_sessions_sqlite3_get(onion_sessions * sessions,
   return ret;
 }
 
+static void onion_sessions_sqlite3_remove(onion_sessions * sessions,
+                                          const char *session_id) {
+  onion_session_sqlite3 *p = sessions->data;
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&p->mutex);
+#endif
+  sqlite3_reset(p->remove);
+  if (sqlite3_bind_text(p->remove, 1, session_id, -1, SQLITE_STATIC) !=
+      SQLITE_OK) {
+    ONION_ERROR("Error binding session_id");
+  } else if (sqlite3_step(p->remove) != SQLITE_DONE) {
+    ONION_ERROR("Error removing session");
+  }
+#ifdef HAVE_PTHREADS
+  pthread_mutex_unlock(&p->mutex);
+#endif
+}
+
 void onion_sessions_sqlite3_save(onion_sessions * sessions,
                                  const char *session_id, onion_dict * data) {
+  if (data == NULL) {
+    onion_sessions_sqlite3_remove(sessions, session_id);
+    return;
+  }
   onion_block *bl = onion_dict_to_json(data);
 
   ONION_DEBUG0("Save session %s: %s", session_id, onion_block_data(bl));
@@ -151,6 +175,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   sqlite3 *db;
   sqlite3_stmt *save;
   sqlite3_stmt *get;
+  sqlite3_stmt *remove;
   rc = sqlite3_open(database_filename, &db);
   if (rc) {
     ONION_ERROR("Can't open database: %s", sqlite3_errmsg(db));
@@ -178,6 +203,14 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
     return NULL;
   }
 
+  const char *REMOVE_SQL = "DELETE FROM sessions WHERE id=?";
+  rc = sqlite3_prepare_v2(db, REMOVE_SQL, strlen(REMOVE_SQL), &remove, NULL);
+  if (rc != SQLITE_OK) {
+    ONION_ERROR("Cant prepare statement to remove (%d)", rc);
+    sqlite3_close(db);
+    return NULL;
+  }
+
   onion_sessions *ret = onion_low_malloc(sizeof(onion_sessions));
 
   ret->data = onion_low_malloc(sizeof(onion_session_sqlite3));
@@ -189,6 +222,7 @@ onion_sessions *onion_sessions_sqlite3_new(const char *database_filename) {
   p->db = db;
   p->save = save;
   p->get = get;
+  p->remove = remove;
 #ifdef HAVE_PTHREADS
   pthread_mutex_init(&p->mutex, NULL);
 #endif
-- 
2.43.0


From ae99a92569f5daf3ad880e396783000964dbba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:28 +0000
Subject: [PATCH 036/123] fix: redis sessions could not be removed, and a lost
 redis connection crashed the server

---
 src/onion/sessions_redis.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/onion/sessions_redis.c b/src/onion/sessions_redis.c
index 6b2bf9b..396450a 100644
--- a/src/onion/sessions_redis.c
+++ b/src/onion/sessions_redis.c
@@ -74,9 +74,10 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
       redisCommand(p->context, "HEXISTS SESSIONS %b", session_id,
                    strlen(session_id));
 
-  if (reply->type != REDIS_REPLY_INTEGER) {
+  if (!reply || reply->type != REDIS_REPLY_INTEGER) {
     ONION_ERROR("Error getting session_id");
-    freeReplyObject(reply);
+    if (reply)
+      freeReplyObject(reply);
     goto exit;
   } else {
     if (reply->integer == 1) {
@@ -85,9 +86,10 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
           redisCommand(p->context, "HGET SESSIONS %b", session_id,
                        strlen(session_id));
 
-      if (reply->type != REDIS_REPLY_STRING) {
+      if (!reply || reply->type != REDIS_REPLY_STRING) {
         ONION_ERROR("Error loading session.");
-        freeReplyObject(reply);
+        if (reply)
+          freeReplyObject(reply);
         goto exit;
       } else {
         ret = onion_dict_from_json(reply->str);
@@ -109,33 +111,32 @@ static onion_dict *onion_sessions_redis_get(onion_sessions * sessions,
 
 void onion_sessions_redis_save(onion_sessions * sessions,
                                const char *session_id, onion_dict * data) {
-  onion_block *bl = onion_dict_to_json(data);
-
-  ONION_DEBUG0("Save session %s: %s", session_id, onion_block_data(bl));
-
   onion_session_redis *p = sessions->data;
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
 #endif
 
-  if (p == NULL) {
+  if (data == NULL) {
     redisReply *reply = redisCommand(p->context, "HDEL SESSIONS %b", session_id,
                                      strlen(session_id));
 
-    if (reply->type != REDIS_REPLY_INTEGER) {
+    if (!reply || reply->type != REDIS_REPLY_INTEGER) {
       ONION_ERROR("Error removing session");
     }
-    freeReplyObject(reply);
+    if (reply)
+      freeReplyObject(reply);
   } else {
+    onion_block *bl = onion_dict_to_json(data);
     const char *json = onion_block_data(bl);
     redisReply *reply =
         redisCommand(p->context, "HSET SESSIONS %b %b", session_id,
                      strlen(session_id), json, strlen(json));
 
-    if (reply->type != REDIS_REPLY_INTEGER) {
+    if (!reply || reply->type != REDIS_REPLY_INTEGER) {
       ONION_ERROR("Error saving session");
     }
-    freeReplyObject(reply);
+    if (reply)
+      freeReplyObject(reply);
     onion_block_free(bl);
   }
 
-- 
2.43.0


From 6106aa525bb110ab02f574958f23bff85dcaeb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:28 +0000
Subject: [PATCH 037/123] fix: the memory session store was used from several
 threads without locking

---
 src/onion/sessions_mem.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/onion/sessions_mem.c b/src/onion/sessions_mem.c
index f8a31ce..87c0260 100644
--- a/src/onion/sessions_mem.c
+++ b/src/onion/sessions_mem.c
@@ -35,25 +35,30 @@ char *last_data = NULL;
 static onion_dict *onion_sessions_mem_get(onion_sessions * sessions,
                                           const char *session_id) {
   ONION_DEBUG0("Accessing session '%s'", session_id);
+  onion_dict_lock_read(sessions->data);
   onion_dict *sess = onion_dict_get_dict(sessions->data, session_id);
+  if (sess)
+    sess = onion_dict_dup(sess);
+  onion_dict_unlock(sessions->data);
   if (!sess) {
     ONION_DEBUG0("Unknown session '%s'.", session_id);
-    return NULL;
   }
-  return onion_dict_dup(sess);
+  return sess;
 }
 
 static void onion_sessions_mem_save(onion_sessions * sessions,
                                     const char *session_id, onion_dict * data) {
+  onion_dict_lock_write(sessions->data);
   if (data == NULL) {
     data = onion_dict_get_dict(sessions->data, session_id);
     if (data) {
       onion_dict_remove(sessions->data, session_id);
     }
-    return;
+  } else {
+    onion_dict_add(sessions->data, session_id, onion_dict_dup(data),
+                   OD_DUP_KEY | OD_FREE_VALUE | OD_DICT | OD_REPLACE);
   }
-  onion_dict_add(sessions->data, session_id, onion_dict_dup(data),
-                 OD_DUP_KEY | OD_FREE_VALUE | OD_DICT | OD_REPLACE);
+  onion_dict_unlock(sessions->data);
 }
 
 static void onion_sessions_mem_free(onion_sessions * sessions) {
-- 
2.43.0


From bd45273eb37f2c5625f1b94fb08ed91c714c68d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:05 +0000
Subject: [PATCH 038/123] fix: the emptiness of a session shared with other
 requests was checked without locking it

---
 src/onion/request.c  | 14 ++++++++++++--
 src/onion/response.c |  3 ++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/onion/request.c b/src/onion/request.c
index 6751106..2bb9931 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -103,6 +103,16 @@ onion_request *onion_request_new_from_socket(onion_listen_point * con, int fd,
   return req;
 }
 
+/// Whether the session has no data. Other requests may be using it now, as sessions are shared.
+static int session_is_empty(onion_dict * session) {
+  if (!session)
+    return 1;
+  onion_dict_lock_read(session);
+  int ret = onion_dict_count(session) == 0;
+  onion_dict_unlock(session);
+  return ret;
+}
+
 /**
  * @short Helper to remove temporal files from req->files
  * @memberof onion_request_t
@@ -136,7 +146,7 @@ void onion_request_free(onion_request * req) {
     onion_dict_free(req->FILES);
   }
   if (req->session) {
-    if (onion_dict_count(req->session) == 0)
+    if (session_is_empty(req->session))
       onion_request_session_free(req);
     else {
       onion_sessions_save(req->connection.listen_point->server->sessions,
@@ -198,7 +208,7 @@ void onion_request_clean(onion_request * req) {
     req->FILES = NULL;
   }
   if (req->session_id) {
-    if (onion_dict_count(req->session) == 0) {
+    if (session_is_empty(req->session)) {
       onion_request_session_free(req);
     } else {
       onion_sessions_save(req->connection.listen_point->server->sessions,
diff --git a/src/onion/response.c b/src/onion/response.c
index 4b5d342..ea24bd8 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -343,7 +343,8 @@ int onion_response_write_headers(onion_response * res) {
 
   onion_dict_preorder(res->headers, write_header, res);
 
-  if (res->request->session_id && (onion_dict_count(res->request->session) > 0))        // I have session with something, tell user
+  if (res->request->session_id && res->request->session
+      && res->request->session->root)        // I have session with something, tell user
     onion_response_printf(res, "Set-Cookie: sessionid=%s; httponly; Path=/\r\n",
                           res->request->session_id);
 
-- 
2.43.0


From bc7384515d93775367715f40ba7413c5004af0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:40 +0000
Subject: [PATCH 039/123] fix: handlers got a NULL session dictionary when the
 session backend failed

---
 src/onion/request.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onion/request.c b/src/onion/request.c
index 2bb9931..55fb18c 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -467,6 +467,10 @@ onion_dict *onion_request_get_session_dict(onion_request * req) {
       req->session =
           onion_sessions_get(req->connection.listen_point->server->sessions,
                              req->session_id);
+      if (!req->session) {      // The backend could not store it. Lasts for this request.
+        ONION_ERROR("Could not create the session");
+        req->session = onion_dict_new();
+      }
     }
   }
   return req->session;
-- 
2.43.0


From 3154501934d36fb39ec10654d80e30f398b13928 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Tue, 17 Nov 2026 23:50:23 +0000
Subject: [PATCH 040/123] fix: connection timeouts were rounded to seconds,
 lost under load and set without locking

A timeout under a second closed at once, a negative one (no timeout) closed
at the next tick, and two timeouts armed in the same second could be missed
as the check was throttled by a global.
---
 src/onion/poller.c | 115 ++++++++++++++++++++-------------------------
 src/onion/poller.h |   2 +-
 2 files changed, 52 insertions(+), 65 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index 39d5678..e8a9ee3 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -67,7 +67,7 @@ struct onion_poller_t {
   int fd;
   int eventfd;                  ///< fd to signal internal changes on poller.
   int timerfd;                  ///< fd to set up timeouts
-  time_t current_timeout_limit; ///< Currently set limit in seconds
+  time_t current_timeout_limit; ///< Currently set limit in milliseconds
 
   int n;
   char stop;
@@ -91,11 +91,14 @@ struct onion_poller_slot_t {
   void *shutdown_data;
 
   time_t timeout;
-  time_t timeout_limit;         ///< Limit in seconds for use with time function.
+  time_t timeout_limit;         ///< Limit in milliseconds, as onion_time. Once added, use with poller mutex locked.
 
   onion_poller_slot *next;
 };
 
+/// Limit of the slots that never timeout
+#define NO_TIMEOUT_LIMIT LONG_MAX
+
 // Max number of polls, normally just 1024 as set by `ulimit -n` (fd count).
 static const int MAX_SLOTS = 1000000;
 
@@ -138,12 +141,12 @@ static void onion_poller_static_deinit() {
   onion_low_free(onion_poller_static.slots);
 }
 
-/// Wrapper around clock_gettime(CLOCK_MONOTONIC_RAW, &t)
-/// It returns an unspecefified monotonic time in seconds. used for intervals.
+/// Wrapper around clock_gettime(CLOCK_MONOTONIC, &t)
+/// It returns an unspecefified monotonic time in milliseconds. used for intervals.
 static time_t onion_time() {
   struct timespec t;
-  clock_gettime(CLOCK_MONOTONIC_RAW, &t);
-  return t.tv_sec;
+  clock_gettime(CLOCK_MONOTONIC, &t);
+  return t.tv_sec * 1000 + t.tv_nsec / 1000000;
 }
 
 /**
@@ -170,7 +173,7 @@ onion_poller_slot *onion_poller_slot_new(int fd, int (*f) (void *), void *data)
   el->f = f;
   el->data = data;
   el->timeout = -1;
-  el->timeout_limit = INT_MAX;
+  el->timeout_limit = NO_TIMEOUT_LIMIT;
   el->type = EPOLLIN | EPOLLHUP | EPOLLONESHOT | EPOLLHUP;
 
   return el;
@@ -207,17 +210,15 @@ void onion_poller_slot_set_shutdown(onion_poller_slot * el, void (*sd) (void *),
  * @short Sets the timeout for the slot
  * @ingroup poller
  *
- * The timeout is passed in ms, but due to current implementation it is rounded to seconds. The interface stays, and hopefully
- * in the future the behaviour will change.
  * @memberof onion_poller_slot_t
  *
  * @param el Slot to modify
- * @param timeout Time in milliseconds that this file can be waiting.
+ * @param timeout Time in milliseconds that this file can be waiting, or <0 if forever.
  */
 void onion_poller_slot_set_timeout(onion_poller_slot * el, int timeout) {
-  el->timeout = timeout / 1000; // I dont have that resolution.
-  el->timeout_limit = onion_time() + el->timeout;
-  ONION_DEBUG0("Set timeout to %d, %d s", el->timeout_limit, el->timeout);
+  el->timeout = timeout;
+  el->timeout_limit = (timeout < 0) ? NO_TIMEOUT_LIMIT : onion_time() + timeout;
+  ONION_DEBUG0("Set timeout to %d, %d ms", el->timeout_limit, el->timeout);
 }
 
 /// Sets the type of the poller
@@ -239,16 +240,20 @@ static int onion_poller_stop_helper(void *p) {
   return 1;
 }
 
-static time_t onion_poller_last_time = 0;
-
-static int onion_poller_timer(void *p_);
+/// Next tick will be at that limit. Needs p->mutex locked.
+static void onion_poller_timer_rearm(onion_poller * p, time_t timelimit) {
+  time_t ms = timelimit - onion_time();
+  if (ms < 1)                   // 0 would disarm it
+    ms = 1;
+  p->current_timeout_limit = timelimit;
+  struct itimerspec next = { {0, 0}, {ms / 1000, (ms % 1000) * 1000000} };
+  timerfd_settime(p->timerfd, 0, &next, NULL);
+}
 
+/// Ensures there is a tick at that limit, or before. Needs p->mutex locked.
 static void onion_poller_timer_check(onion_poller * p, time_t timelimit) {
-  // If maybe timeout limit (p->current_timeout_limit is used atomically)
-  if (timelimit < p->current_timeout_limit) {
-    // Recalculate with proper mutexes.
-    onion_poller_timer(p);
-  }
+  if (timelimit < p->current_timeout_limit)
+    onion_poller_timer_rearm(p, timelimit);
 }
 
 static int onion_poller_timer(void *p_) {
@@ -261,45 +266,24 @@ static int onion_poller_timer(void *p_) {
   //}
 
   time_t ctime = onion_time();
-  time_t next_timeout = ctime + (24 * 60 * 60); // At least once per day
+  time_t next_timeout = ctime + (24 * 60 * 60 * 1000);  // At least once per day
 
-  // Do this only once per second max.
-  if (ctime != onion_poller_last_time) {
-    onion_poller_last_time = ctime;
-    pthread_mutex_lock(&p->mutex);
-    onion_poller_slot *next = p->head;
-    while (next) {
-      onion_poller_slot *cur = next;
-      next = next->next;
-      if (cur->timeout_limit <= ctime) {
-        ONION_DEBUG("Timeout on %d, was %d (ctime %d)", cur->fd,
-                    cur->timeout_limit, ctime);
-        cur->timeout_limit = INT_MAX;
-        shutdown(cur->fd, SHUT_RD);
-      } else if (cur->timeout_limit < next_timeout) {
-        next_timeout = cur->timeout_limit;
-      }
+  pthread_mutex_lock(&p->mutex);
+  onion_poller_slot *next = p->head;
+  while (next) {
+    onion_poller_slot *cur = next;
+    next = next->next;
+    if (cur->timeout_limit <= ctime) {
+      ONION_DEBUG("Timeout on %d, was %d (ctime %d)", cur->fd,
+                  cur->timeout_limit, ctime);
+      cur->timeout_limit = NO_TIMEOUT_LIMIT;
+      shutdown(cur->fd, SHUT_RD);
+    } else if (cur->timeout_limit < next_timeout) {
+      next_timeout = cur->timeout_limit;
     }
-    pthread_mutex_unlock(&p->mutex);
   }
-  // Atomic store.
-  // Try until set if <= next_timeout.
-  time_t origval;
-  time_t oldval;
-  do {                          // Spin until change is acceptable.
-    origval = p->current_timeout_limit;
-    oldval =
-        __sync_val_compare_and_swap(&p->current_timeout_limit, origval,
-                                    next_timeout);
-  } while (                     // Repeat if
-            origval != oldval   // different, so not changed because somebody else changed the value
-            && oldval > next_timeout    // and current timer is for later than my timeout
-      );                        // Ths is when another thread changed if for a later timeout, so I must insist on mine
-
-  //ONION_DEBUG("Next timeout in %d seconds", p->current_timeout_limit - ctime);
-  // rearm
-  struct itimerspec next = { {0, 0}, {next_timeout - ctime, 0} };
-  timerfd_settime(p->timerfd, 0, &next, NULL);
+  onion_poller_timer_rearm(p, next_timeout);
+  pthread_mutex_unlock(&p->mutex);
 
   return 1;
 }
@@ -410,6 +394,7 @@ int onion_poller_add(onion_poller * poller, onion_poller_slot * el) {
     poller->head->next = el;
     poller->n++;
   }
+  onion_poller_timer_check(poller, el->timeout_limit);  // Not later, once at epoll other thread may have freed it.
   pthread_mutex_unlock(&poller->mutex);
 
   struct epoll_event ev;
@@ -420,7 +405,6 @@ int onion_poller_add(onion_poller * poller, onion_poller_slot * el) {
     ONION_ERROR("Error add descriptor to listen to. %s", strerror(errno));
     return 1;
   }
-  onion_poller_timer_check(poller, el->timeout_limit);
 
   return 1;
 }
@@ -480,13 +464,12 @@ int onion_poller_remove(onion_poller * poller, int fd) {
  * This might be used for long polling, removing the default deleter.
  */
 onion_poller_slot *onion_poller_get(onion_poller * poller, int fd) {
+  pthread_mutex_lock(&poller->mutex);
   onion_poller_slot *next = poller->head;
-  while (next) {
-    if (next->fd == fd)
-      return next;
+  while (next && next->fd != fd)
     next = next->next;
-  }
-  return NULL;
+  pthread_mutex_unlock(&poller->mutex);
+  return next;
 }
 
 // Max of events per loop. If not al consumed for next, so no prob.  right number uses less memory, and makes less calls.
@@ -546,7 +529,9 @@ void onion_poller_poll(onion_poller * p) {
       if (event[i].events & (EPOLLRDHUP | EPOLLHUP)) {
         n = -1;
       } else {                  // I also take care of the timeout, no timeout when on the handler, it should handle it itself.
-        el->timeout_limit = INT_MAX;
+        pthread_mutex_lock(&p->mutex);
+        el->timeout_limit = NO_TIMEOUT_LIMIT;
+        pthread_mutex_unlock(&p->mutex);
 
 #ifdef __DEBUG0__
         char **bs = backtrace_symbols((void *const *)&el->f, 1);
@@ -557,8 +542,10 @@ void onion_poller_poll(onion_poller * p) {
         n = el->f(el->data);
 
         if (el->timeout > 0) {
+          pthread_mutex_lock(&p->mutex);
           el->timeout_limit = onion_time() + el->timeout;
           onion_poller_timer_check(p, el->timeout_limit);
+          pthread_mutex_unlock(&p->mutex);
         }
       }
       if (n < 0) {
diff --git a/src/onion/poller.h b/src/onion/poller.h
index 2e38f0c..29effd7 100644
--- a/src/onion/poller.h
+++ b/src/onion/poller.h
@@ -48,7 +48,7 @@ extern "C" {
 /// Sets the shutdown function for this poller slot
   void onion_poller_slot_set_shutdown(onion_poller_slot * el,
                                       void (*shutdown) (void *), void *data);
-/// Sets the timeout for this slot. Current implementation takes ms, but then it rounds to seconds.
+/// Sets the timeout for this slot, in ms. Negative is no timeout.
   void onion_poller_slot_set_timeout(onion_poller_slot * el, int timeout_ms);
 /// Sets the polling type: read/write/other. O_POLL_READ | O_POLL_WRITE | O_POLL_OTHER
   void onion_poller_slot_set_type(onion_poller_slot * el,
-- 
2.43.0


From f4b188cf430fd059acfdbe7a0ac6f48371d3006b Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Tue, 17 Nov 2026 23:50:23 +0000
Subject: [PATCH 041/123] fix: a stop that came before the threads started
 polling was forgotten

onion_poller_poll cleared the stop flag on entry, so that stopping a server
that was just starting waited forever; a stopped poller could not poll again
as the eventfd was still signaled.
---
 src/onion/poller.c          | 78 ++++++++++++++++++++-----------------
 src/onion/poller.h          |  2 +
 src/onion/poller_libev.c    |  4 ++
 src/onion/poller_libevent.c |  4 ++
 4 files changed, 52 insertions(+), 36 deletions(-)

diff --git a/src/onion/poller.c b/src/onion/poller.c
index e8a9ee3..d9b4af9 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -22,6 +22,7 @@
 */
 
 #include <errno.h>
+#include <stdint.h>
 #include <sys/epoll.h>
 #include <string.h>
 #include <stdio.h>
@@ -73,8 +74,9 @@ struct onion_poller_t {
   char stop;
 #ifdef HAVE_PTHREADS
   pthread_mutex_t mutex;
-  int npollers;
 #endif
+  int npollers;                 ///< Threads polling
+  int announced;                ///< Threads that will be polling soon
 
   onion_poller_slot *head;
 };
@@ -235,8 +237,8 @@ void onion_poller_slot_set_type(onion_poller_slot * el,
   ONION_DEBUG0("Setting type to %d, %d", el->fd, el->type);
 }
 
+/// Awakes the pollers one after another, so they check p->stop. Flushed when the last leaves.
 static int onion_poller_stop_helper(void *p) {
-  onion_poller_stop(p);
   return 1;
 }
 
@@ -318,7 +320,6 @@ onion_poller *onion_poller_new(int n) {
 
 #ifdef HAVE_PTHREADS
   ONION_DEBUG("Init thread stuff for poll. Eventfd at %d", p->eventfd);
-  p->npollers = 0;
   pthread_mutexattr_t attr;
   pthread_mutexattr_init(&attr);
   pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_RECURSIVE);
@@ -475,6 +476,34 @@ onion_poller_slot *onion_poller_get(onion_poller * poller, int fd) {
 // Max of events per loop. If not al consumed for next, so no prob.  right number uses less memory, and makes less calls.
 static size_t onion_poller_max_events = 1;
 
+/**
+ * @short Announces that n threads will call onion_poller_poll
+ * @memberof onion_poller_t
+ * @ingroup poller
+ *
+ * From now on an onion_poller_stop stops them all, even those that did not start to poll yet. Else they would
+ * forget about that stop.
+ */
+void onion_poller_announce(onion_poller * p, int n) {
+  pthread_mutex_lock(&p->mutex);
+  if (p->npollers + p->announced == 0)
+    p->stop = 0;
+  p->announced += n;
+  pthread_mutex_unlock(&p->mutex);
+}
+
+/// One poller less. The last one leaves all ready for the next poll.
+static void onion_poller_leave(onion_poller * p) {
+  pthread_mutex_lock(&p->mutex);
+  p->npollers--;
+  ONION_DEBUG0("Npollers %d", p->npollers);
+  if (p->npollers + p->announced == 0) {
+    uint64_t data;
+    int __attribute__ ((unused)) r = read(p->eventfd, &data, sizeof(data));     // Flush eventfd data, discard data
+  }
+  pthread_mutex_unlock(&p->mutex);
+}
+
 /**
  * @short Do the event polling.
  * @memberof onion_poller_t
@@ -487,15 +516,14 @@ static size_t onion_poller_max_events = 1;
 void onion_poller_poll(onion_poller * p) {
   struct epoll_event event[onion_poller_max_events];
   ONION_DEBUG("Start polling");
-#ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
+  if (p->announced > 0)
+    p->announced--;
+  else if (p->npollers == 0)
+    p->stop = 0;
   p->npollers++;
-  p->stop = 0;
   ONION_DEBUG0("Npollers %d. %d listenings %p", p->npollers, p->n, p->head);
   pthread_mutex_unlock(&p->mutex);
-#else
-  p->stop = 0;
-#endif
 #ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
   char stop = !p->stop && p->head;
@@ -510,11 +538,7 @@ void onion_poller_poll(onion_poller * p) {
       //ONION_DEBUG("Some error happened"); // Also spurious wakeups... gdb is to blame sometimes or any other.
       if (p->fd < 0 || !p->head) {
         ONION_DEBUG("Finishing the epoll as finished: %s", strerror(errno));
-#ifdef HAVE_PTHREADS
-        pthread_mutex_lock(&p->mutex);
-        p->npollers--;
-        pthread_mutex_unlock(&p->mutex);
-#endif
+        onion_poller_leave(p);
         return;
       }
     }
@@ -570,12 +594,7 @@ void onion_poller_poll(onion_poller * p) {
 #endif
   }
   ONION_DEBUG("Finished polling fds");
-#ifdef HAVE_PTHREADS
-  pthread_mutex_lock(&p->mutex);
-  p->npollers--;
-  ONION_DEBUG0("Npollers %d", p->npollers);
-  pthread_mutex_unlock(&p->mutex);
-#endif
+  onion_poller_leave(p);
 }
 
 /**
@@ -585,30 +604,17 @@ void onion_poller_poll(onion_poller * p) {
  */
 void onion_poller_stop(onion_poller * p) {
   ONION_DEBUG("Stopping poller");
-#ifdef HAVE_PTHREADS
   pthread_mutex_lock(&p->mutex);
   p->stop = 1;
-  pthread_mutex_unlock(&p->mutex);
-#else
-  p->stop = 1;
-#endif
-
-  char data[8] = { 0, 0, 0, 0, 0, 0, 0, 1 };
-  int __attribute__ ((unused)) r = read(p->eventfd, data, 8);   // Flush eventfd data, discard data
-
-#ifdef HAVE_PTHREADS
-  pthread_mutex_lock(&p->mutex);
-  int n = p->npollers;
-  pthread_mutex_unlock(&p->mutex);
-
-  if (n > 0) {
-    int w = write(p->eventfd, data, 8); // Tell another thread to exit
+  if (p->npollers + p->announced > 0) {
+    uint64_t data = 1;
+    int w = write(p->eventfd, &data, sizeof(data));     // Tell the pollers to exit
     if (w < 0) {
       ONION_ERROR("Error signaling poller to stop!");
     }
   } else
     ONION_DEBUG("Poller stopped");
-#endif
+  pthread_mutex_unlock(&p->mutex);
 }
 
 /**
diff --git a/src/onion/poller.h b/src/onion/poller.h
index 29effd7..7b52594 100644
--- a/src/onion/poller.h
+++ b/src/onion/poller.h
@@ -70,6 +70,8 @@ extern "C" {
 /// Removes a fd from the poller
   int onion_poller_remove(onion_poller * poller, int fd);
 
+/// Announces that n threads will call onion_poller_poll, so that a stop from now on stops them.
+  void onion_poller_announce(onion_poller *, int n);
 /// Do the polling. If on several threads, this is done in every thread.
   void onion_poller_poll(onion_poller *);
 /// Stops the polling. This only marks the flag, and should be cancelled with pthread_cancel.
diff --git a/src/onion/poller_libev.c b/src/onion/poller_libev.c
index 8884c75..65ccc3b 100644
--- a/src/onion/poller_libev.c
+++ b/src/onion/poller_libev.c
@@ -154,6 +154,10 @@ onion_poller_slot *onion_poller_get(onion_poller * poller, int fd) {
   return NULL;
 }
 
+/// Not needed here
+void onion_poller_announce(onion_poller * poller, int n) {
+}
+
 /// Do the polling. If on several threads, this is done in every thread.
 void onion_poller_poll(onion_poller * poller) {
   ev_default_fork();
diff --git a/src/onion/poller_libevent.c b/src/onion/poller_libevent.c
index f379289..b681a2a 100644
--- a/src/onion/poller_libevent.c
+++ b/src/onion/poller_libevent.c
@@ -139,6 +139,10 @@ onion_poller_slot *onion_poller_get(onion_poller * poller, int fd) {
   return NULL;
 }
 
+/// Not needed here
+void onion_poller_announce(onion_poller * poller, int n) {
+}
+
 /// Do the polling. If on several threads, this is done in every thread.
 void onion_poller_poll(onion_poller * poller) {
   poller->stop = 0;
-- 
2.43.0


From 72ebea174a7d56524137eacf2fff27baa36676c7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Tue, 17 Nov 2026 23:50:23 +0000
Subject: [PATCH 042/123] fix: listening could not be stopped from a handler,
 or started again, and closed sockets in use

onion_listen_stop closed the listen sockets while other threads accepted on
them, joined the detached listener from itself, and never again after the
first time. A detached listen reported success before binding.
---
 src/onion/onion.c | 192 ++++++++++++++++++++++++++++++----------------
 1 file changed, 125 insertions(+), 67 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 279fd18..06b170d 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -169,6 +169,7 @@ onion_url_add_url(url, ...); // Nesting
 
 static int onion_default_error(void *handler, onion_request * req,
                                onion_response * res);
+static void onion_listen_loop(onion * o);
 // Import it here as I need it to know if we have a HTTP port.
 ssize_t onion_http_write(onion_request * req, const char *data, size_t len);
 #ifdef HAVE_GNUTLS
@@ -179,6 +180,17 @@ ssize_t onion_https_write(onion_request * req, const char *data, size_t len);
 #define SOCK_CLOEXEC 0
 #endif
 
+#ifdef HAVE_PTHREADS
+/// Which onion is this thread working for, as listener or poller
+static __thread onion *onion_current = NULL;
+
+/// Waits for the detached listen thread to finish. Not possible from the server own threads.
+static void onion_join_detached(onion * o) {
+  if (onion_current != o && __sync_fetch_and_and(&o->flags, ~O_DETACHED) & O_DETACHED)
+    onion_low_pthread_join(o->listen_thread, NULL);
+}
+#endif
+
 /// Used by onion_sigterm handler. Only takes into account last onion.
 static onion *last_onion = NULL;
 static void shutdown_server(int _);
@@ -259,8 +271,10 @@ onion *onion_new(int flags) {
 void onion_free(onion * onion) {
   ONION_DEBUG("Onion free");
 
-  if (onion->flags & O_LISTENING)
-    onion_listen_stop(onion);
+  onion_listen_stop(onion);
+#ifdef HAVE_PTHREADS
+  onion_join_detached(onion);
+#endif
 
   if (onion->poller)
     onion_poller_free(onion->poller);
@@ -383,7 +397,7 @@ static void *onion_listen_start(void *data) {
   }
 #endif /*__USE_GNU */
 #endif /*__DEBUG__*/
-  onion_listen(o);
+  onion_listen_loop(o);
   return NULL;
 }
 
@@ -396,7 +410,7 @@ long onion_count_listen_threads(void) {
 }
 
 static void *onion_poller_poll_start(void *data) {
-  onion_poller *poller = data;
+  onion *o = data;
   pthread_mutex_lock(&count_mtx);
   poller_counter++;
 #ifdef __DEBUG__
@@ -416,7 +430,8 @@ static void *onion_poller_poll_start(void *data) {
   }
 #endif /*__USE_GNU */
 #endif /*__DEBUG__*/
-  onion_poller_poll(poller);
+  onion_current = o;
+  onion_poller_poll(o->poller);
   return NULL;
 }
 
@@ -429,29 +444,22 @@ long onion_count_poller_threads(void) {
 }
 #endif
 
-/**
- * @short Performs the listening with the given mode
- * @ingroup onion
- *
- * This is the main loop for the onion server.
- *
- * It initiates the listening on all the selected ports and addresses.
- *
- * @returns !=0 if there is any error. It returns actualy errno from the network operations. See socket for more information.
- */
-int onion_listen(onion * o) {
+/// How many threads will do the polling
+static int onion_npollers(onion * o) {
 #ifdef HAVE_PTHREADS
-  if (!(o->flags & O_DETACHED) && (o->flags & O_DETACH_LISTEN)) {       // Must detach and return
-    o->flags |= O_DETACHED;
-    int errcode =
-        onion_low_pthread_create(&o->listen_thread, NULL, onion_listen_start,
-                                 o);
-    if (errcode != 0)
-      return errcode;
-    return 0;
-  }
+  if ((o->flags & O_THREADED) && o->nthreads > 1)
+    return o->nthreads;
 #endif
+  return 1;
+}
 
+/// Whether nobody asked to stop
+static int onion_is_listening(onion * o) {
+  return __sync_fetch_and_or(&o->flags, 0) & O_LISTENING;
+}
+
+/// Starts listening at all listen points. Returns !=0 if none could.
+static int onion_listen_begin(onion * o) {
   if (!o->listen_points) {
     onion_add_listen_point(o, NULL, NULL, onion_http_new());
     ONION_DEBUG("Created default HTTP listen port");
@@ -471,7 +479,69 @@ int onion_listen(onion * o) {
     return 1;
   }
 
-  o->flags |= O_LISTENING;
+  if (!(o->flags & O_ONE))      // From now on it may be stopped
+    onion_poller_announce(o->poller, onion_npollers(o));
+  __sync_fetch_and_or(&o->flags, O_LISTENING);
+  return 0;
+}
+
+/// Closes all listen points
+static void onion_listen_end(onion * o) {
+  onion_listen_point **lp = o->listen_points;
+  while (*lp) {
+    if ((*lp)->listenfd >= 0) {
+      if (!(o->flags & O_ONE)) {
+        ONION_DEBUG("Removing %d from poller", (*lp)->listenfd);
+        onion_poller_remove(o->poller, (*lp)->listenfd);
+      }
+      onion_listen_point_listen_stop(*lp);
+    }
+    lp++;
+  }
+  __sync_fetch_and_and(&o->flags, ~O_LISTENING);
+  shutdown_server_first_call = true;    // Mark as listen_stop/shutdown worked.
+}
+
+/**
+ * @short Performs the listening with the given mode
+ * @ingroup onion
+ *
+ * This is the main loop for the onion server.
+ *
+ * It initiates the listening on all the selected ports and addresses.
+ *
+ * @returns !=0 if there is any error. It returns actualy errno from the network operations. See socket for more information.
+ */
+int onion_listen(onion * o) {
+#ifdef HAVE_PTHREADS
+  if (o->flags & O_DETACH_LISTEN) {     // Must detach and return
+    onion_join_detached(o);
+    int errcode = onion_listen_begin(o);
+    if (errcode != 0)
+      return errcode;
+    __sync_fetch_and_or(&o->flags, O_DETACHED);
+    errcode =
+        onion_low_pthread_create(&o->listen_thread, NULL, onion_listen_start,
+                                 o);
+    if (errcode != 0) {
+      __sync_fetch_and_and(&o->flags, ~O_DETACHED);
+      onion_listen_end(o);
+    }
+    return errcode;
+  }
+#endif
+  int ret = onion_listen_begin(o);
+  if (ret == 0)
+    onion_listen_loop(o);
+  return ret;
+}
+
+/// Accepts and processes the requests until stopped.
+static void onion_listen_loop(onion * o) {
+#ifdef HAVE_PTHREADS
+  onion *prev_onion = onion_current;
+  onion_current = o;
+#endif
 
   if (o->flags & O_ONE) {
     onion_listen_point **listen_points = o->listen_points;
@@ -493,17 +563,21 @@ int onion_listen(onion * o) {
       ONION_DEBUG("End of request %p", req);
       onion_request_free(req);
       //req->connection.listen_point->close(req);
-    } while (((o->flags & O_ONE_LOOP) == O_ONE_LOOP) && op->listenfd > 0);
+    } while (((o->flags & O_ONE_LOOP) == O_ONE_LOOP) && onion_is_listening(o));
   } else {
     onion_listen_point **listen_points = o->listen_points;
     while (*listen_points) {
       onion_listen_point *p = *listen_points;
-      ONION_DEBUG("Adding listen point fd %d to poller", p->listenfd);
-      onion_poller_slot *slot =
-          onion_poller_slot_new(p->listenfd, (void *)onion_listen_point_accept,
-                                p);
-      onion_poller_slot_set_type(slot, O_POLL_ALL);
-      onion_poller_add(o->poller, slot);
+      if (p->listenfd >= 0) {
+        ONION_DEBUG("Adding listen point fd %d to poller", p->listenfd);
+        onion_poller_slot *slot =
+            onion_poller_slot_new(p->listenfd,
+                                  (void *)onion_listen_point_accept, p);
+        if (slot) {
+          onion_poller_slot_set_type(slot, O_POLL_ALL);
+          onion_poller_add(o->poller, slot);
+        }
+      }
       listen_points++;
     }
 
@@ -511,38 +585,32 @@ int onion_listen(onion * o) {
     ONION_DEBUG("Start polling / listening %p, %p, %p", o->listen_points,
                 *o->listen_points, *(o->listen_points + 1));
     if (o->flags & O_THREADED) {
-      o->threads = onion_low_malloc(sizeof(pthread_t) * (o->nthreads - 1));
+      int nthreads = onion_npollers(o) - 1;
+      o->threads = onion_low_malloc(sizeof(pthread_t) * (nthreads + 1));
       int i;
-      for (i = 0; i < o->nthreads - 1; i++) {
+      for (i = 0; i < nthreads; i++) {
         onion_low_pthread_create(&o->threads[i], NULL, onion_poller_poll_start,
-                                 o->poller);
+                                 o);
       }
 
       // Here is where it waits.. but eventually it will exit at onion_listen_stop
       onion_poller_poll(o->poller);
       ONION_DEBUG("Closing onion_listen");
 
-      for (i = 0; i < o->nthreads - 1; i++) {
+      for (i = 0; i < nthreads; i++) {
         onion_low_pthread_join(o->threads[i], NULL);
       }
+      onion_low_free(o->threads);
+      o->threads = NULL;
     } else
 #endif
       onion_poller_poll(o->poller);
-
-    listen_points = o->listen_points;
-    while (*listen_points) {
-      onion_listen_point *p = *listen_points;
-      if (p->listenfd > 0) {
-        ONION_DEBUG("Removing %d from poller", p->listenfd);
-        onion_poller_remove(o->poller, p->listenfd);
-      }
-      listen_points++;
-    }
   }
 
-  o->flags = o->flags & ~O_LISTENING;
-  shutdown_server_first_call = true;    // Mark as listen_stop/shutdown worked.
-  return 0;
+  onion_listen_end(o);
+#ifdef HAVE_PTHREADS
+  onion_current = prev_onion;
+#endif
 }
 
 /**
@@ -554,23 +622,15 @@ int onion_listen(onion * o) {
  * If there is any pending connection, it can finish if onion not freed before.
  */
 void onion_listen_stop(onion * server) {
-#ifdef HAVE_PTHREADS
-    pthread_mutex_lock(&server->mutex);
   /// Not listening
-    if ((server->flags & O_LISTENING) == 0) {
-      pthread_mutex_unlock(&server->mutex);
+  if (!(__sync_fetch_and_and(&server->flags, ~O_LISTENING) & O_LISTENING))
     return;
-    }
-#else /*no pthreads*/
-  /// Not listening
-  if ((server->flags & O_LISTENING) == 0)
-    return;
-#endif /*HAVE_PTHREADS*/
 
-  /// Stop listening
+  /// Stop listening. The listen points are closed later, by the listener, as it may be using them now.
   onion_listen_point **lp = server->listen_points;
   while (*lp) {
-    onion_listen_point_listen_stop(*lp);
+    if ((*lp)->listenfd >= 0)
+      shutdown((*lp)->listenfd, SHUT_RDWR);
     lp++;
   }
   if (server->poller) {
@@ -578,10 +638,8 @@ void onion_listen_stop(onion * server) {
     onion_poller_stop(server->poller);
   }
 #ifdef HAVE_PTHREADS
-  if (server->flags & O_DETACHED)
-    onion_low_pthread_join(server->listen_thread, NULL);
-  pthread_mutex_unlock (&server->mutex);
-#endif	/* end HAVE_PTHREADS */
+  onion_join_detached(server);
+#endif
 }
 
 /**
@@ -670,7 +728,7 @@ int onion_add_listen_point(onion * server, const char *hostname,
  */
 onion_listen_point *onion_get_listen_point(onion * server, int nlisten_point) {
   onion_listen_point **next = server->listen_points;
-  while (next) {                // I have to go one by one, as NULL is the stop marker.
+  while (next && *next) {       // I have to go one by one, as NULL is the stop marker.
     if (nlisten_point == 0)
       return *next;
     nlisten_point--;
-- 
2.43.0


From bcd361490f750df5d884912133ef8acd33bfa72c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Tue, 17 Nov 2026 23:50:23 +0000
Subject: [PATCH 043/123] fix: listen points leaked requests and addresses,
 reported errors as success and closed fd 0

---
 src/onion/https.c        |  8 +++++---
 src/onion/listen_point.c | 19 ++++++++++++++-----
 src/onion/onion.c        | 28 ++++++++++++----------------
 src/onion/poller.c       |  2 +-
 4 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index e1c9e71..15e0654 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -167,9 +167,11 @@ onion_listen_point *onion_https_new() {
  */
 static void onion_https_listen_stop(onion_listen_point * op) {
   ONION_DEBUG("Close HTTPS %s:%s", op->hostname, op->port);
-  shutdown(op->listenfd, SHUT_RDWR);
-  close(op->listenfd);
-  op->listenfd = -1;
+  if (op->listenfd >= 0) {
+    shutdown(op->listenfd, SHUT_RDWR);
+    close(op->listenfd);
+    op->listenfd = -1;
+  }
 }
 
 /**
diff --git a/src/onion/listen_point.c b/src/onion/listen_point.c
index ebc5bb3..519701e 100644
--- a/src/onion/listen_point.c
+++ b/src/onion/listen_point.c
@@ -63,6 +63,7 @@ static int onion_listen_point_read_ready(onion_request * req);
  */
 onion_listen_point *onion_listen_point_new() {
   onion_listen_point *ret = onion_low_calloc(1, sizeof(onion_listen_point));
+  ret->listenfd = -1;           // 0 is a valid fd, but not of this listen point
   return ret;
 }
 
@@ -105,13 +106,15 @@ void onion_listen_point_free(onion_listen_point * op) {
 int onion_listen_point_accept(onion_listen_point * op) {
   onion_request *req = onion_request_new(op);
   if (req) {
-    if (req->connection.fd > 0) {
+    if (req->connection.fd >= 0) {
       onion_poller_slot *slot = onion_poller_slot_new(req->connection.fd,
                                                       (void *)
                                                       onion_listen_point_read_ready,
                                                       req);
-      if (!slot)
+      if (!slot) {
+        onion_request_free(req);
         return 1;
+      }
       onion_poller_slot_set_timeout(slot,
                                     req->connection.listen_point->server->
                                     timeout);
@@ -198,7 +201,7 @@ int onion_listen_point_listen(onion_listen_point * op) {
   if (getaddrinfo(op->hostname, op->port ? op->port : "8080", &hints, &result)
       != 0) {
     ONION_ERROR("Error getting local address and port: %s", strerror(errno));
-    return errno;
+    return errno ? errno : EADDRNOTAVAIL;
   }
 
   int optval = 1;
@@ -230,7 +233,8 @@ int onion_listen_point_listen(onion_listen_point * op) {
   }
   if (rp == NULL) {
     ONION_ERROR("Could not find any suitable address to bind to.");
-    return errno;
+    freeaddrinfo(result);
+    return errno ? errno : EADDRNOTAVAIL;
   }
 #ifdef __DEBUG__
   char address[64];
@@ -239,7 +243,12 @@ int onion_listen_point_listen(onion_listen_point * op) {
   ONION_DEBUG("Listening to %s:%s, fd %d", address, &address[32], sockfd);
 #endif
   freeaddrinfo(result);
-  listen(sockfd, 5);            // queue of only 5.
+  if (listen(sockfd, 5) < 0) {  // queue of only 5.
+    int err = errno;
+    ONION_ERROR("Could not listen: %s", strerror(err));
+    close(sockfd);
+    return err;
+  }
 
   op->listenfd = sockfd;
   return 0;
diff --git a/src/onion/onion.c b/src/onion/onion.c
index 06b170d..36253ea 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -447,17 +447,12 @@ long onion_count_poller_threads(void) {
 /// How many threads will do the polling
 static int onion_npollers(onion * o) {
 #ifdef HAVE_PTHREADS
-  if ((o->flags & O_THREADED) && o->nthreads > 1)
+  if ((onion_flags(o) & O_THREADED) && o->nthreads > 1)
     return o->nthreads;
 #endif
   return 1;
 }
 
-/// Whether nobody asked to stop
-static int onion_is_listening(onion * o) {
-  return __sync_fetch_and_or(&o->flags, 0) & O_LISTENING;
-}
-
 /// Starts listening at all listen points. Returns !=0 if none could.
 static int onion_listen_begin(onion * o) {
   if (!o->listen_points) {
@@ -489,13 +484,11 @@ static int onion_listen_begin(onion * o) {
 static void onion_listen_end(onion * o) {
   onion_listen_point **lp = o->listen_points;
   while (*lp) {
-    if ((*lp)->listenfd >= 0) {
-      if (!(o->flags & O_ONE)) {
-        ONION_DEBUG("Removing %d from poller", (*lp)->listenfd);
-        onion_poller_remove(o->poller, (*lp)->listenfd);
-      }
-      onion_listen_point_listen_stop(*lp);
+    if ((*lp)->listenfd >= 0 && !(onion_flags(o) & O_ONE)) {
+      ONION_DEBUG("Removing %d from poller", (*lp)->listenfd);
+      onion_poller_remove(o->poller, (*lp)->listenfd);
     }
+    onion_listen_point_listen_stop(*lp);
     lp++;
   }
   __sync_fetch_and_and(&o->flags, ~O_LISTENING);
@@ -543,12 +536,15 @@ static void onion_listen_loop(onion * o) {
   onion_current = o;
 #endif
 
-  if (o->flags & O_ONE) {
+  int flags = onion_flags(o);
+  if (flags & O_ONE) {
     onion_listen_point **listen_points = o->listen_points;
     if (listen_points[1] != NULL) {
       ONION_WARNING
           ("Trying to use non-poll and non-thread mode with several listen points. Only the first will be listened");
     }
+    while (listen_points[1] && listen_points[0]->listenfd < 0)  // Could not listen there
+      listen_points++;
     onion_listen_point *op = listen_points[0];
     do {
       onion_request *req = onion_request_new(op);
@@ -563,7 +559,7 @@ static void onion_listen_loop(onion * o) {
       ONION_DEBUG("End of request %p", req);
       onion_request_free(req);
       //req->connection.listen_point->close(req);
-    } while (((o->flags & O_ONE_LOOP) == O_ONE_LOOP) && onion_is_listening(o));
+    } while (((flags & O_ONE_LOOP) == O_ONE_LOOP) && (onion_flags(o) & O_LISTENING));
   } else {
     onion_listen_point **listen_points = o->listen_points;
     while (*listen_points) {
@@ -584,7 +580,7 @@ static void onion_listen_loop(onion * o) {
 #ifdef HAVE_PTHREADS
     ONION_DEBUG("Start polling / listening %p, %p, %p", o->listen_points,
                 *o->listen_points, *(o->listen_points + 1));
-    if (o->flags & O_THREADED) {
+    if (flags & O_THREADED) {
       int nthreads = onion_npollers(o) - 1;
       o->threads = onion_low_malloc(sizeof(pthread_t) * (nthreads + 1));
       int i;
@@ -770,7 +766,7 @@ void onion_set_max_threads(onion * onion, int max_threads) {
  * @ingroup onion
  */
 int onion_flags(onion * onion) {
-  return onion->flags;
+  return __sync_fetch_and_or(&onion->flags, 0);
 }
 
 /**
diff --git a/src/onion/poller.c b/src/onion/poller.c
index d9b4af9..3aa59dd 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -454,7 +454,7 @@ int onion_poller_remove(onion_poller * poller, int fd) {
     el = el->next;
   }
   pthread_mutex_unlock(&poller->mutex);
-  ONION_WARNING("Trying to remove unknown fd from poller %d", fd);
+  ONION_DEBUG("Trying to remove unknown fd from poller %d", fd);
   return 0;
 }
 
-- 
2.43.0


From 1bdfcfc4ac247f056d12d274c02ac640afddad40 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Tue, 17 Nov 2026 23:50:23 +0000
Subject: [PATCH 044/123] fix: a request yielded by its handler could be used
 after another thread finished and freed it

---
 src/onion/listen_point.c   |  5 ++++-
 src/onion/onion.c          |  2 ++
 src/onion/poller.c         |  5 ++++-
 src/onion/poller.h         |  3 +++
 src/onion/request.c        | 28 +++++++++++++++++++++++++++-
 src/onion/types_internal.h |  3 +++
 6 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/onion/listen_point.c b/src/onion/listen_point.c
index 519701e..0c8b9d5 100644
--- a/src/onion/listen_point.c
+++ b/src/onion/listen_point.c
@@ -270,7 +270,10 @@ static int onion_listen_point_read_ready(onion_request * req) {
   }
 #endif
 
-  return req->connection.listen_point->read_ready(req);
+  int ret = req->connection.listen_point->read_ready(req);
+  if (ret == OCS_YIELD)         // onion_request_process removed it from the poller
+    return O_POLL_REMOVED;
+  return ret;
 }
 
 /**
diff --git a/src/onion/onion.c b/src/onion/onion.c
index 36253ea..df81968 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -556,6 +556,8 @@ static void onion_listen_loop(onion * o) {
       do {
         ret = req->connection.listen_point->read_ready(req);
       } while (ret >= 0);
+      if (ret == OCS_YIELD)     // Now other thread will process and free it
+        continue;
       ONION_DEBUG("End of request %p", req);
       onion_request_free(req);
       //req->connection.listen_point->close(req);
diff --git a/src/onion/poller.c b/src/onion/poller.c
index 3aa59dd..d48a0e2 100644
--- a/src/onion/poller.c
+++ b/src/onion/poller.c
@@ -157,7 +157,8 @@ static time_t onion_time() {
  * @ingroup poller
   *
  * @param fd File descriptor to watch
- * @param f Function to call when data is ready. If function returns <0, the slot will be removed.
+ * @param f Function to call when data is ready. If function returns <0, the slot will be removed. If it returns
+ *          O_POLL_REMOVED it was already removed by the function.
  * @param data Data to pass to the function.
  *
  * @returns A new poller slot, ready to be added (onion_poller_add) or modified (onion_poller_slot_set_shutdown, onion_poller_slot_set_timeout).
@@ -564,6 +565,8 @@ void onion_poller_poll(onion_poller * p) {
                                    backtrace_symbols. */
 #endif
         n = el->f(el->data);
+        if (n == O_POLL_REMOVED)        // Somebody else may be using that fd now
+          continue;
 
         if (el->timeout > 0) {
           pthread_mutex_lock(&p->mutex);
diff --git a/src/onion/poller.h b/src/onion/poller.h
index 7b52594..216421a 100644
--- a/src/onion/poller.h
+++ b/src/onion/poller.h
@@ -40,6 +40,9 @@ extern "C" {
 
   typedef enum onion_poller_slot_type_e onion_poller_slot_type_e;
 
+/// What the slot functions return if they removed the slot, so that the poller does not touch it anymore.
+#define O_POLL_REMOVED (-0x7FFFFFFF)
+
 /// Create a new slot for the poller
   onion_poller_slot *onion_poller_slot_new(int fd, int (*f) (void *),
                                            void *data);
diff --git a/src/onion/request.c b/src/onion/request.c
index 55fb18c..66de653 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -72,6 +72,9 @@ onion_request *onion_request_new(onion_listen_point * op) {
 
   req->connection.listen_point = op;
   req->connection.fd = -1;
+#ifdef HAVE_PTHREADS
+  pthread_mutex_init(&req->process_mutex, NULL);
+#endif
 
   //req->connection=con;
   req->headers = onion_dict_new();
@@ -91,6 +94,8 @@ onion_request *onion_request_new(onion_listen_point * op) {
   return req;
 }
 
+static onion_connection_status onion_request_process_locked(onion_request * req);
+
 /// Creates a request, with socket info.
 /// @ingroup request
 onion_request *onion_request_new_from_socket(onion_listen_point * con, int fd,
@@ -130,6 +135,12 @@ static void unlink_files(void *p, const char *key, const char *value, int flags)
  */
 void onion_request_free(onion_request * req) {
   ONION_DEBUG0("Free request %p", req);
+#ifdef HAVE_PTHREADS
+  // If it was yielded, wait until the thread that yielded it is done with it
+  pthread_mutex_lock(&req->process_mutex);
+  pthread_mutex_unlock(&req->process_mutex);
+  pthread_mutex_destroy(&req->process_mutex);
+#endif
   onion_dict_free(req->headers);
 
   if (req->connection.listen_point != NULL
@@ -584,6 +595,18 @@ const onion_block *onion_request_get_data(onion_request * req) {
  * @returns The connection status: if it should be closed, error codes...
  */
 onion_connection_status onion_request_process(onion_request * req) {
+#ifdef HAVE_PTHREADS
+  pthread_mutex_lock(&req->process_mutex);
+  onion_connection_status ret = onion_request_process_locked(req);
+  pthread_mutex_unlock(&req->process_mutex);
+  return ret;
+#else
+  return onion_request_process_locked(req);
+#endif
+}
+
+/// Does the onion_request_process. If it yields the request is no longer at the poller.
+static onion_connection_status onion_request_process_locked(onion_request * req) {
   onion_response *res = onion_response_new(req);
   if (!req->path) {
     onion_request_polish(req);
@@ -614,7 +637,10 @@ onion_connection_status onion_request_process(onion_request * req) {
     onion_poller *poller =
         onion_get_poller(req->connection.listen_point->server);
     onion_poller_slot *slot = onion_poller_get(poller, req->connection.fd);
-    onion_poller_slot_set_shutdown(slot, NULL, NULL);
+    if (slot) {                 // Not when on O_ONE
+      onion_poller_slot_set_shutdown(slot, NULL, NULL);
+      onion_poller_remove(poller, req->connection.fd);
+    }
 
     return hs;
   }
diff --git a/src/onion/types_internal.h b/src/onion/types_internal.h
index 994333e..53acf61 100644
--- a/src/onion/types_internal.h
+++ b/src/onion/types_internal.h
@@ -110,6 +110,9 @@ extern "C" {
     void *parser_data;          /// Data necesary while parsing, muy be deleted when state changed. At free is simply freed.
     onion_websocket *websocket; /// Websocket handler. 
     onion_ptr_list *free_list;  /// Memory that should be freed when the request finishes. IT allows to have simpler onion_dict, which dont copy/free data, but just splits a long string inplace.
+#ifdef HAVE_PTHREADS
+    pthread_mutex_t process_mutex;      /// Locked while at onion_request_process, so that if yielded it is not freed until it is not used there anymore.
+#endif
   };
 
   struct onion_response_t {
-- 
2.43.0


From 04c0fe2e49dc0cd714bd78faaecc4e4529f4cdb0 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Tue, 17 Nov 2026 23:52:20 +0000
Subject: [PATCH 045/123] fix: extensions over 7 characters got no MIME type,
 and a long type lost all that follow it

---
 src/onion/mime.c | 59 ++++++++----------------------------------------
 1 file changed, 10 insertions(+), 49 deletions(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index ea2925b..fb19c9b 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -110,56 +110,17 @@ static void onion_mime_fill() {
     onion_dict_add(onion_mime_dict, "jpg", "image/jpeg", 0);
     return;
   }
-  char mimetype[128];
-  char extension[8];
-  int mode = 0;                 // 0 mimetype, 1 extension
-  int i = 0;
-  int c;
-
-  while ((c = getc(fd)) >= 0) {
-    if (c == '#') {
-      while ((c = getc(fd)) >= 0 && c != '\n') ;
-    }
-    if (c == '\n') {
-      if (mode == 1 && i != 0) {
-        extension[i] = 0;
-        onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
-        //ONION_DEBUG("Add mimetype '%s' (%s).", extension, mimetype);
-      }
-      mode = 0;
-      i = 0;
-    } else {
-      if (is_space(c)) {
-        if (mode == 0) {
-          mimetype[i] = '\0';
-          mode = 1;
-          i = 0;
-        } else if (i != 0) {
-          extension[i] = '\0';
-          i = 0;
-          onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
-          //ONION_DEBUG("Add mimetype '%s' (%s)", extension, mimetype);
-        }
-      } else {
-        if (mode == 0) {
-          if (i >= sizeof(mimetype) - 1) {
-            while ((c = getc(fd)) >= 0 && c != '\n') ;
-          } else
-            mimetype[i++] = c;
-        } else {
-          if (i >= sizeof(extension) - 1) {
-            while ((c = getc(fd)) >= 0 && c != '\n') ;
-            extension[i] = '\0';
-            i = 0;
-            mode = 0;
-            onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
-            //ONION_DEBUG("Add mimetype '%s' (%s)..", extension, mimetype);
-          } else
-            extension[i++] = c;
-        }
-      }
-    }
+  char *line = NULL;
+  size_t size = 0;
+  while (getline(&line, &size, fd) >= 0) {      // mimetype ext1 ext2 ... # comment
+    line[strcspn(line, "#")] = '\0';
+    char *saveptr;
+    char *mimetype = strtok_r(line, " \t\r\n", &saveptr);
+    char *extension;
+    while (mimetype && (extension = strtok_r(NULL, " \t\r\n", &saveptr)))
+      onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
   }
+  free(line);
   fclose(fd);
 
   ONION_DEBUG("I know %d mime types", onion_dict_count(onion_mime_dict));
-- 
2.43.0


From eb98c4ab7546bfacabeeff50161ae56b3f682dd8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Tue, 17 Nov 2026 23:52:20 +0000
Subject: [PATCH 046/123] fix: the MIME table was filled and used from several
 threads without locking

---
 src/onion/mime.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index fb19c9b..a318cdf 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -24,6 +24,12 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#ifdef HAVE_PTHREADS
+#include <pthread.h>
+#else
+#define pthread_mutex_lock(M) ;
+#define pthread_mutex_unlock(M) ;
+#endif
 
 #include "types.h"
 #include "mime.h"
@@ -35,6 +41,9 @@
 
 /// Dict with all extension to mime type. This will never be freed.
 static onion_dict *onion_mime_dict = NULL;
+#ifdef HAVE_PTHREADS
+static pthread_mutex_t onion_mime_mutex = PTHREAD_MUTEX_INITIALIZER;
+#endif
 
 static void onion_mime_fill();
 
@@ -47,9 +56,11 @@ static void onion_mime_fill();
  * At onion_server_free it is freed, as if this function is called again.
  */
 void onion_mime_set(onion_dict * d) {
+  pthread_mutex_lock(&onion_mime_mutex);
   if (onion_mime_dict)
     onion_dict_free(onion_mime_dict);
   onion_mime_dict = d;
+  pthread_mutex_unlock(&onion_mime_mutex);
 }
 
 /**
@@ -64,9 +75,6 @@ void onion_mime_set(onion_dict * d) {
  * If none is found, returns text/plain.
  */
 const char *onion_mime_get(const char *filename) {
-  if (!onion_mime_dict)
-    onion_mime_fill();
-
   const char *extension = filename;
   int l = strlen(filename);
   int i;
@@ -79,7 +87,12 @@ const char *onion_mime_get(const char *filename) {
 
   //ONION_DEBUG("I know %d mime types", onion_dict_count(onion_mime_dict));
 
+  pthread_mutex_lock(&onion_mime_mutex);
+  if (!onion_mime_dict)
+    onion_mime_fill();
+
   const char *r = onion_dict_get(onion_mime_dict, extension);
+  pthread_mutex_unlock(&onion_mime_mutex);
   if (r)
     return r;
   //ONION_DEBUG("Mime type for extension '%s' %s",extension, r);
@@ -87,13 +100,12 @@ const char *onion_mime_get(const char *filename) {
 }
 
 /**
- * @short Reads the /etc/mime.types file
+ * @short Reads the /etc/mime.types file. Needs onion_mime_mutex locked.
  * @ingroup mime
  *
  *
  */
 static void onion_mime_fill() {
-  onion_mime_set(NULL);
   onion_mime_dict = onion_dict_new();
   //ONION_DEBUG("Filling mime types");
 
@@ -133,6 +145,7 @@ static void onion_mime_fill() {
  * User can add new mime types, or remove (if mimetype == NULL).
  */
 void onion_mime_update(const char *extension, const char *mimetype) {
+  pthread_mutex_lock(&onion_mime_mutex);
   if (!onion_mime_dict)
     onion_mime_fill();
 
@@ -140,4 +153,5 @@ void onion_mime_update(const char *extension, const char *mimetype) {
     onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
   else
     onion_dict_remove(onion_mime_dict, extension);
+  pthread_mutex_unlock(&onion_mime_mutex);
 }
-- 
2.43.0


From 5f304209ef211fbdf125eca46c8f41e238c335e9 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Tue, 17 Nov 2026 23:52:28 +0000
Subject: [PATCH 047/123] fix: updating the MIME type of a known extension
 could leave the old one in use

---
 src/onion/mime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/mime.c b/src/onion/mime.c
index a318cdf..a035679 100644
--- a/src/onion/mime.c
+++ b/src/onion/mime.c
@@ -150,7 +150,7 @@ void onion_mime_update(const char *extension, const char *mimetype) {
     onion_mime_fill();
 
   if (mimetype)
-    onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL);
+    onion_dict_add(onion_mime_dict, extension, mimetype, OD_DUP_ALL | OD_REPLACE);
   else
     onion_dict_remove(onion_mime_dict, extension);
   pthread_mutex_unlock(&onion_mime_mutex);
-- 
2.43.0


From aa7555da3fef46fcf9fd5dd69bbbb65a8008a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:46 +0000
Subject: [PATCH 048/123] fix: a SIGTERM after a listen that a SIGTERM had
 stopped aborted the program

---
 src/onion/onion.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index df81968..ba096db 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -359,7 +359,7 @@ void *onion_client_data(onion * server) {
 // for using onion_listen several times in the same program
 static bool shutdown_server_first_call = true;
 static void shutdown_server(int _) {
-  if (shutdown_server_first_call) {
+  if (__sync_lock_test_and_set(&shutdown_server_first_call, false)) {   // Before the stop, that marks that it worked
     if (last_onion) {
       onion_listen_stop(last_onion);
       ONION_INFO("Exiting onion listening (SIG%s)",
@@ -369,7 +369,6 @@ static void shutdown_server(int _) {
     ONION_ERROR("Aborting as onion does not stop listening.");
     abort();
   }
-  shutdown_server_first_call = false;
 }
 
 #ifdef HAVE_PTHREADS
@@ -492,7 +491,7 @@ static void onion_listen_end(onion * o) {
     lp++;
   }
   __sync_fetch_and_and(&o->flags, ~O_LISTENING);
-  shutdown_server_first_call = true;    // Mark as listen_stop/shutdown worked.
+  __sync_lock_test_and_set(&shutdown_server_first_call, true);  // Mark as listen_stop/shutdown worked.
 }
 
 /**
-- 
2.43.0


From d7f06f16b7f108ea39be16bcef933c7d38f247e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:05 +0000
Subject: [PATCH 049/123] fix: a SIGTERM could join the detached listener
 twice, or use a server being freed

---
 src/onion/onion.c | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index ba096db..49ea2b6 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -144,6 +144,7 @@ onion_url_add_url(url, ...); // Nesting
 
 #include <stdlib.h>
 #include <stdio.h>
+#include <sched.h>
 #include <signal.h>
 #include <string.h>
 #include <errno.h>
@@ -193,7 +194,9 @@ static void onion_join_detached(onion * o) {
 
 /// Used by onion_sigterm handler. Only takes into account last onion.
 static onion *last_onion = NULL;
+static int shutdown_server_running = 0; // How many signal handlers may be using it, at any thread
 static void shutdown_server(int _);
+static void onion_listen_advise_stop(onion * server);
 
 /**
  * @short Creates the onion structure to fill with the server data, and later do the onion_listen()
@@ -271,6 +274,9 @@ onion *onion_new(int flags) {
 void onion_free(onion * onion) {
   ONION_DEBUG("Onion free");
 
+  (void)__sync_bool_compare_and_swap(&last_onion, onion, NULL);
+  while (__sync_fetch_and_or(&shutdown_server_running, 0))      // Another thread is at the signal handler
+    sched_yield();
   onion_listen_stop(onion);
 #ifdef HAVE_PTHREADS
   onion_join_detached(onion);
@@ -320,7 +326,6 @@ void onion_free(onion * onion) {
     signal(SIGINT, SIG_DFL);
     signal(SIGTERM, SIG_DFL);
   }
-  last_onion = NULL;
   onion_low_free(onion);
 }
 
@@ -360,11 +365,14 @@ void *onion_client_data(onion * server) {
 static bool shutdown_server_first_call = true;
 static void shutdown_server(int _) {
   if (__sync_lock_test_and_set(&shutdown_server_first_call, false)) {   // Before the stop, that marks that it worked
-    if (last_onion) {
-      onion_listen_stop(last_onion);
+    __sync_fetch_and_add(&shutdown_server_running, 1);
+    onion *o = __sync_val_compare_and_swap(&last_onion, NULL, NULL);
+    if (o) {                    // Does not wait for a detached listener: onion_listen and onion_free do
+      onion_listen_advise_stop(o);
       ONION_INFO("Exiting onion listening (SIG%s)",
                  _ == SIGTERM ? "TERM" : "INT");
     }
+    __sync_fetch_and_sub(&shutdown_server_running, 1);
   } else {
     ONION_ERROR("Aborting as onion does not stop listening.");
     abort();
@@ -473,7 +481,7 @@ static int onion_listen_begin(onion * o) {
     return 1;
   }
 
-  if (!(o->flags & O_ONE))      // From now on it may be stopped
+  if (!(onion_flags(o) & O_ONE))        // From now on it may be stopped
     onion_poller_announce(o->poller, onion_npollers(o));
   __sync_fetch_and_or(&o->flags, O_LISTENING);
   return 0;
@@ -506,19 +514,18 @@ static void onion_listen_end(onion * o) {
  */
 int onion_listen(onion * o) {
 #ifdef HAVE_PTHREADS
-  if (o->flags & O_DETACH_LISTEN) {     // Must detach and return
+  if (onion_flags(o) & O_DETACH_LISTEN) {     // Must detach and return
     onion_join_detached(o);
     int errcode = onion_listen_begin(o);
     if (errcode != 0)
       return errcode;
-    __sync_fetch_and_or(&o->flags, O_DETACHED);
     errcode =
         onion_low_pthread_create(&o->listen_thread, NULL, onion_listen_start,
                                  o);
-    if (errcode != 0) {
-      __sync_fetch_and_and(&o->flags, ~O_DETACHED);
+    if (errcode == 0)           // Now it can be joined
+      __sync_fetch_and_or(&o->flags, O_DETACHED);
+    else
       onion_listen_end(o);
-    }
     return errcode;
   }
 #endif
@@ -619,6 +626,16 @@ static void onion_listen_loop(onion * o) {
  * If there is any pending connection, it can finish if onion not freed before.
  */
 void onion_listen_stop(onion * server) {
+  if (!(onion_flags(server) & O_LISTENING))
+    return;
+  onion_listen_advise_stop(server);
+#ifdef HAVE_PTHREADS
+  onion_join_detached(server);
+#endif
+}
+
+/// Advises the listener to stop, and does not wait.
+static void onion_listen_advise_stop(onion * server) {
   /// Not listening
   if (!(__sync_fetch_and_and(&server->flags, ~O_LISTENING) & O_LISTENING))
     return;
@@ -634,9 +651,6 @@ void onion_listen_stop(onion * server) {
     ONION_DEBUG("Stop listening");
     onion_poller_stop(server->poller);
   }
-#ifdef HAVE_PTHREADS
-  onion_join_detached(server);
-#endif
 }
 
 /**
-- 
2.43.0


From ff2775d20f55f9c1860b40c917662ddfb0863c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:58 +0000
Subject: [PATCH 050/123] fix: stopping could shut down a descriptor the
 listener had just closed

---
 src/onion/listen_point.c   |  3 ++-
 src/onion/onion.c          | 10 ++++++++--
 src/onion/types_internal.h |  1 +
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/onion/listen_point.c b/src/onion/listen_point.c
index 0c8b9d5..ca40621 100644
--- a/src/onion/listen_point.c
+++ b/src/onion/listen_point.c
@@ -35,6 +35,7 @@
 #include "types_internal.h"
 #include "low.h"
 #include "log.h"
+#include "onion.h"
 #include "poller.h"
 #include "request.h"
 #include "listen_point.h"
@@ -168,7 +169,7 @@ int onion_listen_point_listen(onion_listen_point * op) {
     return 0;
   }
 #ifdef HAVE_SYSTEMD
-  if (op->server->flags & O_SYSTEMD) {
+  if (onion_flags(op->server) & O_SYSTEMD) {
     int n = sd_listen_fds(0);
     ONION_DEBUG("Checking if have systemd sockets: %d", n);
     if (n > 0) {                // If 0, normal startup. Else use the first LISTEN_FDS.
diff --git a/src/onion/onion.c b/src/onion/onion.c
index 49ea2b6..a890433 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -489,6 +489,9 @@ static int onion_listen_begin(onion * o) {
 
 /// Closes all listen points
 static void onion_listen_end(onion * o) {
+  __sync_fetch_and_and(&o->flags, ~O_LISTENING);
+  while (__sync_fetch_and_or(&o->stoppers, 0))  // Another thread is still using the listen points to stop
+    sched_yield();
   onion_listen_point **lp = o->listen_points;
   while (*lp) {
     if ((*lp)->listenfd >= 0 && !(onion_flags(o) & O_ONE)) {
@@ -498,7 +501,6 @@ static void onion_listen_end(onion * o) {
     onion_listen_point_listen_stop(*lp);
     lp++;
   }
-  __sync_fetch_and_and(&o->flags, ~O_LISTENING);
   __sync_lock_test_and_set(&shutdown_server_first_call, true);  // Mark as listen_stop/shutdown worked.
 }
 
@@ -636,9 +638,12 @@ void onion_listen_stop(onion * server) {
 
 /// Advises the listener to stop, and does not wait.
 static void onion_listen_advise_stop(onion * server) {
+  __sync_fetch_and_add(&server->stoppers, 1);
   /// Not listening
-  if (!(__sync_fetch_and_and(&server->flags, ~O_LISTENING) & O_LISTENING))
+  if (!(__sync_fetch_and_and(&server->flags, ~O_LISTENING) & O_LISTENING)) {
+    __sync_fetch_and_sub(&server->stoppers, 1);
     return;
+  }
 
   /// Stop listening. The listen points are closed later, by the listener, as it may be using them now.
   onion_listen_point **lp = server->listen_points;
@@ -651,6 +656,7 @@ static void onion_listen_advise_stop(onion * server) {
     ONION_DEBUG("Stop listening");
     onion_poller_stop(server->poller);
   }
+  __sync_fetch_and_sub(&server->stoppers, 1);
 }
 
 /**
diff --git a/src/onion/types_internal.h b/src/onion/types_internal.h
index 53acf61..455ab35 100644
--- a/src/onion/types_internal.h
+++ b/src/onion/types_internal.h
@@ -78,6 +78,7 @@ extern "C" {
     pthread_t *threads;
     int nthreads;
 #endif
+    int stoppers;               ///< How many threads are at listen_stop, using the listen points
   };
 
   struct onion_ptr_list_t {
-- 
2.43.0


From 5cb5c3c29c6042d24ed79c61cd98391e30bc437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:45 +0000
Subject: [PATCH 051/123] fix: the session was saved after the client had the
 whole response, so that its next request could miss it

---
 src/onion/handler.c        | 10 +++----
 src/onion/request.c        | 55 +++++++++++++++++++++++---------------
 src/onion/request.h        |  3 +++
 src/onion/response.c       |  2 ++
 src/onion/types_internal.h |  2 ++
 5 files changed, 45 insertions(+), 27 deletions(-)

diff --git a/src/onion/handler.c b/src/onion/handler.c
index 44126a0..b7e4813 100644
--- a/src/onion/handler.c
+++ b/src/onion/handler.c
@@ -69,12 +69,12 @@ onion_connection_status onion_handler_handle(onion_handler * handler,
       if (res == OCS_YIELD)     // The response now belongs to whoever is going to finish it, may be already gone.
         return res;
       if (res) {
-        // write pending data.
-        if (!(response->flags & OR_HEADER_SENT)
-            && response->buffer_pos < sizeof(response->buffer))
-          onion_response_set_length(response, response->buffer_pos);
-        onion_response_flush(response);
+        // Pending data is written at onion_response_free, when all is done
         if (res == OCS_WEBSOCKET) {
+          if (!(response->flags & OR_HEADER_SENT)
+              && response->buffer_pos < sizeof(response->buffer))
+            onion_response_set_length(response, response->buffer_pos);
+          onion_response_flush(response);
           if (request->websocket)
             return onion_websocket_call(request->websocket);
           else {
diff --git a/src/onion/request.c b/src/onion/request.c
index 66de653..5b9f700 100644
--- a/src/onion/request.c
+++ b/src/onion/request.c
@@ -118,6 +118,36 @@ static int session_is_empty(onion_dict * session) {
   return ret;
 }
 
+/**
+ * @short Saves the session at the backend, or removes it from there if it is empty.
+ *
+ * Done before the client can know that the response is complete: when it asks again, maybe at another
+ * connection, the data has to be there.
+ */
+void onion_request_session_save(onion_request * req) {
+  if (!req->session_id || !req->session || req->session_saved)
+    return;
+  int empty = session_is_empty(req->session);
+  if (empty && req->session_new)        // Nobody knows about it, removed at the end if still empty
+    return;
+  onion_sessions_save(req->connection.listen_point->server->sessions,
+                      req->session_id, empty ? NULL : req->session);
+  req->session_saved = 1;
+}
+
+/// Saves the session if it is not saved yet, and forgets about it.
+static void onion_request_session_end(onion_request * req) {
+  req->session_new = 0;
+  onion_request_session_save(req);
+  if (req->session)
+    onion_dict_free(req->session);      // Not really remove, just dereference
+  req->session = NULL;
+  if (req->session_id)
+    onion_low_free(req->session_id);
+  req->session_id = NULL;
+  req->session_saved = 0;
+}
+
 /**
  * @short Helper to remove temporal files from req->files
  * @memberof onion_request_t
@@ -142,6 +172,7 @@ void onion_request_free(onion_request * req) {
   pthread_mutex_destroy(&req->process_mutex);
 #endif
   onion_dict_free(req->headers);
+  onion_request_session_end(req);
 
   if (req->connection.listen_point != NULL
       && req->connection.listen_point->close)
@@ -156,16 +187,6 @@ void onion_request_free(onion_request * req) {
     onion_dict_preorder(req->FILES, unlink_files, NULL);
     onion_dict_free(req->FILES);
   }
-  if (req->session) {
-    if (session_is_empty(req->session))
-      onion_request_session_free(req);
-    else {
-      onion_sessions_save(req->connection.listen_point->server->sessions,
-                          req->session_id, req->session);
-      onion_dict_free(req->session);    // Not really remove, just dereference
-      onion_low_free(req->session_id);
-    }
-  }
   if (req->data)
     onion_block_free(req->data);
   if (req->connection.cli_info)
@@ -218,18 +239,7 @@ void onion_request_clean(onion_request * req) {
     onion_dict_free(req->FILES);
     req->FILES = NULL;
   }
-  if (req->session_id) {
-    if (session_is_empty(req->session)) {
-      onion_request_session_free(req);
-    } else {
-      onion_sessions_save(req->connection.listen_point->server->sessions,
-                          req->session_id, req->session);
-      onion_dict_free(req->session);    // Not really remove, just dereference
-      req->session = NULL;
-      onion_low_free(req->session_id);
-      req->session_id = NULL;
-    }
-  }
+  onion_request_session_end(req);
   if (req->data) {
     onion_block_free(req->data);
     req->data = NULL;
@@ -473,6 +483,7 @@ onion_dict *onion_request_get_session_dict(onion_request * req) {
     }
     onion_request_guess_session_id(req);
     if (!req->session) {        // Maybe old session is not to be used anymore
+      req->session_new = 1;
       req->session_id =
           onion_sessions_create(req->connection.listen_point->server->sessions);
       req->session =
diff --git a/src/onion/request.h b/src/onion/request.h
index 4a0f324..cbc6cdf 100644
--- a/src/onion/request.h
+++ b/src/onion/request.h
@@ -153,6 +153,9 @@ extern "C" {
 /// Frees the session dictionary.
   void onion_request_session_free(onion_request * req);
 
+/// Saves the session now. Internal, done when the response is finished.
+  void onion_request_session_save(onion_request * req);
+
 /// Cleans the request object, to reuse it
   void onion_request_clean(onion_request * req);
 
diff --git a/src/onion/response.c b/src/onion/response.c
index ea24bd8..757ef1e 100644
--- a/src/onion/response.c
+++ b/src/onion/response.c
@@ -182,6 +182,8 @@ static int write_all(onion_response * res, const char *data, size_t length) {
  * @see onion_connection_status
  */
 onion_connection_status onion_response_free(onion_response * res) {
+  if (res->request)
+    onion_request_session_save(res->request);
   // write pending data.
   if (!(res->flags & OR_HEADER_SENT) && res->buffer_pos < sizeof(res->buffer))
     onion_response_set_length(res, res->buffer_pos);
diff --git a/src/onion/types_internal.h b/src/onion/types_internal.h
index 455ab35..9706165 100644
--- a/src/onion/types_internal.h
+++ b/src/onion/types_internal.h
@@ -104,6 +104,8 @@ extern "C" {
     onion_dict *POST;           /// Dictionary with POST values
     onion_dict *FILES;          /// Dictionary with files. They are automatically saved at /tmp/ and removed at request free. mapped string is full path.
     onion_dict *session;        /// Pointer to related session
+    int session_new;            /// Whether the session was created for this request.
+    int session_saved;          /// Whether the session is already saved, as the response was finished.
     onion_block *data;          /// Some extra data from PUT, normally PROPFIND.
     onion_dict *cookies;        /// Data about cookies.
     char *session_id;           /// Session id of the request, if any.
-- 
2.43.0


From 462522b8d3a7444a943ce42756a59ce68b940ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:05 +0000
Subject: [PATCH 052/123] fix: websocket frames of 64 KB and of multiples of 1
 KB were sent broken

The 64 bit length was written one byte off and from an int, the last 1024
bytes were lost when the size was a multiple of 1024, short writes lost data
and the returned size was the one of the last block.
---
 src/onion/websocket.c | 56 +++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index cf49bef..7ff9e46 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -165,6 +165,24 @@ void onion_websocket_free(onion_websocket * ws) {
   onion_low_free(ws);
 }
 
+/**
+ * @short Writes all the data to the client, in as many writes as it takes.
+ *
+ * @returns 0 if all was written, <0 on error.
+ */
+static int onion_websocket_write_all(onion_websocket * ws, const char *data,
+                                     ssize_t len) {
+  lpwriter_sig_t *lpwriter = ws->req->connection.listen_point->write;
+  while (len > 0) {
+    ssize_t w = (*lpwriter) (ws->req, data, len);
+    if (w <= 0)
+      return -1;
+    data += w;
+    len -= w;
+  }
+  return 0;
+}
+
 /**
  * @short Writes a fragment to the websocket
  * @memberof onion_websocket_t
@@ -182,6 +200,7 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
   }
   lpwriter_sig_t *lpwriter = ws->req->connection.listen_point->write;
   ssize_t len = _len;           // I need it signed here
+  ssize_t first;
   if (!lpwriter) {
     ONION_DEBUG("no listen point writer for websocket@%p", ws);
     return -1;
@@ -194,7 +213,7 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
     header[1] = 0x00;           // Do not mask on send
     if (len < 126)
       header[1] |= len;
-    else if (len < 0x0FFFF) {
+    else if (len <= 0x0FFFF) {
       header[1] |= 126;
       header[2] = (len >> 8) & 0x0FF;
       header[3] = (len) & 0x0FF;
@@ -202,9 +221,9 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
     } else {
       header[1] |= 127;
       int i;
-      int tlen = len;
+      uint64_t tlen = len;
       for (i = 0; i < 8; i++) {
-        header[3 + 8 - i] = tlen & 0x0FF;
+        header[2 + 7 - i] = tlen & 0x0FF;
         tlen >>= 8;
       }
       hlen += 8;
@@ -217,25 +236,20 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
        }
      */
 
-    (*lpwriter) (ws->req, header, hlen);
-  }
-  /// FIXME! powerup using int32_t as basic type.
-  int ret = 0;
-  int i, j;
-  char tout[1024];
-  for (i = 0; i < len - 1024; i += 1024) {
-    for (j = 0; j < sizeof(tout); j++) {
-      //ONION_DEBUG("At %d, %02X ^ %02X = %02X", (i+j)&1023, buffer[i+j]&0x0FF, mask[j&3]&0x0FF, (buffer[i]^mask[j&3])&0x0FF);
-      tout[j] = buffer[i + j];
-    }
-    ret += (*lpwriter) (ws->req, tout, sizeof(tout));
-  }
-  for (; i < len; i++) {
-    //ONION_DEBUG("At %d, %02X ^ %02X = %02X", i&1023, buffer[i]&0x0FF, mask[i&3]&0x0FF, (buffer[i]^mask[i&3])&0x0FF);
-    tout[i & 1023] = buffer[i];
+    // The header goes with the first data, so that small messages are a single write.
+    char tout[1024];
+    first = sizeof(tout) - hlen;
+    if (first > len)
+      first = len;
+    memcpy(tout, header, hlen);
+    if (first > 0)
+      memcpy(tout + hlen, buffer, first);
+    if (onion_websocket_write_all(ws, tout, hlen + first) < 0)
+      return -1;
   }
-
-  return (*lpwriter) (ws->req, tout, len & 1023);
+  if (onion_websocket_write_all(ws, buffer + first, len - first) < 0)
+    return -1;
+  return len;
 }
 
 /**
-- 
2.43.0


From 22f2b78eb317a730b5af64203499ee3bd1eaba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:05 +0000
Subject: [PATCH 053/123] fix: websocket printf sent NULs instead of the end of
 messages over 510 bytes

The buffers were one byte short, and the argument list was used twice.
---
 src/onion/websocket.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 7ff9e46..4b497cf 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -328,7 +328,12 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
   */
 int onion_websocket_vprintf(onion_websocket * ws, const char *fmt, va_list args) {
   char temp[512];
-  int l = vsnprintf(temp, sizeof(temp) - 1, fmt, args);
+  va_list again;
+  va_copy(again, args);
+  int l = vsnprintf(temp, sizeof(temp), fmt, again);
+  va_end(again);
+  if (l < 0)
+    return -1;
   if (l < sizeof(temp))
     return onion_websocket_write(ws, temp, l);
   else {
@@ -340,7 +345,7 @@ int onion_websocket_vprintf(onion_websocket * ws, const char *fmt, va_list args)
       ONION_ERROR("Could not reserve %d bytes", l + 1);
       return -1;
     }
-    vsnprintf(buf, l, fmt, args);
+    vsnprintf(buf, l + 1, fmt, args);
     s = onion_websocket_write(ws, buf, l);
     onion_low_free(buf);
     return s;
-- 
2.43.0


From 612334c2c474a0072ac79072ca66162c9726b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:05 +0000
Subject: [PATCH 054/123] fix: websocket clients asking for a subprotocol never
 got it confirmed

The header name was misspelled; and all the protocols that the client offers
can not be the answer, as only one can be selected.
---
 src/onion/websocket.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 4b497cf..460d967 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -120,8 +120,14 @@ onion_websocket *onion_websocket_new(onion_request * req, onion_response * res)
   res->flags |= OR_CONNECTION_UPGRADE;
   res->flags |= OR_LENGTH_SET;  // Fix for Chrome to close cleanly websocket connections
   onion_response_set_header(res, "Upgrade", "websocket");
-  if (ws_protocol)
-    onion_response_set_header(res, "Sec-Websocket-Procotol", ws_protocol);
+  if (ws_protocol) {
+    // Only one can be selected; the first is the one the client prefers.
+    int plen = strcspn(ws_protocol, ", \t");
+    char protocol[plen + 1];
+    memcpy(protocol, ws_protocol, plen);
+    protocol[plen] = '\0';
+    onion_response_set_header(res, "Sec-Websocket-Protocol", protocol);
+  }
   onion_response_set_header(res, "Sec-Websocket-Accept", key_answer);
   onion_low_free(key_answer);
 
-- 
2.43.0


From 52280103f088bdd5ab47b73ad6ebecf948a1ff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:05 +0000
Subject: [PATCH 055/123] fix: websocket pings were taken as data, and pongs as
 pings

The opcodes for ping and pong are 9 and 10 (RFC 6455, 5.2).
---
 src/onion/types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/types.h b/src/onion/types.h
index 5ef24be..d86ced9 100644
--- a/src/onion/types.h
+++ b/src/onion/types.h
@@ -273,8 +273,8 @@ extern "C" {
     OWS_TEXT = 1,
     OWS_BINARY = 2,
     OWS_CONNECTION_CLOSE = 8,
-    OWS_PING = 0x0a,
-    OWS_PONG = 0x0b
+    OWS_PING = 0x09,
+    OWS_PONG = 0x0a
   };
 
   typedef enum onion_websocket_opcode_e onion_websocket_opcode;
-- 
2.43.0


From c024b1763530d284169600905640dbd3ddf5cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:51 +0000
Subject: [PATCH 056/123] fix: websocket frames arriving in pieces were taken
 as a closed connection

The header must be read in as many reads as it takes. Errors and closes found
when looking for the next frame were subtracted from the bytes already read,
reads of 0 bytes waited for another frame, lengths over 63 bits were negative
sizes, and after a read error the callback was dropped so that it was never
told about the end of the websocket.
---
 src/onion/websocket.c | 109 +++++++++++++++++++++++++++---------------
 1 file changed, 70 insertions(+), 39 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 460d967..e694088 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -43,6 +43,7 @@
 enum onion_websocket_flags_e {
   WS_FIN = 1,
   WS_MASK = 2,
+  WS_CLOSED = 4,                /// Nothing more can be read: closed by the client, or the stream is broken.
 };
 
 // signature of writer in listen point.
@@ -159,6 +160,7 @@ onion_websocket *onion_websocket_new(onion_request * req, onion_response * res)
  * @param ws
  */
 void onion_websocket_free(onion_websocket * ws) {
+  ws->flags |= WS_CLOSED;
   if (ws->callback)
     ws->callback(ws->user_data, ws, -1);
 
@@ -284,40 +286,45 @@ int onion_websocket_read(onion_websocket * ws, char *buffer, size_t len) {
     return -1;
   }
   //ONION_DEBUG("Please, read %d bytes, %d ready", len, ws->data_left);
-  if (ws->data_left == 0) {
-    onion_connection_status status;
-    if ((status = onion_websocket_read_packet_header(ws)) < 0) {
-      if (status == -2)
-        return -2;
-      ONION_ERROR("Error reading websocket header (%i)", status);
-      return -1;
+  size_t done = 0;
+  while (done < len) {
+    if (ws->flags & WS_CLOSED)
+      return done > 0 ? done : -2;
+    if (ws->data_left == 0) {
+      onion_connection_status status;
+      if ((status = onion_websocket_read_packet_header(ws)) < 0) {
+        if (done > 0)
+          return done;
+        if (status == -2)
+          return -2;
+        ONION_ERROR("Error reading websocket header (%i)", status);
+        return -1;
+      }
+      continue;                 // it may have no data
     }
-  }
 
-  size_t left_len = 0;
-  if (len > ws->data_left) {
-    left_len = len - ws->data_left;
-    len = ws->data_left;
-    //ONION_DEBUG("Read %d bytes now, %d bytes later", len, left_len);
-  }
-  int r = (*lpreader) (ws->req, buffer, len);
-  if (ws->flags & WS_MASK) {
-    char *p = buffer;
-    int i;
-    for (i = 0; i < r; i++) {
-      *p = *p ^ ws->mask[(ws->mask_pos++) & 3];
-      p++;
+    size_t now = len - done;
+    if (now > ws->data_left)
+      now = ws->data_left;
+    ssize_t r = (*lpreader) (ws->req, buffer + done, now);
+    if (r <= 0) {
+      ws->flags |= WS_CLOSED;
+      return done > 0 ? done : r;
     }
+    if (ws->flags & WS_MASK) {
+      char *p = buffer + done;
+      int i;
+      for (i = 0; i < r; i++) {
+        *p = *p ^ ws->mask[(ws->mask_pos++) & 3];
+        p++;
+      }
+    }
+    ws->data_left -= r;
+    done += r;
+    if (r < now)
+      break;
   }
-  ws->data_left -= r;
-
-  if (left_len && r == len)
-    r += onion_websocket_read(ws, &buffer[len], left_len);
-
-  if (r < 0 || (r == 0 && errno != 0)) {
-    ws->callback = NULL;        // Easy way to force close of websocket, which is ok as it closed.
-  }
-  return r;
+  return done;
 }
 
  /**
@@ -424,6 +431,26 @@ void onion_websocket_set_userdata(onion_websocket * ws, void *userdata,
   ws->free_user_data = free_userdata;
 }
 
+/**
+ * @short Reads exactly len bytes, in as many reads as it takes.
+ *
+ * @returns 0 if all was read. If not <0, and the websocket can not be read anymore.
+ */
+static int onion_websocket_read_all(onion_websocket * ws, char *data,
+                                    size_t len) {
+  lpreader_sig_t *lpreader = ws->req->connection.listen_point->read;
+  while (len > 0) {
+    ssize_t r = (*lpreader) (ws->req, data, len);
+    if (r <= 0) {
+      ws->flags |= WS_CLOSED;
+      return -1;
+    }
+    data += r;
+    len -= r;
+  }
+  return 0;
+}
+
 /**
  * @short Reads a packet header.
  */
@@ -440,9 +467,11 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     ONION_DEBUG("no listen point reader in websocket@%p", ws);
     return OCS_CLOSE_CONNECTION;
   }
+  if (ws->flags & WS_CLOSED)
+    return OCS_CLOSE_CONNECTION;
   int r = (*lpreader) (ws->req, tmp, 2);
   //ONION_DEBUG("reading input r = %i", r);
-  if (r != 2) {
+  if (r < 0 || onion_websocket_read_all(ws, tmp + r, 2 - r) < 0) {
     ONION_DEBUG("Error reading header");
     return OCS_CLOSE_CONNECTION;
   }
@@ -455,17 +484,15 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
   ws->opcode = tmp[0] & 0x0F;
   ws->data_left = tmp[1] & 0x7F;
   if (ws->data_left == 126) {
-    r = (*lpreader) (ws->req, tmp, 2);
-    if (r != 2) {
+    if (onion_websocket_read_all(ws, tmp, 2) < 0) {
       ONION_DEBUG("Error reading header");
       return OCS_CLOSE_CONNECTION;
     }
     ONION_DEBUG("%d %d", utmp[0], utmp[1]);
     ws->data_left = utmp[1] + utmp[0] * 256;
   } else if (ws->data_left == 127) {
-    r = (*lpreader) (ws->req, tmp, 8);
     //ONION_DEBUG("%d %d %d %d %d %d %d", utmp[0], utmp[1], utmp[2], utmp[3], utmp[4], utmp[5], utmp[6], utmp[7]);
-    if (r != 8) {
+    if (onion_websocket_read_all(ws, tmp, 8) < 0) {
       ONION_DEBUG("Error reading header");
       return OCS_CLOSE_CONNECTION;
     }
@@ -473,12 +500,16 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     int i;
     for (i = 0; i < 8; i++)
       ws->data_left += ((uint64_t) utmp[i]) << ((7 - i) * 8);   // Maybe problematic on 32bits systems
+    if (ws->data_left < 0) {    // Not a valid length
+      ONION_DEBUG("Invalid data length");
+      ws->data_left = 0;
+      ws->flags |= WS_CLOSED;
+      return OCS_CLOSE_CONNECTION;
+    }
   }
   ONION_DEBUG("Data left %d", ws->data_left);
   if (ws->flags & WS_MASK) {
-    r = (*lpreader) (ws->req, ws->mask, 4);
-    //ONION_DEBUG("bytes read=%i", r);
-    if (r != 4) {
+    if (onion_websocket_read_all(ws, ws->mask, 4) < 0) {
       ONION_DEBUG("Error reading header (4)");
       return OCS_CLOSE_CONNECTION;
     }
@@ -547,7 +578,7 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
       } while (ws->data_left != 0 && last_d_l != ws->data_left && ws->callback);
     }
 
-    if (!ws->callback)          // ws->callback can change ws->callback, so another test, not else.
+    if (!ws->callback || (ws->flags & WS_CLOSED))       // ws->callback can change ws->callback, so another test, not else.
       ret = OCS_CLOSE_CONNECTION;
   }
   ONION_DEBUG("Websocket connection closed (%d)", ret);
-- 
2.43.0


From 8d220c07fd5344bc5cc6e7cd3da1480ad0e10f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:51 +0000
Subject: [PATCH 057/123] fix: websocket control frames: sizes, content and
 what is sent after them

A ping reserved whatever size it claimed, or 0, and leaked it; pongs and
unknown frames got to the callback as data; a close without status waited for
one or read it unmasked with an undefined mask, and its reason was left unread
so that the client got a reset instead of the answer; and what the callback
wrote after any of them, or after a continuation frame, used their opcode.
---
 src/onion/websocket.c | 93 +++++++++++++++++++++++++++++++++----------
 1 file changed, 71 insertions(+), 22 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index e694088..0239331 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -451,8 +451,70 @@ static int onion_websocket_read_all(onion_websocket * ws, char *data,
   return 0;
 }
 
+/**
+ * @short Sends a control frame; next data goes with the same opcode as before.
+ */
+static void onion_websocket_write_control(onion_websocket * ws,
+                                          onion_websocket_opcode opcode,
+                                          const char *data, size_t len) {
+  onion_websocket_opcode data_opcode = ws->opcode;
+  ws->opcode = opcode;
+  onion_websocket_write(ws, data, len);
+  ws->opcode = data_opcode;
+}
+
+/**
+ * @short The client sent something invalid: say it and close.
+ */
+static onion_connection_status
+onion_websocket_protocol_error(onion_websocket * ws) {
+  ONION_ERROR("Invalid websocket frame, closing.");
+  onion_websocket_close(ws, "\x03\xEA");        // 1002, protocol error
+  ws->data_left = 0;
+  ws->flags |= WS_CLOSED;
+  return OCS_CLOSE_CONNECTION;
+}
+
+/**
+ * @short Reads the rest of a control frame, and answers it.
+ */
+static onion_connection_status
+onion_websocket_control_frame(onion_websocket * ws, int opcode) {
+  char data[125];               // Max size of control frames, RFC6455 5.5
+  size_t len = ws->data_left, i;
+  if (len > sizeof(data) || !(ws->flags & WS_FIN))
+    return onion_websocket_protocol_error(ws);
+  ws->data_left = 0;
+  if (onion_websocket_read_all(ws, data, len) < 0) {
+    ONION_DEBUG("Error reading control frame");
+    return OCS_CLOSE_CONNECTION;
+  }
+  if (ws->flags & WS_MASK)
+    for (i = 0; i < len; i++)
+      data[i] ^= ws->mask[i & 3];
+
+  switch (opcode) {
+  case OWS_PING:               // I do answer ping myself.
+    onion_websocket_write_control(ws, OWS_PONG, data, len);
+    return OCS_PROCESSED;
+  case OWS_PONG:
+    return OCS_PROCESSED;
+  case OWS_CONNECTION_CLOSE:   // Closing connection
+    if (len == 1)
+      return onion_websocket_protocol_error(ws);
+    ONION_DEBUG("Connection closed by client");
+    onion_websocket_write_control(ws, OWS_CONNECTION_CLOSE, data, len ? 2 : 0); // The status, if any
+    ws->flags |= WS_CLOSED;
+    return OCS_CLOSE_CONNECTION;
+  }
+  return onion_websocket_protocol_error(ws);
+}
+
 /**
  * @short Reads a packet header.
+ *
+ * @returns OCS_NEED_MORE_DATA if there is a data frame to read now, OCS_PROCESSED if it was a control frame that
+ *          needs nothing else, or <0 on close.
  */
 static onion_connection_status
 onion_websocket_read_packet_header(onion_websocket * ws) {
@@ -481,7 +543,9 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     ws->flags |= WS_FIN;
   if (tmp[1] & 0x80)
     ws->flags |= WS_MASK;
-  ws->opcode = tmp[0] & 0x0F;
+  int opcode = tmp[0] & 0x0F;
+  if (opcode == OWS_TEXT || opcode == OWS_BINARY)       // else goes on with the previous, or is a control frame.
+    ws->opcode = opcode;
   ws->data_left = tmp[1] & 0x7F;
   if (ws->data_left == 126) {
     if (onion_websocket_read_all(ws, tmp, 2) < 0) {
@@ -516,27 +580,10 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     ws->mask_pos = 0;
   }
 
-  if (ws->opcode == OWS_PING) { // I do answer ping myself.
-    onion_websocket_set_opcode(ws, OWS_PONG);
-    char *data = onion_low_scalar_malloc(ws->data_left);
-    ssize_t r = onion_websocket_read(ws, data, ws->data_left);
-
-    onion_websocket_write(ws, data, r);
-  }
-  if (ws->opcode == OWS_CONNECTION_CLOSE) {     // Closing connection
-    r = (*lpreader) (ws->req, tmp, 2);
-    if (r != 2) {
-      ONION_DEBUG("Error reading status code");
-      return OCS_CLOSE_CONNECTION;
-    }
-    char status[2];
-    status[0] = utmp[0] ^ ws->mask[0];
-    status[1] = utmp[1] ^ ws->mask[1];
-    ONION_DEBUG("Connection closed by client, status=%u",
-                (status[0] << 8) + status[1]);
-    onion_websocket_close(ws, (const char *)&status);
-    return OCS_CLOSE_CONNECTION;
-  }
+  if (opcode >= OWS_CONNECTION_CLOSE)
+    return onion_websocket_control_frame(ws, opcode);
+  if (opcode > OWS_BINARY)
+    return onion_websocket_protocol_error(ws);
   return OCS_NEED_MORE_DATA;
   //ONION_DEBUG("Mask %02X %02X %02X %02X", ws->mask[0]&0x0FF, ws->mask[1]&0x0FF, ws->mask[2]&0x0FF, ws->mask[3]&0x0FF);
 }
@@ -569,6 +616,8 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
             ONION_ERROR("Error reading websocket header (%i)", err);
           return err;
         }
+        if (err == OCS_PROCESSED)       // Nothing for the callback
+          continue;
       }
 
       size_t last_d_l;
-- 
2.43.0


From e5916a8c0497768c818d060c704bb260a1d9f58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:51 +0000
Subject: [PATCH 058/123] fix: websocket data was sent after the close frame,
 or after half a frame

Nothing is allowed after the close frame (RFC 6455, 5.5.1), and after a failed
write it would be taken as the data that is missing.
---
 src/onion/websocket.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 0239331..17f509e 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -44,6 +44,7 @@ enum onion_websocket_flags_e {
   WS_FIN = 1,
   WS_MASK = 2,
   WS_CLOSED = 4,                /// Nothing more can be read: closed by the client, or the stream is broken.
+  WS_CLOSE_SENT = 8,            /// Nothing more can be written: the close frame was sent, or the stream is broken.
 };
 
 // signature of writer in listen point.
@@ -183,8 +184,10 @@ static int onion_websocket_write_all(onion_websocket * ws, const char *data,
   lpwriter_sig_t *lpwriter = ws->req->connection.listen_point->write;
   while (len > 0) {
     ssize_t w = (*lpwriter) (ws->req, data, len);
-    if (w <= 0)
+    if (w <= 0) {
+      ws->flags |= WS_CLOSED | WS_CLOSE_SENT;
       return -1;
+    }
     data += w;
     len -= w;
   }
@@ -213,6 +216,12 @@ int onion_websocket_write(onion_websocket * ws, const char *buffer, size_t _len)
     ONION_DEBUG("no listen point writer for websocket@%p", ws);
     return -1;
   }
+  if (ws->flags & WS_CLOSE_SENT) {
+    ONION_DEBUG("Can not write, websocket@%p is already closed", ws);
+    return -1;
+  }
+  if (ws->opcode == OWS_CONNECTION_CLOSE)
+    ws->flags |= WS_CLOSE_SENT;
   //ONION_DEBUG("Write %d bytes",len);
   {
     char header[16];
@@ -538,7 +547,7 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
     return OCS_CLOSE_CONNECTION;
   }
 
-  ws->flags = 0;
+  ws->flags &= ~(WS_FIN | WS_MASK);
   if (tmp[0] & 0x80)
     ws->flags |= WS_FIN;
   if (tmp[1] & 0x80)
-- 
2.43.0


From 81efb1647b4b4e01830400f5f4da93c0a83e72d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:51 +0000
Subject: [PATCH 059/123] fix: websocket callbacks were called again after
 asking to close

If there was data left to read, what the callback returned was ignored.
---
 src/onion/websocket.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index 17f509e..d852094 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -611,7 +611,9 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
       pfd.fd = ws->req->connection.fd;
       //ONION_DEBUG("Wait for data");
       int r = poll(&pfd, 1, -1);
-      if (r == 0)
+      if (r < 0 && errno == EINTR)
+        continue;
+      if (r <= 0)
         return OCS_INTERNAL_ERROR;
       //ONION_DEBUG("waited for data fd %d -- res %d -- events %d", ws->req->fd, r, pfd.events);
     } else
@@ -633,7 +635,9 @@ onion_connection_status onion_websocket_call(onion_websocket * ws) {
       do {
         last_d_l = ws->data_left;
         ret = ws->callback(ws->user_data, ws, ws->data_left);
-      } while (ws->data_left != 0 && last_d_l != ws->data_left && ws->callback);
+      } while (ret == OCS_NEED_MORE_DATA && ws->data_left != 0
+               && last_d_l != ws->data_left && ws->callback
+               && !(ws->flags & WS_CLOSED));
     }
 
     if (!ws->callback || (ws->flags & WS_CLOSED))       // ws->callback can change ws->callback, so another test, not else.
-- 
2.43.0


From d7ebbfa6e6ae844f1eabf82b7a15780efbd839a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:32 +0000
Subject: [PATCH 060/123] fix: a long Range header on a file request overflowed
 the stack

It was added to the etag with no room for it. The etag identifies the file,
whatever the part of it that is asked for, so it does not belong there.
---
 src/onion/shortcuts.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 860a2be..2c1a1bb 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -197,9 +197,6 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   onion_shortcut_etag(&st, etag);
 
   const char *range = onion_request_get_header(request, "Range");
-  if (range) {
-    strncat(etag, range, sizeof(etag) - 1);
-  }
   onion_response_set_header(res, "Etag", etag);
 
   if (range && strncmp(range, "bytes=", 6) == 0) {
-- 
2.43.0


From 03a898a08e80b0f9c1f31692e0d6e6371ff75cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:32 +0000
Subject: [PATCH 061/123] fix: file ranges out of the file, of its last bytes
 or malformed gave wrong answers

Ranges were not cut at the end of the file, so that more data than there is was
promised, and then it waited for it forever; ranges of the last n bytes,
several ranges and malformed ones gave other bytes, or all of them as partial
content; and big positions were shown as negative.
---
 src/onion/shortcuts.c | 94 ++++++++++++++++++++++++++-----------------
 1 file changed, 57 insertions(+), 37 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 2c1a1bb..f7cfe28 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -33,6 +33,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <time.h>
+#include <ctype.h>
 #include <errno.h>
 #ifdef USE_SENDFILE
 #include <sys/sendfile.h>
@@ -137,6 +138,44 @@ onion_connection_status onion_shortcut_internal_redirect(const char *newurl,
                               root_handler, req, res);
 }
 
+/**
+ * @short Parses a single range of bytes: first-last, first- or -length
+ *
+ * Anything else, as several ranges, is to be ignored: the full file is a right answer.
+ *
+ * @returns 1 if it is a range; it can be satisfied if starts<=ends and starts<length.
+ */
+static int onion_shortcut_parse_range(const char *range, size_t length,
+                                      size_t * starts, size_t * ends) {
+  if (strncmp(range, "bytes=", 6) != 0)
+    return 0;
+  range += 6;
+  char *end;
+  if (range[0] == '-' && isdigit((unsigned char)range[1])) {    // The last n bytes
+    size_t last = strtoul(range + 1, &end, 10);
+    *starts = last < length ? length - last : 0;
+    if (last == 0)
+      *starts = length;         // Nothing at all, not satisfiable
+    *ends = length - 1;
+    return *end == 0;
+  }
+  if (!isdigit((unsigned char)range[0]))
+    return 0;
+  *starts = strtoul(range, &end, 10);
+  if (*end != '-')
+    return 0;
+  range = end + 1;
+  *ends = length - 1;
+  if (*range == 0)
+    return 1;
+  if (!isdigit((unsigned char)range[0]))
+    return 0;
+  size_t last = strtoul(range, &end, 10);
+  if (last < *ends || last < *starts)
+    *ends = last;
+  return *end == 0;
+}
+
 /**
  * @short This shortcut returns the given file contents.
  * @ingroup shortcuts
@@ -199,46 +238,27 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   const char *range = onion_request_get_header(request, "Range");
   onion_response_set_header(res, "Etag", etag);
 
-  if (range && strncmp(range, "bytes=", 6) == 0) {
-    onion_response_set_code(res, HTTP_PARTIAL_CONTENT);
+  size_t ends, starts;
+  if (range && onion_shortcut_parse_range(range, length, &starts, &ends)) {
     //ONION_DEBUG("Need just a range: %s",range);
-    char tmp[1024];
-    if (strlen(range + 6) >= sizeof(tmp)) {
-      close(fd);
-      return OCS_INTERNAL_ERROR;        // Bad specified range. Very bad indeed.
-    }
-    strncpy(tmp, range + 6, sizeof(tmp) - 1);
-    char *start = tmp;
-    char *end = tmp;
-    while (*end != '-' && *end)
-      end++;
-    if (*end == '-') {
-      *end = '\0';
-      end++;
-
-      //ONION_DEBUG("Start %s, end %s",start,end);
-      size_t ends, starts;
-      if (*end)
-        ends = atol(end);
-      else
-        ends = length - 1;
-      starts = atol(start);
-      if (starts > ends || starts > length) {
-        ONION_DEBUG0("Range not satisfiable");
-        snprintf(tmp, sizeof(tmp), "bytes */%d", (unsigned int)length);
-        onion_response_set_header(res, "Content-Range", tmp);
-        onion_response_set_code(res, HTTP_RANGE_NOT_SATISFIABLE);
-        onion_response_write_headers(res);
-        close(fd);
-        return OCS_PROCESSED;
-      }
-      length = ends - starts + 1;
-      lseek(fd, starts, SEEK_SET);
-      snprintf(tmp, sizeof(tmp), "bytes %d-%d/%d", (unsigned int)starts,
-               (unsigned int)ends, (unsigned int)st.st_size);
-      //onion_response_set_header(res, "Accept-Ranges","bytes");
+    char tmp[128];
+    if (starts > ends || starts >= length) {
+      ONION_DEBUG0("Range not satisfiable");
+      snprintf(tmp, sizeof(tmp), "bytes */%zu", length);
       onion_response_set_header(res, "Content-Range", tmp);
+      onion_response_set_code(res, HTTP_RANGE_NOT_SATISFIABLE);
+      onion_response_set_length(res, 0);
+      onion_response_write_headers(res);
+      close(fd);
+      return OCS_PROCESSED;
     }
+    onion_response_set_code(res, HTTP_PARTIAL_CONTENT);
+    length = ends - starts + 1;
+    lseek(fd, starts, SEEK_SET);
+    snprintf(tmp, sizeof(tmp), "bytes %zu-%zu/%zu", starts, ends,
+             (size_t) st.st_size);
+    //onion_response_set_header(res, "Accept-Ranges","bytes");
+    onion_response_set_header(res, "Content-Range", tmp);
   }
 
   onion_response_set_length(res, length);
-- 
2.43.0


From 1cee3a8cbe2f401b580805d786b0f82f5df7f31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:54 +0000
Subject: [PATCH 062/123] fix: serving a file that gets shorter, or that is
 read or sent in parts

If the file was shorter than when it was asked for its size, it tried to read
the rest forever. Short reads or sends lost data, and when sendfile failed the
internal error page was sent as if it was part of the file.
---
 src/onion/shortcuts.c | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index f7cfe28..2fd3464 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -285,13 +285,16 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
     if (use_sendfile && request->connection.listen_point->write == (void *)onion_http_write) {  // Lets have a house party! I can use sendfile!
       onion_response_write(res, NULL, 0);
       ONION_DEBUG("Using sendfile");
-      int r = sendfile(request->connection.fd, fd, NULL, length);
-      ONION_DEBUG("Wrote %d, should be %d (%s)", r, length,
-                  r == length ? "ok" : "nok");
-      if (r != length || r < 0) {
-        ONION_ERROR("Could not send all file (%s)", strerror(errno));
-        close(fd);
-        return OCS_INTERNAL_ERROR;
+      size_t left = length;
+      while (left > 0) {        // It may send just some part
+        ssize_t r = sendfile(request->connection.fd, fd, NULL, left);
+        if (r <= 0) {
+          ONION_ERROR("Could not send all file (%s)",
+                      r < 0 ? strerror(errno) : "it is shorter now");
+          close(fd);
+          return OCS_CLOSE_CONNECTION;  // Headers are already there, no way to say the error.
+        }
+        left -= r;
       }
       res->sent_bytes += length;
       res->sent_bytes_total += length;
@@ -301,29 +304,21 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
       int r = 0, w;
       size_t tr = 0;
       char tmp[4046];
-      if (length > sizeof(tmp)) {
-        size_t max = length - sizeof(tmp);
-        while (tr < max) {
-          r = read(fd, tmp, sizeof(tmp));
-          tr += r;
-          if (r < 0)
-            break;
-          w = onion_response_write(res, tmp, r);
-          if (w != r) {
-            ONION_ERROR
-                ("Wrote less than read: write %d, read %d. Quite probably closed connection.",
-                 w, r);
-            break;
-          }
+      while (tr < length) {
+        r = read(fd, tmp,
+                 length - tr < sizeof(tmp) ? length - tr : sizeof(tmp));
+        if (r <= 0) {
+          ONION_ERROR("Could not read all the file (%s)",
+                      r < 0 ? strerror(errno) : "it is shorter now");
+          break;
         }
-      }
-      if (sizeof(tmp) >= (length - tr)) {
-        r = read(fd, tmp, length - tr);
+        tr += r;
         w = onion_response_write(res, tmp, r);
         if (w != r) {
           ONION_ERROR
               ("Wrote less than read: write %d, read %d. Quite probably closed connection.",
                w, r);
+          break;
         }
       }
     }
-- 
2.43.0


From d6e3e2690ad7b4a0a94fdf2fbb22e0f61c7fee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:54 +0000
Subject: [PATCH 063/123] fix: a file replaced while it was being served could
 mix two files

The size and the etag were asked again by name, instead of those of the file
that was opened.
---
 src/onion/shortcuts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 2fd3464..0a86aa4 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -215,7 +215,7 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   }
 
   struct stat st;
-  if (stat(filename, &st) != 0) {
+  if (fstat(fd, &st) != 0) {    // What was opened, even if now there is another file with that name
     ONION_WARNING("File does not exist: %s", filename);
     close(fd);
     return OCS_NOT_PROCESSED;
-- 
2.43.0


From 8e2c6b9170f99cec51c85f7bab739eaf48748fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:54 +0000
Subject: [PATCH 064/123] fix: date strings used the date itself as the size of
 the buffer

---
 src/onion/shortcuts.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 0a86aa4..d7b18fa 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -360,7 +360,8 @@ onion_connection_status onion_shortcut_response_json(onion_dict * d,
 void onion_shortcut_date_string(time_t t, char *dest) {
   struct tm ts;
   gmtime_r(&t, &ts);
-  strftime(dest, t, "%a, %d %b %Y %T %Z", &ts);
+  if (strftime(dest, 32, "%a, %d %b %Y %T %Z", &ts) == 0)
+    dest[0] = '\0';             // Does not fit
 }
 
 /**
@@ -372,7 +373,8 @@ void onion_shortcut_date_string(time_t t, char *dest) {
 void onion_shortcut_date_string_iso(time_t t, char *dest) {
   struct tm ts;
   gmtime_r(&t, &ts);
-  strftime(dest, t, "%FT%TZ", &ts);
+  if (strftime(dest, 21, "%FT%TZ", &ts) == 0)
+    dest[0] = '\0';             // Does not fit
 }
 
 /**
-- 
2.43.0


From f9ca2e4dec01b0a5ff913db24e8f7d2d93038ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:53 +0000
Subject: [PATCH 065/123] fix: exported directories also served others whose
 name starts the same

With /srv/files exported, /../files-private/ was served too, as only the start
of the resolved name was checked.
---
 src/onion/handlers/exportlocal.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index df4051b..3850b72 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -89,10 +89,12 @@ int onion_handler_export_local_handler(onion_handler_export_local_data * d,
   }
 
   const char *ret = realpath(tmp, realp);
-  if (!ret || strncmp(realp, d->localpath, strlen(d->localpath)) != 0) {        // out of secured dir.
+  size_t l = strlen(d->localpath);
+  if (!ret || strncmp(realp, d->localpath, l) != 0
+      || (realp[l] != '\0' && realp[l] != '/' && d->localpath[l - 1] != '/')) { // out of secured dir.
     ONION_WARNING
         ("Trying to escape from secured dir (secured dir %s, trying %s).",
-         d->localpath, realp);
+         d->localpath, ret ? realp : tmp);
     return 0;
   }
 
-- 
2.43.0


From eae51c3fbe9230797f07bc1953b99b7335cf60a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:53 +0000
Subject: [PATCH 066/123] fix: exported directories served other files for too
 long paths

The path was cut at the longest possible one, and if there was such a file, it
was served.
---
 src/onion/handlers/exportlocal.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index 3850b72..565b25f 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -73,9 +73,11 @@ int onion_handler_export_local_handler(onion_handler_export_local_data * d,
       return OCS_INTERNAL_ERROR;
     }
     strncpy(tmp, d->localpath, PATH_MAX - 1);
-  } else
-    snprintf(tmp, PATH_MAX, "%s/%s", d->localpath,
-             onion_request_get_path(request));
+  } else if (snprintf(tmp, PATH_MAX, "%s/%s", d->localpath,
+                      onion_request_get_path(request)) >= PATH_MAX) {
+    ONION_DEBUG0("Path too long");
+    return 0;
+  }
 
   ONION_DEBUG0("Get %s (base %s)", tmp, d->localpath);
 
-- 
2.43.0


From fb9e761f24628b27a996e94e3e8922b552268e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:53 +0000
Subject: [PATCH 067/123] fix: directory listings were broken by file names,
 which could add markup

Names with quotes or backslashes broke the list, and the names of files and
directories could add any markup or script to the page. Links to names with
special characters did not work, and for files that could not be checked the
data was the one of the previous file. Also getpwuid is not thread safe.
---
 src/onion/handlers/exportlocal.c | 52 +++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index 565b25f..b6109c9 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -123,7 +123,9 @@ void onion_handler_export_local_header_default(onion_response * res,
                         " table a{ display: block; } th{ cursor: pointer} h1,h2{ color: black; text-align: center; } \n"
                         " a{ color: red; text-decoration: none; }</style>\n");
 
-  onion_response_printf(res, "<h1>Listing of directory %s</h1>\n", dirname);
+  onion_response_write0(res, "<h1>Listing of directory ");
+  onion_response_write_html_safe(res, dirname);
+  onion_response_write0(res, "</h1>\n");
 
   if (dirname[0] != '\0' && dirname[1] != '\0') // It will be 0, when showpath is "/"
     onion_response_write0(res, "<h2><a href=\"..\">Go up..</a></h2>\n");
@@ -136,6 +138,20 @@ void onion_handler_export_local_footer_default(onion_response * res,
                         "Under <a href=\"http://www.gnu.org/licenses/lgpl-3.0.html\">LGPL 3.0.</a> License.</h2>\n");
 }
 
+/**
+ * @short Writes the text so that it can be inside a JavaScript string in a page.
+ */
+static void onion_handler_export_local_write_js(onion_response * res,
+                                                const char *text) {
+  for (; *text; text++) {
+    unsigned char c = *text;
+    if (c < ' ' || strchr("'\"\\<>&", c))
+      onion_response_printf(res, "\\x%02x", c);
+    else
+      onion_response_write(res, text, 1);
+  }
+}
+
 /**
  * @short Returns the directory listing
  */
@@ -153,20 +169,23 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
                         "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Transitional//EN\" \"http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd\">\n"
                         "<html>\n"
                         " <head><meta content=\"text/html; charset=UTF-8\" http-equiv=\"content-type\"/>\n");
-  onion_response_printf(res, "<title>Directory listing of %s</title>\n",
-                        showpath);
+  onion_response_write0(res, "<title>Directory listing of ");
+  onion_response_write_html_safe(res, showpath);
   onion_response_write0(res,
-                        "</head>\n" " <body>\n" "<script>\n"
+                        "</title>\n</head>\n" " <body>\n" "<script>\n"
                         "showListing = function(){\n"
                         "	var q = function(t){\n"
-                        "		return t.replace('\"','%22')\n"
+                        "		return encodeURIComponent(t).replace(/%2F/g,'/')\n"
+                        "	}	\n"
+                        "	var s = function(t){\n"
+                        "		return t.replace(/&/g,'&amp;').replace(/</g,'&lt;').replace(/>/g,'&gt;')\n"
                         "	}	\n"
                         "	var t=document.getElementById('filebody')\n"
                         "  while ( t.childNodes.length >= 1 )\n"
                         "		t.removeChild( t.firstChild );       \n"
                         "	for (var i=0;i<files.length;i++){\n"
                         "		var f=files[i]\n"
-                        "		var h='<tr class=\"'+f[3]+'\"><td><a href=\"'+q(f[0])+'\">'+f[0]+'</a></td><td>'+f[1]+'</td><td>'+f[2]+'</td></tr>'\n"
+                        "		var h='<tr class=\"'+f[3]+'\"><td><a href=\"'+q(f[0])+'\">'+s(f[0])+'</a></td><td>'+f[1]+'</td><td>'+f[2]+'</td></tr>'\n"
                         "		t.innerHTML+=h\n"
                         "	}\n"
                         "}\n"
@@ -188,20 +207,25 @@ int onion_handler_export_local_directory(onion_handler_export_local_data * data,
 
   struct dirent *fi;
   struct stat st;
-  char temp[1024];
-  struct passwd *pwd;
+  char temp[PATH_MAX];
+  struct passwd *pwd, pwdbuf;
+  char pwdtmp[1024];
   while ((fi = readdir(dir)) != NULL) {
     if (fi->d_name[0] == '.')
       continue;
-    snprintf(temp, sizeof(temp), "%s/%s", realp, fi->d_name);
-    stat(temp, &st);
-    pwd = getpwuid(st.st_uid);
-
+    if (snprintf(temp, sizeof(temp), "%s/%s", realp, fi->d_name) >=
+        sizeof(temp) || stat(temp, &st) != 0)
+      memset(&st, 0, sizeof(st));       // Still listed, but nothing is known about it.
+    if (getpwuid_r(st.st_uid, &pwdbuf, pwdtmp, sizeof(pwdtmp), &pwd) != 0)
+      pwd = NULL;
+
+    onion_response_write0(res, "  ['");
+    onion_handler_export_local_write_js(res, fi->d_name);
     if (S_ISDIR(st.st_mode))
-      onion_response_printf(res, "  ['%s/',%ld,'%s','dir'],\n", fi->d_name,
+      onion_response_printf(res, "/',%ld,'%s','dir'],\n",
                             st.st_size, pwd ? pwd->pw_name : "???");
     else
-      onion_response_printf(res, "  ['%s',%ld,'%s','file'],\n", fi->d_name,
+      onion_response_printf(res, "',%ld,'%s','file'],\n",
                             st.st_size, pwd ? pwd->pw_name : "???");
   }
 
-- 
2.43.0


From 2fba97fa31268e4d98db3aeb5de12a1f2ea833bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:26 +0000
Subject: [PATCH 068/123] fix: webdav used another file when the path was
 longer than 511 bytes

The path was just cut there, and whatever it named was read, replaced or
deleted.
---
 src/onion/handlers/webdav.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 9298dd8..d85072b 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -111,9 +111,10 @@ onion_connection_status onion_webdav_handler(onion_webdav * wd,
   }
 #endif
 
-  char filename[512];
-  snprintf(filename, sizeof(filename), "%s/%s", wd->path,
-           onion_request_get_path(req));
+  char filename[PATH_MAX];
+  if (snprintf(filename, sizeof(filename), "%s/%s", wd->path,
+               onion_request_get_path(req)) >= sizeof(filename))
+    return onion_shortcut_response("Path too long", HTTP_FORBIDDEN, req, res);
 
   ONION_DEBUG("Check %s and %s", wd->path, filename);
   if (wd->check_permissions(wd->path, filename, req) != 0) {
-- 
2.43.0


From 76fb2ed003f807dba30c0b8fbd0e9c9e6d378f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:26 +0000
Subject: [PATCH 069/123] fix: webdav allowed access to directories whose name
 starts as the shared one

---
 src/onion/handlers/webdav.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index d85072b..d40442a 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -737,10 +737,12 @@ int onion_webdav_default_check_permissions(const char *exported_path,
     ONION_ERROR("Could not resolve real path for %s or %s", exported_path,
                 filename);
   }
-  if ((ret == 0) && strncmp(base, file, strlen(base)) != 0) {
+  size_t l = strlen(base);
+  if ((ret == 0) && (strncmp(base, file, l) != 0
+                     || (file[l] != '\0' && file[l] != '/'
+                         && base[l - 1] != '/'))) {
     ret = 1;
-    ONION_ERROR("Base %s is not for file %s (%p)", base, file,
-                strncmp(base, file, strlen(base)));
+    ONION_ERROR("Base %s is not for file %s", base, file);
   }
 
   if (base)
-- 
2.43.0


From 4b67ae4085754badf9708845ef66e1e9b5174238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:26 +0000
Subject: [PATCH 070/123] fix: webdav move did nothing, and said it did

It renamed the file to itself. The destination has to be decoded, can be just
a path, is to be checked as the orig is, and must not be replaced when the
client asks so.
---
 src/onion/handlers/webdav.c | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index d40442a..7d346ca 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -32,6 +32,7 @@
 #include <onion/block.h>
 #include <onion/shortcuts.h>
 #include <onion/low.h>
+#include <onion/codecs.h>
 
 #include "webdav.h"
 #include <string.h>
@@ -186,15 +187,22 @@ onion_connection_status onion_webdav_move(const char *filename,
   if (!dest)
     return OCS_INTERNAL_ERROR;
   const char *dest_orig = dest;
-  // Skip the http... part. Just 3 /.
-  int i;
-  for (i = 0; i < 3; i += (*dest++ == '/'))
-    if (*dest == 0)
-      return OCS_INTERNAL_ERROR;
-  dest--;
+  if (*dest != '/') {
+    // Skip the http... part. Just 3 /.
+    int i;
+    for (i = 0; i < 3; i += (*dest++ == '/'))
+      if (*dest == 0)
+        return OCS_INTERNAL_ERROR;
+    dest--;
+  }
+  if (strstr(dest, "%00"))
+    return onion_shortcut_response("Forbidden", HTTP_FORBIDDEN, req, res);
+  char *dest_path = alloca(strlen(dest) + 1);
+  strcpy(dest_path, dest);
+  onion_unquote_inplace(dest_path);
+  dest = dest_path;
 
   const char *fullpath = onion_request_get_fullpath(req);
-  const char *partialpath = onion_request_get_path(req);
   // Not the fixed URL part for this handler.
   int fpl = strlen(fullpath);   // Full path length
   int ppl = strlen(onion_request_get_path(req));        // Partial, the fullpath[fpl-ppl] is the end point of the handler path
@@ -210,14 +218,19 @@ onion_connection_status onion_webdav_move(const char *filename,
   }
   dest = &dest[fpl - ppl];
 
-  char orig[512];
-  snprintf(orig, sizeof(orig), "%s/%s", wd->path, partialpath);
+  const char *orig = filename;  // Permissions already checked
+  char fdest[PATH_MAX];
+  if (snprintf(fdest, sizeof(fdest), "%s/%s", wd->path, dest) >= sizeof(fdest))
+    return onion_shortcut_response("Path too long", HTTP_FORBIDDEN, req, res);
 
-  if (wd->check_permissions(wd->path, orig, req) != 0) {
+  if (wd->check_permissions(wd->path, fdest, req) != 0) {
     return onion_shortcut_response("Forbidden", HTTP_FORBIDDEN, req, res);
   }
 
-  const char *fdest = filename;
+  const char *overwrite = onion_request_get_header(req, "Overwrite");
+  struct stat st;
+  if (overwrite && strcasecmp(overwrite, "F") == 0 && lstat(fdest, &st) == 0)
+    return onion_shortcut_response("Already exists", 412, req, res);
 
   ONION_INFO("Move %s to %s (webdav)", fullpath, dest_orig);
 
-- 
2.43.0


From c22d2aeed3e28f62dc2da1902c896c5410678031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:26 +0000
Subject: [PATCH 071/123] fix: webdav crashed on a PUT with no content

---
 src/onion/handlers/webdav.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 7d346ca..a79a0e4 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -270,7 +270,11 @@ onion_connection_status onion_webdav_put(const char *filename,
                                          onion_response * res) {
   ONION_DEBUG("Webdav puts %s", filename);
 
-  const char *tmpfile = onion_block_data(onion_request_get_data(req));
+  const onion_block *data = onion_request_get_data(req);
+  if (!data)                    // Not even empty content
+    return onion_shortcut_response("Missing content", HTTP_BAD_REQUEST, req,
+                                   res);
+  const char *tmpfile = onion_block_data(data);
 
   int ok = onion_shortcut_rename(tmpfile, filename);
 
-- 
2.43.0


From fc59b7db87e08c067c0341ca2d13023f65ddf088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:26 +0000
Subject: [PATCH 072/123] fix: webdav crashed on property requests with no
 content or CDATA

Not all the XML nodes have a name or children. A request with no content is
valid, and means all properties; one that is not XML was taken as if it asked
for some of them. The executable flag was set from undefined data when the file
did not exist, and said to be set when it was not.
---
 src/onion/handlers/webdav.c | 42 ++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index a79a0e4..243de64 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -61,6 +61,7 @@ enum onion_webdav_props_e {
   WD_CONTENT_TYPE = (1 << 5),
   WD_DISPLAY_NAME = (1 << 6),
   WD_EXECUTABLE = (1 << 7),
+  WD_ALL = (1 << 8) - 1,
 };
 
 typedef enum onion_webdav_props_e onion_webdav_props;
@@ -308,6 +309,12 @@ onion_connection_status onion_webdav_options(const char *filename,
   return OCS_PROCESSED;
 }
 
+/// Whether it is an element with that name; other nodes may have no name at all.
+static int is_element(const xmlNode * node, const char *name) {
+  return node->type == XML_ELEMENT_NODE
+      && strcmp((const char *)node->name, name) == 0;
+}
+
 /**
  * @short Returns the set of props for this query
  * 
@@ -315,6 +322,8 @@ onion_connection_status onion_webdav_options(const char *filename,
  * 
  */
 static int onion_webdav_parse_propfind(const onion_block * block) {
+  if (!block || onion_block_size(block) == 0)   // No content means all the properties
+    return WD_ALL;
   // For parsing the data
   xmlDocPtr doc;
   doc =
@@ -322,20 +331,22 @@ static int onion_webdav_parse_propfind(const onion_block * block) {
 
   if (doc == NULL) {
     ONION_ERROR("Error: unable to parse OPTIONS");
-    return OCS_INTERNAL_ERROR;
+    return -1;
   }
 
   int props = 0;
   xmlNode *root = NULL;
   root = xmlDocGetRootElement(doc);
   while (root) {
-    if (strcmp((const char *)root->name, "propfind") == 0) {
+    if (is_element(root, "propfind")) {
       xmlNode *propfind = root->children;
       while (propfind) {
-        if (strcmp((const char *)propfind->name, "prop") == 0) {
+        if (is_element(propfind, "allprop"))
+          props = WD_ALL;
+        if (is_element(propfind, "prop")) {
           xmlNode *prop = propfind->children;
           while (prop) {
-            if (strcmp((const char *)prop->name, "text") == 0)  // ignore
+            if (prop->type != XML_ELEMENT_NODE) // ignore
               ;
             else if (strcmp((const char *)prop->name, "resourcetype") == 0)
               props |= WD_RESOURCE_TYPE;
@@ -615,6 +626,8 @@ onion_connection_status onion_webdav_propfind(const char *filename,
   }
 
   int props = onion_webdav_parse_propfind(onion_request_get_data(req));
+  if (props < 0)
+    return onion_shortcut_response("Bad request", HTTP_BAD_REQUEST, req, res);
   ONION_DEBUG("Asking for props %08X, depth %d", props, depth);
 
   onion_block *block = onion_webdav_write_propfind(basepath, filename,
@@ -660,31 +673,32 @@ onion_connection_status onion_webdav_proppatch(const char *filename,
 
   while (root) {
     ONION_DEBUG("%s", root->name);
-    if (strcmp((const char *)root->name, "propertyupdate") == 0) {
+    if (is_element(root, "propertyupdate")) {
       xmlNode *propertyupdate = root->children;
       while (propertyupdate) {
         ONION_DEBUG("%s", propertyupdate->name);
-        if (strcmp((const char *)propertyupdate->name, "set") == 0) {
+        if (is_element(propertyupdate, "set")) {
           xmlNode *set = propertyupdate->children;
           while (set) {
             ONION_DEBUG("%s", set->name);
-            if (strcmp((const char *)set->name, "prop") == 0) {
+            if (is_element(set, "prop")) {
               ONION_DEBUG("in prop");
               xmlNode *prop = set->children;
               while (prop) {
                 ONION_DEBUG("prop %s", prop->name);
-                if (strcmp((const char *)prop->name, "executable") == 0) {
+                struct stat st;
+                if (is_element(prop, "executable") && prop->children
+                    && prop->children->content && stat(filename, &st) == 0) {
                   ONION_DEBUG("Setting executable %s", prop->children->content);
-                  struct stat st;
-                  stat(filename, &st);
+                  int mode;
                   if (prop->children->content[0] == 'T'
                       || prop->children->content[0] == 't') {
-                    chmod(filename, st.st_mode | S_IXUSR | S_IXGRP | S_IXOTH);
+                    mode = st.st_mode | S_IXUSR | S_IXGRP | S_IXOTH;
                   } else {
-                    chmod(filename,
-                          st.st_mode & ~(S_IXUSR | S_IXGRP | S_IXOTH));
+                    mode = st.st_mode & ~(S_IXUSR | S_IXGRP | S_IXOTH);
                   }
-                  ok = 1;
+                  if (chmod(filename, mode & 07777) == 0)
+                    ok = 1;
                 }
                 prop = prop->next;
               }
-- 
2.43.0


From 8779cb058c7a0fc1f513f31b28e42a8346edc14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:26 +0000
Subject: [PATCH 073/123] fix: webdav property answers named other resources
 than the asked ones

The names were not quoted as URLs, so that those with special characters were
not right, or were another one. The path of the handler got mixed with the
first character of the path, or written out of bounds, and / was doubled.
---
 src/onion/handlers/webdav.c | 71 ++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 24 deletions(-)

diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 243de64..8faec8b 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -384,6 +384,25 @@ static int onion_webdav_parse_propfind(const onion_block * block) {
   return props;
 }
 
+/**
+ * @short Adds a path to the block, as it has to be in an URL
+ */
+static void onion_webdav_add_quoted(onion_block * block, const char *path,
+                                    size_t len) {
+  static const char hex[] = "0123456789ABCDEF";
+  for (; len > 0; len--, path++) {
+    unsigned char c = *path;
+    if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
+        || (c >= '0' && c <= '9') || strchr("/-_.~", c))
+      onion_block_add_char(block, c);
+    else {
+      onion_block_add_char(block, '%');
+      onion_block_add_char(block, hex[c >> 4]);
+      onion_block_add_char(block, hex[c & 0x0F]);
+    }
+  }
+}
+
 /**
  * @short Write the properties of a path.
  * 
@@ -406,14 +425,17 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
               realpath, urlpath, filename, basepath);
   // Stat the thing itself
   char tmp[PATH_MAX];
-  if (filename)
-    snprintf(tmp, sizeof(tmp), "%s/%s", realpath, filename);
-  else {
+  if (filename) {
+    if (snprintf(tmp, sizeof(tmp), "%s/%s", realpath, filename) >= sizeof(tmp)) {
+      ONION_ERROR("File path too long");
+      return 1;
+    }
+  } else {
     if (strlen(realpath) >= sizeof(tmp) - 1) {
       ONION_ERROR("File path too long");
       return 1;
     }
-    strncpy(tmp, realpath, sizeof(tmp) - 1);
+    strcpy(tmp, realpath);
   }
   struct stat st;
   if (stat(tmp, &st) < 0) {
@@ -422,22 +444,22 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
   }
   while (*urlpath == '/')       // No / at the begining.
     urlpath++;
-
+  int urlpathlen = strlen(urlpath);
+  while (urlpathlen > 0 && urlpath[urlpathlen - 1] == '/')      // Nor at the end
+    urlpathlen--;
+
+  onion_block *href = onion_block_new();
+  onion_webdav_add_quoted(href, basepath, strlen(basepath));
+  onion_block_add_char(href, '/');
+  onion_webdav_add_quoted(href, urlpath, urlpathlen);
   if (filename) {
-    if (urlpath[0] == 0)
-      snprintf(tmp, sizeof(tmp), "%s/%s", basepath, filename);
-    else
-      snprintf(tmp, sizeof(tmp), "%s/%s/%s", basepath, urlpath, filename);
-  } else {
-    if (urlpath[0] == 0)
-      snprintf(tmp, sizeof(tmp), "%s/", basepath);
-    else {
-      snprintf(tmp, sizeof(tmp), "%s/%s", basepath, urlpath);
-    }
+    if (urlpathlen)
+      onion_block_add_char(href, '/');
+    onion_webdav_add_quoted(href, filename, strlen(filename));
   }
-  if (S_ISDIR(st.st_mode) && urlpath[0] != 0)
-    strncat(tmp, "/", sizeof(tmp) - 1);
-  ONION_DEBUG0("Props for %s", tmp);
+  if (S_ISDIR(st.st_mode) && (urlpathlen || filename))
+    onion_block_add_char(href, '/');
+  ONION_DEBUG0("Props for %s", onion_block_data(href));
 
   xmlTextWriterStartElement(writer, BAD_CAST "D:response");
   xmlTextWriterWriteAttribute(writer, BAD_CAST "xmlns:lp1", BAD_CAST "DAV:");
@@ -445,7 +467,9 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
   xmlTextWriterWriteAttribute(writer, BAD_CAST "xmlns:a",
                               BAD_CAST "http://apache.org/dav/props/");
 
-  xmlTextWriterWriteElement(writer, BAD_CAST "D:href", BAD_CAST tmp);
+  xmlTextWriterWriteElement(writer, BAD_CAST "D:href",
+                            BAD_CAST onion_block_data(href));
+  onion_block_free(href);
 
   /// OK
   xmlTextWriterStartElement(writer, BAD_CAST "D:propstat");
@@ -471,7 +495,7 @@ int onion_webdav_write_props(xmlTextWriterPtr writer, const char *basepath,
                               BAD_CAST time);
   }
   if (props & WD_CONTENT_LENGTH && !S_ISDIR(st.st_mode)) {
-    snprintf(tmp, sizeof(tmp), "%d", (int)st.st_size);
+    snprintf(tmp, sizeof(tmp), "%lld", (long long)st.st_size);
     xmlTextWriterWriteElement(writer, BAD_CAST "lp1:getcontentlength",
                               BAD_CAST tmp);
   }
@@ -604,11 +628,10 @@ onion_connection_status onion_webdav_propfind(const char *filename,
   const char *fullpath = onion_request_get_fullpath(req);
   pathlen = (current_path - fullpath);
   basepath = alloca(pathlen + 1);
-  memcpy(basepath, fullpath, pathlen + 1);
-  ONION_DEBUG0("Pathbase initial <%s> %d", basepath, pathlen);
-  while (basepath[pathlen] == '/' && pathlen > 0)
+  memcpy(basepath, fullpath, pathlen);
+  while (pathlen > 0 && basepath[pathlen - 1] == '/')
     pathlen--;
-  basepath[pathlen + 1] = 0;
+  basepath[pathlen] = 0;
 
   ONION_DEBUG0("PROPFIND; pathbase %s", basepath);
   int depth;
-- 
2.43.0


From 705836f6537235dc452e0ba251752e5a9d2fe3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:26 +0000
Subject: [PATCH 074/123] fix: moving a file to another filesystem could lose
 it

The original was removed even when the copy failed or was incomplete, the
destination was left with whatever could be copied, and short writes lost data.
---
 src/onion/shortcuts.c | 55 ++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index d7b18fa..9208651 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -33,6 +33,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <time.h>
+#include <limits.h>
 #include <ctype.h>
 #include <errno.h>
 #ifdef USE_SENDFILE
@@ -401,37 +402,49 @@ int onion_shortcut_rename(const char *orig, const char *dest) {
 
   if (ok != 0 && errno == EXDEV) {      // Ok, old way, open both, copy
     ONION_DEBUG0("Slow cp, as tmp is in another FS");
-    ok = 0;
-    int fd_orig = open(orig, O_RDONLY);
-    if (fd_orig < 0) {
-      ok = 1;
+    ok = 1;
+    // Copied with another name, so that dest is only touched when all is ok.
+    char tmpdest[PATH_MAX];
+    struct stat st;
+    int fd_dest = -1;
+    int fd_orig = open(orig, O_RDONLY | O_CLOEXEC);
+    if (fd_orig < 0 || fstat(fd_orig, &st) != 0)
       ONION_ERROR("Could not open orig for reading (%s)", strerror(errno));
-    }
-    int fd_dest = open(dest, O_WRONLY | O_CREAT | O_TRUNC, 0666);
-    if (fd_dest < 0) {
-      ok = 1;
+    else if (snprintf(tmpdest, sizeof(tmpdest), "%s.XXXXXX", dest) >=
+             sizeof(tmpdest)
+             || (fd_dest = mkstemp(tmpdest)) < 0)
       ONION_ERROR("Could not open destination for writing (%s)",
                   strerror(errno));
-    }
-    if (ok == 0) {
+    else {
       char tmp[4096];
-      int r;
+      ssize_t r, w = 0;
       while ((r = read(fd_orig, tmp, sizeof(tmp))) > 0) {
-        r = write(fd_dest, tmp, r);
-        if (r < 0) {
-          ONION_ERROR("Error writing to destination file (%s)",
-                      strerror(errno));
-          ok = 1;
+        ssize_t pos;
+        for (pos = 0; pos < r; pos += w)
+          if ((w = write(fd_dest, tmp + pos, r - pos)) <= 0)
+            break;
+        if (w <= 0)
           break;
-        }
       }
+      if (r != 0 || fchmod(fd_dest, st.st_mode & 07777) != 0)
+        ONION_ERROR("Error copying to destination file (%s)", strerror(errno));
+      else
+        ok = 0;
     }
-    if (fd_orig >= 0) {
+    if (fd_orig >= 0)
       close(fd_orig);
-      unlink(orig);
+    if (fd_dest >= 0) {
+      if (close(fd_dest) != 0)
+        ok = 1;
+      if (ok == 0 && rename(tmpdest, dest) != 0) {
+        ONION_ERROR("Could not set destination file (%s)", strerror(errno));
+        ok = 1;
+      }
+      if (ok != 0)
+        unlink(tmpdest);
+      else
+        unlink(orig);
     }
-    if (fd_dest >= 0)
-      close(fd_dest);
   }
   return ok;
 }
-- 
2.43.0


From b930cd7d9c1cf1cd46abbcbeed5ed1327ce0ebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:34 +0000
Subject: [PATCH 075/123] fix: an unsatisfiable range was answered before a
 matching validator

---
 src/onion/shortcuts.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 9208651..55b7329 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -239,6 +239,17 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   const char *range = onion_request_get_header(request, "Range");
   onion_response_set_header(res, "Etag", etag);
 
+  ONION_DEBUG0("Etag %s", etag);
+  const char *prev_etag = onion_request_get_header(request, "If-None-Match");
+  if (prev_etag && (strcmp(prev_etag, etag) == 0)) {
+    ONION_DEBUG0("Not modified");
+    onion_response_set_length(res, 0);
+    onion_response_set_code(res, HTTP_NOT_MODIFIED);
+    onion_response_write_headers(res);
+    close(fd);
+    return OCS_PROCESSED;
+  }
+
   size_t ends, starts;
   if (range && onion_shortcut_parse_range(range, length, &starts, &ends)) {
     //ONION_DEBUG("Need just a range: %s",range);
@@ -266,16 +277,6 @@ onion_connection_status onion_shortcut_response_file(const char *filename,
   onion_response_set_header(res, "Content-Type", onion_mime_get(filename));
   ONION_DEBUG("Mime type is %s", onion_mime_get(filename));
 
-  ONION_DEBUG0("Etag %s", etag);
-  const char *prev_etag = onion_request_get_header(request, "If-None-Match");
-  if (prev_etag && (strcmp(prev_etag, etag) == 0)) {
-    ONION_DEBUG0("Not modified");
-    onion_response_set_length(res, 0);
-    onion_response_set_code(res, HTTP_NOT_MODIFIED);
-    onion_response_write_headers(res);
-    close(fd);
-    return OCS_PROCESSED;
-  }
   onion_response_write_headers(res);
   if ((onion_request_get_flags(request) & OR_HEAD) == OR_HEAD) {        // Just head.
     length = 0;
-- 
2.43.0


From 783d335f54921a7d764b3e44e9bf8bd729f4ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:50 +0000
Subject: [PATCH 076/123] fix: authorization headers with no credentials, or
 not valid, crashed the PAM handler

---
 src/onion/handlers/auth_pam.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index 4be8fa1..2dc8ee1 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -58,9 +58,9 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
   char *auth = NULL;
   char *username = NULL;
   char *passwd = NULL;
-  if (o && strncmp(o, "Basic", 5) == 0) {
-    //fprintf(stderr,"auth: '%s'\n",&o[6]);
+  if (o && strncmp(o, "Basic ", 6) == 0)
     auth = onion_base64_decode(&o[6], NULL);
+  if (auth) {                   // NULL when it is not valid base64
     username = auth;
     int i = 0;
     while (auth[i] != '\0' && auth[i] != ':')
-- 
2.43.0


From f72fa7e571621b0dce12b002bb94cf6179577bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:50 +0000
Subject: [PATCH 077/123] fix: a long realm overflowed the stack in the PAM
 handler

---
 src/onion/handlers/auth_pam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index 2dc8ee1..ce0c8d6 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -91,7 +91,7 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
     onion_low_free(auth);
 
   // Not authorized. Ask for it.
-  char temp[256];
+  char temp[strlen(d->realm) + sizeof("Basic realm=\"\"")];
   sprintf(temp, "Basic realm=\"%s\"", d->realm);
   onion_response_set_header(res, "WWW-Authenticate", temp);
   onion_response_set_code(res, HTTP_UNAUTHORIZED);
-- 
2.43.0


From a13b66de1ec248db6c28667223ae8fd405e22e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:50 +0000
Subject: [PATCH 078/123] fix: logging in for one PAM service gave access to
 what others protect

---
 src/onion/handlers/auth_pam.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index ce0c8d6..f4a23f3 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -51,7 +51,9 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
                                    onion_request * request,
                                    onion_response * res) {
   /// Use session to know if already logged in, so do not mess with PAM so often.
-  if (onion_request_get_session(request, "pam_logged_in"))
+  const char *service = onion_request_get_session(request, "pam_service");
+  if (onion_request_get_session(request, "pam_logged_in") && service
+      && strcmp(service, d->pamname) == 0)
     return onion_handler_handle(d->inside, request, res);
 
   const char *o = onion_request_get_header(request, "Authorization");
@@ -81,6 +83,8 @@ int onion_handler_auth_pam_handler(onion_handler_auth_pam_data * d,
       onion_dict_add(session, "username", username, OD_REPLACE | OD_DUP_VALUE);
       onion_dict_add(session, "pam_logged_in", username,
                      OD_REPLACE | OD_DUP_VALUE);
+      onion_dict_add(session, "pam_service", d->pamname,
+                     OD_REPLACE | OD_DUP_VALUE);
       onion_dict_unlock(session);
 
       onion_low_free(auth);
-- 
2.43.0


From 450395e0ff8fd0f853b364f00009f9a0834ce736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:35 +0000
Subject: [PATCH 079/123] fix: PAM structures that could not be created were
 released

---
 src/onion/handlers/auth_pam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index f4a23f3..99d460d 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -181,7 +181,7 @@ int authorize(const char *pamname, const char *username, const char *password) {
   if (ok == PAM_SUCCESS)
     ok = pam_acct_mgmt(pamh, 0);        /* permitted access? */
 
-  if (pam_end(pamh, ok) != PAM_SUCCESS) {
+  if (pamh && pam_end(pamh, ok) != PAM_SUCCESS) {    // NULL if it could not start
     ONION_ERROR("Error releasing PAM structures");
   }
   if (ok == PAM_SUCCESS) {
-- 
2.43.0


From 7df59129d66cb3375769131f13bc1fdbe86930aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:13 +0000
Subject: [PATCH 080/123] fix: long lines of a template were cut when compiled

---
 tools/otemplate/functions.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/tools/otemplate/functions.c b/tools/otemplate/functions.c
index 358f1cf..a6b831f 100644
--- a/tools/otemplate/functions.c
+++ b/tools/otemplate/functions.c
@@ -222,6 +222,18 @@ function_data *function_pop(parser_status * st) {
   return p;
 }
 
+/// Formats some code, of any length. Must be freed.
+static char *format_code(const char *fmt, va_list ap) {
+  va_list ap2;
+  va_copy(ap2, ap);
+  int l = vsnprintf(NULL, 0, fmt, ap2);
+  va_end(ap2);
+  assert(l >= 0);
+  char *ret = malloc(l + 1);
+  vsnprintf(ret, l + 1, fmt, ap);
+  return ret;
+}
+
 /**
  * @short Adds some code to the top function
  */
@@ -230,11 +242,9 @@ void function_add_code(parser_status * st, const char *fmt, ...) {
   if (p->flags & F_NO_MORE_WRITE)
     return;
 
-  char tmp[4096];
-
   va_list ap;
   va_start(ap, fmt);
-  vsnprintf(tmp, sizeof(tmp), fmt, ap);
+  char *tmp = format_code(fmt, ap);
   va_end(ap);
 
   if (use_orig_line_numbers) {
@@ -262,20 +272,20 @@ void function_add_code(parser_status * st, const char *fmt, ...) {
     //ONION_DEBUG("Add to level %d text %s",list_count(st->function_stack), tmp);
     onion_block_add_str(st->current_code, tmp);
   }
+  free(tmp);
 }
 
 /**
  * @short Adds some code to a given function.
  */
 void function_add_code_f(struct function_data_t *f, const char *fmt, ...) {
-  char tmp[4096];
-
   va_list ap;
   va_start(ap, fmt);
-  vsnprintf(tmp, sizeof(tmp), fmt, ap);
+  char *tmp = format_code(fmt, ap);
   va_end(ap);
 
   //ONION_DEBUG("Add to level %d text %s",list_count(st->function_stack), tmp);
 
   onion_block_add_str(f->code, tmp);
+  free(tmp);
 }
-- 
2.43.0


From 36f6bc9f5be6f2282b2627cc7669ca41a0f44d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:13 +0000
Subject: [PATCH 081/123] fix: templates with %, } or # inside tags, variables
 or comments, or ending in {, were miscompiled

---
 tools/otemplate/parser.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/tools/otemplate/parser.c b/tools/otemplate/parser.c
index efb3cad..d166c30 100644
--- a/tools/otemplate/parser.c
+++ b/tools/otemplate/parser.c
@@ -76,7 +76,7 @@ void parse_template(parser_status * status) {
     case COMMENTHASH:
       if (c == '}')
         set_mode(status, TEXT);
-      else
+      else if (c != '#')        // it may be ##}
         set_mode(status, COMMENT);
       break;
     case VARIABLE:
@@ -94,8 +94,8 @@ void parse_template(parser_status * status) {
     case END_VARIABLE:
       if (c == '}')
         set_mode(status, TEXT);
-      else {
-        set_mode(status, VARIABLE);
+      else {                    // Still at the same variable
+        status->mode = VARIABLE;
         add_char(status, '}');
         add_char(status, c);
       }
@@ -103,10 +103,12 @@ void parse_template(parser_status * status) {
     case END_TAG:
       if (c == '}')
         set_mode(status, TEXT);
-      else {
-        set_mode(status, END_TAG);
+      else {                    // Still at the same tag
         add_char(status, '%');
-        add_char(status, c);
+        if (c != '%') {
+          status->mode = TAG;
+          add_char(status, c);
+        }
       }
       break;
     default:
@@ -115,6 +117,14 @@ void parse_template(parser_status * status) {
       return;
     }
   }
+  if (status->mode == BEGIN)    // It ends in {, which starts nothing
+    add_char(status, '{');
+  else if (status->mode != TEXT) {
+    ONION_ERROR("%s:%d Unfinished tag, variable or comment",
+                status->infilename, status->line);
+    status->status = 1;
+    return;
+  }
   set_mode(status, END);
 }
 
-- 
2.43.0


From 614c39c1555053ba12798a902816b680f4175b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:52 +0000
Subject: [PATCH 082/123] fix: !=, < and > in templates were true for a
 variable and itself, and != false for missing ones

---
 tools/otemplate/tag_builtins.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/tools/otemplate/tag_builtins.c b/tools/otemplate/tag_builtins.c
index 4cc9864..e78f0fa 100644
--- a/tools/otemplate/tag_builtins.c
+++ b/tools/otemplate/tag_builtins.c
@@ -131,24 +131,22 @@ void tag_if(parser_status * st, list * l) {
     const char *op = tag_value_arg(l, 2);
     const char *opcmp = NULL;
     if (strcmp(op, "==") == 0)
-      opcmp = "==0";
+      opcmp = "op1==op2 || (op1 && op2 && strcmp(op1, op2)==0)";
     else if (strcmp(op, "<=") == 0)
-      opcmp = "<=0";
+      opcmp = "op1==op2 || (op1 && op2 && strcmp(op1, op2)<=0)";
     else if (strcmp(op, "<") == 0)
-      opcmp = "<0";
+      opcmp = "op1 && op2 && strcmp(op1, op2)<0";
     else if (strcmp(op, ">=") == 0)
-      opcmp = ">=0";
+      opcmp = "op1==op2 || (op1 && op2 && strcmp(op1, op2)>=0)";
     else if (strcmp(op, ">") == 0)
-      opcmp = ">0";
+      opcmp = "op1 && op2 && strcmp(op1, op2)>0";
     else if (strcmp(op, "!=") == 0)
-      opcmp = "!=0";
+      opcmp = "op1!=op2 && (!op1 || !op2 || strcmp(op1, op2)!=0)";
     if (opcmp) {
       function_add_code(st, "  {\n" "    const char *op1, *op2;\n");
       variable_solve(st, tag_value_arg(l, 1), "op1", tag_type_arg(l, 1));
       variable_solve(st, tag_value_arg(l, 3), "op2", tag_type_arg(l, 3));
-      function_add_code(st,
-                        "    if (op1==op2 || (op1 && op2 && strcmp(op1, op2)%s))\n",
-                        opcmp);
+      function_add_code(st, "    if (%s)\n", opcmp);
     } else {
       ONION_ERROR("%s:%d Unkonwn operator for if: %s", st->infilename, st->line,
                   op);
-- 
2.43.0


From d92b6e9299393bad1f4847e8844b25b2a42b9164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:52 +0000
Subject: [PATCH 083/123] fix: template tags without their arguments, or that
 close nothing, crashed the compiler

---
 tools/otemplate/otemplate.c         |  5 ++++
 tools/otemplate/tag_builtins.c      | 46 +++++++++++++++++++++++++----
 tools/otemplate/templatetags/i18n.c |  7 +++++
 3 files changed, 53 insertions(+), 5 deletions(-)

diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index bd1576e..80a376c 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -208,6 +208,11 @@ int work(const char *infilename, const char *outfilename,
 
   parse_template(&status);
 
+  if (!status.status && list_count(status.function_stack) != 2) {
+    ONION_ERROR("%s:%d Some tag is not closed", infilename, status.line);
+    status.status = 1;
+  }
+
   ((function_data *) status.function_stack->tail->data)->flags = 0;
 
   function_add_code(&status,
diff --git a/tools/otemplate/tag_builtins.c b/tools/otemplate/tag_builtins.c
index e78f0fa..02d0116 100644
--- a/tools/otemplate/tag_builtins.c
+++ b/tools/otemplate/tag_builtins.c
@@ -68,6 +68,26 @@ void tag_init_builtins() {
   tag_add("endblock", tag_endblock);
 }
 
+/// Whether the tag has at least that many arguments. If not, it is an error.
+static int check_args(parser_status * st, list * l, int n) {
+  if (list_count(l) > n)
+    return 1;
+  ONION_ERROR("%s:%d '%s' needs %d arguments", st->infilename, st->line,
+              tag_value_arg(l, 0), n);
+  st->status = 1;
+  return 0;
+}
+
+/// Closes the function on top of the stack, or NULL, with an error, if this tag closes nothing.
+static function_data *close_function(parser_status * st, list * l) {
+  if (list_count(st->function_stack) > 2)       // Blocks init and template are always there
+    return function_pop(st);
+  ONION_ERROR("%s:%d Unexpected '%s'", st->infilename, st->line,
+              tag_value_arg(l, 0));
+  st->status = 1;
+  return NULL;
+}
+
 /// Loads an external handler set
 void tag_load(parser_status * st, list * l) {
   list_item *it = l->head->next;
@@ -87,6 +107,8 @@ void tag_load(parser_status * st, list * l) {
 
 /// Do the first for part.
 void tag_for(parser_status * st, list * l) {
+  if (!check_args(st, l, 3))
+    return;
   function_add_code(st, "  {\n" "    onion_dict *loopdict=NULL;\n");
   variable_solve(st, tag_value_arg(l, 3), "loopdict", 2);
 // "    onion_dict_get_dict(context, \"%s\");\n", tag_value_arg (l,3));
@@ -108,11 +130,15 @@ void tag_for(parser_status * st, list * l) {
 /// Ends a for
 void tag_endfor(parser_status * st, list * l) {
   // First the preorder function
-  function_data *d = function_pop(st);
+  function_data *d = close_function(st, l);
+  if (!d)
+    return;
   function_add_code(st, "  %s(dr->dict, dr->res);\n", d->id);
 
   // Now the normal code
-  d = function_pop(st);
+  d = close_function(st, l);
+  if (!d)
+    return;
   function_add_code(st, "%s, &dr);\n"
                     "    }\n"
                     "    onion_dict_free(tmpcontext);\n" "  }\n", d->id);
@@ -162,7 +188,9 @@ void tag_if(parser_status * st, list * l) {
 
 /// Else part
 void tag_else(parser_status * st, list * l) {
-  function_data *d = function_pop(st);
+  function_data *d = close_function(st, l);
+  if (!d)
+    return;
   function_add_code(st, "      %s(context, res);\n    else\n", d->id);
 
   function_new(st, NULL);
@@ -170,13 +198,17 @@ void tag_else(parser_status * st, list * l) {
 
 /// endif
 void tag_endif(parser_status * st, list * l) {
-  function_data *d = function_pop(st);
+  function_data *d = close_function(st, l);
+  if (!d)
+    return;
   function_add_code(st, "      %s(context, res);\n  }\n", d->id);
 }
 
 /// Include an external html. This is only the call, the programmer must compile such html too.
 void tag_include(parser_status * st, list * l) {
   assert(st != NULL);           // Tell coverty that at function_new it will keep a pointer to the original, always.
+  if (!check_args(st, l, 1))
+    return;
 
   function_data *d = function_new(st, "%s", tag_value_arg(l, 1));
   function_pop(st);
@@ -187,6 +219,8 @@ void tag_include(parser_status * st, list * l) {
 }
 
 void tag_extends(parser_status * st, list * l) {
+  if (!check_args(st, l, 1))
+    return;
   function_data *d = function_new(st, "%s", tag_value_arg(l, 1));
   function_pop(st);
   onion_block_free(d->code);
@@ -198,6 +232,8 @@ void tag_extends(parser_status * st, list * l) {
 }
 
 void tag_block(parser_status * st, list * l) {
+  if (!check_args(st, l, 1))
+    return;
   const char *block_name = tag_value_arg(l, 1);
   function_add_code(st,
                     "  {\n"
@@ -218,5 +254,5 @@ void tag_block(parser_status * st, list * l) {
 }
 
 void tag_endblock(parser_status * st, list * l) {
-  function_pop(st);
+  close_function(st, l);
 }
diff --git a/tools/otemplate/templatetags/i18n.c b/tools/otemplate/templatetags/i18n.c
index 73b652b..1fbf8a0 100644
--- a/tools/otemplate/templatetags/i18n.c
+++ b/tools/otemplate/templatetags/i18n.c
@@ -24,12 +24,19 @@
 #include <stdlib.h>
 
 #include <onion/codecs.h>
+#include <onion/log.h>
 
 #include "../tags.h"
 #include "../functions.h"
 
 /// Following text is for gettext
 void tag_trans(parser_status * st, list * l) {
+  if (!tag_value_arg(l, 1)) {
+    ONION_ERROR("%s:%d '%s' needs an argument", st->infilename, st->line,
+                tag_value_arg(l, 0));
+    st->status = 1;
+    return;
+  }
   char *s = onion_c_quote_new(tag_value_arg(l, 1));
   function_add_code(st,
                     "  onion_response_write0(res, dgettext(onion_dict_get(context, \"LANG\"), %s));\n",
-- 
2.43.0


From 55540a5dcec43020995072aaf1fc679fbac394cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:52 +0000
Subject: [PATCH 084/123] fix: a template block inside a loop called a copy of
 its code

---
 tools/otemplate/otemplate.c    |  1 +
 tools/otemplate/tag_builtins.c | 13 ++++++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index 80a376c..9c5ff9f 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -236,6 +236,7 @@ int work(const char *infilename, const char *outfilename,
           "/** Autogenerated by otemplate v. 0.2.0 */\n"
           "\n"
           "#include <libintl.h>\n"
+          "#include <stdio.h>\n"
           "#include <string.h>\n\n"
           "#include <onion/onion.h>\n"
           "#include <onion/dict.h>\n"
diff --git a/tools/otemplate/tag_builtins.c b/tools/otemplate/tag_builtins.c
index 02d0116..ad463a7 100644
--- a/tools/otemplate/tag_builtins.c
+++ b/tools/otemplate/tag_builtins.c
@@ -238,8 +238,8 @@ void tag_block(parser_status * st, list * l) {
   function_add_code(st,
                     "  {\n"
                     "    void (*f)(onion_dict *context, onion_response *res);\n"
-                    "    f=(void*)onion_dict_get(context, \"__block_%s__\");\n"
-                    "    if (f)\n"
+                    "    const char *addr=onion_dict_get(context, \"__block_%s__\");\n"
+                    "    if (addr && sscanf(addr, \"%%p\", (void**)&f)==1)\n"
                     "      f(context, res);\n" "  }\n", block_name);
 
   char tmp[256];
@@ -248,9 +248,12 @@ void tag_block(parser_status * st, list * l) {
   function_data *d =
       function_new(st, "%s__block_%s", onion_basename(tmp), block_name);
   function_add_code_f(st->blocks_init,
-                      "  if (!onion_dict_get(context, \"__block_%s__\"))\n"
-                      "    onion_dict_add(context, \"__block_%s__\", %s, 0);\n",
-                      block_name, block_name, d->id);
+                      "  if (!onion_dict_get(context, \"__block_%s__\")){\n"
+                      "    char addr[32]; // As a string, so that the context can be copied\n"
+                      "    snprintf(addr, sizeof(addr), \"%%p\", (void*)%s);\n"
+                      "    onion_dict_add(context, \"__block_%s__\", addr, OD_DUP_VALUE);\n"
+                      "  }\n",
+                      block_name, d->id, block_name);
 }
 
 void tag_endblock(parser_status * st, list * l) {
-- 
2.43.0


From ea02b0d2c3773ed86ff5abb1e02555ad2be8f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:52 +0000
Subject: [PATCH 085/123] fix: otemplate said it went well when it could not
 open its files

---
 tools/otemplate/otemplate.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/otemplate/otemplate.c b/tools/otemplate/otemplate.c
index 9c5ff9f..fe6c752 100644
--- a/tools/otemplate/otemplate.c
+++ b/tools/otemplate/otemplate.c
@@ -194,11 +194,12 @@ int work(const char *infilename, const char *outfilename,
 
   if (!status.in) {
     ONION_ERROR("Could not open in file %s", infilename);
+    status.status = 1;
     goto work_end;
   }
 
   ONION_DEBUG("Create main function on top, tname %s", tname);
-  function_new(&status, tname);
+  function_new(&status, "%s", tname);
 
   function_add_code(&status,
                     "  int has_context=(context!=NULL);\n"
@@ -228,7 +229,8 @@ int work(const char *infilename, const char *outfilename,
   else
     status.out = fopen(outfilename, "wt");
   if (!status.out) {
-    ONION_ERROR("Could not open out file %s", infilename);
+    ONION_ERROR("Could not open out file %s", outfilename);
+    status.status = 1;
     goto work_end;
   }
 
-- 
2.43.0


From a15154cb6dbf6648c8da8babcb76d35b5652e643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:28 +0000
Subject: [PATCH 086/123] fix: asset headers over 4096 bytes lost declarations
 when updated

---
 tools/common/updateassets.c | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/tools/common/updateassets.c b/tools/common/updateassets.c
index 35484d9..a6675f3 100644
--- a/tools/common/updateassets.c
+++ b/tools/common/updateassets.c
@@ -21,6 +21,9 @@
   <http://www.apache.org/licenses/LICENSE-2.0>.
 */
 
+#ifndef _GNU_SOURCE
+#define _GNU_SOURCE
+#endif
 #include <stdlib.h>
 #include <onion/log.h>
 #include <assert.h>
@@ -137,24 +140,18 @@ onion_assets_file *onion_assets_file_new(const char *filename) {
   ret->tail = NULL;
 
   if (file) {
-    char buffer[4096];
-    int r = 0;
-    int o = 0;
+    char *line = NULL;
+    size_t capacity = 0;
+    ssize_t l;
     int total = 0;
-    do {
-      r = fread(&buffer[o], 1, sizeof(buffer) - o, file);
-      int i;
-      o = 0;
-      for (i = 0; i < r; i++) {
-        if (buffer[i] == '\n') {
-          buffer[i] = 0;
-          ONION_DEBUG("Read original line <%s>", &buffer[o]);
-          onion_assets_file_add_line(ret, &buffer[o]);
-          total += strlen(&buffer[o]);
-          o = i + 1;
-        }
-      }
-    } while (r > 0);
+    while ((l = getline(&line, &capacity, file)) > 0) {
+      if (line[l - 1] == '\n')
+        line[--l] = 0;
+      ONION_DEBUG("Read original line <%s>", line);
+      onion_assets_file_add_line(ret, line);
+      total += l;
+    }
+    free(line);
     onion_assets_file_set_tail(ret);
     fclose(file);
     if (total > 0) {
-- 
2.43.0


From abaad655d6c53e4a2ba6cdcc3961c5968ab30a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:28 +0000
Subject: [PATCH 087/123] fix: packed files answered with their length as
 connection status

---
 tools/opack/opack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index fb63675..0c2a87a 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -177,7 +177,8 @@ void parse_file(const char *prefix, const char *filename, FILE * outfd,
           "  onion_response_set_header(res, \"Content-Type\", \"%s\");\n",
           mime_type);
   fprintf(outfd,
-          "  return onion_response_write(res, data, sizeof(data));\n}\n\n");
+          "  onion_response_write(res, data, sizeof(data));\n"
+          "  return OCS_PROCESSED;\n}\n\n");
 
   fprintf(outfd, "const unsigned int %s_length = %d;\n\n", fname, l);
 
-- 
2.43.0


From 108515b0c86475d860a3bf9805807ab3c626802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:28 +0000
Subject: [PATCH 088/123] fix: packed directories took the name of the first
 argument

---
 tools/opack/opack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index 0c2a87a..db71d91 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -92,7 +92,7 @@ int main(int argc, char **argv) {
       struct stat st;
       stat(argv[i], &st);
       if (S_ISDIR(st.st_mode)) {
-        parse_directory(onion_basename(argv[1]), argv[i], outfd, assets);
+        parse_directory(onion_basename(argv[i]), argv[i], outfd, assets);
       } else {
         parse_file("", argv[i], outfd, assets);
       }
-- 
2.43.0


From 5865fb34ca455b49e1a5bb5b549ccb7e8c8d6979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:28 +0000
Subject: [PATCH 089/123] fix: packed file names with quotes or backslashes
 were not quoted

---
 tools/opack/opack.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index db71d91..36574d9 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -28,6 +28,8 @@
 #include <unistd.h>
 #include <dirent.h>
 #include <sys/stat.h>
+#include <onion/codecs.h>
+#include <onion/low.h>
 #include <onion/mime.h>
 #include <onion/utils.h>
 
@@ -229,15 +231,16 @@ void parse_directory(const char *prefix, const char *dirname, FILE * outfd,
     if (de->d_name[0] == '.' || de->d_name[strlen(de->d_name) - 1] == '~')
       continue;
     char *fname = funcname(prefix, de->d_name);
+    char *name = onion_c_quote_new(de->d_name);
     if (de->d_type == DT_DIR) {
       int l = strlen(de->d_name);
-      fprintf(outfd, "  if (strncmp(\"%s/\", path, %d)==0){\n", de->d_name,
-              l + 1);
+      fprintf(outfd, "  if (strncmp(%s \"/\", path, %d)==0){\n", name, l + 1);
       fprintf(outfd, "    onion_request_advance_path(req, %d);\n", l + 1);
     } else
-      fprintf(outfd, "  if (strcmp(\"%s\", path)==0){\n", de->d_name);
+      fprintf(outfd, "  if (strcmp(%s, path)==0){\n", name);
     fprintf(outfd, "    return %s(_, req, res);\n", fname);
     fprintf(outfd, "  }\n");
+    onion_low_free(name);
     free(fname);
   }
   closedir(dir);
-- 
2.43.0


From ace2480cda1e249ba5b8df00af74cff50dcd6cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:45 +0000
Subject: [PATCH 090/123] fix: linked directories were packed as empty files

---
 tools/opack/opack.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index 36574d9..15a4964 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -188,6 +188,14 @@ void parse_file(const char *prefix, const char *filename, FILE * outfd,
   free(fname);
 }
 
+/// Whether that name at dirname is a directory, or a link to it. Not all filesystems tell it at the dirent.
+static int is_directory(const char *dirname, const char *name) {
+  char fullname[1024];
+  struct stat st;
+  snprintf(fullname, sizeof(fullname), "%s/%s", dirname, name);
+  return stat(fullname, &st) == 0 && S_ISDIR(st.st_mode);
+}
+
 /**
  * @short Bulk converts all files at dirname, excepting *~, and the creates a handler for such directory.
  */
@@ -206,7 +214,7 @@ void parse_directory(const char *prefix, const char *dirname, FILE * outfd,
     if (de->d_name[0] == '.' || de->d_name[strlen(de->d_name) - 1] == '~')
       continue;
     snprintf(fullname, sizeof(fullname), "%s/%s", dirname, de->d_name);
-    if (de->d_type == DT_DIR) {
+    if (is_directory(dirname, de->d_name)) {
       char prefix2[256];
       snprintf(prefix2, sizeof(prefix2), "%s/%s", prefix, de->d_name);
       parse_directory(prefix2, fullname, outfd, assets);
@@ -232,7 +240,7 @@ void parse_directory(const char *prefix, const char *dirname, FILE * outfd,
       continue;
     char *fname = funcname(prefix, de->d_name);
     char *name = onion_c_quote_new(de->d_name);
-    if (de->d_type == DT_DIR) {
+    if (is_directory(dirname, de->d_name)) {
       int l = strlen(de->d_name);
       fprintf(outfd, "  if (strncmp(%s \"/\", path, %d)==0){\n", name, l + 1);
       fprintf(outfd, "    onion_request_advance_path(req, %d);\n", l + 1);
-- 
2.43.0


From 19e2696e9084f26e8c304f30faa7273b44cc3f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:45 +0000
Subject: [PATCH 091/123] fix: packing deep directories cut their names

---
 tools/opack/opack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index 15a4964..8845d3d 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -215,7 +215,7 @@ void parse_directory(const char *prefix, const char *dirname, FILE * outfd,
       continue;
     snprintf(fullname, sizeof(fullname), "%s/%s", dirname, de->d_name);
     if (is_directory(dirname, de->d_name)) {
-      char prefix2[256];
+      char prefix2[1024];
       snprintf(prefix2, sizeof(prefix2), "%s/%s", prefix, de->d_name);
       parse_directory(prefix2, fullname, outfd, assets);
     } else
-- 
2.43.0


From 50a49d703b1401da399476822c2569e6a0a438ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:11 +0000
Subject: [PATCH 092/123] fix: packing a directory given with a final slash
 made code that did not compile

---
 tools/opack/opack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/opack/opack.c b/tools/opack/opack.c
index 8845d3d..aa77073 100644
--- a/tools/opack/opack.c
+++ b/tools/opack/opack.c
@@ -216,7 +216,8 @@ void parse_directory(const char *prefix, const char *dirname, FILE * outfd,
     snprintf(fullname, sizeof(fullname), "%s/%s", dirname, de->d_name);
     if (is_directory(dirname, de->d_name)) {
       char prefix2[1024];
-      snprintf(prefix2, sizeof(prefix2), "%s/%s", prefix, de->d_name);
+      snprintf(prefix2, sizeof(prefix2), "%s%s%s", prefix,
+               prefix[0] ? "/" : "", de->d_name);
       parse_directory(prefix2, fullname, outfd, assets);
     } else
       parse_file(prefix, fullname, outfd, assets);
-- 
2.43.0


From 7cbfbefb49ddeb41c3db8bc6d8527c97346ccdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:52 +0000
Subject: [PATCH 093/123] fix: assigning a Dict to itself used it after free,
 and copying an empty reference crashed

---
 src/bindings/cpp/dict.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bindings/cpp/dict.cpp b/src/bindings/cpp/dict.cpp
index 110c4bf..5ab6f7e 100644
--- a/src/bindings/cpp/dict.cpp
+++ b/src/bindings/cpp/dict.cpp
@@ -76,20 +76,20 @@ Onion::Dict::Dict(const Dict & d)
 d.ptr.get(), &onion_dict_free}
 
 {
-  onion_dict_dup(ptr.get());
+  if (ptr)
+    onion_dict_dup(ptr.get());
 }
 
 Onion::Dict & Onion::Dict::operator=(const Dict & o) {
-  ptr = internal_pointer {
-  o.ptr.get(), &onion_dict_free};
-  onion_dict_dup(o.ptr.get());
-  return *this;
+  return *this = o.ptr.get();
 }
 
 Onion::Dict & Onion::Dict::operator=(onion_dict * o) {
+  // Get the new reference first, dropping the old one may free the new dict.
+  if (o)
+    onion_dict_dup(o);
   ptr = internal_pointer {
   o, &onion_dict_free};
-  onion_dict_dup(ptr.get());
   return *this;
 }
 
-- 
2.43.0


From 68ed0322a1cab7e5334c1b52df56b10c7bf18721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:52 +0000
Subject: [PATCH 094/123] fix: the dictionaries of Dict::fromJSON were never
 freed

---
 src/bindings/cpp/dict.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/dict.cpp b/src/bindings/cpp/dict.cpp
index 5ab6f7e..8fef68d 100644
--- a/src/bindings/cpp/dict.cpp
+++ b/src/bindings/cpp/dict.cpp
@@ -130,7 +130,7 @@ std::string Onion::Dict::toJSON() const noexcept {
 }
 
 Onion::Dict Onion::Dict::fromJSON(const std::string & jsondata)noexcept {
-  return Dict(onion_dict_from_json(jsondata.c_str()));
+  return Dict(onion_dict_from_json(jsondata.c_str()), true);
 }
 
 Onion::Dict & Onion::Dict::merge(const Dict & other)noexcept {
-- 
2.43.0


From 9d7f826d4354416fc017d2d777cffb1a8ef2dd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:52 +0000
Subject: [PATCH 095/123] fix: subdictionaries from Dict::getDict were used
 after free when the parent dropped them

---
 src/bindings/cpp/dict.cpp | 5 ++++-
 src/onion/dict.c          | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bindings/cpp/dict.cpp b/src/bindings/cpp/dict.cpp
index 8fef68d..f9dd26b 100644
--- a/src/bindings/cpp/dict.cpp
+++ b/src/bindings/cpp/dict.cpp
@@ -102,7 +102,10 @@ bool Onion::Dict::has(const std::string & k) const noexcept {
 }
 
 Onion::Dict Onion::Dict::getDict(const std::string & k) const noexcept {
-  return Dict(onion_dict_get_dict(ptr.get(), k.c_str()));
+  onion_dict *sub = onion_dict_get_dict(ptr.get(), k.c_str());
+  if (sub)
+    onion_dict_dup(sub);
+  return Dict(sub, true);
 }
 
 Onion::Dict & Onion::Dict::add(const std::string & k, const std::string & v,
diff --git a/src/onion/dict.c b/src/onion/dict.c
index acf4cea..958beb6 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -493,6 +493,8 @@ const char *onion_dict_get(const onion_dict * dict, const char *key) {
  */
 onion_dict *onion_dict_get_dict(const onion_dict * dict, const char *key) {
   const onion_dict_node *r;
+  if (!dict)                    // As onion_dict_get
+    return NULL;
   r = onion_dict_find_node(dict, dict->root, key, NULL);
   if (r) {
     if (r->data.flags & OD_DICT)
-- 
2.43.0


From 563ab94a5fb8e86d57bf0a4abb3912b0784c8742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:52 +0000
Subject: [PATCH 096/123] fix: moving a Dict::lock unlocked a null dictionary

---
 src/bindings/cpp/dict.cpp | 2 ++
 src/bindings/cpp/dict.hpp | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bindings/cpp/dict.cpp b/src/bindings/cpp/dict.cpp
index f9dd26b..edfc80e 100644
--- a/src/bindings/cpp/dict.cpp
+++ b/src/bindings/cpp/dict.cpp
@@ -127,6 +127,8 @@ Onion::Dict & Onion::Dict::remove(const std::string & k)noexcept {
 
 std::string Onion::Dict::toJSON() const noexcept {
   onion_block *bl = onion_dict_to_json(ptr.get());
+  if (!bl)
+    return std::string();
   std::string str = onion_block_data(bl);
   onion_block_free(bl);
   return str;
diff --git a/src/bindings/cpp/dict.hpp b/src/bindings/cpp/dict.hpp
index 77c7c1c..c60177f 100644
--- a/src/bindings/cpp/dict.hpp
+++ b/src/bindings/cpp/dict.hpp
@@ -77,7 +77,8 @@ namespace Onion {
                         /**
 			 * @short Automatically releases a lock when the scope is exited.
 			 */ ~lock() {
-        onion_dict_unlock(dict);
+        if (dict)
+          onion_dict_unlock(dict);
       }
  private:
       onion_dict * dict;
-- 
2.43.0


From 05cc9b77aa41a72fa1523aa831efeb1f3b3b3629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:52 +0000
Subject: [PATCH 097/123] fix: merging a dictionary with itself did not end

---
 src/onion/dict.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/onion/dict.c b/src/onion/dict.c
index 958beb6..5d713bd 100644
--- a/src/onion/dict.c
+++ b/src/onion/dict.c
@@ -125,6 +125,12 @@ static void onion_dict_add_merge(onion_dict * me, const char *key, void *value,
  * @param other Dictionary with keys to add to me
  */
 void onion_dict_merge(onion_dict * me, const onion_dict * other) {
+  if (me == other) {            // Would walk what it is adding
+    onion_dict *copy = onion_dict_hard_dup(me);
+    onion_dict_preorder(copy, onion_dict_add_merge, me);
+    onion_dict_free(copy);
+    return;
+  }
   onion_dict_preorder(other, onion_dict_add_merge, me);
 }
 
-- 
2.43.0


From a9097b63a26cdb3980c723eadbfc98bdc837bb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:52 +0000
Subject: [PATCH 098/123] fix: exceptions that do not derive from
 std::exception ended the server

---
 src/bindings/cpp/handler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bindings/cpp/handler.cpp b/src/bindings/cpp/handler.cpp
index 13c89c3..07081a6 100644
--- a/src/bindings/cpp/handler.cpp
+++ b/src/bindings/cpp/handler.cpp
@@ -65,6 +65,10 @@ static onion_connection_status onion_handler_call_operator(void *ptr,
     ONION_ERROR("Catched exception: %s", e.what());
     return OCS_INTERNAL_ERROR;
   }
+  catch( ...) {
+    ONION_ERROR("Catched unknown exception");
+    return OCS_INTERNAL_ERROR;
+  }
 }
 
 static void onion_handler_delete_operator(void *ptr) {
-- 
2.43.0


From bb71c0323ded5b487568a38a45c31a03a0b391f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:52 +0000
Subject: [PATCH 099/123] fix: HttpNotFound answered internal error

---
 src/bindings/cpp/exceptions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/exceptions.hpp b/src/bindings/cpp/exceptions.hpp
index c332356..dd34988 100644
--- a/src/bindings/cpp/exceptions.hpp
+++ b/src/bindings/cpp/exceptions.hpp
@@ -74,7 +74,7 @@ namespace Onion {
 	*/
   class HttpNotFound:public HttpException {
  public:
-    HttpNotFound(const std::string & str):HttpException(str) {
+    HttpNotFound(const std::string & str):HttpException(str, HTTP_NOT_FOUND) {
     };
     virtual ~ HttpNotFound()throw() {
     }
-- 
2.43.0


From d2acdc5f66282c4dc34929256086df3ffe2eac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:52 +0000
Subject: [PATCH 100/123] fix: ListenPoint::release freed the listen point it
 gives away

---
 src/bindings/cpp/listen_point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/listen_point.hpp b/src/bindings/cpp/listen_point.hpp
index 4392b8e..6ef969b 100644
--- a/src/bindings/cpp/listen_point.hpp
+++ b/src/bindings/cpp/listen_point.hpp
@@ -57,7 +57,7 @@ namespace Onion {
 		 * @short Release ownership of the underlying pointer.
 		 */
     void release() {
-      ptr.reset(nullptr);
+      ptr.release();
     }
 
                 /**
-- 
2.43.0


From 1ff42eaed6c0ad8ff5b84b99ad9421b1cafd4cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:52 +0000
Subject: [PATCH 101/123] fix: a moved root Url freed the url of the server

---
 src/bindings/cpp/url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/url.cpp b/src/bindings/cpp/url.cpp
index cba09b0..5a9dc29 100644
--- a/src/bindings/cpp/url.cpp
+++ b/src/bindings/cpp/url.cpp
@@ -61,7 +61,7 @@ new HandlerMethod < Url > (this, &::Onion::Url::operator())}, ptr {
 Onion::Url::Url(Url && o)
  : Handler {
 new HandlerMethod < Url > (this, &::Onion::Url::operator())}, ptr {
-o.ptr.get(), &onion_url_free}
+o.ptr.get(), o.ptr.get_deleter()}
 
 {
   o.ptr.get_deleter() =[](onion_url *)->void {
-- 
2.43.0


From 6edca74c66dda0a25b0705b381f3a73c5c902274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:52 +0000
Subject: [PATCH 102/123] fix: Mime::set used the dictionary after its owner
 freed it

---
 src/bindings/cpp/mime.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/mime.hpp b/src/bindings/cpp/mime.hpp
index 5dc65b5..3456400 100644
--- a/src/bindings/cpp/mime.hpp
+++ b/src/bindings/cpp/mime.hpp
@@ -34,7 +34,7 @@ namespace Onion {
 		 * @short Sets the mime dictionary (extension -> mime_type)
 		 */
     static void set(Onion::Dict & dict) {
-      onion_mime_set(dict.c_handler());
+      onion_mime_set(onion_dict_dup(dict.c_handler()));
     }
                 /**
 		 * @short Get the mime type based on the file name.
-- 
2.43.0


From b2863e13f1b641688f124fc3f33a6b168385ff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:52 +0000
Subject: [PATCH 103/123] fix: Request::languageCode freed memory of another
 allocator

---
 src/bindings/cpp/request.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindings/cpp/request.hpp b/src/bindings/cpp/request.hpp
index bc20a37..d827a8f 100644
--- a/src/bindings/cpp/request.hpp
+++ b/src/bindings/cpp/request.hpp
@@ -198,7 +198,7 @@ namespace Onion {
        */
       const char *r = onion_request_get_language_code(ptr);
        std::string retval(r);
-       free(const_cast < char *>(r));
+       onion_low_free(const_cast < char *>(r));
        return retval;
     }
                 /**
-- 
2.43.0


From d33f861b083b97bf10c66ef5961721c3cacb57d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:28 +0000
Subject: [PATCH 104/123] fix: http and https listen points that were not added
 to a server were never freed

---
 src/bindings/cpp/http.hpp         | 2 +-
 src/bindings/cpp/https.hpp        | 2 +-
 src/bindings/cpp/listen_point.hpp | 3 +++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bindings/cpp/http.hpp b/src/bindings/cpp/http.hpp
index 5038ddb..d1e7532 100644
--- a/src/bindings/cpp/http.hpp
+++ b/src/bindings/cpp/http.hpp
@@ -39,7 +39,7 @@ namespace Onion {
 	 */
   class HttpListenPoint:public ListenPoint {
  public:
-    HttpListenPoint():ListenPoint(onion_http_new()) {
+    HttpListenPoint():ListenPoint(onion_http_new(), onion_listen_point_free) {
   }};
 }
 
diff --git a/src/bindings/cpp/https.hpp b/src/bindings/cpp/https.hpp
index 9fcb1a6..047c5cf 100644
--- a/src/bindings/cpp/https.hpp
+++ b/src/bindings/cpp/https.hpp
@@ -42,7 +42,7 @@ namespace Onion {
 	 */
   class HttpsListenPoint:public ListenPoint {
  public:
-    HttpsListenPoint():ListenPoint(onion_https_new()) {
+    HttpsListenPoint():ListenPoint(onion_https_new(), onion_listen_point_free) {
     }
                 /**
 		 * @short Sets the SSL certificate and key.
diff --git a/src/bindings/cpp/listen_point.hpp b/src/bindings/cpp/listen_point.hpp
index 6ef969b..569ffa5 100644
--- a/src/bindings/cpp/listen_point.hpp
+++ b/src/bindings/cpp/listen_point.hpp
@@ -47,6 +47,9 @@ namespace Onion {
          }
     ) {
     }
+    ListenPoint(onion_listen_point * lp, decltype(onion_listen_point_free) * deleter)
+    :ptr(lp, deleter) {
+    }
 
  ListenPoint(ListenPoint && other):ptr {
     std::move(other.ptr)}
-- 
2.43.0


From 92a3d35eb7682411d4ce8b2934caaebac723c600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:47 +0000
Subject: [PATCH 105/123] fix: handlers added with an invalid regular
 expression were never freed

---
 src/bindings/cpp/url.cpp |  5 +++--
 src/onion/url.c          | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/bindings/cpp/url.cpp b/src/bindings/cpp/url.cpp
index 5a9dc29..fed1cfd 100644
--- a/src/bindings/cpp/url.cpp
+++ b/src/bindings/cpp/url.cpp
@@ -76,8 +76,9 @@ onion_url *Onion::Url::c_handler() {
 }
 
 Onion::Url & Onion::Url::add(const std::string & url, Handler && h) {
-  onion_url_add_handler(ptr.get(), url.c_str(),
-                        onion_handler_cpp_to_c(std::move(h)));
+  onion_handler *handler = onion_handler_cpp_to_c(std::move(h));
+  if (onion_url_add_handler(ptr.get(), url.c_str(), handler) != 0)
+    onion_handler_free(handler);        // Wrong regexp
   return *this;
 }
 
diff --git a/src/onion/url.c b/src/onion/url.c
index e3725fe..bbc643f 100644
--- a/src/onion/url.c
+++ b/src/onion/url.c
@@ -247,8 +247,11 @@ int onion_url_add_handler(onion_url * url, const char *regexp,
  * @returns 0 if everything ok. Else there is a regexp error.
  */
 int onion_url_add(onion_url * url, const char *regexp, void *handler) {
-  return onion_url_add_handler(url, regexp,
-                               onion_handler_new(handler, NULL, NULL));
+  onion_handler *next = onion_handler_new(handler, NULL, NULL);
+  int err = onion_url_add_handler(url, regexp, next);
+  if (err)
+    onion_handler_free(next);
+  return err;
 }
 
 /**
@@ -307,8 +310,13 @@ int onion_url_add_static(onion_url * url, const char *regexp, const char *text,
       onion_low_malloc(sizeof(struct onion_url_static_data));
   d->text = onion_low_strdup(text);
   d->code = http_code;
-  return onion_url_add_with_data(url, regexp, onion_url_static, d,
-                                 onion_url_static_free);
+  onion_handler *next =
+      onion_handler_new((void *)onion_url_static, d,
+                        (void *)onion_url_static_free);
+  int err = onion_url_add_handler(url, regexp, next);
+  if (err)
+    onion_handler_free(next);
+  return err;
 }
 
 /**
-- 
2.43.0


From de6a76e2ddf1ed32cb338c8cbcec04159c3c3392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:09 +0000
Subject: [PATCH 106/123] fix: Request::clientDescription failed when the
 client is not known

---
 src/bindings/cpp/request.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bindings/cpp/request.hpp b/src/bindings/cpp/request.hpp
index d827a8f..b96d986 100644
--- a/src/bindings/cpp/request.hpp
+++ b/src/bindings/cpp/request.hpp
@@ -183,7 +183,10 @@ namespace Onion {
                 /**
 		 * @short Returns a string with the client description
 		 */ const std::string clientDescription() const {
-      return onion_request_get_client_description(ptr);
+      auto r = onion_request_get_client_description(ptr);
+      if (!r)
+         return std::string();
+       return r;
     }
                 /**
 		 * @short Returns the language code for the current request.
-- 
2.43.0


From cf03d528a3a669751434cc10f892c065bdf92f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:19 +0000
Subject: [PATCH 107/123] fix: the internal error handler that is replaced was
 never freed

---
 src/onion/onion.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index a890433..09c4efb 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -686,6 +686,9 @@ onion_handler *onion_get_root_handler(onion * server) {
  * @ingroup onion
  */
 void onion_set_internal_error_handler(onion * server, onion_handler * handler) {
+  if (server->internal_error_handler
+      && server->internal_error_handler != handler)
+    onion_handler_free(server->internal_error_handler);
   server->internal_error_handler = handler;
 }
 
-- 
2.43.0


From 823290cbaffb6aacf7b3b4bc72d827585d220ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:17 +0000
Subject: [PATCH 108/123] fix: filtered list elements were not released with
 the allocator that made them

---
 src/onion/ptr_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onion/ptr_list.c b/src/onion/ptr_list.c
index 4b86b86..c04bf8a 100644
--- a/src/onion/ptr_list.c
+++ b/src/onion/ptr_list.c
@@ -100,7 +100,7 @@ onion_ptr_list *onion_ptr_list_filter(onion_ptr_list * l,
     l->next = next;
     return l;
   } else {
-    free(l);
+    onion_low_free(l);
     return next;
   }
 }
-- 
2.43.0


From 416370c6b813cce706e2aa1121080777fa27b27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:17 +0000
Subject: [PATCH 109/123] fix: real paths were released with an allocator that
 did not make them

---
 src/onion/handlers/exportlocal.c |  7 +++----
 src/onion/handlers/webdav.c      | 12 +++++-------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/onion/handlers/exportlocal.c b/src/onion/handlers/exportlocal.c
index b6109c9..4546a93 100644
--- a/src/onion/handlers/exportlocal.c
+++ b/src/onion/handlers/exportlocal.c
@@ -288,8 +288,8 @@ void onion_handler_export_local_set_footer(onion_handler * handler,
  * that localpath. Normal permissions apply.
  */
 onion_handler *onion_handler_export_local_new(const char *localpath) {
-  char *rp = realpath(localpath, NULL);
-  if (!rp) {
+  char rp[PATH_MAX];
+  if (!realpath(localpath, rp)) {
     ONION_ERROR("Cant calculate the realpath of the given directory (%s).",
                 localpath);
     return NULL;
@@ -297,13 +297,12 @@ onion_handler *onion_handler_export_local_new(const char *localpath) {
   struct stat st;
   if (stat(rp, &st) != 0) {
     ONION_ERROR("Cant access to the exported directory/file (%s).", rp);
-    onion_low_free(rp);
     return NULL;
   }
   onion_handler_export_local_data *priv_data =
       onion_low_malloc(sizeof(onion_handler_export_local_data));
 
-  priv_data->localpath = rp;
+  priv_data->localpath = onion_low_strdup(rp);
   priv_data->renderer_header = onion_handler_export_local_header_default;
   priv_data->renderer_footer = onion_handler_export_local_footer_default;
 
diff --git a/src/onion/handlers/webdav.c b/src/onion/handlers/webdav.c
index 8faec8b..b0741dc 100644
--- a/src/onion/handlers/webdav.c
+++ b/src/onion/handlers/webdav.c
@@ -40,6 +40,7 @@
 #include <sys/stat.h>
 #include <fcntl.h>
 #include <stdlib.h>
+#include <limits.h>
 #include <libgen.h>
 
 struct onion_webdav_t {
@@ -771,20 +772,21 @@ int onion_webdav_default_check_permissions(const char *exported_path,
 
   ONION_DEBUG0("Checking permissions for path %s, file %s", exported_path,
                filename);
+  char base_path[PATH_MAX], file_path[PATH_MAX];
   char *base, *file;
   int ret = 0;
 
-  base = realpath(exported_path, NULL);
+  base = realpath(exported_path, base_path);
   if (!base) {
     ONION_ERROR("Base directory does not exist.");
     return 1;
   }
 
-  file = realpath(filename, NULL);
+  file = realpath(filename, file_path);
   if (!file) {                  // Maybe it reffers to a non existent file, so we need the parent permissions
     char *fname = alloca(strlen(filename) + 1);
     strcpy(fname, filename);
-    file = realpath(dirname(fname), NULL);
+    file = realpath(dirname(fname), file_path);
   }
   if (!base || !file) {
     ret = 1;
@@ -799,10 +801,6 @@ int onion_webdav_default_check_permissions(const char *exported_path,
     ONION_ERROR("Base %s is not for file %s", base, file);
   }
 
-  if (base)
-    onion_low_free(base);
-  if (file)
-    onion_low_free(file);
   ONION_DEBUG0("Permission %s", ret == 0 ? "granted" : "denied");
   return ret;
 }
-- 
2.43.0


From 117e63ef2b4e08da7967be27c65f52f0018a59ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:41 +0000
Subject: [PATCH 110/123] fix: answers to PAM were not made with the allocator
 PAM releases them with

---
 src/onion/handlers/auth_pam.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onion/handlers/auth_pam.c b/src/onion/handlers/auth_pam.c
index 99d460d..c89cdbe 100644
--- a/src/onion/handlers/auth_pam.c
+++ b/src/onion/handlers/auth_pam.c
@@ -143,9 +143,9 @@ static int authPAM_passwd(int num_msg, const struct pam_message **msg,
   ONION_DEBUG0("Num messages %d", num_msg);
   struct pam_response *r;
 
+  // PAM releases it with free().
   *resp = r =
-      (struct pam_response *)onion_low_calloc(num_msg,
-                                              sizeof(struct pam_response));
+      (struct pam_response *)calloc(num_msg, sizeof(struct pam_response));
   if (r == NULL)
     return PAM_BUF_ERR;
 
@@ -153,7 +153,7 @@ static int authPAM_passwd(int num_msg, const struct pam_message **msg,
 
   for (i = 0; i < num_msg; i++) {
     ONION_DEBUG0("Question %d: %s", i, (*msg)[i].msg);
-    r->resp = onion_low_strdup((const char *)appdata_ptr);
+    r->resp = strdup((const char *)appdata_ptr);
     r->resp_retcode = 0;
     r++;
   }
-- 
2.43.0


From 4580c6bb2c34621f39cd885603b74c5017ccb49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:54 +0000
Subject: [PATCH 111/123] fix: TLS records longer than the read buffer were not
 read until more data arrived

---
 src/onion/https.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 15e0654..372e9cd 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -68,6 +68,7 @@ static int onion_https_request_init(onion_request * req);
 static ssize_t onion_https_read(onion_request * req, char *data, size_t len);
 ssize_t onion_https_write(onion_request * req, const char *data, size_t len);
 static void onion_https_close(onion_request * req);
+static int onion_https_read_ready(onion_request * req);
 static void onion_https_listen_stop(onion_listen_point * op);
 static void onion_https_free_user_data(onion_listen_point * op);
 
@@ -93,7 +94,7 @@ onion_listen_point *onion_https_new() {
   op->read = onion_https_read;
   op->write = onion_https_write;
   op->close = onion_https_close;
-  op->read_ready = onion_http_read_ready;
+  op->read_ready = onion_https_read_ready;
   op->secure = true;
 
   op->user_data = onion_low_calloc(1, sizeof(onion_https));
@@ -237,6 +238,26 @@ static int onion_https_request_init(onion_request * req) {
   return 0;
 }
 
+/**
+ * @short The client has data ready to be read
+ * @memberof onion_https_t
+ * @ingroup https
+ *
+ * A record may have more data than what is read at once. That data is no longer at the
+ * socket, so nobody will say that it is ready: it has to be read now.
+ *
+ * @param req The request
+ * @returns <0 if the connection should be closed
+ */
+static int onion_https_read_ready(onion_request * req) {
+  gnutls_session_t session = (gnutls_session_t) req->connection.user_data;
+  int ret;
+  do {
+    ret = onion_http_read_ready(req);
+  } while (ret >= 0 && gnutls_record_check_pending(session) > 0);
+  return ret;
+}
+
 /**
  * @short Method to read some HTTPS data.
  * @memberof onion_https_t
-- 
2.43.0


From ca5ebbdf0d9b389860212e1755276d9b8ef7710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:10 +0000
Subject: [PATCH 112/123] fix: websockets over TLS waited for new data while
 there was data to read

---
 src/onion/https.c     | 14 ++++++++++++--
 src/onion/websocket.c | 19 ++++++++++++++++++-
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 372e9cd..8b1bf11 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -69,6 +69,7 @@ static ssize_t onion_https_read(onion_request * req, char *data, size_t len);
 ssize_t onion_https_write(onion_request * req, const char *data, size_t len);
 static void onion_https_close(onion_request * req);
 static int onion_https_read_ready(onion_request * req);
+bool onion_https_has_pending(onion_request * req);
 static void onion_https_listen_stop(onion_listen_point * op);
 static void onion_https_free_user_data(onion_listen_point * op);
 
@@ -238,6 +239,16 @@ static int onion_https_request_init(onion_request * req) {
   return 0;
 }
 
+/**
+ * @short Whether there is data that is no longer at the socket but was not read yet
+ * @memberof onion_https_t
+ * @ingroup https
+ */
+bool onion_https_has_pending(onion_request * req) {
+  gnutls_session_t session = (gnutls_session_t) req->connection.user_data;
+  return gnutls_record_check_pending(session) > 0;
+}
+
 /**
  * @short The client has data ready to be read
  * @memberof onion_https_t
@@ -250,11 +261,10 @@ static int onion_https_request_init(onion_request * req) {
  * @returns <0 if the connection should be closed
  */
 static int onion_https_read_ready(onion_request * req) {
-  gnutls_session_t session = (gnutls_session_t) req->connection.user_data;
   int ret;
   do {
     ret = onion_http_read_ready(req);
-  } while (ret >= 0 && gnutls_record_check_pending(session) > 0);
+  } while (ret >= 0 && onion_https_has_pending(req));
   return ret;
 }
 
diff --git a/src/onion/websocket.c b/src/onion/websocket.c
index d852094..4ac6c18 100644
--- a/src/onion/websocket.c
+++ b/src/onion/websocket.c
@@ -58,6 +58,12 @@ typedef ssize_t(lpreader_sig_t) (onion_request * req, char *data, size_t len);
 
 static int onion_websocket_read_packet_header(onion_websocket * ws);
 
+#ifdef HAVE_GNUTLS
+// Import it here as I need it to know if there may be data that is not at the socket.
+ssize_t onion_https_write(onion_request * req, const char *data, size_t len);
+bool onion_https_has_pending(onion_request * req);
+#endif
+
 const static char *websocket_magic_13 = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
 const static int websocket_magic_13_length = 36;
 
@@ -597,6 +603,15 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
   //ONION_DEBUG("Mask %02X %02X %02X %02X", ws->mask[0]&0x0FF, ws->mask[1]&0x0FF, ws->mask[2]&0x0FF, ws->mask[3]&0x0FF);
 }
 
+/// Whether there is data to read that is no longer at the socket
+static bool websocket_has_pending(onion_websocket * ws) {
+#ifdef HAVE_GNUTLS
+  if (ws->req->connection.listen_point->write == onion_https_write)
+    return onion_https_has_pending(ws->req);
+#endif
+  return false;
+}
+
 /**
  * @short Used internally when new data is ready on the websocket file descriptor.
  * @memberof onion_websocket_t
@@ -605,7 +620,9 @@ onion_websocket_read_packet_header(onion_websocket * ws) {
 onion_connection_status onion_websocket_call(onion_websocket * ws) {
   onion_connection_status ret = OCS_NEED_MORE_DATA;
   while (ret == OCS_NEED_MORE_DATA) {
-    if (ws->req->connection.fd > 0) {
+    if (websocket_has_pending(ws)) {
+      // That data is no longer at the socket, nothing to wait for.
+    } else if (ws->req->connection.fd > 0) {
       struct pollfd pfd;
       pfd.events = POLLIN;
       pfd.fd = ws->req->connection.fd;
-- 
2.43.0


From cd87b9e111adbe8eb46a62705599039edec81117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:10 +0000
Subject: [PATCH 113/123] fix: a TLS session was started when the connection
 could not be accepted

---
 src/onion/https.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 8b1bf11..0f6fb0b 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -206,7 +206,8 @@ static void onion_https_free_user_data(onion_listen_point * op) {
  * @returns <0 in case of error.
  */
 static int onion_https_request_init(onion_request * req) {
-  onion_listen_point_request_init_from_socket(req);
+  if (onion_listen_point_request_init_from_socket(req) < 0)
+    return -1;
   onion_https *https = (onion_https *) req->connection.listen_point->user_data;
 
   ONION_DEBUG("Accept new request, fd %d", req->connection.fd);
-- 
2.43.0


From 2437d561f85419aebf19b59fed7507ec23b7f440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:11 +0000
Subject: [PATCH 114/123] fix: clients that did not complete the TLS handshake
 blocked the listen point

---
 src/onion/https.c | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 0f6fb0b..5fa5a05 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -200,7 +200,7 @@ static void onion_https_free_user_data(onion_listen_point * op) {
  * @memberof onion_https_t
  * @ingroup https
  *
- * Do the accept of the request, and the SSL handshake.
+ * Do the accept of the request, and prepares the SSL session.
  *
  * @param req The request
  * @returns <0 in case of error.
@@ -224,19 +224,36 @@ static int onion_https_request_init(onion_request * req) {
 
   gnutls_transport_set_ptr(session,
                            (gnutls_transport_ptr_t) (long)req->connection.fd);
+  if (req->connection.listen_point->server->timeout > 0)
+    gnutls_handshake_set_timeout(session,
+                                 req->connection.listen_point->server->timeout);
+
+  req->connection.user_data = (void *)session;
+  return 0;
+}
+
+/**
+ * @short Does the SSL handshake
+ * @memberof onion_https_t
+ * @ingroup https
+ *
+ * It is done when the client starts to talk, as to wait for it when accepting the connection
+ * would not let accept any other.
+ *
+ * @param req The request
+ * @returns <0 in case of error.
+ */
+static int onion_https_handshake(onion_request * req) {
+  gnutls_session_t session = (gnutls_session_t) req->connection.user_data;
   int ret;
   do {
     ret = gnutls_handshake(session);
-  } while (ret < 0 && gnutls_error_is_fatal(ret) == 0);
+  } while (ret < 0 && ret != GNUTLS_E_AGAIN && gnutls_error_is_fatal(ret) == 0);        // E_AGAIN is the timeout of the socket
   if (ret < 0) {                // could not handshake. assume an error.
     ONION_ERROR("Handshake has failed (%s)", gnutls_strerror(ret));
-    gnutls_bye(session, GNUTLS_SHUT_WR);
-    gnutls_deinit(session);
-    onion_listen_point_request_close_socket(req);
     return -1;
   }
-
-  req->connection.user_data = (void *)session;
+  gnutls_session_set_ptr(session, session);     // Mark it as done
   return 0;
 }
 
@@ -262,6 +279,13 @@ bool onion_https_has_pending(onion_request * req) {
  * @returns <0 if the connection should be closed
  */
 static int onion_https_read_ready(onion_request * req) {
+  gnutls_session_t session = (gnutls_session_t) req->connection.user_data;
+  if (!gnutls_session_get_ptr(session)) {
+    if (onion_https_handshake(req) < 0)
+      return OCS_CLOSE_CONNECTION;
+    if (!onion_https_has_pending(req))
+      return OCS_PROCESSED;
+  }
   int ret;
   do {
     ret = onion_http_read_ready(req);
-- 
2.43.0


From 2e8c45b6784ab36113f70cda2f38ba2b750090ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:17 +0000
Subject: [PATCH 115/123] fix: the first files served at the same time raced to
 decide whether to use sendfile

---
 src/onion/shortcuts.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 55b7329..0dbf4d9 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -189,15 +189,16 @@ static int onion_shortcut_parse_range(const char *range, size_t length,
 onion_connection_status onion_shortcut_response_file(const char *filename,
                                                      onion_request * request,
                                                      onion_response * res) {
-  if (onion_use_sendfile < 0) {
-    const char *use_sendfile = getenv("ONION_SENDFILE");
-    if (use_sendfile && strcmp(use_sendfile, "0") == 0) {
+  int use_sendfile = __atomic_load_n(&onion_use_sendfile, __ATOMIC_RELAXED);    // Now that we know global, use some local info as well.
+  if (use_sendfile < 0) {
+    const char *use_sendfile_env = getenv("ONION_SENDFILE");
+    if (use_sendfile_env && strcmp(use_sendfile_env, "0") == 0) {
       ONION_DEBUG("Sendfile is disabled");
-      onion_use_sendfile = 0;
+      use_sendfile = 0;
     } else
-      onion_use_sendfile = 1;
+      use_sendfile = 1;
+    __atomic_store_n(&onion_use_sendfile, use_sendfile, __ATOMIC_RELAXED);
   }
-  int use_sendfile = onion_use_sendfile;        // Now that we know global, use some local info as well.
 
   int fd = open(filename, O_RDONLY | O_CLOEXEC);
 
-- 
2.43.0


From e1fe065f0833521eaa5f55c43149c6d4d88dc831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:52 +0000
Subject: [PATCH 116/123] fix: any signal received while reading or writing
 closed the connection

---
 src/onion/http.c  | 16 ++++++++++++++--
 src/onion/https.c | 24 +++++++++++++++++++++---
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/onion/http.c b/src/onion/http.c
index 1726e22..ab8e4b1 100644
--- a/src/onion/http.c
+++ b/src/onion/http.c
@@ -21,9 +21,11 @@
   <http://www.apache.org/licenses/LICENSE-2.0>.
 */
 
+#include <errno.h>
 #include <stdlib.h>
 
 #include "types.h"
+#include "onion.h"
 #include "http.h"
 #include "types_internal.h"
 #include "listen_point.h"
@@ -67,7 +69,13 @@ onion_listen_point *onion_http_new() {
  * @ingroup http
  */
 static ssize_t onion_http_read(onion_request * con, char *data, size_t len) {
-  return read(con->connection.fd, data, len);
+  ssize_t ret;
+  do {                          // Any signal may interrupt it. If it was to stop listening, do stop.
+    ret = read(con->connection.fd, data, len);
+  } while (ret < 0 && errno == EINTR
+           && (onion_flags(con->connection.listen_point->server) &
+               O_LISTENING));
+  return ret;
 }
 
 /**
@@ -99,5 +107,9 @@ int onion_http_read_ready(onion_request * con) {
  * @ingroup http
  */
 ssize_t onion_http_write(onion_request * con, const char *data, size_t len) {
-  return write(con->connection.fd, data, len);
+  ssize_t ret;
+  do {
+    ret = write(con->connection.fd, data, len);
+  } while (ret < 0 && errno == EINTR);
+  return ret;
 }
diff --git a/src/onion/https.c b/src/onion/https.c
index 5fa5a05..87acce1 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -27,11 +27,13 @@
 #include <stdlib.h>
 #include <stdarg.h>
 #include <errno.h>
+#include <time.h>
 
 #include "low.h"
 #include "https.h"
 #include "http.h"
 #include "types_internal.h"
+#include "onion.h"
 #include "log.h"
 #include "listen_point.h"
 #include "request.h"
@@ -248,7 +250,7 @@ static int onion_https_handshake(onion_request * req) {
   int ret;
   do {
     ret = gnutls_handshake(session);
-  } while (ret < 0 && ret != GNUTLS_E_AGAIN && gnutls_error_is_fatal(ret) == 0);        // E_AGAIN is the timeout of the socket
+  } while (ret < 0 && gnutls_error_is_fatal(ret) == 0);        // Up to the timeout of the handshake
   if (ret < 0) {                // could not handshake. assume an error.
     ONION_ERROR("Handshake has failed (%s)", gnutls_strerror(ret));
     return -1;
@@ -305,7 +307,19 @@ static int onion_https_read_ready(onion_request * req) {
  */
 static ssize_t onion_https_read(onion_request * req, char *data, size_t len) {
   gnutls_session_t session = (gnutls_session_t) req->connection.user_data;
-  ssize_t ret = gnutls_record_recv(session, data, len);
+  onion *server = req->connection.listen_point->server;
+  struct timespec start, now;
+  ssize_t ret;
+  clock_gettime(CLOCK_MONOTONIC, &start);
+  do {                          // Any signal may interrupt it. If it was to stop listening, do stop.
+    ret = gnutls_record_recv(session, data, len);
+    clock_gettime(CLOCK_MONOTONIC, &now);
+    if (server->timeout > 0 && ((now.tv_sec - start.tv_sec) * 1000
+                                + (now.tv_nsec - start.tv_nsec) / 1000000
+                                >= server->timeout))
+      break;                    // E_AGAIN is also the timeout of the socket
+  } while ((ret == GNUTLS_E_INTERRUPTED || ret == GNUTLS_E_AGAIN)
+           && (onion_flags(server) & O_LISTENING));
   ONION_DEBUG("Read! (%p), %d bytes", session, ret);
   if (ret < 0) {
     ONION_ERROR("Reading data has failed (%s)", gnutls_strerror(ret));
@@ -326,7 +340,11 @@ static ssize_t onion_https_read(onion_request * req, char *data, size_t len) {
 ssize_t onion_https_write(onion_request * req, const char *data, size_t len) {
   gnutls_session_t session = (gnutls_session_t) req->connection.user_data;
   ONION_DEBUG("Write! (%p)", session);
-  return gnutls_record_send(session, data, len);
+  ssize_t ret;
+  do {
+    ret = gnutls_record_send(session, data, len);
+  } while (ret == GNUTLS_E_INTERRUPTED);
+  return ret;
 }
 
 /**
-- 
2.43.0


From e89036e16ef330f2a5e4cb6690e43ed6b64301c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:01 +0000
Subject: [PATCH 117/123] fix: setting a certificate crashed when TLS could not
 be initialized

---
 src/onion/https.c |  1 +
 src/onion/onion.c | 14 ++++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 87acce1..44a0195 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -136,6 +136,7 @@ onion_listen_point *onion_https_new() {
   if (e < 0) {
     ONION_ERROR("Error initializing HTTPS: %s", gnutls_strerror(e));
     gnutls_certificate_free_credentials(https->x509_cred);
+    gnutls_dh_params_deinit(https->dh_params);
     op->free_user_data = NULL;
     onion_listen_point_free(op);
     onion_low_free(https);
diff --git a/src/onion/onion.c b/src/onion/onion.c
index 09c4efb..6408ce6 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -919,7 +919,8 @@ int onion_set_certificate_va(onion * onion, onion_ssl_certificate_type type,
                              const char *filename, va_list va) {
 #ifdef HAVE_GNUTLS
   if (!onion->listen_points) {
-    onion_add_listen_point(onion, NULL, NULL, onion_https_new());
+    if (onion_add_listen_point(onion, NULL, NULL, onion_https_new()) < 0)
+      return -1;
   } else {
     onion_listen_point *first_listen_point = onion->listen_points[0];
     if (first_listen_point->write != onion_https_write) {
@@ -929,17 +930,18 @@ int onion_set_certificate_va(onion * onion, onion_ssl_certificate_type type,
         return -1;
       }
       ONION_DEBUG("Promoting from HTTP to HTTPS");
+      onion_listen_point *https = onion_https_new();
+      if (NULL == https) {
+        ONION_ERROR
+            ("Could not promote from HTTP to HTTPS. Certificate not set.");
+        return -1;
+      }
       char *port = first_listen_point->port
           ? onion_low_strdup(first_listen_point->port) : NULL;
       char *hostname = first_listen_point->hostname
           ? onion_low_strdup(first_listen_point->hostname) : NULL;
       onion_listen_point_free(first_listen_point);
-      onion_listen_point *https = onion_https_new();
       https->server = onion;
-      if (NULL == https) {
-        ONION_ERROR
-            ("Could not promote from HTTP to HTTPS. Certificate not set.");
-      }
       https->port = port;
       https->hostname = hostname;
       onion->listen_points[0] = https;
-- 
2.43.0


From 0c4eda03bf85034c7eca4a0e38e62041287d2040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:29 +0000
Subject: [PATCH 118/123] fix: after an internal redirect the query, and a new
 url from the current one, were read from freed memory

---
 src/onion/shortcuts.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onion/shortcuts.c b/src/onion/shortcuts.c
index 0dbf4d9..b22fc5a 100644
--- a/src/onion/shortcuts.c
+++ b/src/onion/shortcuts.c
@@ -46,6 +46,7 @@
 #include "dict.h"
 #include "block.h"
 #include "mime.h"
+#include "ptr_list.h"
 #include "types_internal.h"
 #include "low.h"
 
@@ -133,7 +134,8 @@ onion_connection_status onion_shortcut_redirect(const char *newurl,
 onion_connection_status onion_shortcut_internal_redirect(const char *newurl,
                                                          onion_request * req,
                                                          onion_response * res) {
-  onion_low_free(req->fullpath);
+  // The query keeps pointers into it, and newurl may be part of it. Free when the request is freed.
+  req->free_list = onion_ptr_list_add(req->free_list, req->fullpath);
   req->fullpath = req->path = onion_low_strdup(newurl);
   return onion_handler_handle(req->connection.listen_point->server->
                               root_handler, req, res);
-- 
2.43.0


From 8257b6ad89734c351b68902a6d37d6069e6386ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:49 +0000
Subject: [PATCH 119/123] fix: removing from a pointer list leaked, or never
 ended if not the first element

---
 src/onion/ptr_list.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/onion/ptr_list.c b/src/onion/ptr_list.c
index c04bf8a..263814b 100644
--- a/src/onion/ptr_list.c
+++ b/src/onion/ptr_list.c
@@ -51,11 +51,15 @@ onion_ptr_list *onion_ptr_list_add(onion_ptr_list * l, void *ptr) {
  * @ingroup ptr_list
  */
 onion_ptr_list *onion_ptr_list_remove(onion_ptr_list * l, void *ptr) {
-  if (!l)
-    return l;
-  if (ptr == l->ptr)
-    return l->next;
-  return onion_ptr_list_remove(l, ptr);
+  onion_ptr_list **p = &l;
+  while (*p && (*p)->ptr != ptr)
+    p = &(*p)->next;
+  if (*p) {
+    onion_ptr_list *n = *p;
+    *p = n->next;
+    onion_low_free(n);
+  }
+  return l;
 }
 
 /**
-- 
2.43.0


From a4f30285763e78509666ad4ca6b84a23b3974200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:54 +0000
Subject: [PATCH 120/123] fix: the user set to drop priviledges to was ignored

---
 src/onion/onion.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 6408ce6..067fe77 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -149,6 +149,9 @@ onion_url_add_url(url, ...); // Nesting
 #include <string.h>
 #include <errno.h>
 #include <stdbool.h>
+#include <unistd.h>
+#include <grp.h>
+#include <pwd.h>
 
 //#define HAVE_PTHREADS
 #ifdef HAVE_PTHREADS
@@ -460,6 +463,32 @@ static int onion_npollers(onion * o) {
   return 1;
 }
 
+static void onion_listen_end(onion * o);
+
+/// Drops the priviledges to those of the user set with onion_set_user, if any. Returns !=0 if it could not.
+static int onion_drop_priviledges(onion * o) {
+  if (!o->username)
+    return 0;
+  struct passwd *pw = getpwnam(o->username);
+  if (!pw) {
+    ONION_ERROR("Can not find the user to drop priviledges to: %s",
+                o->username);
+    return 1;
+  }
+  uid_t uid = pw->pw_uid;
+  gid_t gid = pw->pw_gid;
+  if (getuid() == uid && geteuid() == uid && getgid() == gid
+      && getegid() == gid && uid != 0)  // Already dropped
+    return 0;
+  if (initgroups(o->username, gid) != 0 || setgid(gid) != 0
+      || setuid(uid) != 0) {
+    ONION_ERROR("Can not drop priviledges to user %s: %s", o->username,
+                strerror(errno));
+    return 1;
+  }
+  return 0;
+}
+
 /// Starts listening at all listen points. Returns !=0 if none could.
 static int onion_listen_begin(onion * o) {
   if (!o->listen_points) {
@@ -480,6 +509,10 @@ static int onion_listen_begin(onion * o) {
     ONION_ERROR("There are no available listen points");
     return 1;
   }
+  if (onion_drop_priviledges(o) != 0) {
+    onion_listen_end(o);
+    return 1;
+  }
 
   if (!(onion_flags(o) & O_ONE))        // From now on it may be stopped
     onion_poller_announce(o->poller, onion_npollers(o));
@@ -803,6 +836,8 @@ int onion_flags(onion * onion) {
  * but the proper way should be use capabilities and/or SELinux.
  */
 void onion_set_user(onion * server, const char *username) {
+  if (server->username)
+    onion_low_free(server->username);
   server->username = onion_low_strdup(username);
 }
 
-- 
2.43.0


From b1f79f53dface646b0592c92258e248c66158f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:45 +0000
Subject: [PATCH 121/123] fix: onion_listen_stop also waits for a detached
 listener that a signal already advised to stop

---
 src/onion/onion.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/onion/onion.c b/src/onion/onion.c
index 067fe77..9e27d32 100644
--- a/src/onion/onion.c
+++ b/src/onion/onion.c
@@ -661,9 +661,8 @@ static void onion_listen_loop(onion * o) {
  * If there is any pending connection, it can finish if onion not freed before.
  */
 void onion_listen_stop(onion * server) {
-  if (!(onion_flags(server) & O_LISTENING))
-    return;
-  onion_listen_advise_stop(server);
+  if (onion_flags(server) & O_LISTENING)
+    onion_listen_advise_stop(server);
 #ifdef HAVE_PTHREADS
   onion_join_detached(server);
 #endif
-- 
2.43.0


From 28a2eb2b4d0e23d85d3151ba9f1fc1c901573e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:46 +0000
Subject: [PATCH 122/123] fix: do not declare again in an assets header without
 the mark what it already has

Everything an existing header without the insertion mark has is its tail, where
onion_assets_file_add_line did not look: each run declared the same again.
---
 tools/common/updateassets.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/common/updateassets.c b/tools/common/updateassets.c
index a6675f3..02674db 100644
--- a/tools/common/updateassets.c
+++ b/tools/common/updateassets.c
@@ -107,6 +107,14 @@ void onion_assets_file_add_line(onion_assets_file * f, const char *line) {
         ++ll;
       }
     }
+    if (f->tail) {
+      char **ll = f->tail;
+      while (*ll) {
+        if (strcmp(*ll, line) == 0)
+          return;
+        ++ll;
+      }
+    }
 
     int i;
     for (i = 0; i < f->lines_count; i++) {
-- 
2.43.0


From c3943d8fe5da4188602ec89c27b7b3ab526adf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:52 +0000
Subject: [PATCH 123/123] fix: a signal in the middle of a write over TLS does
 not cut the response

---
 src/onion/https.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onion/https.c b/src/onion/https.c
index 44a0195..f033046 100644
--- a/src/onion/https.c
+++ b/src/onion/https.c
@@ -342,9 +342,9 @@ ssize_t onion_https_write(onion_request * req, const char *data, size_t len) {
   gnutls_session_t session = (gnutls_session_t) req->connection.user_data;
   ONION_DEBUG("Write! (%p)", session);
   ssize_t ret;
-  do {
+  do {                          // E_AGAIN if a signal came when only a part of the record was written
     ret = gnutls_record_send(session, data, len);
-  } while (ret == GNUTLS_E_INTERRUPTED);
+  } while (ret == GNUTLS_E_INTERRUPTED || ret == GNUTLS_E_AGAIN);
   return ret;
 }
 
-- 
2.43.0


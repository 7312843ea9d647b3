From 200d9732b840ab0d0a2a92376a30057ce5e4a80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 01/45] fix: array delete macros broke when the index variable
 is named idx

---
 array/sc_array.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/array/sc_array.h b/array/sc_array.h
index cefca91..8b43c12 100644
--- a/array/sc_array.h
+++ b/array/sc_array.h
@@ -148,12 +148,12 @@
  */
 #define sc_array_del(a, i)                                                     \
 	do {                                                                   \
-                size_t idx = (i);                                              \
-		assert(idx < (a)->size);                                       \
+		const size_t _idx = (i);                                       \
+		assert(_idx < (a)->size);                                      \
                                                                                \
-		const size_t _cnt = (a)->size - (idx) - 1;                     \
+		const size_t _cnt = (a)->size - (_idx) - 1;                    \
 		if (_cnt > 0) {                                                \
-			memmove(&((a)->elems[idx]), &((a)->elems[idx + 1]),    \
+			memmove(&((a)->elems[_idx]), &((a)->elems[_idx + 1]),  \
 				_cnt * sizeof(*((a)->elems)));                 \
 		}                                                              \
 		(a)->size--;                                                   \
@@ -171,9 +171,9 @@
  */
 #define sc_array_del_unordered(a, i)                                           \
 	do {                                                                   \
-                size_t idx = (i);                                              \
-		assert(idx < (a)->size);                                       \
-		(a)->elems[idx] = (a)->elems[(--(a)->size)];                   \
+		const size_t _idx = (i);                                       \
+		assert(_idx < (a)->size);                                      \
+		(a)->elems[_idx] = (a)->elems[(--(a)->size)];                  \
 	} while (0)
 
 /**
-- 
2.43.0


From a16871924028f486328806a34c30ef9ca940ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 02/45] fix: queue refuses all adds forever after one failed
 growth

---
 queue/sc_queue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queue/sc_queue.h b/queue/sc_queue.h
index fa50512..0174056 100644
--- a/queue/sc_queue.h
+++ b/queue/sc_queue.h
@@ -68,6 +68,7 @@
 		size_t _pos = ((q)->last + 1) & ((q)->cap - 1);                \
 		void *_dst, *_src;                                             \
                                                                                \
+		(q)->oom = (q)->elems == NULL;                                 \
 		if (_pos == (q)->first) {                                      \
 			if ((q)->cap > SC_QUEUE_MAX / 2ul) {                   \
 				(q)->oom = true;                               \
-- 
2.43.0


From 945337d7f96017d7aaf6ac28330ce3928a8bbb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:23 +0000
Subject: [PATCH 03/45] fix: heap size stays incremented when an add runs out
 of memory

---
 heap/sc_heap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heap/sc_heap.c b/heap/sc_heap.c
index 984223d..35ad136 100644
--- a/heap/sc_heap.c
+++ b/heap/sc_heap.c
@@ -82,7 +82,7 @@ bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
 	size_t i, cap, m;
 	void *exp;
 
-	if (++h->size >= h->cap) {
+	if (h->size + 1 >= h->cap) {
 		cap = h->cap != 0 ? h->cap * 2 : 4;
 		m = cap * 2 * sizeof(*h->elems);
 
@@ -95,7 +95,7 @@ bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
 		h->cap = cap;
 	}
 
-	i = h->size;
+	i = ++h->size;
 	while (i != 1 && key < h->elems[i / 2].key) {
 		h->elems[i] = h->elems[i / 2];
 		i /= 2;
-- 
2.43.0


From 5cc3d0c37f0f356240c185d4c6579b2b435bd770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 04/45] fix: map init with a capacity above 2^31 allocates a
 zero-capacity table

---
 map/sc_map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/map/sc_map.c b/map/sc_map.c
index c81b124..5378225 100644
--- a/map/sc_map.c
+++ b/map/sc_map.c
@@ -107,6 +107,10 @@
 		}                                                              \
 		v++;                                                           \
                                                                                \
+		if (v == 0) {                                                  \
+			return NULL;                                           \
+		}                                                              \
+                                                                               \
 		*cap = v;                                                      \
 		t = sc_map_calloc(v + 1, sizeof(*t));                          \
 		return t ? &t[1] : NULL;                                       \
-- 
2.43.0


From a4f5c215ffaeee4286cdb3fe2a5059fa3a75539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 05/45] fix: 64-bit overflow in the buffer's bounds checks

---
 buffer/sc_buf.c | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index f04acc2..99c084c 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -96,16 +96,25 @@ uint64_t sc_buf_cap(struct sc_buf *b)
 	return b->cap;
 }
 
+static bool sc_buf_within(uint64_t pos, uint64_t len, uint64_t end)
+{
+	return pos <= end && len <= end - pos;
+}
+
 bool sc_buf_reserve(struct sc_buf *b, uint64_t len)
 {
 	uint64_t size;
 	void *m;
 
-	if (b->wpos + len > b->cap) {
+	if (!sc_buf_within(b->wpos, len, b->cap)) {
 		if (b->ref) {
 			goto err;
 		}
 
+		if (!sc_buf_within(b->cap, len, SC_BUF_MAX)) {
+			goto err;
+		}
+
 		size = ((b->cap + len + 4095) / 4096) * 4096;
 		if (size > b->limit || b->cap >= SC_BUF_MAX - 4096) {
 			goto err;
@@ -253,7 +262,7 @@ void sc_buf_move(struct sc_buf *dest, struct sc_buf *src)
 
 static uint16_t sc_buf_peek_8_pos(struct sc_buf *b, uint64_t pos, uint8_t *val)
 {
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_within(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -269,7 +278,7 @@ static uint16_t sc_buf_peek_16_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_within(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -287,7 +296,7 @@ static uint64_t sc_buf_peek_32_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_within(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -306,7 +315,7 @@ static uint64_t sc_buf_peek_64_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_within(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -325,7 +334,7 @@ static uint64_t sc_buf_peek_64_pos(struct sc_buf *b, uint64_t pos,
 static uint64_t sc_buf_set_8_pos(struct sc_buf *b, uint64_t pos,
 				 const uint8_t *val)
 {
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_within(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -340,7 +349,7 @@ static uint64_t sc_buf_set_16_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_within(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -358,7 +367,7 @@ static uint64_t sc_buf_set_32_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_within(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -378,7 +387,7 @@ static uint64_t sc_buf_set_64_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_within(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -452,7 +461,7 @@ uint64_t sc_buf_peek_64(struct sc_buf *b)
 uint64_t sc_buf_peek_data(struct sc_buf *b, uint64_t pos, unsigned char *dest,
 			  uint64_t len)
 {
-	if (b->err != 0 || (pos + len > b->wpos)) {
+	if (b->err != 0 || !sc_buf_within(pos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		memset(dest, 0, len);
 		return 0;
@@ -506,7 +515,7 @@ void sc_buf_set_64(struct sc_buf *b, uint64_t val)
 uint64_t sc_buf_set_data(struct sc_buf *b, uint64_t offset, const void *src,
 			 uint64_t len)
 {
-	if (b->err != 0 || (offset + len > b->cap)) {
+	if (b->err != 0 || !sc_buf_within(offset, len, b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -585,7 +594,7 @@ const char *sc_buf_get_str(struct sc_buf *b)
 		return NULL;
 	}
 
-	if (b->rpos + len + 1 > b->wpos) {
+	if (len >= b->wpos - b->rpos) {
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
@@ -604,7 +613,7 @@ void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
 		return NULL;
 	}
 
-	if (b->rpos + len > b->wpos) {
+	if (!sc_buf_within(b->rpos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
@@ -617,7 +626,7 @@ void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
 
 void sc_buf_get_data(struct sc_buf *b, void *dest, uint64_t len)
 {
-	if (b->rpos + len > b->wpos) {
+	if (!sc_buf_within(b->rpos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		memset(dest, 0, len);
 		return;
-- 
2.43.0


From b202510fedc5ab29d57070919ae564369dc421d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 06/45] fix: buffer returned strings that are not terminated
 inside the data

---
 buffer/sc_buf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 99c084c..1e9a4a6 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -600,6 +600,11 @@ const char *sc_buf_get_str(struct sc_buf *b)
 	}
 
 	str = (char *) b->mem + b->rpos;
+	if (str[len] != '\0') {
+		b->err |= SC_BUF_CORRUPT;
+		return NULL;
+	}
+
 	b->rpos += len + 1;
 
 	return str;
-- 
2.43.0


From 9e698985243c18bf5745c0dcca913265c30f30c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 07/45] fix: formatted put failed when the growth left no room
 for the terminator

It also appended bytes with a stale length to an already invalid buffer.
---
 buffer/sc_buf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 1e9a4a6..4fc8f6f 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -740,6 +740,10 @@ void sc_buf_put_fmt(struct sc_buf *b, const char *fmt, ...)
 	void *mem = (char *) sc_buf_wbuf(b) + sc_buf_64_len(0);
 	va_list args;
 
+	if (!sc_buf_valid(b)) {
+		return;
+	}
+
 	if (quota > len_bytes) {
 		quota -= len_bytes;
 	} else {
@@ -758,7 +762,7 @@ void sc_buf_put_fmt(struct sc_buf *b, const char *fmt, ...)
 	wr = (uint64_t) rc;
 
 	if (wr >= quota) {
-		if (!sc_buf_reserve(b, wr + len_bytes)) {
+		if (!sc_buf_reserve(b, wr + len_bytes + 1)) {
 			return;
 		}
 
-- 
2.43.0


From 26758ccd6770aa90a74d0442aec30718aa8c7627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 08/45] fix: text append refused text that fits exactly

On failure it also left the read position behind the write position.
---
 buffer/sc_buf.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 4fc8f6f..b99680f 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -794,7 +794,7 @@ void sc_buf_put_text(struct sc_buf *b, const char *fmt, ...)
 	va_list va;
 
 	dst = (char *) sc_buf_wbuf(b) - off;
-	quota = sc_buf_quota(b);
+	quota = sc_buf_quota(b) + off;
 
 	va_start(va, fmt);
 	rc = vsnprintf(dst, quota, fmt, va);
@@ -807,19 +807,19 @@ void sc_buf_put_text(struct sc_buf *b, const char *fmt, ...)
 
 	wr = (uint64_t) rc;
 	if (wr >= quota) {
-		if (!sc_buf_reserve(b, wr + 1)) {
+		if (!sc_buf_reserve(b, wr + 1 - off)) {
 			goto clean_up;
 		}
 
 		dst = (char *) sc_buf_wbuf(b) - off;
-		quota = sc_buf_quota(b);
+		quota = sc_buf_quota(b) + off;
 
 		va_start(va, fmt);
 		rc = vsnprintf(dst, quota, fmt, va);
 		va_end(va);
 
 		if (rc < 0 || (uint64_t) rc >= quota) {
-			b->err = SC_BUF_OOM;
+			b->err |= SC_BUF_OOM;
 			goto clean_up;
 		}
 	}
@@ -828,7 +828,8 @@ void sc_buf_put_text(struct sc_buf *b, const char *fmt, ...)
 	return;
 
 clean_up:
-	sc_buf_set_wpos(b, 0);
+	b->rpos = 0;
+	b->wpos = 0;
 }
 
 void sc_buf_put_blob(struct sc_buf *b, const void *ptr, uint64_t len)
-- 
2.43.0


From 085fc62e6d6b6f3a14b700b184f68a759a01bdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 09/45] fix: shrinking reallocated wrapped memory and could
 grow the buffer

---
 buffer/sc_buf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index b99680f..c8415e0 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -142,11 +142,14 @@ bool sc_buf_shrink(struct sc_buf *b, uint64_t len)
 
 	sc_buf_compact(b);
 
-	if (len > b->cap || b->wpos >= len) {
+	if (b->ref || len > b->cap || b->wpos >= len) {
 		return true;
 	}
 
 	len = ((len + 4095) / 4096) * 4096;
+	if (len > b->cap) {
+		return true;
+	}
 
 	tmp = sc_buf_realloc(b->mem, len);
 	if (tmp == NULL) {
-- 
2.43.0


From 2e72b186dc034c3d3b68182972742c4330b5ff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 10/45] fix: moving into an invalid buffer dropped the bytes
 from the source

---
 buffer/sc_buf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index c8415e0..246f561 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -257,10 +257,11 @@ void sc_buf_move(struct sc_buf *dest, struct sc_buf *src)
 	uint64_t quota = sc_buf_quota(dest);
 	uint64_t size = sc_buf_size(src);
 	uint64_t copy = quota < size ? quota : size;
+	uint64_t pos = dest->wpos;
 	void *from = &src->mem[src->rpos];
 
 	sc_buf_put_raw(dest, from, copy);
-	src->rpos += copy;
+	src->rpos += dest->wpos - pos;
 }
 
 static uint16_t sc_buf_peek_8_pos(struct sc_buf *b, uint64_t pos, uint8_t *val)
-- 
2.43.0


From 30e96b6ad20c36f2cfa0e481d797394fbda6bb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 11/45] fix: the rest of a long line of an INI file was parsed
 as another line

---
 ini/sc_ini.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ini/sc_ini.c b/ini/sc_ini.c
index c0901b7..634c9d9 100644
--- a/ini/sc_ini.c
+++ b/ini/sc_ini.c
@@ -141,7 +141,24 @@ int sc_ini_parse(void *arg, sc_ini_on_item cb, void *arg1,
 
 static char *file_line(void *p, char *buf, size_t size)
 {
-	return fgets(buf, (int) size, (FILE *) p);
+	int c;
+	size_t len = 0;
+	FILE *file = p;
+
+	while ((c = fgetc(file)) != EOF && c != '\n') {
+		/* Rest of a long line is dropped. */
+		if (len < size) {
+			buf[len++] = (char) c;
+		}
+	}
+
+	if (c == EOF && (len == 0 || ferror(file))) {
+		return NULL;
+	}
+
+	buf[len] = '\0';
+
+	return buf;
 }
 
 static char *string_line(void *p, char *buf, size_t size)
-- 
2.43.0


From d5854b70c5f58849bf2b3bd97beec6426b07fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 12/45] fix: URI delimiters inside a later component were taken
 for the authority or the query

---
 uri/sc_uri.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/uri/sc_uri.c b/uri/sc_uri.c
index 4c0ce36..b13f641 100644
--- a/uri/sc_uri.c
+++ b/uri/sc_uri.c
@@ -70,14 +70,14 @@ struct sc_uri *sc_uri_create(const char *str)
 		authority_len = 2;
 		pos += authority_len;
 
-		ptr = strchr(pos, '@');
-		if (ptr != NULL) {
+		ptr = pos + strcspn(pos, "@/?#");
+		if (*ptr == '@') {
 			userinfo = pos;
 			userinfo_len = ptr - pos + strlen("@");
 			pos = ptr + 1;
 		}
 
-		ptr = pos + strcspn(pos, *pos == '[' ? "]" : ":/?#");
+		ptr = pos + strcspn(pos, *pos == '[' ? "]/?#" : ":/?#");
 		host = pos;
 		host_len = ptr - pos + (*host == '[');
 		pos = host + host_len;
@@ -86,8 +86,8 @@ struct sc_uri *sc_uri_create(const char *str)
 			return NULL;
 		}
 
-		ptr = strchr(pos, ':');
-		if (ptr != NULL) {
+		ptr = pos;
+		if (*ptr == ':') {
 			if (*(ptr + 1) == '\0') {
 				return NULL;
 			}
@@ -108,9 +108,8 @@ struct sc_uri *sc_uri_create(const char *str)
 	path_len = strcspn(path, "?#");
 	pos = path + path_len;
 
-	ptr = strchr(pos, '?');
-	if (ptr != NULL) {
-		query = ptr;
+	if (*pos == '?') {
+		query = pos;
 		query_len = strcspn(query, "#");
 		pos = query + query_len;
 	}
-- 
2.43.0


From e5904c77b079ac53f42209241261e6b47bdaab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 13/45] fix: URI ports that are not a number from 0 to 65535
 were accepted

---
 uri/sc_uri.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uri/sc_uri.c b/uri/sc_uri.c
index b13f641..b8a135a 100644
--- a/uri/sc_uri.c
+++ b/uri/sc_uri.c
@@ -31,6 +31,7 @@
 
 #include "sc_uri.h"
 
+#include <ctype.h>
 #include <errno.h>
 #include <stdio.h>
 #include <string.h>
@@ -88,13 +89,14 @@ struct sc_uri *sc_uri_create(const char *str)
 
 		ptr = pos;
 		if (*ptr == ':') {
-			if (*(ptr + 1) == '\0') {
+			if (!isdigit((unsigned char) *(ptr + 1))) {
 				return NULL;
 			}
 
 			errno = 0;
 			val = strtoul(ptr + 1, &parse_end, 10);
-			if (errno != 0 || val > 65536) {
+			if (errno != 0 || val > 65535 ||
+			    strchr("/?#", *parse_end) == NULL) {
 				return NULL;
 			}
 
-- 
2.43.0


From 00887754365725f24414fb53974bf7e3e166c3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 14/45] fix: replacing an empty text in a string never ended

---
 string/sc_str.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/string/sc_str.c b/string/sc_str.c
index 4d378b9..93e772c 100644
--- a/string/sc_str.c
+++ b/string/sc_str.c
@@ -371,6 +371,11 @@ bool sc_str_replace(char **str, const char *replace, const char *with)
 		return false;
 	}
 
+	// Nothing to look for.
+	if (rep_len == 0) {
+		return true;
+	}
+
 	meta = sc_str_meta(*str);
 	orig = *str;
 	orig_end = *str + meta->len;
-- 
2.43.0


From b31a257b43b53524144d3b01ccd4ee3feb11a9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 15/45] fix: the random generator's state was not a
 permutation, so many bytes never appeared

---
 sc/sc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sc/sc.c b/sc/sc.c
index e47cad8..7ef10de 100644
--- a/sc/sc.c
+++ b/sc/sc.c
@@ -46,7 +46,9 @@ void sc_rand_init(struct sc_rand *r, const unsigned char *init)
 
 	*r = (struct sc_rand){0};
 
-	memcpy(r->init, init, 256);
+	for (int i = 0; i < 256; i++) {
+		r->init[i] = (unsigned char) i;
+	}
 
 	for (int i = 0; i < 256; i++) {
 		r->j += r->init[i] + init[i];
-- 
2.43.0


From 5e8ab4397eb40ac45c1f7294f84409ce6bfea835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 16/45] fix: negative sizes were accepted and could overflow

---
 sc/sc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sc/sc.c b/sc/sc.c
index 7ef10de..03e0b79 100644
--- a/sc/sc.c
+++ b/sc/sc.c
@@ -143,7 +143,7 @@ int64_t sc_size_to_bytes(const char *buf)
 
 	errno = 0;
 	val = strtoll(buf, &parse_end, 10);
-	if (errno != 0 || parse_end == buf) {
+	if (errno != 0 || parse_end == buf || val < 0) {
 		return -1;
 	}
 
-- 
2.43.0


From 3c0014729ab52f55bae630f2ee5931768139c934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 17/45] fix: a timer due beyond the 64-bit range fired at once
 or was lost

---
 timer/sc_timer.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/timer/sc_timer.c b/timer/sc_timer.c
index 81e02e9..1b5bf74 100644
--- a/timer/sc_timer.c
+++ b/timer/sc_timer.c
@@ -114,10 +114,14 @@ static bool expand(struct sc_timer *t)
 uint64_t sc_timer_add(struct sc_timer *t, uint64_t timeout, uint64_t type,
 		      void *data)
 {
-	const uint32_t offset = (uint32_t) (timeout / TICK + t->head);
-	const uint32_t pos = offset & (WHEEL_COUNT - 1);
+	// 'SC_TIMER_INVALID' marks a free slot, it can't be a due time.
+	const uint64_t max = SC_TIMER_INVALID - 1 - t->timestamp;
 	uint64_t id;
-	uint32_t seq, index, wheel_pos;
+	uint32_t offset, pos, seq, index, wheel_pos;
+
+	timeout = timeout < max ? timeout : max;
+	offset = (uint32_t) (timeout / TICK + t->head);
+	pos = offset & (WHEEL_COUNT - 1);
 
 	wheel_pos = (pos * t->wheel);
 	for (seq = 0; seq < t->wheel; seq++) {
-- 
2.43.0


From e4e3880f9a5c662d4a4a3de13ff8e705e26da8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 18/45] fix: timers added between two ticks were due up to a
 tick too early

---
 timer/sc_timer.c | 7 ++++++-
 timer/sc_timer.h | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/timer/sc_timer.c b/timer/sc_timer.c
index 1b5bf74..1eee8af 100644
--- a/timer/sc_timer.c
+++ b/timer/sc_timer.c
@@ -45,6 +45,7 @@ void sc_timer_init(struct sc_timer *t, uint64_t timestamp)
 {
 	*t = (struct sc_timer){
 		.timestamp = timestamp,
+		.now = timestamp,
 	};
 }
 
@@ -54,6 +55,7 @@ void sc_timer_term(struct sc_timer *t)
 
 	*t = (struct sc_timer){
 		.timestamp = t->timestamp,
+		.now = t->now,
 	};
 }
 
@@ -115,11 +117,12 @@ uint64_t sc_timer_add(struct sc_timer *t, uint64_t timeout, uint64_t type,
 		      void *data)
 {
 	// 'SC_TIMER_INVALID' marks a free slot, it can't be a due time.
-	const uint64_t max = SC_TIMER_INVALID - 1 - t->timestamp;
+	const uint64_t max = SC_TIMER_INVALID - 1 - t->now;
 	uint64_t id;
 	uint32_t offset, pos, seq, index, wheel_pos;
 
 	timeout = timeout < max ? timeout : max;
+	timeout += t->now - t->timestamp;
 	offset = (uint32_t) (timeout / TICK + t->head);
 	pos = offset & (WHEEL_COUNT - 1);
 
@@ -175,6 +178,8 @@ uint64_t sc_timer_timeout(struct sc_timer *t, uint64_t timestamp, void *arg,
 	uint32_t wheels = (uint32_t) (sc_timer_min(time / TICK, WHEEL_COUNT));
 	struct sc_timer_data *item;
 
+	t->now = timestamp;
+
 	if (wheels == 0) {
 		return sc_timer_min(TICK - time, TICK);
 	}
diff --git a/timer/sc_timer.h b/timer/sc_timer.h
index a7605f2..8339992 100644
--- a/timer/sc_timer.h
+++ b/timer/sc_timer.h
@@ -55,7 +55,8 @@ struct sc_timer_data {
 };
 
 struct sc_timer {
-	uint64_t timestamp;
+	uint64_t timestamp; // Start of the current tick
+	uint64_t now;	    // Latest timestamp given by the user
 	uint32_t head;
 	uint32_t wheel;
 	struct sc_timer_data *list;
-- 
2.43.0


From 94a167adaced6b035a38767f4d51b8f5762d5b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 19/45] fix: sleeping for more than INT64_MAX milliseconds
 returned at once

---
 time/sc_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/time/sc_time.c b/time/sc_time.c
index 03e00db..d945197 100644
--- a/time/sc_time.c
+++ b/time/sc_time.c
@@ -151,7 +151,7 @@ int sc_time_sleep(uint64_t millis)
 	int rc;
 	struct timespec t, rem;
 
-	rem.tv_sec = (time_t) millis / 1000;
+	rem.tv_sec = (time_t) (millis / 1000);
 	rem.tv_nsec = (long) (millis % 1000) * 1000000;
 
 	do {
-- 
2.43.0


From baf985d15b79a3a1de316bef94be21d3ea982be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 20/45] fix: joining a thread that failed to start used an
 undefined thread id

---
 thread/sc_thread.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thread/sc_thread.c b/thread/sc_thread.c
index 7dd1db1..cfea701 100644
--- a/thread/sc_thread.c
+++ b/thread/sc_thread.c
@@ -134,6 +134,8 @@ int sc_thread_start(struct sc_thread *t, void *(*fn)(void *), void *arg)
 
 	rc = pthread_create(&t->id, &attr, fn, arg);
 	if (rc != 0) {
+		// Thread id is undefined on failure, there is nothing to join.
+		t->id = 0;
 		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
 	}
 
-- 
2.43.0


From 310f9be0a660332947640a780bf6a43d34e30c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 21/45] fix: thread and condition errors were positive,
 documented as negative

---
 condition/sc_cond.c | 2 +-
 thread/sc_thread.c  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/condition/sc_cond.c b/condition/sc_cond.c
index d332c40..239536a 100644
--- a/condition/sc_cond.c
+++ b/condition/sc_cond.c
@@ -168,7 +168,7 @@ int sc_cond_term(struct sc_cond *c)
 
 	c->init = false;
 
-	return errno;
+	return errno != 0 ? -1 : 0;
 }
 
 void sc_cond_signal(struct sc_cond *c, void *data)
diff --git a/thread/sc_thread.c b/thread/sc_thread.c
index cfea701..f65fb57 100644
--- a/thread/sc_thread.c
+++ b/thread/sc_thread.c
@@ -142,7 +142,7 @@ int sc_thread_start(struct sc_thread *t, void *(*fn)(void *), void *arg)
 	// This may only fail with EINVAL.
 	pthread_attr_destroy(&attr);
 
-	return rc;
+	return rc != 0 ? -1 : 0;
 }
 
 int sc_thread_join(struct sc_thread *t, void **ret)
@@ -166,7 +166,7 @@ out:
 		*ret = val;
 	}
 
-	return rc;
+	return rc != 0 ? -1 : 0;
 }
 
 #endif
-- 
2.43.0


From 545e90a6661369c0da82a6ac1c157f5a51457814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 22/45] fix: log rotation did not count the header of each
 message

---
 logger/sc_log.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index bd5da24..d68296e 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -349,7 +349,7 @@ static int sc_log_print_header(FILE *fp, enum sc_log_level level)
 		return -1;
 	}
 
-	return 0;
+	return rc;
 }
 
 static int sc_log_stdout(enum sc_log_level level, const char *fmt, va_list va)
@@ -372,10 +372,10 @@ static int sc_log_stdout(enum sc_log_level level, const char *fmt, va_list va)
 
 static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 {
-	int rc, size;
+	int rc = 0, header, size;
 
-	rc = sc_log_print_header(sc_log.fp, level);
-	if (rc < 0) {
+	header = sc_log_print_header(sc_log.fp, level);
+	if (header < 0) {
 		return -1;
 	}
 
@@ -384,7 +384,7 @@ static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 		return -1;
 	}
 
-	sc_log.file_size += size;
+	sc_log.file_size += (size_t) header + (size_t) size;
 
 	if (sc_log.file_size > (size_t) SC_LOG_FILE_SIZE) {
 		fclose(sc_log.fp);
-- 
2.43.0


From f5590b24d69ea6bd9133306fd042f10160a9dbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 23/45] fix: a failing log rotation was not reported

---
 logger/sc_log.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index d68296e..bdce173 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -387,8 +387,13 @@ static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 	sc_log.file_size += (size_t) header + (size_t) size;
 
 	if (sc_log.file_size > (size_t) SC_LOG_FILE_SIZE) {
-		fclose(sc_log.fp);
-		(void) rename(sc_log.current_file, sc_log.prev_file);
+		if (fclose(sc_log.fp) != 0) {
+			rc = -1;
+		}
+
+		if (rename(sc_log.current_file, sc_log.prev_file) != 0) {
+			rc = -1;
+		}
 
 		sc_log.fp = fopen(sc_log.current_file, "w+");
 		if (sc_log.fp == NULL) {
-- 
2.43.0


From 3d3836438598b15bc31c578c0ad7305b4f6c7f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 24/45] fix: a log file path that is too long was refused
 without errno

---
 logger/sc_log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index bdce173..095c0ba 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -280,6 +280,7 @@ int sc_log_set_file(const char *prev, const char *current)
 
 	if (strlen(prev) >= sizeof(sc_log.prev_file) - 1 ||
 	    strlen(current) >= sizeof(sc_log.current_file) - 1) {
+		errno = ENAMETOOLONG;
 		goto error;
 	}
 
-- 
2.43.0


From 80604d8a8bc32951f60c27a6a6e24f8fa34c38f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 25/45] fix: signal-safe formatting wrote a terminator into a
 buffer of size zero

---
 signal/sc_signal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 030ac75..46487e3 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -103,7 +103,9 @@ int sc_signal_vsnprintf(char *buf, size_t sz, const char *fmt, va_list va)
 
 		switch (*pos) {
 		case '\0': {
-			*out = '\0';
+			if (sz != 0) {
+				*out = '\0';
+			}
 			return (int) (out - buf);
 		}
 		case '%': {
-- 
2.43.0


From c207260fadbfe2ff1755908526acdf419b91442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 26/45] fix: signal-safe formatting of the smallest 64-bit
 integer overflowed

---
 signal/sc_signal.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 46487e3..c9fdc17 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -133,7 +133,8 @@ int sc_signal_vsnprintf(char *buf, size_t sz, const char *fmt, va_list va)
 
 				} else if (*pos == 'd') {
 					i = get_int(va, pos - orig);
-					u = (uint64_t) (i < 0 ? -i : i);
+					u = i < 0 ? 0 - (uint64_t) i :
+						    (uint64_t) i;
 
 					do {
 						c = (char) ('0' + (u % 10));
-- 
2.43.0


From c2f5f2ad2bb91e0f99d465d54a291bbe07efff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 27/45] fix: signal-safe logging with an unsupported format
 wrote (size_t) -1 bytes

---
 signal/sc_signal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index c9fdc17..0989932 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -527,6 +527,10 @@ void sc_signal_log(int fd, char *buf, size_t sz, char *fmt, ...)
 	wr = sc_signal_vsnprintf(buf, sz, fmt, args);
 	va_end(args);
 
+	if (wr <= 0) {
+		return;
+	}
+
 	rc = (int) write(fd, buf, (size_t) wr);
 	(void) rc;
 }
-- 
2.43.0


From 82f402a5ac83ec10d2f7aed70636e3d89c9e60a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 28/45] fix: a second shutdown signal could be missed while the
 first was being handled

---
 signal/sc_signal.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 0989932..446e100 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -490,6 +490,11 @@ int sc_signal_init(void)
 	rc &= (signal(SIGPIPE, SIG_IGN) != SIG_ERR);
 	rc &= (sigemptyset(&action.sa_mask) == 0);
 
+	// Shutdown signals must not interrupt each other between checking and
+	// setting 'sc_signal_will_shutdown'.
+	rc &= (sigaddset(&action.sa_mask, SIGTERM) == 0);
+	rc &= (sigaddset(&action.sa_mask, SIGINT) == 0);
+
 	action.sa_flags = 0;
 	action.sa_handler = sc_signal_on_shutdown;
 
-- 
2.43.0


From a2c887e3121550104f1fb27a2b8b824ca10df14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 29/45] fix: syncing an unaligned range of a memory map left
 out its end

---
 memory-map/sc_mmap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/memory-map/sc_mmap.c b/memory-map/sc_mmap.c
index 249ed64..009c860 100644
--- a/memory-map/sc_mmap.c
+++ b/memory-map/sc_mmap.c
@@ -316,9 +316,10 @@ int sc_mmap_term(struct sc_mmap *m)
 int sc_mmap_msync(struct sc_mmap *m, size_t offset, size_t len)
 {
 	int rc;
-	char *p = (char *) m->ptr + (offset & ~(m->page_size - 1));
+	size_t diff = offset & (m->page_size - 1);
+	char *p = (char *) m->ptr + offset - diff;
 
-	rc = msync(p, len, MS_SYNC);
+	rc = msync(p, len + diff, MS_SYNC);
 	if (rc != 0) {
 		strncpy(m->err, strerror(errno), sizeof(m->err) - 1);
 	}
-- 
2.43.0


From 17dd7efbd3771bc8f9b0dbf56c131f7592a4784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 30/45] fix: multiplexed performance counters were scaled down
 instead of up

---
 perf/sc_perf.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/perf/sc_perf.c b/perf/sc_perf.c
index 14a8320..9fd6c2d 100644
--- a/perf/sc_perf.c
+++ b/perf/sc_perf.c
@@ -118,15 +118,17 @@ static void sc_read(struct sc_perf_item *items, size_t size)
 	} fmt;
 
 	for (size_t i = 0; i < size; i++) {
+		// Multiplexed counters are scaled up: They counted only while
+		// they were running.
 		double n = 1.0;
 
 		sc_perf_assert(read(items[i].fd, &fmt, sizeof(fmt)) ==
 			       sizeof(fmt));
 
 		if (fmt.time_enabled > 0 && fmt.time_running > 0) {
-			n = (double) fmt.time_running /
-			    (double) fmt.time_enabled;
-			items[i].active = n;
+			n = (double) fmt.time_enabled /
+			    (double) fmt.time_running;
+			items[i].active = 1.0 / n;
 		}
 
 		items[i].value += (double) fmt.value * n;
-- 
2.43.0


From 994ad60c5dc1ad49667626709609e7ed5ade4fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 31/45] fix: starting a running measurement again lost the time
 measured so far

---
 perf/sc_perf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/perf/sc_perf.c b/perf/sc_perf.c
index 9fd6c2d..94efbd9 100644
--- a/perf/sc_perf.c
+++ b/perf/sc_perf.c
@@ -171,6 +171,10 @@ void sc_perf_start(void)
 		init = 1;
 	}
 
+	if (running) {
+		return;
+	}
+
 	sc_perf_assert(prctl(PR_TASK_PERF_EVENTS_ENABLE) == 0);
 
 	start = sy_time_nano();
-- 
2.43.0


From a93ce3ff16734b095f75d3c347fd7e5599c8ec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 32/45] fix: socket timeouts dropped the milliseconds below a
 second

---
 socket/sc_sock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index f44d7c2..f5ca0a2 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -281,7 +281,7 @@ int sc_sock_set_rcvtimeo(struct sc_sock *s, int ms)
 	void *p;
 
 	struct timeval tv = {
-		.tv_usec = ms % 1000,
+		.tv_usec = (ms % 1000) * 1000,
 		.tv_sec = ms / 1000,
 	};
 
@@ -301,7 +301,7 @@ int sc_sock_set_sndtimeo(struct sc_sock *s, int ms)
 	void *p;
 
 	struct timeval tv = {
-		.tv_usec = ms % 1000,
+		.tv_usec = (ms % 1000) * 1000,
 		.tv_sec = ms / 1000,
 	};
 
-- 
2.43.0


From 0eaf3850e9b7fa2db8e308d7e48b36df3e8418b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 33/45] fix: unix domain sockets ignored the non-blocking mode

---
 socket/sc_sock.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index f5ca0a2..9183db3 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -349,6 +349,11 @@ static int sc_sock_bind(struct sc_sock *s, const char *host, const char *port)
 
 		s->fdt.fd = fd;
 
+		rc = sc_sock_set_blocking(s, s->blocking);
+		if (rc != 0) {
+			goto error_unix;
+		}
+
 		rc = sc_sock_bind_unix(s, host);
 		if (rc != 0) {
 			goto error_unix;
@@ -465,6 +470,11 @@ static int sc_sock_connect_unix(struct sc_sock *s, const char *addr)
 
 	strcpy(un.sun_path, addr);
 
+	rc = sc_sock_set_blocking(s, s->blocking);
+	if (rc != 0) {
+		goto err;
+	}
+
 	rc = connect(s->fdt.fd, (struct sockaddr *) &un, sizeof(un));
 	if (rc != 0) {
 		goto err;
-- 
2.43.0


From e325d7b17d81e6dbc8098d99693ae74d9e2f277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 34/45] fix: listening on an over-long unix path bound a
 truncated one

---
 socket/sc_sock.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 9183db3..2815fe4 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -322,7 +322,12 @@ static int sc_sock_bind_unix(struct sc_sock *s, const char *host)
 		.sun_family = AF_UNIX,
 	};
 
-	strncpy(addr.sun_path, host, sizeof(addr.sun_path) - 1);
+	if (strlen(host) >= sizeof(addr.sun_path)) {
+		errno = EINVAL;
+		return -1;
+	}
+
+	strcpy(addr.sun_path, host);
 	sc_unlink(host);
 
 	rc = bind(s->fdt.fd, (struct sockaddr *) &addr, sizeof(addr));
-- 
2.43.0


From 85d34282817615b794fd18fba9fa42d79bf0cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 35/45] fix: notifying systemd truncated an over-long socket
 path

---
 socket/sc_sock.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 2815fe4..e802f77 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -177,20 +177,22 @@ int sc_sock_notify_systemd(const char *msg)
 		return -1;
 	}
 
+	if (strlen(s) >= sizeof(addr.sun_path)) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	fd = socket(AF_UNIX, SOCK_DGRAM, 0);
 	if (fd < 0) {
 		return -1;
 	}
 
-	strncpy(addr.sun_path, s, sizeof(addr.sun_path) - 1);
+	strcpy(addr.sun_path, s);
 	if (addr.sun_path[0] == '@') {
 		addr.sun_path[0] = '\0';
 	}
 
 	msghdr.msg_namelen = (socklen_t)(offsetof(struct sockaddr_un, sun_path) + strlen(s));
-	if (msghdr.msg_namelen > sizeof(struct sockaddr_un)) {
-		msghdr.msg_namelen = sizeof(struct sockaddr_un);
-	}
 
 	rc = (int) sendmsg(fd, &msghdr, MSG_NOSIGNAL);
 
-- 
2.43.0


From 2f4a59701fe132b2637c6fb8bb33d24c64f5c0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 36/45] fix: describing an unnamed unix socket read
 uninitialised memory

---
 socket/sc_sock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index e802f77..e3b7dfc 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -832,7 +832,7 @@ static const char *sc_sock_print_storage(struct sc_sock *sock,
 const char *sc_sock_local_str(struct sc_sock *sock, char *buf, size_t len)
 {
 	int rc;
-	struct sockaddr_storage st;
+	struct sockaddr_storage st = {0};
 	socklen_t storage_len = sizeof(st);
 
 	rc = getsockname(sock->fdt.fd, (struct sockaddr *) &st, &storage_len);
@@ -848,7 +848,7 @@ const char *sc_sock_local_str(struct sc_sock *sock, char *buf, size_t len)
 const char *sc_sock_remote_str(struct sc_sock *sock, char *buf, size_t len)
 {
 	int rc;
-	struct sockaddr_storage st;
+	struct sockaddr_storage st = {0};
 	socklen_t storage_len = sizeof(st);
 
 	rc = getpeername(sock->fdt.fd, (struct sockaddr *) &st, &storage_len);
-- 
2.43.0


From ef72284de0e9a67c2b08997d0627a70ecebab2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 37/45] fix: a pipe without descriptors could be registered for
 somebody else's

---
 socket/sc_sock.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index e3b7dfc..68fe420 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -1031,6 +1031,7 @@ int sc_sock_pipe_init(struct sc_sock_pipe *p, int type)
 	int rc;
 
 	*p = (struct sc_sock_pipe){
+		.fdt.fd = SC_INVALID,
 		.fds = {SC_INVALID, SC_INVALID},
 	};
 
@@ -1067,6 +1068,7 @@ int sc_sock_pipe_term(struct sc_sock_pipe *p)
 		sc_sock_pipe_set_err(p, "pipe close() : %s ", strerror(errno));
 	}
 
+	p->fdt.fd = SC_INVALID;
 	p->fds[0] = SC_INVALID;
 	p->fds[1] = SC_INVALID;
 
-- 
2.43.0


From 5d8413d427d8c7cf25911902f4c4eaf564d4b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 38/45] fix: a reopened socket could not be added to a poll
 again

---
 socket/sc_sock.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 68fe420..20dbf31 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -355,6 +355,7 @@ static int sc_sock_bind(struct sc_sock *s, const char *host, const char *port)
 		}
 
 		s->fdt.fd = fd;
+		s->fdt.op = SC_SOCK_NONE;
 
 		rc = sc_sock_set_blocking(s, s->blocking);
 		if (rc != 0) {
@@ -392,6 +393,7 @@ error_unix:
 		}
 
 		s->fdt.fd = fd;
+		s->fdt.op = SC_SOCK_NONE;
 
 		if (s->family == AF_INET6) {
 			rc = setsockopt(s->fdt.fd, IPPROTO_IPV6, IPV6_V6ONLY,
@@ -469,6 +471,7 @@ static int sc_sock_connect_unix(struct sc_sock *s, const char *addr)
 	}
 
 	s->fdt.fd = fd;
+	s->fdt.op = SC_SOCK_NONE;
 
 	if (len >= sizeof(un.sun_path)) {
 		errno = EINVAL;
@@ -573,6 +576,7 @@ int sc_sock_connect(struct sc_sock *s, const char *dst_addr,
 
 			s->family = p->ai_family;
 			s->fdt.fd = fd;
+			s->fdt.op = SC_SOCK_NONE;
 
 			rc = sc_sock_set_blocking(s, s->blocking);
 			if (rc != 0) {
-- 
2.43.0


From 3d4403b7a382a6e7eb55f5c205e6d3d36f45dc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 39/45] fix: failing to change the blocking mode left no error
 text

---
 socket/sc_sock.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 20dbf31..a716983 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -230,11 +230,17 @@ int sc_sock_set_blocking(struct sc_sock *s, bool blocking)
 
 	flags = fcntl(s->fdt.fd, F_GETFL, 0);
 	if (flags == -1) {
+		sc_sock_errstr(s, 0);
 		return -1;
 	}
 
 	flags = blocking ? (flags & ~O_NONBLOCK) : (flags | O_NONBLOCK);
-	return (fcntl(s->fdt.fd, F_SETFL, flags) == 0) ? 0 : -1;
+	if (fcntl(s->fdt.fd, F_SETFL, flags) != 0) {
+		sc_sock_errstr(s, 0);
+		return -1;
+	}
+
+	return 0;
 }
 
 #endif
-- 
2.43.0


From 3c9d81944e2319d24eaee49a64dfdf277e512edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 40/45] fix: a failed connect changed the family of the socket

---
 socket/sc_sock.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index a716983..9685999 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -628,6 +628,7 @@ error:
 	sc_sock_errstr(s, 0);
 bind_error:
 	rv = -1;
+	s->family = family;
 	sc_sock_close(s);
 end:
 	freeaddrinfo(sinfo);
-- 
2.43.0


From 962bceaa31eba5c7b29cf8667681ffd2ab87aec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 41/45] fix: an interrupted poll started its timeout all over
 again

---
 socket/sc_sock.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 9685999..168bfbc 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -134,6 +134,7 @@ int sc_sock_notify_systemd(const char *msg)
 #include <netinet/tcp.h>
 #include <sys/time.h>
 #include <sys/un.h>
+#include <time.h>
 #include <unistd.h>
 
 #define sc_close(n) close(n)
@@ -1327,7 +1328,9 @@ uint32_t sc_sock_poll_event(struct sc_sock_poll *p, int i)
 
 int sc_sock_poll_wait(struct sc_sock_poll *p, int timeout)
 {
-	int n;
+	int n, remaining = timeout;
+	long long elapsed;
+	struct timespec start, now;
 	struct epoll_event *events = p->events;
 
 	if (events == NULL) {
@@ -1335,9 +1338,23 @@ int sc_sock_poll_wait(struct sc_sock_poll *p, int timeout)
 		return -1;
 	}
 
-	do {
-		n = epoll_wait(p->fds, events, SC_SOCK_POLL_MAX_EVENTS, timeout);
-	} while (n < 0 && errno == EINTR);
+	clock_gettime(CLOCK_MONOTONIC, &start);
+
+	while (true) {
+		n = epoll_wait(p->fds, events, SC_SOCK_POLL_MAX_EVENTS, remaining);
+		if (n >= 0 || errno != EINTR) {
+			break;
+		}
+
+		if (timeout > 0) {
+			// Interrupted, wait only for the rest of the timeout.
+			clock_gettime(CLOCK_MONOTONIC, &now);
+			elapsed = (now.tv_sec - start.tv_sec) * 1000LL +
+				  (now.tv_nsec - start.tv_nsec) / 1000000;
+			remaining = elapsed < timeout ?
+					    timeout - (int) elapsed : 0;
+		}
+	}
 
 	if (n == -1) {
 		sc_sock_poll_set_err(p, "epoll_wait : %s ", strerror(errno));
-- 
2.43.0


From 03d81f47c1d6f1f31f00d473fea5bd95e07388e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:27 +0000
Subject: [PATCH 42/45] fix: a size text of more than 4 GiB could be taken for
 a plain number

---
 sc/sc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sc/sc.c b/sc/sc.c
index 03e0b79..4ec1cfc 100644
--- a/sc/sc.c
+++ b/sc/sc.c
@@ -136,7 +136,7 @@ int64_t sc_size_to_bytes(const char *buf)
 	const int64_t pb = (int64_t) 1024 * 1024 * 1024 * 1024 * 1024;
 	const int64_t eb = (int64_t) 1024 * 1024 * 1024 * 1024 * 1024 * 1024;
 
-	int count;
+	size_t count;
 	int64_t val;
 	char *parse_end;
 	const char *end = (char *) (buf + strlen(buf));
@@ -147,7 +147,7 @@ int64_t sc_size_to_bytes(const char *buf)
 		return -1;
 	}
 
-	count = (int) (end - parse_end);
+	count = (size_t) (end - parse_end);
 
 	switch (count) {
 	case 0:
-- 
2.43.0


From 95fdafc64259e53bc7a1f215ace4c4ae78774ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:35 +0000
Subject: [PATCH 43/45] fix: queue: adding an element of the queue itself at
 its head stored whatever was in the slot

---
 queue/sc_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queue/sc_queue.h b/queue/sc_queue.h
index 0174056..1a0a9e6 100644
--- a/queue/sc_queue.h
+++ b/queue/sc_queue.h
@@ -236,8 +236,8 @@
 			break;                                                 \
 		}                                                              \
 		(q)->oom = false;                                              \
+		(q)->elems[((q)->first - 1) & ((q)->cap - 1)] = elem;          \
 		(q)->first = ((q)->first - 1) & ((q)->cap - 1);                \
-		(q)->elems[(q)->first] = elem;                                 \
 	} while (0)
 
 static inline size_t sc_queue_inc_first(size_t *first, size_t cap)
-- 
2.43.0


From afeea86f76cfc9120ad3ee788df02daae9843709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:35 +0000
Subject: [PATCH 44/45] fix: string: appending (part of) a string to itself
 read freed memory

---
 string/sc_str.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/string/sc_str.c b/string/sc_str.c
index 93e772c..6655977 100644
--- a/string/sc_str.c
+++ b/string/sc_str.c
@@ -207,7 +207,7 @@ bool sc_str_set_fmt(char **str, const char *fmt, ...)
 
 bool sc_str_append(char **str, const char *param)
 {
-	size_t len, alloc;
+	size_t len, alloc, pos;
 	struct sc_str *m;
 
 	if (*str == NULL) {
@@ -217,6 +217,7 @@ bool sc_str_append(char **str, const char *param)
 
 	m = sc_str_meta(*str);
 	len = strlen(param);
+	pos = (uintptr_t) param - (uintptr_t) *str;
 	alloc = sc_str_bytes(m->len + len);
 
 	if (len > SC_STR_MAX - m->len ||
@@ -224,6 +225,11 @@ bool sc_str_append(char **str, const char *param)
 		return false;
 	}
 
+	// 'param' might be part of the string itself, which may have moved.
+	if (pos <= m->len) {
+		param = &m->buf[pos];
+	}
+
 	memcpy(&m->buf[m->len], param, len);
 	m->len += (uint32_t) len;
 	m->buf[m->len] = '\0';
-- 
2.43.0


From b8a22dfd9e0a7133bae9fd19006374d59bc9ef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:35 +0000
Subject: [PATCH 45/45] fix: option: a lone dash matched an option without a
 letter and read past the argument

---
 option/sc_option.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/option/sc_option.c b/option/sc_option.c
index 58ccf50..ce21b08 100644
--- a/option/sc_option.c
+++ b/option/sc_option.c
@@ -50,7 +50,7 @@ char sc_option_at(struct sc_option *opt, int index, char **value)
 	pos++; // Skip first '-'
 	if (*pos != '-') {
 		for (int i = 0; i < opt->count; i++) {
-			if (*pos == opt->options[i].letter &&
+			if (*pos != '\0' && *pos == opt->options[i].letter &&
 			    strchr("= \0", *(pos + 1)) != NULL) {
 				id = *pos;
 				pos++; // skip letter
-- 
2.43.0


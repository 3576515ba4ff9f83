From 2cd9e41130ca50425250a3796f09a624d7df9ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:34 +0000
Subject: [PATCH 01/39] fix: prot: set returned message to NULL when more data
 is required

---
 src/pomp_prot.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index 4e891ba..a0d7481 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -293,6 +293,7 @@ int pomp_prot_decode_msg(struct pomp_prot *prot, const void *buf,
 	POMP_RETURN_ERR_IF_FAILED(prot != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(msg != NULL, -EINVAL);
+	*msg = NULL;
 
 	/* If idle, start a new parsing */
 	if (prot->state == POMP_PROT_STATE_IDLE)
-- 
2.43.0


From e7a62d2b85d53fd3f85a573bb2085666def95b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:34 +0000
Subject: [PATCH 02/39] fix: prot: do not miss a message whose magic follows a
 partial magic

---
 python/pomp/protocol.py |  8 +++++++-
 src/pomp_prot.c         | 10 +++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/python/pomp/protocol.py b/python/pomp/protocol.py
index f8ed675..95f85f8 100644
--- a/python/pomp/protocol.py
+++ b/python/pomp/protocol.py
@@ -155,7 +155,13 @@ class Protocol(object):
             magic = self.headerBuf.getData()[idx]
         if magic != val:
             _log.warning("Bad header magic %d: 0x%02x(0x%02x)", idx, magic, val)
-            self.state = Protocol._STATE_HEADER_MAGIC_0
+            if idx > 0 and magic == POMP_MAGIC_0:
+                # The bad byte can be the start of the real magic
+                self._reset()
+                self.headerBuf.writeByte(magic)
+                self.state = Protocol._STATE_HEADER_MAGIC_1
+            else:
+                self.state = Protocol._STATE_HEADER_MAGIC_0
         else:
             self.state = state
 
diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index a0d7481..ddc090a 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -119,7 +119,15 @@ static void pomp_prot_check_magic(struct pomp_prot *prot, int idx, int val,
 	if (prot->headerbuf[idx] != val) {
 		POMP_LOGW("Bad header magic %d : 0x%02x(0x%02x)",
 			idx, prot->headerbuf[idx], val);
-		prot->state = POMP_PROT_STATE_HEADER_MAGIC_0;
+		if (idx > 0 && prot->headerbuf[idx] ==
+				POMP_PROT_HEADER_MAGIC_0) {
+			/* The bad byte can be the start of the real magic */
+			prot->headerbuf[0] = prot->headerbuf[idx];
+			prot->offheader = 1;
+			prot->state = POMP_PROT_STATE_HEADER_MAGIC_1;
+		} else {
+			prot->state = POMP_PROT_STATE_HEADER_MAGIC_0;
+		}
 	} else {
 		prot->state = state;
 	}
-- 
2.43.0


From 5fd9519dcf321d7cb79f9770eaa1794bc9392f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:34 +0000
Subject: [PATCH 03/39] fix: prot: keep decoder usable after a message buffer
 allocation failure

---
 src/pomp_prot.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index ddc090a..9a6b83b 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -103,7 +103,10 @@ static int pomp_prot_alloc_msg(struct pomp_prot *prot, uint32_t msgid,
 	res = pomp_msg_init(prot->msg, msgid);
 	if (res < 0)
 		return res;
-	return pomp_buffer_ensure_capacity(prot->msg->buf, size);
+	res = pomp_buffer_ensure_capacity(prot->msg->buf, size);
+	if (res < 0)
+		(void)pomp_msg_clear(prot->msg);
+	return res;
 }
 
 /**
-- 
2.43.0


From 7b73017e2e476e23d003155ce1ba20424a8ec5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:34 +0000
Subject: [PATCH 04/39] fix: decoder: refuse varint that do not fit in 64 bits

---
 src/pomp_decoder.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index e9039f0..6a3b54e 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -163,6 +163,11 @@ static int decoder_read_varint(struct pomp_decoder *dec, uint8_t type,
 		res = pomp_buffer_readb(dec->msg->buf, &dec->pos, &b);
 		if (res < 0)
 			return res;
+		/* At most 10 bytes, with a single bit in the last one */
+		if (shift > 63 || (shift == 63 && (b & 0x7f) > 1)) {
+			POMP_LOGW("decoder : invalid varint");
+			return -EINVAL;
+		}
 		*v |= (((uint64_t)(b & 0x7f)) << shift);
 		shift += 7;
 	} while (b & 0x80);
-- 
2.43.0


From 4c95a037419b0ca737eec79f0de6e7ab4043dfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:34 +0000
Subject: [PATCH 05/39] fix: decoder: refuse sizes and 32-bit values too big
 for their type

---
 src/pomp_decoder.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index 6a3b54e..ea18be8 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -186,6 +186,10 @@ static int decoder_read_size_u16(struct pomp_decoder *dec, uint16_t *n)
 	int res = 0;
 	uint64_t d = 0;
 	res = decoder_read_varint(dec, 0, &d);
+	if (res == 0 && d > UINT16_MAX) {
+		POMP_LOGW("decoder : invalid 16-bit size");
+		res = -EINVAL;
+	}
 	*n = (uint16_t)d;
 	return res;
 }
@@ -201,6 +205,10 @@ static int decoder_read_size_u32(struct pomp_decoder *dec, uint32_t *n)
 	int res = 0;
 	uint64_t d = 0;
 	res = decoder_read_varint(dec, 0, &d);
+	if (res == 0 && d > UINT32_MAX) {
+		POMP_LOGW("decoder : invalid 32-bit size");
+		res = -EINVAL;
+	}
 	*n = (uint32_t)d;
 	return res;
 }
@@ -906,6 +914,10 @@ int pomp_decoder_read_i32(struct pomp_decoder *dec, int32_t *v)
 	POMP_RETURN_ERR_IF_FAILED(dec->msg != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(v != NULL, -EINVAL);
 	res = decoder_read_varint(dec, POMP_PROT_DATA_TYPE_I32, &d);
+	if (res == 0 && d > UINT32_MAX) {
+		POMP_LOGW("decoder : invalid 32-bit value");
+		res = -EINVAL;
+	}
 	/* Zigzag decoding, use logical right shift, without sign propagation */
 	*v = ((int32_t)(d >> 1)) ^ -((int32_t)(d & 0x1));
 	return res;
@@ -922,6 +934,10 @@ int pomp_decoder_read_u32(struct pomp_decoder *dec, uint32_t *v)
 	POMP_RETURN_ERR_IF_FAILED(dec->msg != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(v != NULL, -EINVAL);
 	res = decoder_read_varint(dec, POMP_PROT_DATA_TYPE_U32, &d);
+	if (res == 0 && d > UINT32_MAX) {
+		POMP_LOGW("decoder : invalid 32-bit value");
+		res = -EINVAL;
+	}
 	*v = (uint32_t)d;
 	return res;
 }
-- 
2.43.0


From 063e4ff248909034808ca472d833717e29b36c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:34 +0000
Subject: [PATCH 06/39] fix: decoder: allocate enough room for quoted strings
 in adump

---
 src/pomp_decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index ea18be8..f23e78d 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -606,7 +606,7 @@ static int decoder_dump_cb(struct pomp_decoder *dec, uint8_t type,
 		break;
 
 	case POMP_PROT_DATA_TYPE_STR:
-		res = dump_append(ctx, 6 + (uint32_t)strlen(v->cstr),
+		res = dump_append(ctx, 8 + (uint32_t)strlen(v->cstr),
 				", STR:'%s'", v->cstr);
 		break;
 
-- 
2.43.0


From ad8dc11276f7003ab416f8a0adadfc780678f8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:34 +0000
Subject: [PATCH 07/39] fix: decoder: report allocation failure during adump
 instead of truncating

---
 src/pomp_decoder.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index f23e78d..68dcc32 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -472,6 +472,7 @@ struct pomp_decoder_dump_ctx {
 	uint32_t	maxdst;	/**< Max length of destination */
 	uint32_t	pos;	/**< Current position in destination */
 	int		grow;	/**< Automatically grow destination */
+	int		res;	/**< Result of dump of arguments */
 };
 
 /**
@@ -636,6 +637,8 @@ static int decoder_dump_cb(struct pomp_decoder *dec, uint8_t type,
 	}
 
 out:
+	ctx->res = res;
+
 	/* Continue if no errors and destination not full */
 	return res == 0 && (ctx->pos < ctx->maxdst || ctx->grow);
 }
@@ -658,6 +661,8 @@ static int decoder_dump(struct pomp_decoder *dec,
 
 	/* Arguments */
 	res = pomp_decoder_walk(dec, &decoder_dump_cb, ctx, 1);
+	if (res == 0)
+		res = ctx->res;
 	if (res < 0)
 		goto out;
 
-- 
2.43.0


From 5a9912b52dda5c13ab830fba51498f373451df69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 08/39] fix: buffer: do not free twice the data after setting a
 null capacity

---
 src/pomp_buffer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index 028e537..9c497a2 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -294,6 +294,14 @@ int pomp_buffer_set_capacity(struct pomp_buffer *buf, size_t capacity)
 	POMP_RETURN_ERR_IF_FAILED(capacity >= buf->len, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf->refcount <= 1, -EPERM);
 
+	/* Do not rely on realloc with a null size */
+	if (capacity == 0) {
+		free(buf->data);
+		buf->data = NULL;
+		buf->capacity = 0;
+		return 0;
+	}
+
 	/* Resize internal data */
 	data = realloc(buf->data, capacity);
 	if (data == NULL)
-- 
2.43.0


From 0cae2a4f8b99bcfd222134dfc48ffaddac2f96da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 09/39] fix: buffer: allow appending a buffer to itself

---
 src/pomp_buffer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index 9c497a2..43143a4 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -392,6 +392,16 @@ int pomp_buffer_append_buffer(struct pomp_buffer *buf,
 	if (src_len == 0)
 		return 0;
 
+	/* Appending a buffer to itself shall not use data moved by a resize */
+	if (src == buf) {
+		POMP_RETURN_ERR_IF_FAILED(src_len <= SIZE_MAX - src_len,
+				-EINVAL);
+		res = pomp_buffer_ensure_capacity(buf, src_len + src_len);
+		if (res < 0)
+			return res;
+		src_cdata = buf->data;
+	}
+
 	return pomp_buffer_append_data(buf, src_cdata, src_len);
 }
 
-- 
2.43.0


From 566e17219492f733ad5ce19fc4828c5ff50e5d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:22 +0000
Subject: [PATCH 10/39] fix: buffer: refuse positions and sizes that overflow

---
 src/pomp_buffer.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index 43143a4..2cd3761 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -415,6 +415,8 @@ int pomp_buffer_ensure_capacity(struct pomp_buffer *buf, size_t capacity)
 
 	/* Resize internal data if needed */
 	if (capacity > buf->capacity) {
+		if (capacity > SIZE_MAX - POMP_BUFFER_ALLOC_STEP)
+			return -ENOMEM;
 		capacity = POMP_BUFFER_ALIGN_ALLOC_SIZE(capacity);
 		return pomp_buffer_set_capacity(buf, capacity);
 	}
@@ -434,6 +436,8 @@ int pomp_buffer_write(struct pomp_buffer *buf, size_t *pos,
 	POMP_RETURN_ERR_IF_FAILED(p != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf->refcount <= 1, -EPERM);
 
+	POMP_RETURN_ERR_IF_FAILED(n <= SIZE_MAX - *pos, -EINVAL);
+
 	/* Make sure there is enough room in data buffer */
 	res = pomp_buffer_ensure_capacity(buf, *pos + n);
 	if (res < 0)
@@ -517,7 +521,8 @@ int pomp_buffer_read(const struct pomp_buffer *buf, size_t *pos,
 	POMP_RETURN_ERR_IF_FAILED(p != NULL, -EINVAL);
 
 	/* Make sure there is enough room in data buffer */
-	POMP_RETURN_ERR_IF_FAILED(*pos + n <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(*pos <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(n <= buf->len - *pos, -EINVAL);
 
 	/* Copy data */
 	memcpy(p, buf->data + *pos, n);
@@ -536,7 +541,8 @@ int pomp_buffer_cread(const struct pomp_buffer *buf, size_t *pos,
 	POMP_RETURN_ERR_IF_FAILED(p != NULL, -EINVAL);
 
 	/* Make sure there is enough room in data buffer */
-	POMP_RETURN_ERR_IF_FAILED(*pos + n <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(*pos <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(n <= buf->len - *pos, -EINVAL);
 
 	/* Simply set start of data */
 	*p = buf->data + *pos;
-- 
2.43.0


From 4c8d88631851cc6eea3dccef5bc2050388bce557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:22 +0000
Subject: [PATCH 11/39] fix: buffer: do not truncate to 32 bits the aligned
 allocation size

---
 src/pomp_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomp_buffer.h b/src/pomp_buffer.h
index b2d55be..024184e 100644
--- a/src/pomp_buffer.h
+++ b/src/pomp_buffer.h
@@ -48,7 +48,7 @@
 
 /** Align size up to next allocation step */
 #define POMP_BUFFER_ALIGN_ALLOC_SIZE(_x) \
-	(((_x) + POMP_BUFFER_ALLOC_STEP - 1) & (~(POMP_BUFFER_ALLOC_STEP - 1)))
+	(((_x) + POMP_BUFFER_ALLOC_STEP - 1) & (~((size_t)POMP_BUFFER_ALLOC_STEP - 1)))
 
 /** Maximum number of file descriptor that can be put in a buffer */
 #define POMP_BUFFER_MAX_FD_COUNT	4
-- 
2.43.0


From 40ee4dcf96c09f1b3c3348cd770b5e7ddf3ac60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:22 +0000
Subject: [PATCH 12/39] fix: buffer: close file descriptors dropped when the
 length is reduced

---
 src/pomp_buffer.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index 2cd3761..0b48a61 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -316,9 +316,24 @@ int pomp_buffer_set_capacity(struct pomp_buffer *buf, size_t capacity)
  */
 int pomp_buffer_set_len(struct pomp_buffer *buf, size_t len)
 {
+	uint32_t i = 0, count = 0;
+	int fd = 0;
 	POMP_RETURN_ERR_IF_FAILED(buf != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(len <= buf->capacity, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf->refcount <= 1, -EPERM);
+
+	/* Release file descriptors that are no more in buffer */
+	for (i = 0; i < buf->fdcount; i++) {
+		if (buf->fdoffs[i] + sizeof(int32_t) <= len) {
+			buf->fdoffs[count++] = buf->fdoffs[i];
+			continue;
+		}
+		fd = pomp_buffer_get_fd(buf, buf->fdoffs[i]);
+		if (fd >= 0 && close(fd) < 0)
+			POMP_LOG_FD_ERRNO("close", fd);
+	}
+	buf->fdcount = count;
+
 	buf->len = len;
 	return 0;
 }
-- 
2.43.0


From 73e9e1f576ecead36936c708f13bfa51669b13ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:22 +0000
Subject: [PATCH 13/39] fix: encoder: check hexadecimal text of buffers given
 as arguments

---
 src/pomp_encoder.c | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/pomp_encoder.c b/src/pomp_encoder.c
index ee87eef..c454a51 100644
--- a/src/pomp_encoder.c
+++ b/src/pomp_encoder.c
@@ -209,19 +209,23 @@ static int encoder_write_size_u32(struct pomp_encoder *enc, uint32_t n)
  * @param decodepos : string to decode.
  * @param len : len in bytes of the resulting string.
  * @param out : allocated output buffer.
+ * @return 0 in case of success, -EINVAL if it is not an hexadecimal string.
  */
 static int parse_buffer_argv(const char *decodepos, uint32_t len, void *out)
 {
 	uint32_t i = 0;
 	/* first byte should be padded with 0 if len is odd */
-	if (strlen(decodepos) % 2 == 1)
-		sscanf(decodepos, "%hhx", &(((uint8_t *)out)[0]));
-	else
-		sscanf(decodepos, "%2hhx", &(((uint8_t *)out)[0]));
-	decodepos += 2;
-	for (i = 1; i < len; i++) {
-		sscanf(decodepos, "%2hhx", &(((uint8_t *)out)[i]));
-		decodepos += 2;
+	size_t n = strlen(decodepos) % 2 == 1 ? 1 : 2;
+	char digits[3];
+
+	for (i = 0; i < len; i++) {
+		memcpy(digits, decodepos, n);
+		digits[n] = '\0';
+		if (strspn(digits, "0123456789abcdefABCDEF") != n)
+			return -EINVAL;
+		sscanf(digits, "%hhx", &(((uint8_t *)out)[i]));
+		decodepos += n;
+		n = 2;
 	}
 	return 0;
 }
@@ -383,16 +387,25 @@ again:
 					EXTRACT_ARG(u32, uint32_t, unsigned int, strtoul);
 					len = v.u32;
 
-					v.buf = malloc(len);
+					decodepos = argv[argbufferpos];
+					/* codecheck_ignore[LONG_LINE] */
+					if (decodepos == NULL || (strlen(decodepos) + 1) / 2 < len) {
+						/* codecheck_ignore[LONG_LINE] */
+						POMP_LOGW("Missing buf argument");
+						res = -EINVAL;
+						break;
+					}
+
+					v.buf = malloc(len != 0 ? len : 1);
 					if (v.buf == NULL) {
 						res = -ENOMEM;
 						break;
 					}
-					decodepos = argv[argbufferpos];
-					/* codecheck_ignore[LONG_LINE] */
-					parse_buffer_argv(decodepos, len, v.buf);
 					/* codecheck_ignore[LONG_LINE] */
-					res = pomp_encoder_write_buf(enc, v.buf, len);
+					res = parse_buffer_argv(decodepos, len, v.buf);
+					if (res == 0)
+						/* codecheck_ignore[LONG_LINE] */
+						res = pomp_encoder_write_buf(enc, v.buf, len);
 					free(v.buf);
 				}
 			} else if (*fmt++ != '%' || *fmt++ != 'u') {
-- 
2.43.0


From afbb74cb6609eab1e6818edbd83586d31da26497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:50 +0000
Subject: [PATCH 14/39] fix: python: raise DecodeException when payload is
 truncated

---
 python/pomp/decoder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/pomp/decoder.py b/python/pomp/decoder.py
index 9827977..ac47dd8 100644
--- a/python/pomp/decoder.py
+++ b/python/pomp/decoder.py
@@ -250,10 +250,13 @@ class Decoder(object):
         return struct.unpack("<d", self._read(8))[0]
 
     def _read(self, count):
-        return self.msg.buf.read(count)
+        data = self.msg.buf.read(count)
+        if len(data) != count:
+            raise DecodeException("decoder : truncated argument")
+        return data
 
     def _readByte(self):
-        return self.msg.buf.readByte()
+        return struct.unpack("<B", self._read(1))[0]
 
     def _readType(self, datatype):
         readtype = self._readByte()
-- 
2.43.0


From 6b6dd98ea9a8359ecbd309eb9deb8b9b1940e3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:50 +0000
Subject: [PATCH 15/39] fix: python: refuse varint too big for their type

---
 python/pomp/decoder.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/pomp/decoder.py b/python/pomp/decoder.py
index ac47dd8..d92e44a 100644
--- a/python/pomp/decoder.py
+++ b/python/pomp/decoder.py
@@ -203,15 +203,15 @@ class Decoder(object):
 
     def readI32(self):
         self._readType(protocol.DATA_TYPE_I32)
-        zval = self._readVarint()
+        zval = self._readSizeU32()
         # Zigzag decoding, use logical right shift, without sign propagation
         val = ((zval >> 1) ^ -(zval & 0x1)) & 0xffffffff
         return val if val <= 0x7fffffff else val - 0xffffffff - 1
 
     def readU32(self):
         self._readType(protocol.DATA_TYPE_U32)
-        zval = self._readVarint()
-        return zval & 0xffffffff
+        zval = self._readSizeU32()
+        return zval
 
     def readI64(self):
         self._readType(protocol.DATA_TYPE_I64)
@@ -269,6 +269,9 @@ class Decoder(object):
         more = True
         while more:
             bval = self._readByte()
+            # At most 10 bytes, with a single bit in the last one
+            if shift > 63 or (shift == 63 and (bval & 0x7f) > 1):
+                raise DecodeException("decoder : invalid varint")
             val |= ((bval & 0x7f) << shift)
             shift += 7
             more = ((bval & 0x80) != 0)
@@ -278,4 +281,7 @@ class Decoder(object):
         return self._readVarint()
 
     def _readSizeU32(self):
-        return self._readVarint()
+        val = self._readVarint()
+        if val > 0xffffffff:
+            raise DecodeException("decoder : invalid 32-bit value")
+        return val
-- 
2.43.0


From a1fa9dfd0f597a1e1959aab62af4e796395d7f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:50 +0000
Subject: [PATCH 16/39] fix: python: encode and decode strings as UTF8 as
 advised by the protocol

---
 python/pomp/decoder.py | 5 ++++-
 python/pomp/encoder.py | 9 +++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/python/pomp/decoder.py b/python/pomp/decoder.py
index d92e44a..9f3bbc6 100644
--- a/python/pomp/decoder.py
+++ b/python/pomp/decoder.py
@@ -234,7 +234,10 @@ class Decoder(object):
         nullb = self._readByte()
         if nullb != 0:
             raise DecodeException("String not null terminated")
-        return sval.decode("ascii")
+        try:
+            return sval.decode("utf-8")
+        except UnicodeDecodeError:
+            raise DecodeException("Invalid string")
 
     def readBuf(self):
         self._readType(protocol.DATA_TYPE_BUF)
diff --git a/python/pomp/encoder.py b/python/pomp/encoder.py
index 3f4a1f1..1055b8a 100644
--- a/python/pomp/encoder.py
+++ b/python/pomp/encoder.py
@@ -195,12 +195,13 @@ class Encoder(object):
 
     def writeStr(self, sval):
         # Check length
-        if len(sval) + 1 > 0xffff:
-            raise EncodeException("Invalid string length: " + len(sval))
+        data = sval.encode("utf-8")
+        if len(data) + 1 > 0xffff:
+            raise EncodeException("Invalid string length: %d" % len(data))
         # Write type, size, data and final null
         self._writeType(protocol.DATA_TYPE_STR)
-        self._writeSizeU16(len(sval) + 1)
-        self._write(sval.encode("ascii"))
+        self._writeSizeU16(len(data) + 1)
+        self._write(data)
         self._writeByte(0)
 
     def writeBuf(self, buf):
-- 
2.43.0


From e1b0b8cab393e4de1fa09070f593c8612f54bf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:26 +0000
Subject: [PATCH 17/39] fix: addr: do not read past a unix path that is not
 null terminated

---
 src/pomp_addr.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pomp_addr.c b/src/pomp_addr.c
index 2008ca8..b532e5e 100644
--- a/src/pomp_addr.c
+++ b/src/pomp_addr.c
@@ -183,9 +183,13 @@ int pomp_addr_format(char *buf, uint32_t buflen, const struct sockaddr *addr,
 				-EINVAL);
 		addr_un = (const struct sockaddr_un *)addr;
 		if (addr_un->sun_path[0] == '\0')
-			snprintf(buf, buflen, "unix:@%s", addr_un->sun_path+1);
+			snprintf(buf, buflen, "unix:@%.*s",
+					(int)sizeof(addr_un->sun_path) - 1,
+					addr_un->sun_path + 1);
 		else
-			snprintf(buf, buflen, "unix:%s", addr_un->sun_path);
+			snprintf(buf, buflen, "unix:%.*s",
+					(int)sizeof(addr_un->sun_path),
+					addr_un->sun_path);
 		break;
 
 	default:
-- 
2.43.0


From 6d883f2b4fe80e031de2a5fc02869075952aab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:26 +0000
Subject: [PATCH 18/39] fix: addr: refuse ports greater than 65535 instead of
 truncating them

---
 src/pomp_addr.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pomp_addr.c b/src/pomp_addr.c
index b532e5e..aefd95b 100644
--- a/src/pomp_addr.c
+++ b/src/pomp_addr.c
@@ -47,7 +47,8 @@ static int pomp_addr_parse_inet(const char *buf, struct sockaddr *addr,
 {
 	int res = -EINVAL;
 	struct addrinfo hints;
-	char *ip = NULL, *sep = NULL;
+	char *ip = NULL, *sep = NULL, *end = NULL;
+	unsigned long port = 0;
 	struct addrinfo *ai = NULL;
 
 	/* Setup hints for getaddrinfo */
@@ -68,6 +69,11 @@ static int pomp_addr_parse_inet(const char *buf, struct sockaddr *addr,
 		goto out;
 	*sep = '\0';
 
+	/* getaddrinfo silently truncates numbers that are not valid ports */
+	port = strtoul(sep + 1, &end, 10);
+	if (sep[1] != '\0' && *end == '\0' && port > 65535)
+		goto out;
+
 	/* Convert address and port
 	 * WIN32 returns positive value for errors */
 	res = getaddrinfo(ip, sep + 1, &hints, &ai);
-- 
2.43.0


From 2451d2c0602fdabec1cebdf60a25bfb256bed53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:43 +0000
Subject: [PATCH 19/39] fix: watchdog: do not destroy mutex and condition that
 were not initialized

---
 src/pomp_watchdog.c | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/pomp_watchdog.c b/src/pomp_watchdog.c
index 6c054df..4ab3e02 100644
--- a/src/pomp_watchdog.c
+++ b/src/pomp_watchdog.c
@@ -143,8 +143,9 @@ int pomp_watchdog_start(struct pomp_watchdog *watchdog,
 			&pomp_watchdog_thread_cb, watchdog);
 	if (res != 0) {
 		POMP_LOGE("pthread_create:err=%d(%s)", res, strerror(res));
-		res = -res;
-		goto error;
+		pthread_mutex_destroy(&watchdog->mutex);
+		pthread_cond_destroy(&watchdog->cond);
+		return -res;
 	}
 	watchdog->started = 1;
 
@@ -154,31 +155,26 @@ int pomp_watchdog_start(struct pomp_watchdog *watchdog,
 	watchdog->userdata = userdata;
 
 	return 0;
-
-	/* Cleanup in case of error */
-error:
-	pomp_watchdog_stop(watchdog);
-	return res;
 }
 
 int pomp_watchdog_stop(struct pomp_watchdog *watchdog)
 {
 	POMP_RETURN_ERR_IF_FAILED(watchdog != NULL, -EINVAL);
 
+	/* Mutex and condition only exist if started */
+	if (!watchdog->started)
+		return 0;
+
 	/* Stop and join internal thread */
-	if (watchdog->started) {
-		pthread_mutex_lock(&watchdog->mutex);
-		watchdog->should_stop = 1;
-		pthread_cond_signal(&watchdog->cond);
-		pthread_mutex_unlock(&watchdog->mutex);
+	pthread_mutex_lock(&watchdog->mutex);
+	watchdog->should_stop = 1;
+	pthread_cond_signal(&watchdog->cond);
+	pthread_mutex_unlock(&watchdog->mutex);
 
-		pthread_join(watchdog->thread, NULL);
-		memset(&watchdog->thread, 0, sizeof(watchdog->thread));
-		pthread_mutex_lock(&watchdog->mutex);
-		watchdog->should_stop = 0;
-		pthread_mutex_unlock(&watchdog->mutex);
-		watchdog->started = 0;
-	}
+	pthread_join(watchdog->thread, NULL);
+	memset(&watchdog->thread, 0, sizeof(watchdog->thread));
+	watchdog->should_stop = 0;
+	watchdog->started = 0;
 
 	pthread_mutex_destroy(&watchdog->mutex);
 	pthread_cond_destroy(&watchdog->cond);
-- 
2.43.0


From d3d03f9002a51d7192051d4579d8e811b46a22a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:25 +0000
Subject: [PATCH 20/39] fix: timer: delete the posix timer whose id is 0

---
 src/pomp_timer.h       | 1 +
 src/pomp_timer_posix.c | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pomp_timer.h b/src/pomp_timer.h
index 1622336..a117e8f 100644
--- a/src/pomp_timer.h
+++ b/src/pomp_timer.h
@@ -43,6 +43,7 @@ struct pomp_timer {
 
 #ifdef POMP_HAVE_TIMER_POSIX
 	timer_t			id;		/**< Timer id */
+	int			created;	/**< Timer id is valid */
 	int			pipefds[2];	/**< Notification pipes */
 #endif /* POMP_HAVE_TIMER_POSIX */
 
diff --git a/src/pomp_timer_posix.c b/src/pomp_timer_posix.c
index 2147548..61ce9de 100644
--- a/src/pomp_timer_posix.c
+++ b/src/pomp_timer_posix.c
@@ -92,7 +92,7 @@ static int pomp_timer_posix_destroy(struct pomp_timer *timer)
 	/* Free resources */
 	/* from 'timer_delete' man page : The treatment of any pending signal
 	 * generated by the deleted timer is unspecified */
-	if (timer->id != 0)
+	if (timer->created)
 		timer_delete(timer->id);
 	if (timer->pipefds[0] >= 0) {
 		pomp_loop_remove(timer->loop, timer->pipefds[0]);
@@ -137,6 +137,7 @@ static struct pomp_timer *pomp_timer_posix_new(struct pomp_loop *loop,
 		POMP_LOG_ERRNO("timer_create");
 		goto error;
 	}
+	timer->created = 1;
 
 	/* Create pipe for notification */
 	res = pipe(timer->pipefds);
-- 
2.43.0


From beb30cff0ec9cd998f5ccf00c8b1fb5109f2a414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:25 +0000
Subject: [PATCH 21/39] fix: timer: do not notify a posix timer that expired
 before being cleared

---
 src/pomp_timer_posix.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pomp_timer_posix.c b/src/pomp_timer_posix.c
index 61ce9de..577b796 100644
--- a/src/pomp_timer_posix.c
+++ b/src/pomp_timer_posix.c
@@ -78,6 +78,10 @@ static void pomp_timer_posix_cb(int fd, uint32_t revents, void *userdata)
 		res = read(timer->pipefds[0], &dummy, sizeof(dummy));
 	} while (res < 0 && errno == EINTR);
 
+	/* Timer may have been set or cleared since it was notified */
+	if (res <= 0)
+		return;
+
 	/* Notify callback */
 	(*timer->cb)(timer, timer->userdata);
 }
@@ -187,6 +191,8 @@ static int pomp_timer_posix_set(struct pomp_timer *timer, uint32_t delay,
 		uint32_t period)
 {
 	int res = 0;
+	uint8_t dummy[64];
+	ssize_t readlen = 0;
 	struct itimerspec newval, oldval;
 	POMP_RETURN_ERR_IF_FAILED(timer != NULL, -EINVAL);
 
@@ -198,8 +204,14 @@ static int pomp_timer_posix_set(struct pomp_timer *timer, uint32_t delay,
 	if (timer_settime(timer->id, 0, &newval, &oldval) < 0) {
 		res = -errno;
 		POMP_LOG_ERRNO("timer_settime");
+		return res;
 	}
 
+	/* Forget expirations of the previous setting not yet notified */
+	do {
+		readlen = read(timer->pipefds[0], dummy, sizeof(dummy));
+	} while (readlen > 0 || (readlen < 0 && errno == EINTR));
+
 	return res;
 }
 
-- 
2.43.0


From a9abb4f450204c691fffb4485407521c11900dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:25 +0000
Subject: [PATCH 22/39] fix: evt: do not notify an event cleared by another
 callback of the same step

---
 src/pomp_evt_linux.c | 11 ++++++++++-
 src/pomp_evt_posix.c | 10 ++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/pomp_evt_linux.c b/src/pomp_evt_linux.c
index 5224480..d5b9027 100644
--- a/src/pomp_evt_linux.c
+++ b/src/pomp_evt_linux.c
@@ -123,7 +123,16 @@ static int pomp_evt_fd_clear(struct pomp_evt *evt)
 static void pomp_evt_fd_cb(int fd, uint32_t revents, void *userdata)
 {
 	struct pomp_evt *evt = userdata;
-	pomp_evt_fd_clear(evt);
+	ssize_t ret;
+	uint64_t count;
+
+	do {
+		ret = read(evt->efd, &count, sizeof(count));
+	} while (ret < 0 && errno == EINTR);
+
+	/* May have been cleared since the loop found it signaled */
+	if (ret < 0 && errno == EAGAIN)
+		return;
 	(*evt->cb)(evt, evt->userdata);
 }
 
diff --git a/src/pomp_evt_posix.c b/src/pomp_evt_posix.c
index a4088c9..4ca04c8 100644
--- a/src/pomp_evt_posix.c
+++ b/src/pomp_evt_posix.c
@@ -137,6 +137,16 @@ static int pomp_evt_posix_clear(struct pomp_evt *evt)
 static void pomp_evt_posix_cb(int fd, uint32_t revents, void *userdata)
 {
 	struct pomp_evt *evt = userdata;
+	ssize_t ret;
+	uint8_t dummy;
+
+	do {
+		ret = read(evt->pipefds[0], &dummy, sizeof(dummy));
+	} while (ret < 0 && errno == EINTR);
+
+	/* May have been cleared since the loop found it signaled */
+	if (ret < 0 && errno == EAGAIN)
+		return;
 	pomp_evt_posix_clear(evt);
 	(*evt->cb)(evt, evt->userdata);
 }
-- 
2.43.0


From 334fe2933b1eaaca8eac22a828f522d556aed371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:25 +0000
Subject: [PATCH 23/39] fix: loop: do not notify stale events to fds updated or
 added in the same step

---
 src/pomp_loop.c       | 22 ++++++++++++++++++++++
 src/pomp_loop.h       |  5 +++++
 src/pomp_loop_linux.c |  8 +++-----
 src/pomp_loop_posix.c |  7 +++----
 4 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/pomp_loop.c b/src/pomp_loop.c
index 97710b4..cbd3523 100644
--- a/src/pomp_loop.c
+++ b/src/pomp_loop.c
@@ -206,6 +206,7 @@ struct pomp_fd *pomp_loop_add_pfd(struct pomp_loop *loop, intptr_t fd,
 	pfd->events = events;
 	pfd->cb = cb;
 	pfd->userdata = userdata;
+	pfd->step = loop->step;
 	pfd->next = NULL;
 
 	/* Add in our own list */
@@ -252,6 +253,27 @@ int pomp_loop_remove_pfd(struct pomp_loop *loop, struct pomp_fd *pfd)
 	return -ENOENT;
 }
 
+/**
+ * Notify a registered fd of the events found by a wait.
+ * @param loop : loop.
+ * @param fd : fd to notify.
+ * @param revents : events found ready.
+ * @param step : step of the loop the events were found in.
+ * @remarks previous callbacks of the same step may have removed the fd, changed
+ * its monitored events or even registered another file with the same number.
+ */
+void pomp_loop_notify_fd(struct pomp_loop *loop, intptr_t fd,
+		uint32_t revents, uint32_t step)
+{
+	struct pomp_fd *pfd = pomp_loop_find_pfd(loop, fd);
+	if (pfd == NULL || (int32_t)(pfd->step - step) >= 0)
+		return;
+
+	revents &= pfd->events | POMP_FD_EVENT_ERR | POMP_FD_EVENT_HUP;
+	if (revents != 0)
+		(*pfd->cb)(pfd->fd, revents, pfd->userdata);
+}
+
 static void pomp_idle_evt_cb(struct pomp_evt *evt, void *userdata)
 {
 	struct pomp_loop *loop = userdata;
diff --git a/src/pomp_loop.h b/src/pomp_loop.h
index f3f4b7b..0b3f5d7 100644
--- a/src/pomp_loop.h
+++ b/src/pomp_loop.h
@@ -49,6 +49,7 @@ struct pomp_fd {
 	uint32_t		events;		/**< Monitored events */
 	pomp_fd_event_cb_t	cb;		/**< Registered callback */
 	void			*userdata;	/**< Callback user data */
+	uint32_t		step;		/**< Loop step it was added in */
 	struct pomp_fd		*next;		/**< Next structure in list */
 
 #ifdef POMP_HAVE_LOOP_WIN32
@@ -65,6 +66,7 @@ struct pomp_loop {
 	/** Array of list of registered fds */
 	struct pomp_fd		*pfds[POMP_LOOP_PFDS_LEN];
 	uint32_t		pfdcount;	/**< Number of registered fds */
+	uint32_t		step;		/**< Number of waits completed */
 
 	struct pomp_list_node	idle_entries;	/**< Idle entries */
 	struct pomp_evt		*idle_evt;	/**<  */
@@ -146,6 +148,9 @@ const struct pomp_loop_ops *pomp_loop_set_ops(const struct pomp_loop_ops *ops);
 
 struct pomp_fd *pomp_loop_find_pfd(struct pomp_loop *loop, intptr_t fd);
 
+void pomp_loop_notify_fd(struct pomp_loop *loop, intptr_t fd,
+		uint32_t revents, uint32_t step);
+
 struct pomp_fd *pomp_loop_add_pfd(struct pomp_loop *loop, intptr_t fd,
 		uint32_t events, pomp_fd_event_cb_t cb, void *userdata);
 
diff --git a/src/pomp_loop_linux.c b/src/pomp_loop_linux.c
index 92be214..6b680f4 100644
--- a/src/pomp_loop_linux.c
+++ b/src/pomp_loop_linux.c
@@ -250,8 +250,7 @@ static int pomp_loop_epoll_do_wait_and_process(struct pomp_loop *loop,
 	int res = 0;
 	uint32_t i = 0, nevents = 0;
 	struct epoll_event events[16];
-	struct pomp_fd *pfd = NULL;
-	uint32_t revents = 0;
+	uint32_t revents = 0, step = 0;
 
 	memset(events, 0, sizeof(events));
 
@@ -270,6 +269,7 @@ static int pomp_loop_epoll_do_wait_and_process(struct pomp_loop *loop,
 	pomp_watchdog_enter(&loop->watchdog);
 
 	/* Process events */
+	step = ++loop->step;
 	nevents = (uint32_t)res;
 	for (i = 0; i < nevents; i++) {
 		revents = fd_events_from_epoll(events[i].events);
@@ -283,9 +283,7 @@ static int pomp_loop_epoll_do_wait_and_process(struct pomp_loop *loop,
 		}
 
 		/* The list might be modified during the callback call */
-		pfd = pomp_loop_find_pfd(loop, events[i].data.fd);
-		if (pfd != NULL)
-			(*pfd->cb)(pfd->fd, revents, pfd->userdata);
+		pomp_loop_notify_fd(loop, events[i].data.fd, revents, step);
 	}
 
 	pomp_watchdog_leave(&loop->watchdog);
diff --git a/src/pomp_loop_posix.c b/src/pomp_loop_posix.c
index dda5fae..866fd8e 100644
--- a/src/pomp_loop_posix.c
+++ b/src/pomp_loop_posix.c
@@ -185,7 +185,7 @@ static int pomp_loop_poll_do_wait_and_process(struct pomp_loop *loop,
 	uint32_t i = 0, nevents = 0;
 	struct pomp_fd *pfd = NULL;
 	struct pollfd *pollfds = NULL;
-	uint32_t revents = 0;
+	uint32_t revents = 0, step = 0;
 	uint32_t pfdcount = 0;
 	unsigned int pfdi;
 
@@ -236,6 +236,7 @@ static int pomp_loop_poll_do_wait_and_process(struct pomp_loop *loop,
 	pomp_watchdog_enter(&loop->watchdog);
 
 	/* Process events */
+	step = ++loop->step;
 	nevents = (uint32_t)res;
 	for (i = 0; i < pfdcount; i++) {
 		revents = fd_events_from_poll(loop->pollfds[i].revents);
@@ -249,9 +250,7 @@ static int pomp_loop_poll_do_wait_and_process(struct pomp_loop *loop,
 		}
 
 		/* The list might be modified during the callback call */
-		pfd = pomp_loop_find_pfd(loop, loop->pollfds[i].fd);
-		if (pfd != NULL)
-			(*pfd->cb)(pfd->fd, revents, pfd->userdata);
+		pomp_loop_notify_fd(loop, loop->pollfds[i].fd, revents, step);
 	}
 
 	pomp_watchdog_leave(&loop->watchdog);
-- 
2.43.0


From 5396d7a714ec65c89bc157295b80adeb4de1916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:25 +0000
Subject: [PATCH 24/39] fix: watchdog: fix absolute timeout falling on a full
 second

---
 src/pomp_watchdog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomp_watchdog.c b/src/pomp_watchdog.c
index 4ab3e02..810fdf6 100644
--- a/src/pomp_watchdog.c
+++ b/src/pomp_watchdog.c
@@ -54,7 +54,7 @@ static void get_absolute_timeout(uint32_t delay, struct timespec *timeout)
 
 	timeout->tv_sec += delay / 1000;
 	timeout->tv_nsec += (delay % 1000) * 1000000;
-	while (timeout->tv_nsec > 1000000000) {
+	while (timeout->tv_nsec >= 1000000000) {
 		/* over one billion nsec, add 1 sec */
 		timeout->tv_sec++;
 		timeout->tv_nsec -= 1000000000;
-- 
2.43.0


From 380d6e83739d235b43f4f39ca5ce498c63026197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 25/39] fix: watchdog: forget the monitored step when stopped

A watchdog disabled then enabled again by a callback expired in the same step
for the time elapsed before it was enabled, possibly before its callback was
set.
---
 src/pomp_watchdog.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pomp_watchdog.c b/src/pomp_watchdog.c
index 810fdf6..7065587 100644
--- a/src/pomp_watchdog.c
+++ b/src/pomp_watchdog.c
@@ -175,6 +175,7 @@ int pomp_watchdog_stop(struct pomp_watchdog *watchdog)
 	memset(&watchdog->thread, 0, sizeof(watchdog->thread));
 	watchdog->should_stop = 0;
 	watchdog->started = 0;
+	watchdog->monitoring = 0;
 
 	pthread_mutex_destroy(&watchdog->mutex);
 	pthread_cond_destroy(&watchdog->cond);
-- 
2.43.0


From adf15b5b7b37117bb3c651c3cdfaed9e59e61960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 26/39] fix: keep the peer address of local stream connections
 when reading

---
 src/pomp_conn.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index fabce02..0f3302f 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -610,8 +610,11 @@ static int pomp_conn_process_read_with_cmsg(struct pomp_conn *conn)
 	/* Setup the data part of the socket message */
 	iov.iov_base = conn->readbuf->data;
 	iov.iov_len = conn->readbuf->capacity;
-	msg.msg_name = &conn->peer_addr;
-	msg.msg_namelen = sizeof(conn->peer_addr);
+	if (conn->isdgram) {
+		/* The address of the peer of a stream socket never changes */
+		msg.msg_name = &conn->peer_addr;
+		msg.msg_namelen = sizeof(conn->peer_addr);
+	}
 	msg.msg_iov = &iov;
 	msg.msg_iovlen = 1;
 
@@ -632,7 +635,8 @@ static int pomp_conn_process_read_with_cmsg(struct pomp_conn *conn)
 			POMP_LOG_FD_ERRNO("recvmsg", conn->fd);
 		return res;
 	}
-	conn->peer_addrlen = msg.msg_namelen;
+	if (conn->isdgram)
+		conn->peer_addrlen = msg.msg_namelen;
 	if (readlen == 0)
 		return 0;
 
-- 
2.43.0


From 0a581d1bded27b3c12f082be26e812b198bcd4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 27/39] fix: use after free when the read buffer length is
 changed in a message or raw callback

---
 src/pomp_conn.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index 0f3302f..8cfddab 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -103,6 +103,9 @@ struct pomp_conn {
 	/** Read buffer len */
 	size_t readbuf_len;
 
+	/** Flag indicating that the read buffer shall be allocated again */
+	int			readbuf_renew;
+
 	/** To chain connection structures in server context */
 	struct pomp_conn	*next;
 
@@ -735,11 +738,14 @@ static void pomp_conn_process_read(struct pomp_conn *conn)
 		return;
 
 	do {
-		/* If current read buffer is shared, unref it */
-		if (conn->readbuf != NULL && conn->readbuf->refcount > 1) {
+		/* If current read buffer is shared or its length has been
+		 * changed, unref it */
+		if (conn->readbuf != NULL && (conn->readbuf_renew ||
+				conn->readbuf->refcount > 1)) {
 			pomp_buffer_unref(conn->readbuf);
 			conn->readbuf = NULL;
 		}
+		conn->readbuf_renew = 0;
 
 		/* Allocate a new read buffer if needed */
 		if (conn->readbuf == NULL)
@@ -1490,13 +1496,10 @@ int pomp_conn_set_read_buffer_len(struct pomp_conn *conn,
 	POMP_RETURN_ERR_IF_FAILED(conn != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(len != 0, -EINVAL);
 
-	/* If current read buffer has already been allocated, unref it so that
-	 * it will be reallocated with the correct length when needed. */
-	if (conn->readbuf != NULL) {
-		pomp_buffer_unref(conn->readbuf);
-		conn->readbuf = NULL;
-	}
-
+	/* If current read buffer has already been allocated, it will be
+	 * reallocated with the correct length before the next read (it may
+	 * be currently used if called from a callback). */
+	conn->readbuf_renew = 1;
 	conn->readbuf_len = len;
 	return 0;
 }
-- 
2.43.0


From 6411a027c7309a6ed874ae1155b1f6b3244fceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 28/39] fix: a context whose retry failed never tried again

---
 src/pomp_ctx.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index 6c793c7..564fbb1 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -862,6 +862,8 @@ static int dgram_stop(struct pomp_ctx *ctx)
 static void timer_cb(struct pomp_timer *timer, void *userdata)
 {
 	struct pomp_ctx *ctx = userdata;
+	int res = 0;
+	uint32_t delay = 0;
 
 	/* Clear timer */
 	pomp_timer_clear(ctx->timer);
@@ -869,17 +871,24 @@ static void timer_cb(struct pomp_timer *timer, void *userdata)
 	/* Try reconnecting the client/server */
 	switch (ctx->type) {
 	case POMP_CTX_TYPE_SERVER:
-		server_start(ctx);
+		res = server_start(ctx);
+		delay = POMP_SERVER_RECONNECT_DELAY;
 		break;
 
 	case POMP_CTX_TYPE_CLIENT:
-		client_start(ctx);
+		res = client_start(ctx);
+		delay = POMP_CLIENT_RECONNECT_DELAY;
 		break;
 
 	case POMP_CTX_TYPE_DGRAM:
-		dgram_start(ctx);
+		res = dgram_start(ctx);
+		delay = POMP_DGRAM_RECONNECT_DELAY;
 		break;
 	}
+
+	/* Nobody to report the error to, try again later */
+	if (res < 0)
+		pomp_timer_set(ctx->timer, delay);
 }
 
 /*
-- 
2.43.0


From 1ce865416e6f56dac7e116b0ca6ff1936068f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 29/39] fix: crash when a context is stopped in its socket
 callback

---
 src/pomp_ctx.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index 564fbb1..afb6e4d 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -262,6 +262,22 @@ out:
 	return res;
 }
 
+/**
+ * Notify the application that a socket has been created.
+ * @param ctx : context.
+ * @param fd : fd of the socket.
+ * @param kind : kind of socket.
+ */
+static void notify_socket(struct pomp_ctx *ctx, int fd,
+		enum pomp_socket_kind kind)
+{
+	if (ctx->sockcb != NULL) {
+		ctx->notifying++;
+		(*ctx->sockcb)(ctx, fd, kind, ctx->userdata);
+		ctx->notifying--;
+	}
+}
+
 /**
  * Accept a new connection in a server context.
  * The user will be notified and the connection fd will be monitored for io.
@@ -311,8 +327,7 @@ static int server_accept_conn(int server_fd, struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL)
-		(*ctx->sockcb)(ctx, fd, POMP_SOCKET_KIND_PEER, ctx->userdata);
+	notify_socket(ctx, fd, POMP_SOCKET_KIND_PEER);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(fd);
@@ -409,10 +424,7 @@ static int server_start(struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL) {
-		(*ctx->sockcb)(ctx, ctx->u.server.fd,
-				POMP_SOCKET_KIND_SERVER, ctx->userdata);
-	}
+	notify_socket(ctx, ctx->u.server.fd, POMP_SOCKET_KIND_SERVER);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(ctx->u.server.fd);
@@ -656,10 +668,7 @@ static int client_start(struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL) {
-		(*ctx->sockcb)(ctx, ctx->u.client.fd,
-				POMP_SOCKET_KIND_CLIENT, ctx->userdata);
-	}
+	notify_socket(ctx, ctx->u.client.fd, POMP_SOCKET_KIND_CLIENT);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(ctx->u.client.fd);
@@ -753,10 +762,7 @@ static int dgram_start(struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL) {
-		(*ctx->sockcb)(ctx, ctx->u.dgram.fd,
-				POMP_SOCKET_KIND_DGRAM, ctx->userdata);
-	}
+	notify_socket(ctx, ctx->u.dgram.fd, POMP_SOCKET_KIND_DGRAM);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(ctx->u.dgram.fd);
-- 
2.43.0


From efc8aded010b98a5b70c9bd6ab9de7a59d444bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 30/39] fix: a context whose deferred stop failed could never
 be stopped

---
 src/pomp_ctx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index afb6e4d..1b83a9d 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -1198,6 +1198,7 @@ static void pomp_ctx_stop_idle(void *userdata)
  */
 int pomp_ctx_stop(struct pomp_ctx *ctx)
 {
+	int res = 0;
 	POMP_RETURN_ERR_IF_FAILED(ctx != NULL, -EINVAL);
 	if (ctx->addr == NULL || ctx->stopping)
 		return 0;
@@ -1207,7 +1208,10 @@ int pomp_ctx_stop(struct pomp_ctx *ctx)
 	/* If currently notifying events/messages, do the stop in idle,
 	 * otherwise do it syncchronously */
 	if (ctx->notifying > 0) {
-		return pomp_loop_idle_add(ctx->loop, &pomp_ctx_stop_idle, ctx);
+		res = pomp_loop_idle_add(ctx->loop, &pomp_ctx_stop_idle, ctx);
+		if (res < 0)
+			ctx->stopping = 0;
+		return res;
 	} else {
 		pomp_ctx_stop_idle(ctx);
 		return 0;
-- 
2.43.0


From fabd19a77ac437eaab9788ac1ee4ec18d9aaf2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 31/39] fix: an error while sending a datagram silently stopped
 the context for ever

---
 src/pomp_conn.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index 8cfddab..5ee8059 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -965,19 +965,21 @@ static void pomp_conn_process_write(struct pomp_conn *conn)
 		res = pomp_io_buffer_write(iobuf, conn);
 		if (POMP_CONN_WOULD_BLOCK(-res)) {
 			break;
-		} else if (res < 0) {
+		} else if (res < 0 && !conn->isdgram) {
 			/* Error, finish this connection */
 			conn->removeflag = 1;
 			break;
 		}
 
-		/* Remove pending buffer if completed */
-		if (iobuf->off == iobuf->len) {
+		/* Remove pending buffer if completed (an error on a datagram
+		 * does not affect the others) */
+		if (res < 0 || iobuf->off == iobuf->len) {
 			conn->headbuf = iobuf->next;
 			if (conn->headbuf == NULL)
 				conn->tailbuf = NULL;
 
-			status = POMP_SEND_STATUS_OK;
+			status = res < 0 ? POMP_SEND_STATUS_ERROR :
+					POMP_SEND_STATUS_OK;
 			if (conn->headbuf == NULL)
 				status |= POMP_SEND_STATUS_QUEUE_EMPTY;
 
-- 
2.43.0


From d0bec3c6091738e3d0af2f79e7727980611e7f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 32/39] fix: a truncated message in a datagram corrupted the
 following ones

---
 src/pomp_conn.c | 4 ++++
 src/pomp_prot.c | 2 +-
 src/pomp_prot.h | 4 ++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index 5ee8059..95dec30 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -534,6 +534,10 @@ static void pomp_conn_process_read_buf(struct pomp_conn *conn)
 		}
 	}
 
+	/* A datagram never continues the message of another one */
+	if (conn->isdgram)
+		pomp_prot_reset_state(conn->prot);
+
 	/* If no more partial messages no more file descriptors should be
 	 * pending (either in current or next) */
 	if (!partial) {
diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index 9a6b83b..ac5d720 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -72,7 +72,7 @@ struct pomp_prot {
  * Reset the internal state of the protocol decoder.
  * @param prot : protocol decoder.
  */
-static void pomp_prot_reset_state(struct pomp_prot *prot)
+void pomp_prot_reset_state(struct pomp_prot *prot)
 {
 	prot->state = POMP_PROT_STATE_IDLE;
 	memset(&prot->headerbuf, 0, sizeof(prot->headerbuf));
diff --git a/src/pomp_prot.h b/src/pomp_prot.h
index 6529a38..a992c18 100644
--- a/src/pomp_prot.h
+++ b/src/pomp_prot.h
@@ -120,6 +120,10 @@ extern "C" {
 /** Size of protocol header */
 #define POMP_PROT_HEADER_SIZE		12
 
+struct pomp_prot;
+
+void pomp_prot_reset_state(struct pomp_prot *prot);
+
 #ifdef __cplusplus
 }
 #endif /* __cplusplus */
-- 
2.43.0


From 3517ed14f01a69886a7c74f0d88390bafb964862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 33/39] fix: a message partially written when memory is
 exhausted corrupted the stream

---
 src/pomp_conn.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index 95dec30..d448c79 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -1390,8 +1390,15 @@ static int pomp_conn_send_buf_internal(struct pomp_conn *conn,
 
 	/* Need to queue the buffer */
 	iobuf = pomp_io_buffer_new(buf, off);
-	if (iobuf == NULL)
+	if (iobuf == NULL) {
+		/* If it was partially written, nothing can follow it in the
+		 * stream: this will ultimately cause an EOF */
+		if (off > 0) {
+			shutdown(conn->fd, SHUT_RDWR);
+			conn->is_shutdown = 1;
+		}
 		return -ENOMEM;
+	}
 	if (conn->isdgram) {
 		memcpy(&iobuf->addr, addr, addrlen);
 		iobuf->addrlen = addrlen;
-- 
2.43.0


From 7d7a680bec609c5ea4a594129e04a720592ec431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:35 +0000
Subject: [PATCH 34/39] fix: the first message after a truncated datagram was
 dropped

---
 src/pomp_prot.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index ac5d720..bd12d6d 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -79,6 +79,10 @@ void pomp_prot_reset_state(struct pomp_prot *prot)
 	memset(&prot->header, 0, sizeof(prot->header));
 	prot->offheader = 0;
 	prot->offpayload = 0;
+
+	/* Forget the message being received, if any */
+	if (prot->msg != NULL)
+		(void)pomp_msg_clear(prot->msg);
 }
 
 /**
@@ -279,6 +283,7 @@ int pomp_prot_destroy(struct pomp_prot *prot)
 	POMP_RETURN_ERR_IF_FAILED(prot != NULL, -EINVAL);
 	if (prot->msg != NULL)
 		pomp_msg_destroy(prot->msg);
+	prot->msg = NULL;
 	pomp_prot_reset_state(prot);
 	free(prot);
 	return 0;
-- 
2.43.0


From ca57edf71ee96b9dd8c4cf9de664cdb8e19d243c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:29 +0000
Subject: [PATCH 35/39] fix: a refused listen changed the access mode of the
 running server

---
 src/pomp_ctx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index 1b83a9d..868f9fe 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -1129,6 +1129,7 @@ int pomp_ctx_listen(struct pomp_ctx *ctx,
 		const struct sockaddr *addr, uint32_t addrlen)
 {
 	POMP_RETURN_ERR_IF_FAILED(ctx != NULL, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(ctx->addr == NULL, -EBUSY);
 	ctx->mode = 0;
 	return pomp_ctx_start(ctx, POMP_CTX_TYPE_SERVER, addr, addrlen);
 }
@@ -1140,6 +1141,7 @@ int pomp_ctx_listen_with_access_mode(struct pomp_ctx *ctx,
 		const struct sockaddr *addr, uint32_t addrlen, uint32_t mode)
 {
 	POMP_RETURN_ERR_IF_FAILED(ctx != NULL, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(ctx->addr == NULL, -EBUSY);
 	ctx->mode = mode;
 	return pomp_ctx_start(ctx, POMP_CTX_TYPE_SERVER, addr, addrlen);
 }
-- 
2.43.0


From d048a1b20ab8de718f480294ecc5ffbbe8e876d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:29 +0000
Subject: [PATCH 36/39] fix: after a message was dropped for lack of memory
 another one got its file descriptors

---
 src/pomp_conn.c |  7 +++++++
 src/pomp_prot.c | 16 ++++++++++++++++
 src/pomp_prot.h |  2 ++
 3 files changed, 25 insertions(+)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index d448c79..5712835 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -521,6 +521,13 @@ static void pomp_conn_process_read_buf(struct pomp_conn *conn)
 			break;
 		off += (size_t)usedlen;
 
+		/* The file descriptors of a message that was dropped must not
+		 * be given to another one */
+		if (pomp_prot_check_dropped(conn->prot)) {
+			pomp_conn_rx_fds_clear(conn->rx_fds_current);
+			pomp_conn_rx_fds_clear(conn->rx_fds_next);
+		}
+
 		/* Notify new received message
 		 * (only if file descriptor fixup is OK) */
 		if (msg != NULL) {
diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index bd12d6d..34a6460 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -66,6 +66,8 @@ struct pomp_prot {
 	size_t			offpayload;
 	/** Associated message */
 	struct pomp_msg		*msg;
+	/** A message was dropped because it could not be allocated */
+	int			dropped;
 };
 
 /**
@@ -165,6 +167,7 @@ static void pomp_prot_decode_header(struct pomp_prot *prot)
 	} else if (pomp_prot_alloc_msg(prot, prot->header.msgid,
 			prot->header.size) < 0) {
 		prot->state = POMP_PROT_STATE_HEADER_MAGIC_0;
+		prot->dropped = 1;
 	} else {
 		/* Copy header in message buffer */
 		prot->offpayload = 0;
@@ -379,6 +382,19 @@ int pomp_prot_decode_msg(struct pomp_prot *prot, const void *buf,
 	return (int)off;
 }
 
+/**
+ * Determine if some messages were dropped because they could not be allocated
+ * since the last call of this function.
+ * @param prot : protocol decoder.
+ * @return 1 if some messages were dropped, 0 otherwise.
+ */
+int pomp_prot_check_dropped(struct pomp_prot *prot)
+{
+	int dropped = prot->dropped;
+	prot->dropped = 0;
+	return dropped;
+}
+
 /**
  * Release a previously decoded message. This is to reuse message structure
  * if possible and avoid some malloc/free at each decoded message. If there
diff --git a/src/pomp_prot.h b/src/pomp_prot.h
index a992c18..882e12f 100644
--- a/src/pomp_prot.h
+++ b/src/pomp_prot.h
@@ -124,6 +124,8 @@ struct pomp_prot;
 
 void pomp_prot_reset_state(struct pomp_prot *prot);
 
+int pomp_prot_check_dropped(struct pomp_prot *prot);
+
 #ifdef __cplusplus
 }
 #endif /* __cplusplus */
-- 
2.43.0


From 2c622fa6eae416d09c1d734f71c4bc0e2a487275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:29 +0000
Subject: [PATCH 37/39] fix: python: a message without argument was announced
 with an invalid size

---
 python/pomp/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/pomp/message.py b/python/pomp/message.py
index 4bea6ef..0af0828 100644
--- a/python/pomp/message.py
+++ b/python/pomp/message.py
@@ -58,7 +58,8 @@ class Message(object):
         self.buf.rewind()
         self.buf.writeInt(protocol.POMP_MAGIC)
         self.buf.writeInt(self.msgid)
-        self.buf.writeInt(len(self.buf))
+        # (skipping the header does not make it part of the buffer)
+        self.buf.writeInt(max(len(self.buf), protocol.HEADER_SIZE))
 
         # Make message read-only
         self.finished = True
-- 
2.43.0


From cb8a5591cdfb5c55e6fe8615c839d052f5cc27ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:26 +0000
Subject: [PATCH 38/39] fix: empty vectors can be encoded by the C++ API

The data() of an empty std::vector can be NULL, which
pomp_encoder_write_buf refuses.
---
 include/libpomp-cxx11.hpp | 4 +++-
 include/libpomp.hpp       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libpomp-cxx11.hpp b/include/libpomp-cxx11.hpp
index 7f9fb31..e162dc9 100644
--- a/include/libpomp-cxx11.hpp
+++ b/include/libpomp-cxx11.hpp
@@ -185,7 +185,9 @@ template<> struct traits<ArgBuf> {
 	enum {valid = true};
 	typedef std::vector<uint8_t> type;
 	inline static int encode(struct pomp_encoder *enc, const type &v) {
-		const uint8_t *p = v.data();
+		/* The data of an empty vector can be NULL, which is refused */
+		static const uint8_t empty = 0;
+		const uint8_t *p = v.empty() ? &empty : v.data();
 		uint32_t n = static_cast<uint32_t>(v.size());
 		return pomp_encoder_write_buf(enc, p, n);
 	}
diff --git a/include/libpomp.hpp b/include/libpomp.hpp
index cff77b3..9941546 100644
--- a/include/libpomp.hpp
+++ b/include/libpomp.hpp
@@ -352,7 +352,9 @@ public:
 	}
 
 	int write(const std::vector<uint8_t> &v) {
-		const uint8_t *p = v.data();
+		/* The data of an empty vector can be NULL, which is refused */
+		static const uint8_t empty = 0;
+		const uint8_t *p = v.empty() ? &empty : v.data();
 		uint32_t n = static_cast<uint32_t>(v.size());
 		return pomp_encoder_write_buf(mEnc, p, n);
 	}
-- 
2.43.0


From 0bf00095b08de9e18ead7d6be4fcb9a5a74632c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:26 +0000
Subject: [PATCH 39/39] fix: C++ Message::write reports a message that could
 not be built

---
 include/libpomp.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/libpomp.hpp b/include/libpomp.hpp
index 9941546..bfe72a4 100644
--- a/include/libpomp.hpp
+++ b/include/libpomp.hpp
@@ -157,10 +157,13 @@ public:
 			return -EINVAL;
 		struct pomp_encoder *enc = pomp_encoder_new();
 		pomp_msg_clear(mMsg);
-		pomp_msg_init(mMsg, Fmt::id);
-		pomp_encoder_init(enc, mMsg);
-		int res = Fmt::encode(enc, std::forward<const ArgsW&>(args)...);
-		pomp_msg_finish(mMsg);
+		int res = pomp_msg_init(mMsg, Fmt::id);
+		if (res == 0)
+			res = pomp_encoder_init(enc, mMsg);
+		if (res == 0)
+			res = Fmt::encode(enc, std::forward<const ArgsW&>(args)...);
+		if (res == 0)
+			res = pomp_msg_finish(mMsg);
 		pomp_encoder_destroy(enc);
 		return res;
 	}
-- 
2.43.0


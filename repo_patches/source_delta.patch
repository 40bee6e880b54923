From 4c096599e5caef43d2c77b4e14ade67b6cd15306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:08 +0000
Subject: [PATCH 01/22] fix: align buffer capacity without truncating to 32
 bits

The allocation step mask was a 32-bit constant: requesting more than 4GiB
silently allocated less than asked and later writes overflowed the data.
---
 src/pomp_buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pomp_buffer.h b/src/pomp_buffer.h
index b2d55be..18d94b0 100644
--- a/src/pomp_buffer.h
+++ b/src/pomp_buffer.h
@@ -48,7 +48,8 @@
 
 /** Align size up to next allocation step */
 #define POMP_BUFFER_ALIGN_ALLOC_SIZE(_x) \
-	(((_x) + POMP_BUFFER_ALLOC_STEP - 1) & (~(POMP_BUFFER_ALLOC_STEP - 1)))
+	(((_x) + POMP_BUFFER_ALLOC_STEP - 1) & \
+		(~((size_t)POMP_BUFFER_ALLOC_STEP - 1)))
 
 /** Maximum number of file descriptor that can be put in a buffer */
 #define POMP_BUFFER_MAX_FD_COUNT	4
-- 
2.43.0


From febdcd0e4bf8dbb49645327b09f984683f0bd526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:08 +0000
Subject: [PATCH 02/22] fix: do not keep freed data when setting a buffer
 capacity to 0

realloc(data, 0) frees the block and returns NULL, it was reported as an
allocation failure with the buffer still pointing to the freed data.
---
 src/pomp_buffer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index 028e537..bd36650 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -294,6 +294,15 @@ int pomp_buffer_set_capacity(struct pomp_buffer *buf, size_t capacity)
 	POMP_RETURN_ERR_IF_FAILED(capacity >= buf->len, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf->refcount <= 1, -EPERM);
 
+	/* Nothing left to allocate, 'realloc' would free internal data and
+	 * return NULL */
+	if (capacity == 0) {
+		free(buf->data);
+		buf->data = NULL;
+		buf->capacity = 0;
+		return 0;
+	}
+
 	/* Resize internal data */
 	data = realloc(buf->data, capacity);
 	if (data == NULL)
-- 
2.43.0


From fb1cff76b6cf1c6a78d46c3d81850e6b3bf2d4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:08 +0000
Subject: [PATCH 03/22] fix: append a buffer to itself without reading freed
 data

The source address was taken before the write reallocated the same buffer.
---
 src/pomp_buffer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index bd36650..4382008 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -393,6 +393,15 @@ int pomp_buffer_append_buffer(struct pomp_buffer *buf,
 	if (src_len == 0)
 		return 0;
 
+	/* Make room first: data of source moves when both are the same */
+	res = pomp_buffer_ensure_capacity(buf, buf->len + src_len);
+	if (res < 0)
+		return res;
+
+	res = pomp_buffer_get_cdata(src, &src_cdata, NULL, NULL);
+	if (res < 0)
+		return res;
+
 	return pomp_buffer_append_data(buf, src_cdata, src_len);
 }
 
-- 
2.43.0


From de75648a34fdcc69da2da6db2b59291b14ad9e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:29 +0000
Subject: [PATCH 04/22] fix: keep protocol decoder usable after a message
 allocation failure

---
 src/pomp_prot.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index 4e891ba..e98a294 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -103,7 +103,10 @@ static int pomp_prot_alloc_msg(struct pomp_prot *prot, uint32_t msgid,
 	res = pomp_msg_init(prot->msg, msgid);
 	if (res < 0)
 		return res;
-	return pomp_buffer_ensure_capacity(prot->msg->buf, size);
+	res = pomp_buffer_ensure_capacity(prot->msg->buf, size);
+	if (res < 0)
+		(void)pomp_msg_clear(prot->msg);
+	return res;
 }
 
 /**
-- 
2.43.0


From a6ba176ff9243cc309cf49ff661fdc2e7b89c073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:29 +0000
Subject: [PATCH 05/22] fix: return a NULL message when more data is required
 to decode it

---
 src/pomp_prot.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index e98a294..8749e02 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -297,6 +297,9 @@ int pomp_prot_decode_msg(struct pomp_prot *prot, const void *buf,
 	POMP_RETURN_ERR_IF_FAILED(buf != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(msg != NULL, -EINVAL);
 
+	/* No message until it is complete */
+	*msg = NULL;
+
 	/* If idle, start a new parsing */
 	if (prot->state == POMP_PROT_STATE_IDLE)
 		prot->state = POMP_PROT_STATE_HEADER_MAGIC_0;
-- 
2.43.0


From 43169f154f587ac13c29317a7f6f6191b46e3bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:19 +0000
Subject: [PATCH 06/22] fix: reject variable length integers of more than 10
 bytes

The shift count exceeded the width of the value (undefined behavior), and
the decoded value was made of overlapping bits.
---
 src/pomp_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index e9039f0..4e7e3ac 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -163,6 +163,10 @@ static int decoder_read_varint(struct pomp_decoder *dec, uint8_t type,
 		res = pomp_buffer_readb(dec->msg->buf, &dec->pos, &b);
 		if (res < 0)
 			return res;
+		if (shift >= 64) {
+			POMP_LOGW("decoder : invalid variable length integer");
+			return -EINVAL;
+		}
 		*v |= (((uint64_t)(b & 0x7f)) << shift);
 		shift += 7;
 	} while (b & 0x80);
-- 
2.43.0


From c5b64da5df91c777d8ef5148b03fb4c11d3a35ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:48 +0000
Subject: [PATCH 07/22] fix: reserve room for the quotes of strings when
 dumping a message

An allocated dump was truncated when the text just fit without them.
---
 src/pomp_decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index 4e7e3ac..22f571a 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -597,7 +597,7 @@ static int decoder_dump_cb(struct pomp_decoder *dec, uint8_t type,
 		break;
 
 	case POMP_PROT_DATA_TYPE_STR:
-		res = dump_append(ctx, 6 + (uint32_t)strlen(v->cstr),
+		res = dump_append(ctx, 8 + (uint32_t)strlen(v->cstr),
 				", STR:'%s'", v->cstr);
 		break;
 
-- 
2.43.0


From b0cab1b6809d4fa667e25ba27f471a95e69d9164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:30 +0000
Subject: [PATCH 08/22] fix: check buffer arguments given as strings before
 decoding them

A missing or too short string was read out of bounds, and an empty buffer
still had its first byte written.
---
 src/pomp_encoder.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/pomp_encoder.c b/src/pomp_encoder.c
index ee87eef..0840b6e 100644
--- a/src/pomp_encoder.c
+++ b/src/pomp_encoder.c
@@ -213,6 +213,17 @@ static int encoder_write_size_u32(struct pomp_encoder *enc, uint32_t n)
 static int parse_buffer_argv(const char *decodepos, uint32_t len, void *out)
 {
 	uint32_t i = 0;
+
+	/* Make sure there are enough digits in string */
+	if (len > (strlen(decodepos) + 1) / 2) {
+		POMP_LOGW("encoder : buffer argument shorter than its size");
+		return -EINVAL;
+	}
+
+	/* Nothing to decode */
+	if (len == 0)
+		return 0;
+
 	/* first byte should be padded with 0 if len is odd */
 	if (strlen(decodepos) % 2 == 1)
 		sscanf(decodepos, "%hhx", &(((uint8_t *)out)[0]));
@@ -377,22 +388,30 @@ again:
 				} else {
 					int argbufferpos = argidx;
 					const char *decodepos;
+					if (argidx >= argc ||
+							argv[argidx] == NULL) {
+						res = -EINVAL;
+						POMP_LOGW("Missing buf argument");
+						goto out;
+					}
 					/*go to next argument to get size*/
 					argidx++;
 					/* codecheck_ignore[LONG_LINE] */
 					EXTRACT_ARG(u32, uint32_t, unsigned int, strtoul);
 					len = v.u32;
 
-					v.buf = malloc(len);
+					v.buf = calloc(1, len);
 					if (v.buf == NULL) {
 						res = -ENOMEM;
 						break;
 					}
 					decodepos = argv[argbufferpos];
 					/* codecheck_ignore[LONG_LINE] */
-					parse_buffer_argv(decodepos, len, v.buf);
-					/* codecheck_ignore[LONG_LINE] */
-					res = pomp_encoder_write_buf(enc, v.buf, len);
+					res = parse_buffer_argv(decodepos, len, v.buf);
+					if (res == 0) {
+						/* codecheck_ignore[LONG_LINE] */
+						res = pomp_encoder_write_buf(enc, v.buf, len);
+					}
 					free(v.buf);
 				}
 			} else if (*fmt++ != '%' || *fmt++ != 'u') {
-- 
2.43.0


From c9363f028503c0db598470e7fa4ad5a097c4ed10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:44 +0000
Subject: [PATCH 09/22] fix: report an allocation failure in the middle of a
 dump

---
 src/pomp_decoder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index 22f571a..ae8cfd3 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -463,6 +463,7 @@ struct pomp_decoder_dump_ctx {
 	uint32_t	maxdst;	/**< Max length of destination */
 	uint32_t	pos;	/**< Current position in destination */
 	int		grow;	/**< Automatically grow destination */
+	int		res;	/**< Error that stopped the dump */
 };
 
 /**
@@ -627,6 +628,9 @@ static int decoder_dump_cb(struct pomp_decoder *dec, uint8_t type,
 	}
 
 out:
+	if (res < 0)
+		ctx->res = res;
+
 	/* Continue if no errors and destination not full */
 	return res == 0 && (ctx->pos < ctx->maxdst || ctx->grow);
 }
@@ -649,6 +653,8 @@ static int decoder_dump(struct pomp_decoder *dec,
 
 	/* Arguments */
 	res = pomp_decoder_walk(dec, &decoder_dump_cb, ctx, 1);
+	if (res == 0)
+		res = ctx->res;
 	if (res < 0)
 		goto out;
 
-- 
2.43.0


From 9bcd3e8c24596c4fabed979d904261c636f9161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:32 +0000
Subject: [PATCH 10/22] fix: defer a context stop done in the socket callback

---
 src/pomp_ctx.c | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index 6c793c7..bd7bcea 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -262,6 +262,23 @@ out:
 	return res;
 }
 
+/**
+ * Notify application that a socket has been created. As for other
+ * notifications, a stop done by the application is deferred.
+ * @param ctx : context.
+ * @param fd : socket fd.
+ * @param kind : socket kind.
+ */
+static void ctx_notify_socket(struct pomp_ctx *ctx, int fd,
+		enum pomp_socket_kind kind)
+{
+	if (ctx->sockcb != NULL) {
+		ctx->notifying++;
+		(*ctx->sockcb)(ctx, fd, kind, ctx->userdata);
+		ctx->notifying--;
+	}
+}
+
 /**
  * Accept a new connection in a server context.
  * The user will be notified and the connection fd will be monitored for io.
@@ -311,8 +328,7 @@ static int server_accept_conn(int server_fd, struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL)
-		(*ctx->sockcb)(ctx, fd, POMP_SOCKET_KIND_PEER, ctx->userdata);
+	ctx_notify_socket(ctx, fd, POMP_SOCKET_KIND_PEER);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(fd);
@@ -409,10 +425,7 @@ static int server_start(struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL) {
-		(*ctx->sockcb)(ctx, ctx->u.server.fd,
-				POMP_SOCKET_KIND_SERVER, ctx->userdata);
-	}
+	ctx_notify_socket(ctx, ctx->u.server.fd, POMP_SOCKET_KIND_SERVER);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(ctx->u.server.fd);
@@ -656,10 +669,7 @@ static int client_start(struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL) {
-		(*ctx->sockcb)(ctx, ctx->u.client.fd,
-				POMP_SOCKET_KIND_CLIENT, ctx->userdata);
-	}
+	ctx_notify_socket(ctx, ctx->u.client.fd, POMP_SOCKET_KIND_CLIENT);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(ctx->u.client.fd);
@@ -753,10 +763,7 @@ static int dgram_start(struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL) {
-		(*ctx->sockcb)(ctx, ctx->u.dgram.fd,
-				POMP_SOCKET_KIND_DGRAM, ctx->userdata);
-	}
+	ctx_notify_socket(ctx, ctx->u.dgram.fd, POMP_SOCKET_KIND_DGRAM);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(ctx->u.dgram.fd);
-- 
2.43.0


From 6a075c892f5cb261209c9a3d3fd36124c26d5bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 11/22] fix: keep trying to start again when an attempt fails

---
 src/pomp_ctx.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index bd7bcea..1506525 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -869,6 +869,8 @@ static int dgram_stop(struct pomp_ctx *ctx)
 static void timer_cb(struct pomp_timer *timer, void *userdata)
 {
 	struct pomp_ctx *ctx = userdata;
+	int res = 0;
+	uint32_t delay = 0;
 
 	/* Clear timer */
 	pomp_timer_clear(ctx->timer);
@@ -876,17 +878,24 @@ static void timer_cb(struct pomp_timer *timer, void *userdata)
 	/* Try reconnecting the client/server */
 	switch (ctx->type) {
 	case POMP_CTX_TYPE_SERVER:
-		server_start(ctx);
+		delay = POMP_SERVER_RECONNECT_DELAY;
+		res = server_start(ctx);
 		break;
 
 	case POMP_CTX_TYPE_CLIENT:
-		client_start(ctx);
+		delay = POMP_CLIENT_RECONNECT_DELAY;
+		res = client_start(ctx);
 		break;
 
 	case POMP_CTX_TYPE_DGRAM:
-		dgram_start(ctx);
+		delay = POMP_DGRAM_RECONNECT_DELAY;
+		res = dgram_start(ctx);
 		break;
 	}
+
+	/* There is nobody to report the error to, try again later */
+	if (res < 0)
+		pomp_timer_set(ctx->timer, delay);
 }
 
 /*
-- 
2.43.0


From d0f8f3000d09aede2e707c2d3f55ef2f3c2d2c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 12/22] fix: allow another stop of a context when deferring it
 fails

---
 src/pomp_ctx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index 1506525..12dc5b5 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -1199,6 +1199,7 @@ static void pomp_ctx_stop_idle(void *userdata)
  */
 int pomp_ctx_stop(struct pomp_ctx *ctx)
 {
+	int res = 0;
 	POMP_RETURN_ERR_IF_FAILED(ctx != NULL, -EINVAL);
 	if (ctx->addr == NULL || ctx->stopping)
 		return 0;
@@ -1208,7 +1209,10 @@ int pomp_ctx_stop(struct pomp_ctx *ctx)
 	/* If currently notifying events/messages, do the stop in idle,
 	 * otherwise do it syncchronously */
 	if (ctx->notifying > 0) {
-		return pomp_loop_idle_add(ctx->loop, &pomp_ctx_stop_idle, ctx);
+		res = pomp_loop_idle_add(ctx->loop, &pomp_ctx_stop_idle, ctx);
+		if (res < 0)
+			ctx->stopping = 0;
+		return res;
 	} else {
 		pomp_ctx_stop_idle(ctx);
 		return 0;
-- 
2.43.0


From 1534b30ad318dad7a97fd4bbfbecdbe0c662d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 13/22] fix: keep the read buffer being processed when its
 length is changed

---
 src/pomp_conn.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index fabce02..d47f85b 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -103,6 +103,9 @@ struct pomp_conn {
 	/** Read buffer len */
 	size_t readbuf_len;
 
+	/** Read buffer shall be reallocated because its length changed */
+	int			readbuf_renew;
+
 	/** To chain connection structures in server context */
 	struct pomp_conn	*next;
 
@@ -731,11 +734,14 @@ static void pomp_conn_process_read(struct pomp_conn *conn)
 		return;
 
 	do {
-		/* If current read buffer is shared, unref it */
-		if (conn->readbuf != NULL && conn->readbuf->refcount > 1) {
+		/* If current read buffer is shared or shall have another
+		 * length, unref it */
+		if (conn->readbuf != NULL && (conn->readbuf->refcount > 1 ||
+				conn->readbuf_renew)) {
 			pomp_buffer_unref(conn->readbuf);
 			conn->readbuf = NULL;
 		}
+		conn->readbuf_renew = 0;
 
 		/* Allocate a new read buffer if needed */
 		if (conn->readbuf == NULL)
@@ -1486,13 +1492,11 @@ int pomp_conn_set_read_buffer_len(struct pomp_conn *conn,
 	POMP_RETURN_ERR_IF_FAILED(conn != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(len != 0, -EINVAL);
 
-	/* If current read buffer has already been allocated, unref it so that
-	 * it will be reallocated with the correct length when needed. */
-	if (conn->readbuf != NULL) {
-		pomp_buffer_unref(conn->readbuf);
-		conn->readbuf = NULL;
-	}
-
+	/* If current read buffer has already been allocated, it will be
+	 * reallocated with the correct length when needed. It can not be
+	 * released now because its content may still be being processed (when
+	 * called from a notification). */
+	conn->readbuf_renew = 1;
 	conn->readbuf_len = len;
 	return 0;
 }
-- 
2.43.0


From b753d4dbd35c0e756855f379bd7dad44478ea6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:40 +0000
Subject: [PATCH 14/22] fix: do not keep a context busy after a failed start

---
 src/pomp_ctx.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index 12dc5b5..011792b 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -1120,6 +1120,13 @@ static int pomp_ctx_start(struct pomp_ctx *ctx, enum pomp_ctx_type type,
 		break;
 	}
 
+	/* Nothing is running, allow another start or the destruction (unless
+	 * a stop has already been deferred, it will do the cleanup) */
+	if (res < 0 && !ctx->stopping) {
+		free(ctx->addr);
+		ctx->addr = NULL;
+	}
+
 	return res;
 }
 
-- 
2.43.0


From 39b064b584a46c5c5f82ecc867a519adbcda0c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:40 +0000
Subject: [PATCH 15/22] fix: bind again a dgram context whose socket failed

---
 src/pomp_ctx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index 011792b..b48a991 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -1539,6 +1539,12 @@ int pomp_ctx_remove_conn(struct pomp_ctx *ctx, struct pomp_conn *conn)
 		pomp_timer_set(ctx->timer, POMP_CLIENT_RECONNECT_DELAY);
 	}
 
+	/* Bind again dgram if needed */
+	if (ctx->type == POMP_CTX_TYPE_DGRAM
+			&& !ctx->stopping && ctx->addr != NULL) {
+		pomp_timer_set(ctx->timer, POMP_DGRAM_RECONNECT_DELAY);
+	}
+
 	return 0;
 }
 
-- 
2.43.0


From cf0389aeacaedf5dea08e3332207a68434097cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 16/22] fix: make the wakeup pipe of the poll loop non-blocking
 and close-on-exec

---
 src/pomp_loop_posix.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/pomp_loop_posix.c b/src/pomp_loop_posix.c
index dda5fae..c4dca95 100644
--- a/src/pomp_loop_posix.c
+++ b/src/pomp_loop_posix.c
@@ -112,8 +112,25 @@ static int pomp_loop_poll_do_new(struct pomp_loop *loop)
 	if (pipe(loop->wakeup.pipefds) < 0) {
 		res = -errno;
 		POMP_LOG_ERRNO("pipe");
+		return res;
 	}
 
+	/* Setup fd flags */
+	res = fd_setup_flags(loop->wakeup.pipefds[0]);
+	if (res < 0)
+		goto error;
+	res = fd_setup_flags(loop->wakeup.pipefds[1]);
+	if (res < 0)
+		goto error;
+
+	return 0;
+
+	/* Cleanup in case of error */
+error:
+	close(loop->wakeup.pipefds[0]);
+	loop->wakeup.pipefds[0] = -1;
+	close(loop->wakeup.pipefds[1]);
+	loop->wakeup.pipefds[1] = -1;
 	return res;
 }
 
@@ -273,8 +290,12 @@ static int pomp_loop_poll_do_wakeup(struct pomp_loop *loop)
 	} while (res < 0 && errno == EINTR);
 
 	if (res < 0) {
+		/* When pipe is full, loop will be woken up anyway */
 		res = -errno;
-		POMP_LOG_FD_ERRNO("write", loop->wakeup.pipefds[1]);
+		if (res == -EAGAIN)
+			res = 0;
+		else
+			POMP_LOG_FD_ERRNO("write", loop->wakeup.pipefds[1]);
 	} else {
 		res = 0;
 	}
-- 
2.43.0


From 103f0df1bdaa93c2e8018541c85a65ff52fc890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:10 +0000
Subject: [PATCH 17/22] fix: forget pending events of a fd when it is removed
 from its loop

---
 src/pomp_loop.h       | 10 ++++++++++
 src/pomp_loop_linux.c | 23 ++++++++++++++++++++---
 src/pomp_loop_posix.c | 10 +++++++++-
 3 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/pomp_loop.h b/src/pomp_loop.h
index f3f4b7b..16a3380 100644
--- a/src/pomp_loop.h
+++ b/src/pomp_loop.h
@@ -60,6 +60,15 @@ struct pomp_fd {
 /** Hash table length, number of bucket/slot */
 #define POMP_LOOP_PFDS_LEN 128
 
+#ifdef POMP_HAVE_LOOP_EPOLL
+/** Events returned by a wait and being processed */
+struct pomp_epoll_batch {
+	struct epoll_event	events[16];	/**< Events */
+	uint32_t		nevents;	/**< Number of events */
+	struct pomp_epoll_batch	*prev;		/**< Batch of enclosing wait */
+};
+#endif /* POMP_HAVE_LOOP_EPOLL */
+
 /** Loop structure */
 struct pomp_loop {
 	/** Array of list of registered fds */
@@ -80,6 +89,7 @@ struct pomp_loop {
 
 #ifdef POMP_HAVE_LOOP_EPOLL
 	int			efd;		/**< epoll fd */
+	struct pomp_epoll_batch	*batch;		/**< Events being processed */
 #endif /* POMP_HAVE_LOOP_EPOLL */
 
 	/** Wakeup notification */
diff --git a/src/pomp_loop_linux.c b/src/pomp_loop_linux.c
index 92be214..9389594 100644
--- a/src/pomp_loop_linux.c
+++ b/src/pomp_loop_linux.c
@@ -230,6 +230,18 @@ static int pomp_loop_epoll_do_update(struct pomp_loop *loop,
 static int pomp_loop_epoll_do_remove(struct pomp_loop *loop,
 		struct pomp_fd *pfd)
 {
+	struct pomp_epoll_batch *batch = NULL;
+	uint32_t i = 0;
+
+	/* Forget events not yet processed for this fd, its number might be
+	 * reused before they are */
+	for (batch = loop->batch; batch != NULL; batch = batch->prev) {
+		for (i = 0; i < batch->nevents; i++) {
+			if (batch->events[i].data.fd == pfd->fd)
+				batch->events[i].events = 0;
+		}
+	}
+
 	return pomp_loop_epoll_ctl(loop, EPOLL_CTL_DEL, pfd);
 }
 
@@ -249,15 +261,16 @@ static int pomp_loop_epoll_do_wait_and_process(struct pomp_loop *loop,
 {
 	int res = 0;
 	uint32_t i = 0, nevents = 0;
-	struct epoll_event events[16];
+	struct pomp_epoll_batch batch;
+	struct epoll_event *events = batch.events;
 	struct pomp_fd *pfd = NULL;
 	uint32_t revents = 0;
 
-	memset(events, 0, sizeof(events));
+	memset(&batch, 0, sizeof(batch));
 
 	/* Wait for epoll events */
 	do {
-		nevents = sizeof(events) / sizeof(events[0]);
+		nevents = sizeof(batch.events) / sizeof(batch.events[0]);
 		res = epoll_wait(loop->efd, events, (int)nevents, timeout);
 	} while (res < 0 && errno == EINTR);
 
@@ -271,6 +284,9 @@ static int pomp_loop_epoll_do_wait_and_process(struct pomp_loop *loop,
 
 	/* Process events */
 	nevents = (uint32_t)res;
+	batch.nevents = nevents;
+	batch.prev = loop->batch;
+	loop->batch = &batch;
 	for (i = 0; i < nevents; i++) {
 		revents = fd_events_from_epoll(events[i].events);
 		if (revents == 0)
@@ -287,6 +303,7 @@ static int pomp_loop_epoll_do_wait_and_process(struct pomp_loop *loop,
 		if (pfd != NULL)
 			(*pfd->cb)(pfd->fd, revents, pfd->userdata);
 	}
+	loop->batch = batch.prev;
 
 	pomp_watchdog_leave(&loop->watchdog);
 
diff --git a/src/pomp_loop_posix.c b/src/pomp_loop_posix.c
index c4dca95..f3aed98 100644
--- a/src/pomp_loop_posix.c
+++ b/src/pomp_loop_posix.c
@@ -180,7 +180,15 @@ static int pomp_loop_poll_do_update(struct pomp_loop *loop, struct pomp_fd *pfd)
  */
 static int pomp_loop_poll_do_remove(struct pomp_loop *loop, struct pomp_fd *pfd)
 {
-	/* Nothing to do */
+	uint32_t i = 0;
+
+	/* Forget events not yet processed for this fd, its number might be
+	 * reused before they are */
+	for (i = 0; i < loop->pollfdsize; i++) {
+		if (loop->pollfds[i].fd == pfd->fd)
+			loop->pollfds[i].revents = 0;
+	}
+
 	return 0;
 }
 
-- 
2.43.0


From ec3f482a7c915f308a48639015fa561901bc1590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:24 +0000
Subject: [PATCH 18/22] fix: preserve errno in the signal handler of posix
 timers

---
 src/pomp_timer_posix.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pomp_timer_posix.c b/src/pomp_timer_posix.c
index 2147548..e120d92 100644
--- a/src/pomp_timer_posix.c
+++ b/src/pomp_timer_posix.c
@@ -46,6 +46,7 @@ static void pomp_timer_posix_sighandler(int signo, siginfo_t *si, void *unused)
 {
 	ssize_t res = 0;
 	uint8_t dummy = 0xff;
+	int saved_errno = errno;
 	struct pomp_timer *timer = NULL;
 
 	/* Extract timer structure */
@@ -59,6 +60,9 @@ static void pomp_timer_posix_sighandler(int signo, siginfo_t *si, void *unused)
 	do {
 		res = write(timer->pipefds[1], &dummy, sizeof(dummy));
 	} while (res < 0 && errno == EINTR);
+
+	/* Do not alter errno of the interrupted code */
+	errno = saved_errno;
 }
 
 /**
-- 
2.43.0


From ffa5b1f56c5a8bb344f21d15c7c3bc21e59bbb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:24 +0000
Subject: [PATCH 19/22] fix: delete posix timers whose id is 0

---
 src/pomp_timer.h       | 1 +
 src/pomp_timer_posix.c | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pomp_timer.h b/src/pomp_timer.h
index 1622336..a117e8f 100644
--- a/src/pomp_timer.h
+++ b/src/pomp_timer.h
@@ -43,6 +43,7 @@ struct pomp_timer {
 
 #ifdef POMP_HAVE_TIMER_POSIX
 	timer_t			id;		/**< Timer id */
+	int			created;	/**< Timer id is valid */
 	int			pipefds[2];	/**< Notification pipes */
 #endif /* POMP_HAVE_TIMER_POSIX */
 
diff --git a/src/pomp_timer_posix.c b/src/pomp_timer_posix.c
index e120d92..ded0b3b 100644
--- a/src/pomp_timer_posix.c
+++ b/src/pomp_timer_posix.c
@@ -96,7 +96,7 @@ static int pomp_timer_posix_destroy(struct pomp_timer *timer)
 	/* Free resources */
 	/* from 'timer_delete' man page : The treatment of any pending signal
 	 * generated by the deleted timer is unspecified */
-	if (timer->id != 0)
+	if (timer->created)
 		timer_delete(timer->id);
 	if (timer->pipefds[0] >= 0) {
 		pomp_loop_remove(timer->loop, timer->pipefds[0]);
@@ -141,6 +141,7 @@ static struct pomp_timer *pomp_timer_posix_new(struct pomp_loop *loop,
 		POMP_LOG_ERRNO("timer_create");
 		goto error;
 	}
+	timer->created = 1;
 
 	/* Create pipe for notification */
 	res = pipe(timer->pipefds);
-- 
2.43.0


From b6e1a70fc32fa8ada49b287aa4db46e7c8b65ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:31 +0000
Subject: [PATCH 20/22] fix: forget expirations of a posix timer that is set or
 cleared

---
 src/pomp_timer_posix.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pomp_timer_posix.c b/src/pomp_timer_posix.c
index ded0b3b..21b839f 100644
--- a/src/pomp_timer_posix.c
+++ b/src/pomp_timer_posix.c
@@ -82,6 +82,10 @@ static void pomp_timer_posix_cb(int fd, uint32_t revents, void *userdata)
 		res = read(timer->pipefds[0], &dummy, sizeof(dummy));
 	} while (res < 0 && errno == EINTR);
 
+	/* Timer set or cleared again since the loop saw its expiration */
+	if (res != (ssize_t)sizeof(dummy))
+		return;
+
 	/* Notify callback */
 	(*timer->cb)(timer, timer->userdata);
 }
@@ -191,9 +195,22 @@ static int pomp_timer_posix_set(struct pomp_timer *timer, uint32_t delay,
 		uint32_t period)
 {
 	int res = 0;
+	ssize_t readlen = 0;
+	uint8_t dummy[64];
 	struct itimerspec newval, oldval;
 	POMP_RETURN_ERR_IF_FAILED(timer != NULL, -EINVAL);
 
+	/* Disarm and forget previous expirations not notified yet */
+	memset(&newval, 0, sizeof(newval));
+	if (timer_settime(timer->id, 0, &newval, &oldval) < 0) {
+		res = -errno;
+		POMP_LOG_ERRNO("timer_settime");
+		return res;
+	}
+	do {
+		readlen = read(timer->pipefds[0], dummy, sizeof(dummy));
+	} while (readlen > 0 || (readlen < 0 && errno == EINTR));
+
 	/* Setup timeout */
 	newval.it_interval.tv_sec = (time_t)(period / 1000);
 	newval.it_interval.tv_nsec = (long int)((period % 1000) * 1000 * 1000);
-- 
2.43.0


From c297d792a5bfd2cb0b55d2d645e42a8aa28e0eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:19 +0000
Subject: [PATCH 21/22] fix: normalize the watchdog timeout when it falls on a
 full second

---
 src/pomp_watchdog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomp_watchdog.c b/src/pomp_watchdog.c
index 6c054df..9843195 100644
--- a/src/pomp_watchdog.c
+++ b/src/pomp_watchdog.c
@@ -54,7 +54,7 @@ static void get_absolute_timeout(uint32_t delay, struct timespec *timeout)
 
 	timeout->tv_sec += delay / 1000;
 	timeout->tv_nsec += (delay % 1000) * 1000000;
-	while (timeout->tv_nsec > 1000000000) {
+	while (timeout->tv_nsec >= 1000000000) {
 		/* over one billion nsec, add 1 sec */
 		timeout->tv_sec++;
 		timeout->tv_nsec -= 1000000000;
-- 
2.43.0


From e7b915b1ac2be0cf8d46b02861358fbbc349588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:49 +0000
Subject: [PATCH 22/22] fix: stop monitoring when the watchdog is disabled
 during a dispatch

---
 src/pomp_watchdog.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pomp_watchdog.c b/src/pomp_watchdog.c
index 9843195..c298d99 100644
--- a/src/pomp_watchdog.c
+++ b/src/pomp_watchdog.c
@@ -176,6 +176,7 @@ int pomp_watchdog_stop(struct pomp_watchdog *watchdog)
 		memset(&watchdog->thread, 0, sizeof(watchdog->thread));
 		pthread_mutex_lock(&watchdog->mutex);
 		watchdog->should_stop = 0;
+		watchdog->monitoring = 0;
 		pthread_mutex_unlock(&watchdog->mutex);
 		watchdog->started = 0;
 	}
-- 
2.43.0


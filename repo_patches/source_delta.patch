From 5568c25c4166a94d9a91112f791101787a25bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:12 +0000
Subject: [PATCH 01/35] fix: treat extended option delta and length bytes as
 unsigned

An extended byte of 128 or more was sign-extended, so a legal option with a
delta or length of 141 to 268 was decoded wrongly or rejected.
---
 lib/src/coap_msg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index af1c50d..417b331 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -566,7 +566,7 @@ static ssize_t coap_msg_parse_op(coap_msg_t *msg, char *buf, size_t len)
         {
             return -EBADMSG;
         }
-        op_delta += p[0];
+        op_delta += (unsigned char)p[0];
         p++;
         len--;
     }
@@ -586,7 +586,7 @@ static ssize_t coap_msg_parse_op(coap_msg_t *msg, char *buf, size_t len)
         {
             return -EBADMSG;
         }
-        op_len += p[0];
+        op_len += (unsigned char)p[0];
         p++;
         len--;
     }
-- 
2.43.0


From 13a5ed47b67c6d9764ab93507d09dc9f43866d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:12 +0000
Subject: [PATCH 02/35] fix: return an option structure to the pool it came
 from

When no buffer was left for the option value, the option structure, which
is allocated from the small pool, was released to the medium pool.
---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 417b331..15a0fc1 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -206,7 +206,7 @@ static coap_msg_op_t *coap_msg_op_new(unsigned num, unsigned len, const char *va
     op->val = (char *)coap_mem_medium_alloc(len);
     if (op->val == NULL)
     {
-        coap_mem_medium_free(op);
+        coap_mem_small_free(op);
         return NULL;
     }
     memcpy(op->val, val, len);
-- 
2.43.0


From 6138c57902478a1fada9dacbb96dbd20e61f003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:12 +0000
Subject: [PATCH 03/35] fix: do not read past the end of a message when parsing
 options

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 15a0fc1..16d51ea 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -640,7 +640,7 @@ static ssize_t coap_msg_parse_ops(coap_msg_t *msg, char *buf, size_t len)
 
     while (1)
     {
-        if (((p[0] & 0xff) == 0xff) || (len == 0))
+        if ((len == 0) || ((p[0] & 0xff) == 0xff))
         {
             break;
         }
-- 
2.43.0


From 4f7ceaf83aa2baa019067fa2fd1f8913b0dde591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:12 +0000
Subject: [PATCH 04/35] fix: parse block options of length 0 and reject lengths
 above 3

A block option may be 0 to 3 bytes long (RFC7959). A zero-length value was
read as three bytes from beyond its end.
---
 lib/src/coap_msg.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 16d51ea..5e62fad 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -109,6 +109,11 @@ int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, c
 {
     switch (len)
     {
+    case 0:
+        *size = 1 << 4;
+        *more = 0;
+        *num = 0;
+        break;
     case 1:
         *size = 1 << ((val[0] & 0x07) + 4);
         *more = !!(val[0] & 0x08);
@@ -120,12 +125,15 @@ int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, c
         *num = ((unsigned)(unsigned char)val[0] << 4)
              | (((unsigned)(unsigned char)val[1] & 0x000000f0) >> 4);
         break;
-    default:
+    case 3:
         *size = 1 << ((val[2] & 0x07) + 4);
         *more = !!(val[2] & 0x08);
         *num = ((unsigned)(unsigned char)val[0] << 12)
              | ((unsigned)(unsigned char)val[1] << 4)
              | (((unsigned)(unsigned char)val[2] & 0x000000f0) >> 4);
+        break;
+    default:
+        return -EINVAL;
     }
     if (*size > COAP_MSG_OP_MAX_BLOCK_SIZE)
     {
-- 
2.43.0


From ac2667ca43f1f488a37958fedf8fcadd9fc0a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:12 +0000
Subject: [PATCH 05/35] fix: compute the formatted size of an option from its
 length

The space check used the option number instead of the option length, so a
message that fits exactly could be refused and one that is one byte too
long could be written past the end of the buffer.
---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 5e62fad..7e0ef16 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -939,7 +939,7 @@ static ssize_t coap_msg_format_op(coap_msg_op_t *op, unsigned prev_num, char *bu
     {
         num += 2;
     }
-    else if (op->num >= 13)
+    else if (op->len >= 13)
     {
         num += 1;
     }
-- 
2.43.0


From 3410d15185aacbbf74a7e287a0fde0d8857d20f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:12 +0000
Subject: [PATCH 06/35] fix: reject messages that are longer than the receive
 buffer

A datagram longer than the maximum message length was silently truncated
and the rest was handled as if it were the whole message.
---
 lib/src/coap_client.c | 8 +++++++-
 lib/src/coap_server.c | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 812d1cd..31c74f1 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -938,11 +938,17 @@ static ssize_t coap_client_recv(coap_client_t *client, coap_msg_t *msg)
         return -1;
     }
 #else
-    num = recv(client->sd, buf, sizeof(buf), 0);
+    num = recv(client->sd, buf, sizeof(buf), MSG_TRUNC);
     if (num < 0)
     {
         return -errno;
     }
+    if ((size_t)num > sizeof(buf))
+    {
+        /* the message is too long and has been truncated */
+        coap_client_handle_format_error(client, buf, sizeof(buf));
+        return -EBADMSG;
+    }
 #endif
     ret = coap_msg_parse(msg, buf, num);
     if (ret < 0)
diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 30f0bc0..e7da354 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -1080,11 +1080,17 @@ static ssize_t coap_server_trans_recv(coap_server_trans_t *trans, coap_msg_t *ms
     {
         return -EINVAL;
     }
-    num = recvfrom(server->sd, buf, num, 0, (struct sockaddr *)&client_sin, &client_sin_len);
+    num = recvfrom(server->sd, buf, sizeof(buf), MSG_TRUNC, (struct sockaddr *)&client_sin, &client_sin_len);
     if (num < 0)
     {
         return -errno;
     }
+    if ((size_t)num > sizeof(buf))
+    {
+        /* the message is too long and has been truncated */
+        coap_server_trans_handle_format_error(trans, buf, sizeof(buf));
+        return -EBADMSG;
+    }
 #endif
     ret = coap_msg_parse(msg, buf, num);
     if (ret < 0)
-- 
2.43.0


From 9729b419b4c6a5b77a0ed54bbf7e8d95e0649632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:12 +0000
Subject: [PATCH 07/35] fix: accept a separate response whose message ID equals
 the request's

The server chooses the message ID of a separate response independently of
the client, so only acknowledgements and resets are matched by message ID.
---
 lib/src/coap_client.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 31c74f1..edd1f30 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1396,7 +1396,8 @@ static int coap_client_exchange_sep(coap_client_t *client, coap_msg_t *req, coap
         {
             return num;
         }
-        if (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req))
+        if ((coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req))
+         && ((coap_msg_get_type(resp) == COAP_MSG_ACK) || (coap_msg_get_type(resp) == COAP_MSG_RST)))
         {
             if (coap_msg_get_type(resp) == COAP_MSG_ACK)
             {
@@ -1468,7 +1469,8 @@ static int coap_client_exchange_con(coap_client_t *client, coap_msg_t *req, coap
         {
             return num;
         }
-        if (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req))
+        if ((coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req))
+         && ((coap_msg_get_type(resp) == COAP_MSG_ACK) || (coap_msg_get_type(resp) == COAP_MSG_RST)))
         {
             if (coap_msg_get_type(resp) == COAP_MSG_ACK)
             {
@@ -1550,7 +1552,8 @@ static int coap_client_exchange_non(coap_client_t *client, coap_msg_t *req, coap
         {
             return num;
         }
-        if (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req))
+        if ((coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req))
+         && ((coap_msg_get_type(resp) == COAP_MSG_ACK) || (coap_msg_get_type(resp) == COAP_MSG_RST)))
         {
             if (coap_msg_get_type(resp) == COAP_MSG_RST)
             {
-- 
2.43.0


From cf58ab4da0e375cc2c963fd975bdc350edf08ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:12 +0000
Subject: [PATCH 08/35] fix: stop the acknowledgement timer when a new request
 arrives

The timer of an unacknowledged separate response kept running when a new
request replaced it and then retransmitted the response to the new request.
---
 lib/src/coap_server.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index e7da354..a9f8b00 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2398,6 +2398,13 @@ static int coap_server_exchange(coap_server_t *server)
     }
 
     /* clear details of the previous request/response */
+    ret = coap_server_trans_stop_ack_timer(trans);
+    if (ret < 0)
+    {
+        coap_msg_destroy(&recv_msg);
+        coap_server_trans_destroy(trans);
+        return ret;
+    }
     coap_server_trans_clear_req(trans);
     coap_server_trans_clear_resp(trans);
 
-- 
2.43.0


From bf89721dd03c3b84eb865027abd817a68f8cb147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:12 +0000
Subject: [PATCH 09/35] fix: reject an empty confirmable message (ping) with a
 reset

It was passed to the application as if it were a request.
---
 lib/src/coap_server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index a9f8b00..343d30f 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2380,7 +2380,8 @@ static int coap_server_exchange(coap_server_t *server)
     /* check for a valid request */
     if ((coap_msg_get_type(&recv_msg) == COAP_MSG_ACK)
      || (coap_msg_get_type(&recv_msg) == COAP_MSG_RST)
-     || (coap_msg_get_code_class(&recv_msg) != COAP_MSG_REQ))
+     || (coap_msg_get_code_class(&recv_msg) != COAP_MSG_REQ)
+     || (coap_msg_is_empty(&recv_msg)))
     {
         coap_server_trans_reject(trans, &recv_msg);
         coap_msg_destroy(&recv_msg);
-- 
2.43.0


From fe4a6f49f31ee7b1cb918edeee9d64e9d1e4410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:12 +0000
Subject: [PATCH 10/35] fix: keep a client's transaction when a message from it
 is rejected

A stray acknowledgement or reset or a malformed message discarded the
client's transaction, so that a duplicate of its last request was executed
again, a pending separate response was no longer retransmitted and a
block-wise transfer was lost.
---
 lib/src/coap_server.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 343d30f..ebc7a1d 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2254,6 +2254,7 @@ static int coap_server_exchange(coap_server_t *server)
     unsigned msg_id = 0;
     ssize_t num = 0;
     int resp_type = 0;
+    int created = 0;
     int ret = 0;
 
     /* accept incoming connection */
@@ -2278,6 +2279,7 @@ static int coap_server_exchange(coap_server_t *server)
         {
             return ret;
         }
+        created = 1;
 #ifdef COAP_DTLS_EN
         /* if DTLS is enabled then coap_server_trans_create has consumed */
         /* the received data as part of the handshake, we need to wait for */
@@ -2297,7 +2299,10 @@ static int coap_server_exchange(coap_server_t *server)
     if (num < 0)
     {
         coap_msg_destroy(&recv_msg);
-        coap_server_trans_destroy(trans);
+        if ((created) || ((num != -EBADMSG) && (num != -EINVAL)))
+        {
+            coap_server_trans_destroy(trans);
+        }
         return num;
     }
 
@@ -2385,7 +2390,10 @@ static int coap_server_exchange(coap_server_t *server)
     {
         coap_server_trans_reject(trans, &recv_msg);
         coap_msg_destroy(&recv_msg);
-        coap_server_trans_destroy(trans);
+        if (created)
+        {
+            coap_server_trans_destroy(trans);
+        }
         return -EBADMSG;
     }
 
-- 
2.43.0


From c9b7cdd24ae0c05db7b9974ab7285112915e74d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:12 +0000
Subject: [PATCH 11/35] fix: keep the server running when a retransmission
 fails

A failure to send a retransmission or to restart its timer made
coap_server_run return, which stopped the server for all clients.
---
 lib/src/coap_server.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index ebc7a1d..ba9f0e5 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -1320,7 +1320,8 @@ static int coap_server_trans_handle_ack_timeout(coap_server_trans_t *trans)
         num = coap_server_trans_send(trans, &trans->resp);
         if (num < 0)
         {
-            return num;
+            /* same as a lost message, the timer has been restarted */
+            coap_log_error("Failed to retransmit to address %s and port %u", trans->client_addr, ntohs(trans->client_sin.COAP_IPV_SIN_PORT));
         }
     }
     else if (ret == -ETIMEDOUT)
@@ -1330,6 +1331,12 @@ static int coap_server_trans_handle_ack_timeout(coap_server_trans_t *trans)
         coap_server_trans_destroy(trans);
         ret = 0;
     }
+    else
+    {
+        coap_log_error("Failed to restart timer for address %s and port %u", trans->client_addr, ntohs(trans->client_sin.COAP_IPV_SIN_PORT));
+        coap_server_trans_destroy(trans);
+        ret = 0;
+    }
     return ret;
 }
 
-- 
2.43.0


From 88d9358c0a543fb98bc1d744a7e542bc16999aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:48 +0000
Subject: [PATCH 12/35] fix: do not take a first request with message ID 0 for
 a duplicate

---
 lib/src/coap_server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index ba9f0e5..70add28 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -700,7 +700,7 @@ static void coap_server_trans_touch(coap_server_trans_t *trans)
  */
 static int coap_server_trans_match_req(coap_server_trans_t *trans, coap_msg_t *msg)
 {
-    return ((coap_msg_get_ver(&trans->req) != 0)
+    return ((!coap_msg_is_empty(&trans->req))
          && (coap_msg_get_msg_id(&trans->req) == coap_msg_get_msg_id(msg)));
 }
 
-- 
2.43.0


From c74277924ec15ca9ca6e624c0044c21e6a496e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:02 +0000
Subject: [PATCH 13/35] fix: release the block request when it cannot be copied

---
 lib/src/coap_client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index edd1f30..febd3ec 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1699,6 +1699,7 @@ static ssize_t coap_client_exchange_blockwise1(coap_client_t *client,
         ret = coap_msg_copy(&msg, req);
         if (ret < 0)
         {
+            coap_msg_destroy(&msg);
             return ret;
         }
         block1_more = 1;
@@ -1860,6 +1861,7 @@ static ssize_t coap_client_exchange_blockwise2(coap_client_t *client,
             ret = coap_msg_copy(&msg, req);
             if (ret < 0)
             {
+                coap_msg_destroy(&msg);
                 return ret;
             }
             block2_more = 0;  /* more must be zero for this use case */
-- 
2.43.0


From a36ee82e1f4e4f26006b4ce281f3cc987bc7b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:01 +0000
Subject: [PATCH 14/35] fix: locate a block by the block size given in the
 request

The server multiplied the block number in a Block1 or Block2 option by
the block size of the transfer rather than by the block size in the same
option, so that a block from another position was taken for the next one
and the next one was refused when the two sizes differed.
---
 lib/src/coap_server.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 70add28..d1003b7 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -1465,7 +1465,7 @@ static int coap_server_trans_handle_next_block(coap_server_trans_t *trans, coap_
          * the client may not include a block2 option in the first message
          * but must include a block2 option in subsequent messages
          */
-        block2_next = block2_num * trans->block2_size;  /* start byte index according to the client or for the first block */
+        block2_next = block2_num * block2_size;  /* start byte index according to the client or for the first block */
         if (((trans->type == COAP_SERVER_TRANS_BLOCKWISE_GET) && (coap_msg_get_code_detail(req) != COAP_MSG_GET))
          || ((trans->type == COAP_SERVER_TRANS_BLOCKWISE_PUT2) && (coap_msg_get_code_detail(req) != COAP_MSG_PUT))
          || ((trans->type == COAP_SERVER_TRANS_BLOCKWISE_POST2) && (coap_msg_get_code_detail(req) != COAP_MSG_POST))
@@ -1544,7 +1544,7 @@ static int coap_server_trans_handle_next_block(coap_server_trans_t *trans, coap_
     {
         coap_log_debug("Handling block with start byte index %u for blockwise transfer", trans->block1_next);
         /* check for continuity between the current and previous blocks */
-        block1_next = block1_num * trans->block1_size;  /* start byte index according to the client */
+        block1_next = block1_num * block1_size;  /* start byte index according to the client */
         if (((trans->type == COAP_SERVER_TRANS_BLOCKWISE_PUT1) && (coap_msg_get_code_detail(req) != COAP_MSG_PUT))
          || ((trans->type == COAP_SERVER_TRANS_BLOCKWISE_POST1) && (coap_msg_get_code_detail(req) != COAP_MSG_POST))
          || (strcmp(block_uri, trans->block_uri) != 0))
-- 
2.43.0


From eb77e211db3b0cc081a3283267cc23d75e892b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:01 +0000
Subject: [PATCH 15/35] fix: locate a block by the block size given in the
 response

The client multiplied the block number in the response by the smaller of
the two block sizes, so that a block from another position was taken for
the next one when the server used a larger block size than the client.
---
 lib/src/coap_client.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index febd3ec..bb6d262 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1782,7 +1782,7 @@ static ssize_t coap_client_exchange_blockwise1(coap_client_t *client,
             block1_size = tmp_block_size;
         }
         /* check that the acknowledged block is the next one in sequence */
-        if (block1_num * block1_size != block1_start)
+        if (block1_num * tmp_block_size != block1_start)
         {
             coap_msg_destroy(&msg);
             return -EBADMSG;
@@ -1926,7 +1926,7 @@ static ssize_t coap_client_exchange_blockwise2(coap_client_t *client,
             block2_size = tmp_block_size;
         }
         /* check that the received block is the next one in sequence */
-        if (block2_num * block2_size != block2_start)
+        if (block2_num * tmp_block_size != block2_start)
         {
             coap_msg_destroy(&msg);
             return -EBADMSG;
-- 
2.43.0


From 7a505a21533f7c7fc3f707c7e70fd8a885d863ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:26 +0000
Subject: [PATCH 16/35] fix: do not reuse a message ID for the next request of
 a client

The message ID of each request was chosen at random, so that now and then
two consecutive requests had the same message ID and the server took the
second one for a retransmission of the first one.
---
 lib/include/coap_client.h |  1 +
 lib/src/coap_client.c     | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/include/coap_client.h b/lib/include/coap_client.h
index 5efad4b..b01bcab 100755
--- a/lib/include/coap_client.h
+++ b/lib/include/coap_client.h
@@ -55,6 +55,7 @@ typedef struct
     int timer_fd;                                                               /**< Timer file descriptor */
     struct timespec timeout;                                                    /**< Timeout value */
     unsigned num_retrans;                                                       /**< Current number of retransmissions */
+    unsigned msg_id;                                                            /**< Message ID of the last request */
     coap_ipv_sockaddr_in_t server_sin;                                          /**< Socket structture */
     socklen_t server_sin_len;                                                   /**< Socket structure length */
     char server_host[COAP_CLIENT_HOST_BUF_LEN];                                 /**< String to hold the server host address */
diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index bb6d262..bd30598 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -564,6 +564,7 @@ int coap_client_create(coap_client_t *client,
     struct addrinfo hints = {0};
     struct addrinfo *list = NULL;
     struct addrinfo *node = NULL;
+    unsigned char msg_id_buf[2] = {0};
     int flags = 0;
     int ret = 0;
 
@@ -646,6 +647,9 @@ int coap_client_create(coap_client_t *client,
         return ret;
     }
 #endif
+    /* choose a random message ID to start from */
+    coap_msg_gen_rand_str((char *)msg_id_buf, sizeof(msg_id_buf));
+    client->msg_id = (((unsigned)msg_id_buf[1]) << 8) | (unsigned)msg_id_buf[0];
     coap_log_notice("Connected to host %s and port %s", client->server_host, client->server_port);
     return 0;
 }
@@ -1580,8 +1584,6 @@ static int coap_client_exchange_non(coap_client_t *client, coap_msg_t *req, coap
 
 int coap_client_exchange(coap_client_t *client, coap_msg_t *req, coap_msg_t *resp)
 {
-    unsigned char msg_id_buf[2] = {0};
-    unsigned msg_id = 0;
     ssize_t num = 0;
     char token[4] = {0};
     int ret = 0;
@@ -1595,9 +1597,8 @@ int coap_client_exchange(coap_client_t *client, coap_msg_t *req, coap_msg_t *res
     }
 
     /* generate the message ID */
-    coap_msg_gen_rand_str((char *)msg_id_buf, sizeof(msg_id_buf));
-    msg_id = (((unsigned)msg_id_buf[1]) << 8) | (unsigned)msg_id_buf[0];
-    ret = coap_msg_set_msg_id(req, msg_id);
+    client->msg_id = (client->msg_id + 1) & 0xffff;
+    ret = coap_msg_set_msg_id(req, client->msg_id);
     if (ret < 0)
     {
         return ret;
-- 
2.43.0


From 240a2bdfd76848462e110ceca273ea8fdd6f7c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:33 +0000
Subject: [PATCH 17/35] fix: protect the buffer pools against concurrent use by
 several threads

---
 lib/include/coap_mem.h | 2 ++
 lib/src/coap_mem.c     | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/lib/include/coap_mem.h b/lib/include/coap_mem.h
index 59294b8..e568d1c 100755
--- a/lib/include/coap_mem.h
+++ b/lib/include/coap_mem.h
@@ -35,6 +35,7 @@
 #define COAP_MEM_H
 
 #include <stddef.h>
+#include <pthread.h>
 
 #define coap_mem_get_buf(mem)         ((mem)->buf)                              /**< Get the array of buffers in a memory allocator */
 #define coap_mem_get_num(mem)         ((mem)->num)                              /**< Get the number of buffers in a memory allocator */
@@ -51,6 +52,7 @@ typedef struct
     size_t num;                                                                 /**< Number of buffers */
     size_t len;                                                                 /**< Length of each buffer */
     char *active;                                                               /**< Bitset marking active buffers */
+    pthread_mutex_t lock;                                                       /**< Lock protecting the active bitset */
 }
 coap_mem_t;
 
diff --git a/lib/src/coap_mem.c b/lib/src/coap_mem.c
index 41509ec..936024a 100755
--- a/lib/src/coap_mem.c
+++ b/lib/src/coap_mem.c
@@ -57,11 +57,13 @@ int coap_mem_create(coap_mem_t *mem, size_t num, size_t len)
         memset(mem, 0, sizeof(coap_mem_t));
         return -ENOMEM;
     }
+    pthread_mutex_init(&mem->lock, NULL);
     return 0;
 }
 
 void coap_mem_destroy(coap_mem_t *mem)
 {
+    pthread_mutex_destroy(&mem->lock);
     free(mem->active);
     free(mem->buf);
     memset(mem, 0, sizeof(coap_mem_t));
@@ -78,6 +80,7 @@ void *coap_mem_alloc(coap_mem_t *mem, size_t len)
     {
         return NULL;
     }
+    pthread_mutex_lock(&mem->lock);
     for (byte = 0; byte < coap_mem_get_active_len(mem); byte++)
     {
         for (bit = 0; bit < 8; bit++)
@@ -87,10 +90,12 @@ void *coap_mem_alloc(coap_mem_t *mem, size_t len)
             {
                 mem->active[byte] |= mask;
                 mem_buf = &mem->buf[(8 * byte + bit) * mem->len];
+                pthread_mutex_unlock(&mem->lock);
                 return mem_buf;
             }
         }
     }
+    pthread_mutex_unlock(&mem->lock);
     return NULL;
 }
 
@@ -101,6 +106,7 @@ void coap_mem_free(coap_mem_t *mem, void *buf)
     size_t bit = 0;
     void *mem_buf = NULL;
 
+    pthread_mutex_lock(&mem->lock);
     for (byte = 0; byte < coap_mem_get_active_len(mem); byte++)
     {
         for (bit = 0; bit < 8; bit++)
@@ -113,6 +119,7 @@ void coap_mem_free(coap_mem_t *mem, void *buf)
             }
         }
     }
+    pthread_mutex_unlock(&mem->lock);
 }
 
 /**
-- 
2.43.0


From 751eb177101a44ff7b49d5438ebf0b7df1eb7844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:39 +0000
Subject: [PATCH 18/35] fix: do not lose the last byte of a proxy response that
 just fills the send buffer

---
 proxy/http_coap/src/connection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index b730fd8..90732e5 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -290,7 +290,7 @@ static int connection_send(connection_t *con, http_msg_t *msg)
     while (1)
     {
         len = http_msg_generate(msg, data_buf_get_data(&con->send_buf), data_buf_get_space(&con->send_buf));
-        if (len <= data_buf_get_space(&con->send_buf))
+        if (len < data_buf_get_space(&con->send_buf))
         {
             break;
         }
-- 
2.43.0


From be307cdd99a0287ddef550685e32dc8353b1d7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:39 +0000
Subject: [PATCH 19/35] fix: accept null bytes in the body of an HTTP message

---
 proxy/common/src/http_msg.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index f8afeee..533f4f3 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -361,17 +361,17 @@ static ssize_t http_msg_parse_headers(http_msg_t *msg, char *str)
  *
  *  @param[in,out] msg Pointer to a message structure
  *  @param[in] str String representation of the message body
+ *  @param[in] str_len Length of the message body (which can contain null bytes)
  *
  *  @returns Number of bytes parsed or error code
  *  @retval >=0 Number of bytes parsed
  *  @retval <0 Error code
  */
-static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
+static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
 {
     http_msg_header_t *header = NULL;
     ssize_t num = 0;
     size_t content_len = 0;
-    size_t str_len = 0;
     char *chunk_size = NULL;
     char *chunk_data = NULL;
     char *param = NULL;
@@ -383,8 +383,6 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
     int ret = 0;
     int i = 0;
 
-    str_len = strlen(str);
-
     header = http_msg_get_first_header(msg);
     while (header != NULL)
     {
@@ -521,11 +519,12 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
  *
  *  @param[out] msg Pointer to a message structure
  *  @param[in,out] str String containing the message
+ *  @param[in] len Length of the message
  *
  *  @returns Number of bytes parsed or error code
  *  @retval >0 Number of bytes
  *  @retval <0 Error code
- */static ssize_t __http_msg_parse(http_msg_t *msg, char *str)
+ */static ssize_t __http_msg_parse(http_msg_t *msg, char *str, size_t len)
 {
     ssize_t num = 0;
     char *next = str;
@@ -544,7 +543,7 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
     }
     next += num;
 
-    num = http_msg_parse_body(msg, next);
+    num = http_msg_parse_body(msg, next, len - (next - str));
     if (num < 0)
     {
         return num;
@@ -567,7 +566,7 @@ ssize_t http_msg_parse(http_msg_t *msg, const char *buf, size_t len)
     }
     memcpy(str, buf, len);
     str[len] = '\0';
-    num = __http_msg_parse(msg, str);
+    num = __http_msg_parse(msg, str, len);
     free(str);
     return num;
 }
-- 
2.43.0


From 464f12c17abc79c14b3e6f9086a6ca267d0785da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:39 +0000
Subject: [PATCH 20/35] fix: check the length of a chunk of an HTTP message
 before using it

---
 proxy/common/src/http_msg.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index 533f4f3..6cfbfff 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -438,6 +438,14 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
                 {
                     break;
                 }
+                if (chunk_len < 0)
+                {
+                    return -EBADMSG;
+                }
+                if ((size_t)chunk_len + 2 > (size_t)(str + str_len - next))
+                {
+                    return -EAGAIN;
+                }
                 if (i == 0)
                 {
                     total_len += chunk_len;
@@ -447,10 +455,6 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
                 next += chunk_len;
 
                 /* parse the end of chunk-data */
-                if (next + 2 > str + str_len)
-                {
-                    return -EAGAIN;
-                }
                 if ((*next != '\r')
                  || (*(next + 1) != '\n'))
                 {
-- 
2.43.0


From 3f2aa29eadab8ecc23dec7d05b27f8eefaabdaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:17 +0000
Subject: [PATCH 21/35] fix: process HTTP requests that have already been
 received before waiting for more data

---
 proxy/common/include/tls_sock.h  |   1 +
 proxy/http_coap/src/connection.c | 111 ++++++++++++++++---------------
 2 files changed, 60 insertions(+), 52 deletions(-)

diff --git a/proxy/common/include/tls_sock.h b/proxy/common/include/tls_sock.h
index ea004df..bbbb432 100755
--- a/proxy/common/include/tls_sock.h
+++ b/proxy/common/include/tls_sock.h
@@ -48,6 +48,7 @@
 #define tls_sock_get_addr_string(s, out, out_len)    (tls_sock_get_addr_string_(out, out_len, (s)->sin.SOCK_SIN_ADDR))
 #define tls_sock_get_timeout(s)                      ((s)->timeout)
 #define tls_sock_get_session(s)                      ((s)->session)
+#define tls_sock_get_pending(s)                      (gnutls_record_check_pending((s)->session))
 #define tls_sock_is_resumed(s)                       (gnutls_session_is_resumed((s)->session))
 
 #define tls_ssoct_get_sd(ss)                         ((ss)->sd)
diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 90732e5..e930635 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -203,21 +203,68 @@ static int connection_recv(connection_t *con, http_msg_t *msg)
     sd = tls_sock_get_sd(con->sock);
     while (1)
     {
-        FD_ZERO(&readfds);
-        FD_SET(sd, &readfds);
-        errno = 0;
-        ret = select(sd + 1, &readfds, NULL, NULL, &tv);
-        if (ret == 0)
+        /* look at data left over from the previous read before waiting for more */
+        if (data_buf_get_count(&con->recv_buf) > 0)
         {
-            coap_log_info("[%u] <%u> %s Timed out waiting to read from socket connected to HTTP client",
-                          con->listener_index, con->con_index, con->addr);
-            return CON_RET_TIMEDOUT;
+            num = http_msg_parse(msg, data_buf_get_data(&con->recv_buf), data_buf_get_count(&con->recv_buf));
+            if (num > 0)
+            {
+                data_buf_consume(&con->recv_buf, num);
+                coap_log_debug("[%u] <%u> %s Received from HTTP client: %s %s %s",
+                               con->listener_index, con->con_index, con->addr,
+                               http_msg_get_start(msg, 0),
+                               http_msg_get_start(msg, 1),
+                               http_msg_get_start(msg, 2));
+                return 0;  /* success */
+            }
+            else if (num == -EAGAIN)
+            {
+                coap_log_debug("[%u] <%u> %s Received incomplete request message from HTTP client",
+                               con->listener_index, con->con_index, con->addr);
+                if (data_buf_get_space(&con->recv_buf) < CONNECTION_DATA_BUF_MIN_SPACE)
+                {
+                    coap_log_debug("[%u] <%u> %s Increasing size of receive buffer",
+                                   con->listener_index, con->con_index, con->addr);
+                    ret = data_buf_expand(&con->recv_buf);
+                    if (ret == -EINVAL)
+                    {
+                        coap_log_error("[%u] <%u> %s Request message from HTTP client too long",
+                                       con->listener_index, con->con_index, con->addr);
+                        return ret;
+                    }
+                    else if (ret == -ENOMEM)
+                    {
+                        coap_log_error("[%u] <%u> %s Out of memory",
+                                       con->listener_index, con->con_index, con->addr);
+                        return ret;
+                    }
+                }
+            }
+            else
+            {
+                coap_log_error("[%u] <%u> %s Failed to parse request message from HTTP client: %s",
+                               con->listener_index, con->con_index, con->addr, http_msg_strerror(ret));
+                return num;
+            }
         }
-        else if (ret == -1)
+        if (tls_sock_get_pending(con->sock) == 0)
         {
-            coap_log_error("[%u] <%u> %s Call to select returned: -1, errno: %d (%s)",
-                           con->listener_index, con->con_index, con->addr, errno, strerror(errno));
-            return -errno;
+            FD_ZERO(&readfds);
+            FD_SET(sd, &readfds);
+            errno = 0;
+            ret = select(sd + 1, &readfds, NULL, NULL, &tv);
+            if (ret == 0)
+            {
+                coap_log_info("[%u] <%u> %s Timed out waiting to read from socket connected to HTTP client",
+                              con->listener_index, con->con_index, con->addr);
+                return CON_RET_TIMEDOUT;
+            }
+            else if (ret == -1)
+            {
+                coap_log_error("[%u] <%u> %s Call to select returned: -1, errno: %d (%s)",
+                               con->listener_index, con->con_index, con->addr, errno, strerror(errno));
+                return -errno;
+            }
         }
         num = tls_sock_read(con->sock, data_buf_get_next(&con->recv_buf), data_buf_get_space(&con->recv_buf));
         if (num < 0)
@@ -233,46 +280,6 @@ static int connection_recv(connection_t *con, http_msg_t *msg)
             return CON_RET_CLOSED;
         }
         data_buf_add(&con->recv_buf, num);
-        num = http_msg_parse(msg, data_buf_get_data(&con->recv_buf), data_buf_get_count(&con->recv_buf));
-        if (num > 0)
-        {
-            data_buf_consume(&con->recv_buf, num);
-            coap_log_debug("[%u] <%u> %s Received from HTTP client: %s %s %s",
-                           con->listener_index, con->con_index, con->addr,
-                           http_msg_get_start(msg, 0),
-                           http_msg_get_start(msg, 1),
-                           http_msg_get_start(msg, 2));
-            return 0;  /* success */
-        }
-        else if (num == -EAGAIN)
-        {
-            coap_log_debug("[%u] <%u> %s Received incomplete request message from HTTP client",
-                           con->listener_index, con->con_index, con->addr);
-            if (data_buf_get_space(&con->recv_buf) < CONNECTION_DATA_BUF_MIN_SPACE)
-            {
-                coap_log_debug("[%u] <%u> %s Increasing size of receive buffer",
-                               con->listener_index, con->con_index, con->addr);
-                ret = data_buf_expand(&con->recv_buf);
-                if (ret == -EINVAL)
-                {
-                    coap_log_error("[%u] <%u> %s Request message from HTTP client too long",
-                                   con->listener_index, con->con_index, con->addr);
-                    return ret;
-                }
-                else if (ret == -ENOMEM)
-                {
-                    coap_log_error("[%u] <%u> %s Out of memory",
-                                   con->listener_index, con->con_index, con->addr);
-                    return ret;
-                }
-            }
-        }
-        else
-        {
-            coap_log_error("[%u] <%u> %s Failed to parse request message from HTTP client: %s",
-                           con->listener_index, con->con_index, con->addr, http_msg_strerror(ret));
-            return num;
-        }
     }
     return 0;
 }
-- 
2.43.0


From 582c6bf26a730d1410bd78aba8cb2ce1818322f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:17 +0000
Subject: [PATCH 22/35] fix: do not answer a GET request with the body of the
 request itself

---
 proxy/http_coap/src/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index e930635..ea82d4d 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -375,6 +375,7 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
     if (coap_msg_get_code_detail(req_msg) == COAP_MSG_GET)
     {
         /* execute regular exchange */
+        con->body_end = 0;  /* the body belongs to the request */
         coap_log_info("[%u] <%u> %s Sending GET request to CoAP server host %s and port %s",
                       con->listener_index, con->con_index, con->addr,
                       con->coap_client_host, con->coap_client_port);
-- 
2.43.0


From e3bad625a99158c71f1e54a50dd467a2725281ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:17 +0000
Subject: [PATCH 23/35] fix: forward DELETE requests to the CoAP server

---
 proxy/http_coap/src/connection.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index ea82d4d..a8b5e6a 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -519,6 +519,15 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
             con->body_end = num;
         }
     }
+    else
+    {
+        /* execute regular exchange */
+        con->body_end = 0;  /* the body belongs to the request */
+        coap_log_info("[%u] <%u> %s Sending DELETE request to CoAP server host %s and port %s",
+                      con->listener_index, con->con_index, con->addr,
+                      con->coap_client_host, con->coap_client_port);
+        return coap_client_exchange(&con->coap_client, req_msg, resp_msg);
+    }
     return 0;
 }
 
-- 
2.43.0


From d6534b565adb951557ea7f8f08c060dcb617dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:17 +0000
Subject: [PATCH 24/35] fix: delimit proxy responses that have no body and
 discard a partial response before reporting an error

---
 proxy/http_coap/src/connection.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index a8b5e6a..901a774 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -338,6 +338,23 @@ static int connection_send(connection_t *con, http_msg_t *msg)
     return 0;
 }
 
+/*  return: { 0, success
+ *          {<0, error
+ */
+static int connection_set_empty_body(connection_t *con, http_msg_t *msg)
+{
+    int ret = 0;
+
+    /* the connection stays open so the end of the response must be evident */
+    ret = http_msg_set_header(msg, "Content-Length", "0");
+    if (ret < 0)
+    {
+        coap_log_error("[%u] <%u> %s Failed to set header in response message to HTTP client: %s",
+                       con->listener_index, con->con_index, con->addr, http_msg_strerror(ret));
+    }
+    return ret;
+}
+
 /*  return: { 0, success
  *          {<0, error
  */
@@ -347,6 +364,7 @@ static int connection_gen_error_resp(connection_t *con, http_msg_t *msg, unsigne
     char int_buf[CONNECTION_INT_BUF_LEN] = {0};
     int ret = 0;
 
+    http_msg_reset(msg);
     snprintf(int_buf, sizeof(int_buf), "%u", code);
     str = cross_http_resp_code_to_str(code);
     ret = http_msg_set_start(msg, "HTTP/1.1", int_buf, str);
@@ -356,7 +374,7 @@ static int connection_gen_error_resp(connection_t *con, http_msg_t *msg, unsigne
                        con->listener_index, con->con_index, con->addr, http_msg_strerror(ret));
         return ret;
     }
-    return 0;
+    return connection_set_empty_body(con, msg);
 }
 
 /*  return: { 0, success
@@ -633,6 +651,10 @@ static int connection_process(connection_t *con, http_msg_t *req_msg, http_msg_t
                        con->listener_index, con->con_index, con->addr, strerror(-ret));
         return connection_gen_error_resp(con, resp_msg, code);
     }
+    if (http_msg_get_body_len(resp_msg) == 0)
+    {
+        return connection_set_empty_body(con, resp_msg);
+    }
     return 0;
 }
 
-- 
2.43.0


From 41b2ae7108f7c4b3e4d7530b55736cad193127cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:17 +0000
Subject: [PATCH 25/35] fix: handle request URIs that do not specify a host or
 a port

---
 proxy/http_coap/src/connection.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 901a774..88c4c27 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -51,6 +51,8 @@
 #define CONNECTION_DATA_BUF_MIN_SPACE  128
 #define CONNECTION_INT_BUF_LEN         16
 #define CONNECTION_BODY_LEN            8192
+#define CONNECTION_COAP_PORT           "5683"
+#define CONNECTION_COAPS_PORT          "5684"
 #define CONNECTION_COAP_BLOCK1_SIZE    32
 #define CONNECTION_COAP_BLOCK2_SIZE    32
 
@@ -549,6 +551,26 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
     return 0;
 }
 
+/*  return: { 0, success
+ *          {<0, error
+ */
+static int connection_check_uri(uri_t *uri)
+{
+    if (uri_get_host(uri) == NULL)
+    {
+        return -EINVAL;
+    }
+    if (uri_get_port(uri) == NULL)
+    {
+        if (strcasecmp(uri_get_scheme(uri), "coaps") == 0)
+        {
+            return uri_set_port(uri, CONNECTION_COAPS_PORT);
+        }
+        return uri_set_port(uri, CONNECTION_COAP_PORT);
+    }
+    return 0;
+}
+
 /*  return: { 0, success
  *          {<0, error
  */
@@ -579,6 +601,15 @@ static int connection_process(connection_t *con, http_msg_t *req_msg, http_msg_t
         coap_msg_destroy(&coap_req_msg);
         return ret;
     }
+    ret = connection_check_uri(&uri);
+    if (ret < 0)
+    {
+        coap_log_error("[%u] <%u> %s Unusable request URI in request message from HTTP client: %s",
+                       con->listener_index, con->con_index, con->addr, strerror(-ret));
+        uri_destroy(&uri);
+        coap_msg_destroy(&coap_req_msg);
+        return connection_gen_error_resp(con, resp_msg, 400);
+    }
     if (!con->coap_client_active)
     {
         /* first exchange with a CoAP server */
-- 
2.43.0


From 1638e567b1bf8ca38ce8c85ae079c4c4cd231aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:41 +0000
Subject: [PATCH 26/35] fix: answer a request when the CoAP server cannot be
 reached instead of closing the connection

---
 proxy/http_coap/src/connection.c | 53 +++++++++++++++++---------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 88c4c27..95988c0 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -379,6 +379,32 @@ static int connection_gen_error_resp(connection_t *con, http_msg_t *msg, unsigne
     return connection_set_empty_body(con, msg);
 }
 
+/*  return: { 0, success
+ *          {<0, error
+ */
+static int connection_gen_coap_error_resp(connection_t *con, http_msg_t *resp_msg, int error)
+{
+    switch (error)
+    {
+    case -ETIMEDOUT:
+        /* If the proxy services the request by interacting with a third party
+         * (such as the CoAP origin server) and is unable to obtain a result within
+         * a reasonable time frame, a 504 (Gateway Timeout) response is returned.
+         */
+        return connection_gen_error_resp(con, resp_msg, 504);
+    case -EBADMSG:
+        /* If a result can be obtained but is not understood, a 502 (Bad Gateway)
+         * response is returned.
+         */
+        return connection_gen_error_resp(con, resp_msg, 502);
+    default:
+        /* If the proxy is unable or unwilling to service a request with a CoAP URI,
+         * a 501 (Not Implemented) response is returned to the client.
+         */
+        return connection_gen_error_resp(con, resp_msg, 501);
+    }
+}
+
 /*  return: { 0, success
  *          {<0, error
  */
@@ -618,7 +644,7 @@ static int connection_process(connection_t *con, http_msg_t *req_msg, http_msg_t
         {
             uri_destroy(&uri);
             coap_msg_destroy(&coap_req_msg);
-            return ret;
+            return connection_gen_coap_error_resp(con, resp_msg, ret);
         }
     }
     else if ((strcasecmp(uri_get_host(&uri), con->coap_client_host) != 0)
@@ -631,7 +657,7 @@ static int connection_process(connection_t *con, http_msg_t *req_msg, http_msg_t
         {
             uri_destroy(&uri);
             coap_msg_destroy(&coap_req_msg);
-            return ret;
+            return connection_gen_coap_error_resp(con, resp_msg, ret);
         }
     }
     else
@@ -649,28 +675,7 @@ static int connection_process(connection_t *con, http_msg_t *req_msg, http_msg_t
     {
         coap_log_error("[%u] <%u> %s CoAP client exchange failed: %s",
                        con->listener_index, con->con_index, con->addr, strerror(-ret));
-        switch (ret)
-        {
-        case -ETIMEDOUT:
-            /* If the proxy services the request by interacting with a third party
-             * (such as the CoAP origin server) and is unable to obtain a result within
-             * a reasonable time frame, a 504 (Gateway Timeout) response is returned.
-             */
-            ret = connection_gen_error_resp(con, resp_msg, 504);
-            break;
-        case -EBADMSG:
-            /* If a result can be obtained but is not understood, a 502 (Bad Gateway)
-             * response is returned.
-             */
-            ret = connection_gen_error_resp(con, resp_msg, 502);
-            break;
-        default:
-            /* If the proxy is unable or unwilling to service a request with a CoAP URI,
-             * a 501 (Not Implemented) response is returned to the client.
-             */
-            ret = connection_gen_error_resp(con, resp_msg, 501);
-            break;
-        }
+        ret = connection_gen_coap_error_resp(con, resp_msg, ret);
         coap_msg_destroy(&coap_resp_msg);
         return ret;
     }
-- 
2.43.0


From 26abea862b6222ceb64f73ddd9664e4c087ed578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:41 +0000
Subject: [PATCH 27/35] fix: set up a new CoAP session after a failed exchange
 in the proxy

---
 proxy/http_coap/src/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 95988c0..f32f31b 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -675,6 +675,7 @@ static int connection_process(connection_t *con, http_msg_t *req_msg, http_msg_t
     {
         coap_log_error("[%u] <%u> %s CoAP client exchange failed: %s",
                        con->listener_index, con->con_index, con->addr, strerror(-ret));
+        connection_coap_client_destroy(con);  /* the next request starts with a new session */
         ret = connection_gen_coap_error_resp(con, resp_msg, ret);
         coap_msg_destroy(&coap_resp_msg);
         return ret;
-- 
2.43.0


From d44ae35ec47f43447c14ed0e2caa4f27bd31f851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:41 +0000
Subject: [PATCH 28/35] fix: keep accepting connections after a failure to set
 up one of them

---
 proxy/http_coap/src/listener.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proxy/http_coap/src/listener.c b/proxy/http_coap/src/listener.c
index 119c623..15085b1 100755
--- a/proxy/http_coap/src/listener.c
+++ b/proxy/http_coap/src/listener.c
@@ -58,7 +58,7 @@ static void *listener_thread_func(void *data)
         if (sock == NULL)
         {
             coap_log_error("Out of memory");
-            break;
+            continue;
         }
 
         ret = tls_ssock_accept(&listener->ssock, sock);
@@ -78,7 +78,7 @@ static void *listener_thread_func(void *data)
             coap_log_error("Unable to create connection data");
             tls_sock_close(sock);
             free(sock);
-            break;
+            continue;
         }
 
         ret = thread_init(&thread, &listener->ctx, connection_thread_func, con);
@@ -86,7 +86,7 @@ static void *listener_thread_func(void *data)
         {
             coap_log_error("Unable to create connection thread");
             connection_delete(con);
-            break;
+            continue;
         }
     }
     coap_log_notice("[%u] Stopped listening on port %s", listener->index, param_get_port(listener->param));
-- 
2.43.0


From 6fff5fb4889d9fe92681ef67366a076f21117b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:00 +0000
Subject: [PATCH 29/35] fix: wait until the socket can be written when a TLS
 handshake is blocked on sending

---
 proxy/common/src/tls_sock.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/tls_sock.c b/proxy/common/src/tls_sock.c
index 7b8cfd8..22cce70 100755
--- a/proxy/common/src/tls_sock.c
+++ b/proxy/common/src/tls_sock.c
@@ -267,6 +267,7 @@ int tls_sock_open_(tls_sock_t *s, const char *common_name, int timeout)
 int tls_sock_handshake(tls_sock_t *s)
 {
     struct timeval tv = {0};
+    fd_set writefds = {{0}};
     fd_set readfds = {{0}};
     fd_set errfds = {{0}};
     int ret = 0;
@@ -294,10 +295,18 @@ int tls_sock_handshake(tls_sock_t *s)
             return SOCK_TLS_HANDSHAKE_ERROR;
         }
         FD_ZERO(&readfds);
-        FD_SET(s->sd, &readfds);
+        FD_ZERO(&writefds);
+        if (gnutls_record_get_direction(s->session) == 0)
+        {
+            FD_SET(s->sd, &readfds);
+        }
+        else
+        {
+            FD_SET(s->sd, &writefds);
+        }
         FD_ZERO(&errfds);
         FD_SET(s->sd, &errfds);
-        ret = select(s->sd + 1, &readfds, NULL, &errfds, &tv);
+        ret = select(s->sd + 1, &readfds, &writefds, &errfds, &tv);
         if (ret == 0)
         {
             return SOCK_TIMEOUT;
-- 
2.43.0


From 0dbdcf93f852199f9638cc03315a95f9fd53c1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:21 +0000
Subject: [PATCH 30/35] fix: report the failure of a file transfer to the
 caller of transfer_client_execute

---
 sample/transfer_client/transfer_client.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/transfer_client/transfer_client.c b/sample/transfer_client/transfer_client.c
index 9295eed..f0690f4 100755
--- a/sample/transfer_client/transfer_client.c
+++ b/sample/transfer_client/transfer_client.c
@@ -229,12 +229,12 @@ int transfer_client_execute(transfer_client_t *client, const char *filename)
         if (num != -1)
         {
             /* a return value of -1 indicates a DTLS failure which has already been logged */
-            coap_log_error("%s", strerror(-ret));
+            coap_log_error("%s", strerror(-num));
         }
         coap_msg_destroy(&resp);
         coap_msg_destroy(&req);
         free(file_buf);
-        return ret;
+        return num;
     }
     free(file_buf);
     coap_log_info("Transfer response: %u.%u",
-- 
2.43.0


From 3e7f52fa4a9364cf3e74f5eeb209f5dd5f2b2bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:00 +0000
Subject: [PATCH 31/35] fix: do not report a file as stored when closing it
 fails

---
 sample/transfer_server/transfer_server.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sample/transfer_server/transfer_server.c b/sample/transfer_server/transfer_server.c
index 4989c3a..3c17e59 100755
--- a/sample/transfer_server/transfer_server.c
+++ b/sample/transfer_server/transfer_server.c
@@ -68,7 +68,11 @@ static int transfer_server_handle_rx(coap_server_trans_t *trans, coap_msg_t *req
         coap_log_warn("%s", strerror(-num));
         return coap_msg_set_code(resp, COAP_MSG_SERVER_ERR, COAP_MSG_INT_SERVER_ERR);
     }
-    fclose(file);
+    if (fclose(file) != 0)
+    {
+        coap_log_warn("%s", strerror(errno));
+        return coap_msg_set_code(resp, COAP_MSG_SERVER_ERR, COAP_MSG_INT_SERVER_ERR);
+    }
     coap_log_info("Saved %zu bytes to '%s'",
                   coap_server_trans_get_body_end(trans),
                   TRANSFER_SERVER_FILENAME);
-- 
2.43.0


From 9f6aeef3b29449bef5dfb61c9c6ae7d468e85be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:00 +0000
Subject: [PATCH 32/35] fix: report a failed file transfer when the server
 responds with an error

---
 sample/transfer_client/transfer_client.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sample/transfer_client/transfer_client.c b/sample/transfer_client/transfer_client.c
index f0690f4..1f0277f 100755
--- a/sample/transfer_client/transfer_client.c
+++ b/sample/transfer_client/transfer_client.c
@@ -240,5 +240,11 @@ int transfer_client_execute(transfer_client_t *client, const char *filename)
     coap_log_info("Transfer response: %u.%u",
                   coap_msg_get_code_class(&resp),
                   coap_msg_get_code_detail(&resp));
-    return 0;
+    if (coap_msg_get_code_class(&resp) != COAP_MSG_SUCCESS)
+    {
+        ret = -EBADMSG;
+    }
+    coap_msg_destroy(&resp);
+    coap_msg_destroy(&req);
+    return ret;
 }
-- 
2.43.0


From e3eb490e233b4707b525de3bd7d9e41c28474c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:52 +0000
Subject: [PATCH 33/35] fix: fail the exchange when the client's timer cannot
 be started

---
 lib/src/coap_client.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index bd30598..76e6139 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1383,7 +1383,11 @@ static int coap_client_exchange_sep(coap_client_t *client, coap_msg_t *req, coap
 
     /* wait for a separate response to a confirmable request */
     coap_log_info("Expecting response from host %s and port %s", client->server_host, client->server_port);
-    coap_client_start_resp_timer(client);
+    ret = coap_client_start_resp_timer(client);
+    if (ret < 0)
+    {
+        return ret;
+    }
     while (1)
     {
         ret = coap_client_listen_resp(client);
@@ -1456,7 +1460,11 @@ static int coap_client_exchange_con(coap_client_t *client, coap_msg_t *req, coap
      *  or ack message and separate response message
      */
     coap_log_info("Expecting acknowledgement from host %s and port %s", client->server_host, client->server_port);
-    coap_client_start_ack_timer(client);
+    ret = coap_client_start_ack_timer(client);
+    if (ret < 0)
+    {
+        return ret;
+    }
     while (1)
     {
         ret = coap_client_listen_ack(client, req);
@@ -1539,7 +1547,11 @@ static int coap_client_exchange_non(coap_client_t *client, coap_msg_t *req, coap
     int ret = 0;
 
     coap_log_info("Expecting response from host %s and port %s", client->server_host, client->server_port);
-    coap_client_start_resp_timer(client);
+    ret = coap_client_start_resp_timer(client);
+    if (ret < 0)
+    {
+        return ret;
+    }
     while (1)
     {
         ret = coap_client_listen_resp(client);
-- 
2.43.0


From 444f95b99e769e5a5d1e5c6ed1bab8da58f1ef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:44 +0000
Subject: [PATCH 34/35] fix: do not translate an unknown CoAP success code to
 an HTTP error of the same detail

---
 proxy/common/src/cross.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index ab86497..a48592a 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -145,6 +145,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
         case COAP_MSG_CONTENT:
             return http_msg_set_start(http_msg, "HTTP/1.1", "200", "OK");
         }
+        break;
     case COAP_MSG_CLIENT_ERR:
         switch (coap_msg_get_code_detail(coap_msg))
         {
@@ -170,6 +171,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
         case COAP_MSG_UNSUP_CONT_FMT:
             return http_msg_set_start(http_msg, "HTTP/1.1", "415", "Unsupported Media Type");
         }
+        break;
     case COAP_MSG_SERVER_ERR:
         switch (coap_msg_get_code_detail(coap_msg))
         {
-- 
2.43.0


From 1970e438aa6a08953a9856685e2295bb809ee856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:28 +0000
Subject: [PATCH 35/35] fix: wait for the peer when there is nothing to
 retransmit in a DTLS handshake

When part of the peer's flight is lost gnutls_dtls_get_timeout() returns 0.
The handshake loop then polled without waiting and used up all of its
attempts at once, so that a single lost datagram made the handshake fail.
---
 lib/src/coap_client.c | 5 +++++
 lib/src/coap_server.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 76e6139..402da27 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -274,6 +274,11 @@ static int coap_client_dtls_handshake(coap_client_t *client)
         if (i < COAP_CLIENT_DTLS_HANDSHAKE_ATTEMPTS - 1)
         {
             timeout = gnutls_dtls_get_timeout(client->session);
+            if (timeout == 0)
+            {
+                /* there is nothing to retransmit, wait for the peer to do so */
+                timeout = COAP_CLIENT_DTLS_RETRANS_TIMEOUT;
+            }
             coap_log_debug("Handshake timeout: %u msec", timeout);
             ret = coap_client_dtls_listen_timeout(client, timeout);
             if (ret < 0)
diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index d1003b7..ee8e112 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -447,6 +447,11 @@ static int coap_server_trans_dtls_handshake(coap_server_trans_t *trans)
         if (i < COAP_SERVER_DTLS_HANDSHAKE_ATTEMPTS - 1)
         {
             timeout = gnutls_dtls_get_timeout(trans->session);
+            if (timeout == 0)
+            {
+                /* there is nothing to retransmit, wait for the peer to do so */
+                timeout = COAP_SERVER_DTLS_RETRANS_TIMEOUT;
+            }
             coap_log_debug("Handshake timeout: %u msec", timeout);
             ret = coap_server_trans_dtls_listen_timeout(trans, timeout);
             if (ret < 0)
-- 
2.43.0


From 5b78eef116465eaa2d6d61eed7b6295533de0efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:27 +0000
Subject: [PATCH 01/53] fix: treat extended option delta and length bytes as
 unsigned

A one-byte extended delta or length of 128..255 was sign extended, so the
option was decoded with a wrong number or the message was refused.
---
 lib/src/coap_msg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index af1c50d..417b331 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -566,7 +566,7 @@ static ssize_t coap_msg_parse_op(coap_msg_t *msg, char *buf, size_t len)
         {
             return -EBADMSG;
         }
-        op_delta += p[0];
+        op_delta += (unsigned char)p[0];
         p++;
         len--;
     }
@@ -586,7 +586,7 @@ static ssize_t coap_msg_parse_op(coap_msg_t *msg, char *buf, size_t len)
         {
             return -EBADMSG;
         }
-        op_len += p[0];
+        op_len += (unsigned char)p[0];
         p++;
         len--;
     }
-- 
2.43.0


From 6b41b5427c5ea41a77ca2135acf9a5c07f81cd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:27 +0000
Subject: [PATCH 02/53] fix: do not read past the end of the datagram when
 parsing options

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 417b331..69ca26f 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -640,7 +640,7 @@ static ssize_t coap_msg_parse_ops(coap_msg_t *msg, char *buf, size_t len)
 
     while (1)
     {
-        if (((p[0] & 0xff) == 0xff) || (len == 0))
+        if ((len == 0) || ((p[0] & 0xff) == 0xff))
         {
             break;
         }
-- 
2.43.0


From 2044874e3b13a18494db714acb4f6dd20646bd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:27 +0000
Subject: [PATCH 03/53] fix: use the option length to size the extended length
 when formatting

The option number was used instead, so the formatter could write one byte
past the end of the buffer or report no space when there was enough.
---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 69ca26f..040c75e 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -931,7 +931,7 @@ static ssize_t coap_msg_format_op(coap_msg_op_t *op, unsigned prev_num, char *bu
     {
         num += 2;
     }
-    else if (op->num >= 13)
+    else if (op->len >= 13)
     {
         num += 1;
     }
-- 
2.43.0


From fd3aad4628f14eeb2c9f6b9b05aaaa9cdbdd6142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:27 +0000
Subject: [PATCH 04/53] fix: refuse block numbers that do not fit in a block
 option value

---
 lib/src/coap_msg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 040c75e..3df9853 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -149,7 +149,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
     switch (len)
     {
     case 1:
-        if (num > (1 << 4))
+        if (num >= (1 << 4))
         {
             return -EINVAL;
         }
@@ -158,7 +158,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
         val[0] |= szx;
         return 1;
     case 2:
-        if (num > (1 << 12))
+        if (num >= (1 << 12))
         {
             return -EINVAL;
         }
@@ -168,7 +168,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
         val[1] |= szx;
         return 2;
     case 3:
-        if (num > (1 << 20))
+        if (num >= (1 << 20))
         {
             return -EINVAL;
         }
-- 
2.43.0


From e3b59d472393c091646c07505227802f18d1a27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:27 +0000
Subject: [PATCH 05/53] fix: parse empty block option values and refuse
 over-long ones

A zero-length value stands for zero (RFC 7959 section 2.2) but was read as
three bytes; values longer than three bytes were not refused.
---
 lib/src/coap_msg.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 3df9853..f7a8b89 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -109,6 +109,11 @@ int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, c
 {
     switch (len)
     {
+    case 0:
+        *size = 1 << 4;
+        *more = 0;
+        *num = 0;
+        break;
     case 1:
         *size = 1 << ((val[0] & 0x07) + 4);
         *more = !!(val[0] & 0x08);
@@ -120,12 +125,15 @@ int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, c
         *num = ((unsigned)(unsigned char)val[0] << 4)
              | (((unsigned)(unsigned char)val[1] & 0x000000f0) >> 4);
         break;
-    default:
+    case 3:
         *size = 1 << ((val[2] & 0x07) + 4);
         *more = !!(val[2] & 0x08);
         *num = ((unsigned)(unsigned char)val[0] << 12)
              | ((unsigned)(unsigned char)val[1] << 4)
              | (((unsigned)(unsigned char)val[2] & 0x000000f0) >> 4);
+        break;
+    default:
+        return -EINVAL;
     }
     if (*size > COAP_MSG_OP_MAX_BLOCK_SIZE)
     {
-- 
2.43.0


From 6cca45ed49aac6dd1f7e833b45f06916503905a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:27 +0000
Subject: [PATCH 06/53] fix: return the option structure to the small pool when
 the value cannot be allocated

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index f7a8b89..a44315d 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -214,7 +214,7 @@ static coap_msg_op_t *coap_msg_op_new(unsigned num, unsigned len, const char *va
     op->val = (char *)coap_mem_medium_alloc(len);
     if (op->val == NULL)
     {
-        coap_mem_medium_free(op);
+        coap_mem_small_free(op);
         return NULL;
     }
     memcpy(op->val, val, len);
-- 
2.43.0


From 7d2c23d1483314665e335e5c261b23ce53d684b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:52 +0000
Subject: [PATCH 07/53] fix: do not treat the first request with message ID 0
 as a duplicate

A new transaction was initialised with a version 1 message with ID 0 as its
previous request, so a client whose first message ID is 0 was answered with
an empty message instead of having its request handled.
---
 lib/src/coap_server.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 30f0bc0..dbcc9fb 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -1364,8 +1364,6 @@ static int coap_server_trans_create(coap_server_trans_t *trans, coap_server_t *s
         memset(trans, 0, sizeof(coap_server_trans_t));
         return -errno;
     }
-    coap_msg_create(&trans->req);
-    coap_msg_create(&trans->resp);
     trans->server = server;
 #ifdef COAP_DTLS_EN
     ret = coap_server_trans_dtls_create(trans);
-- 
2.43.0


From 34dc607dd928085eb0ed81f7a236be8e80c4b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:52 +0000
Subject: [PATCH 08/53] fix: stop the retransmission timer when a new request
 replaces an unacknowledged response

Otherwise the timer of the old response retransmits the new response, even
if it is an acknowledgement or a non-confirmable message.
---
 lib/src/coap_server.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index dbcc9fb..787330f 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2389,6 +2389,15 @@ static int coap_server_exchange(coap_server_t *server)
         coap_log_info("Received non-confirmable request from address %s and port %u", trans->client_addr, ntohs(trans->client_sin.COAP_IPV_SIN_PORT));
     }
 
+    /* stop retransmitting the previous response */
+    ret = coap_server_trans_stop_ack_timer(trans);
+    if (ret < 0)
+    {
+        coap_server_trans_destroy(trans);
+        coap_msg_destroy(&recv_msg);
+        return ret;
+    }
+
     /* clear details of the previous request/response */
     coap_server_trans_clear_req(trans);
     coap_server_trans_clear_resp(trans);
-- 
2.43.0


From 9d24d192262e62c8fdf6e7f04358673dbe391196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:52 +0000
Subject: [PATCH 09/53] fix: reset empty confirmable messages instead of
 passing them to the request handler

---
 lib/src/coap_server.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 787330f..90603d9 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2372,6 +2372,7 @@ static int coap_server_exchange(coap_server_t *server)
     /* check for a valid request */
     if ((coap_msg_get_type(&recv_msg) == COAP_MSG_ACK)
      || (coap_msg_get_type(&recv_msg) == COAP_MSG_RST)
+     || (coap_msg_is_empty(&recv_msg))
      || (coap_msg_get_code_class(&recv_msg) != COAP_MSG_REQ))
     {
         coap_server_trans_reject(trans, &recv_msg);
-- 
2.43.0


From adead6773381863553b7e58712f25e100642dde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:52 +0000
Subject: [PATCH 10/53] fix: keep the transaction when an unexpected or
 malformed message is rejected

A stray acknowledgement, reset, ping or malformed datagram discarded the
client's transaction, so a pending separate response was no longer
retransmitted and a duplicate of the last request was executed again.
---
 lib/src/coap_server.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 90603d9..d993304 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2286,6 +2286,13 @@ static int coap_server_exchange(coap_server_t *server)
         coap_msg_destroy(&recv_msg);
         return 0;
     }
+    if ((num == -EBADMSG) || (num == -EINVAL))
+    {
+        /* the message is malformed or has an unknown version */
+        /* it must not affect the exchange in progress */
+        coap_msg_destroy(&recv_msg);
+        return num;
+    }
     if (num < 0)
     {
         coap_msg_destroy(&recv_msg);
@@ -2377,7 +2384,6 @@ static int coap_server_exchange(coap_server_t *server)
     {
         coap_server_trans_reject(trans, &recv_msg);
         coap_msg_destroy(&recv_msg);
-        coap_server_trans_destroy(trans);
         return -EBADMSG;
     }
 
-- 
2.43.0


From e393f840824c98ad5bf21be8cc65fe63349938d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:52 +0000
Subject: [PATCH 11/53] fix: do not stop the server when a retransmission to
 one client fails

---
 lib/src/coap_server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index d993304..921193c 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2157,7 +2157,8 @@ static int coap_server_listen(coap_server_t *server)
                 ret = coap_server_trans_handle_ack_timeout(trans);
                 if (ret < 0)
                 {
-                    return ret;
+                    coap_log_warn("Failed to retransmit to address %s and port %u", trans->client_addr, ntohs(trans->client_sin.COAP_IPV_SIN_PORT));
+                    coap_server_trans_destroy(trans);
                 }
             }
         }
-- 
2.43.0


From 44cb3329b6945fb40d07334c17476eefcb7b9aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:37 +0000
Subject: [PATCH 12/53] fix: interpret a block number in units of the block
 size it was sent with

The server multiplied the block number in a request by its own block size.
When the sizes differ an out-of-sequence block was accepted, leaving a gap
in the body, and blocks that were in sequence were refused.
---
 lib/src/coap_server.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 921193c..abc6368 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -1450,7 +1450,7 @@ static int coap_server_trans_handle_next_block(coap_server_trans_t *trans, coap_
          * the client may not include a block2 option in the first message
          * but must include a block2 option in subsequent messages
          */
-        block2_next = block2_num * trans->block2_size;  /* start byte index according to the client or for the first block */
+        block2_next = block2_num * block2_size;  /* start byte index according to the client or for the first block */
         if (((trans->type == COAP_SERVER_TRANS_BLOCKWISE_GET) && (coap_msg_get_code_detail(req) != COAP_MSG_GET))
          || ((trans->type == COAP_SERVER_TRANS_BLOCKWISE_PUT2) && (coap_msg_get_code_detail(req) != COAP_MSG_PUT))
          || ((trans->type == COAP_SERVER_TRANS_BLOCKWISE_POST2) && (coap_msg_get_code_detail(req) != COAP_MSG_POST))
@@ -1529,7 +1529,7 @@ static int coap_server_trans_handle_next_block(coap_server_trans_t *trans, coap_
     {
         coap_log_debug("Handling block with start byte index %u for blockwise transfer", trans->block1_next);
         /* check for continuity between the current and previous blocks */
-        block1_next = block1_num * trans->block1_size;  /* start byte index according to the client */
+        block1_next = block1_num * block1_size;  /* start byte index according to the client */
         if (((trans->type == COAP_SERVER_TRANS_BLOCKWISE_PUT1) && (coap_msg_get_code_detail(req) != COAP_MSG_PUT))
          || ((trans->type == COAP_SERVER_TRANS_BLOCKWISE_POST1) && (coap_msg_get_code_detail(req) != COAP_MSG_POST))
          || (strcmp(block_uri, trans->block_uri) != 0))
-- 
2.43.0


From aeec3fbf9af3a9e5fab8c2eacd69e757e3b28a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:47 +0000
Subject: [PATCH 13/53] fix: match a response by its token when its message ID
 equals that of the request

---
 lib/src/coap_client.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 812d1cd..4148ea0 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1240,6 +1240,27 @@ static int coap_client_listen_resp(coap_client_t *client)
     return 0;
 }
 
+/**
+ *  @brief Compare the message ID values in a request message and an acknowledgement or reset message
+ *
+ *  The message ID matches an acknowledgement or reset message to a request.
+ *  The message ID of a confirmable or non-confirmable message is chosen by
+ *  the server and can have any value.
+ *
+ *  @param[in] req Pointer to the request message
+ *  @param[in] resp Pointer to the received message
+ *
+ *  @returns Comparison value
+ *  @retval 0 the received message is not an acknowledgement or reset for the request
+ *  @retval 1 the received message is an acknowledgement or reset for the request
+ */
+static int coap_client_match_msg_id(coap_msg_t *req, coap_msg_t *resp)
+{
+    return (((coap_msg_get_type(resp) == COAP_MSG_ACK)
+          || (coap_msg_get_type(resp) == COAP_MSG_RST))
+         && (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req)));
+}
+
 /**
  *  @brief Compare the token values in a request message and a response message
  *
@@ -1390,7 +1411,7 @@ static int coap_client_exchange_sep(coap_client_t *client, coap_msg_t *req, coap
         {
             return num;
         }
-        if (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req))
+        if (coap_client_match_msg_id(req, resp))
         {
             if (coap_msg_get_type(resp) == COAP_MSG_ACK)
             {
@@ -1462,7 +1483,7 @@ static int coap_client_exchange_con(coap_client_t *client, coap_msg_t *req, coap
         {
             return num;
         }
-        if (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req))
+        if (coap_client_match_msg_id(req, resp))
         {
             if (coap_msg_get_type(resp) == COAP_MSG_ACK)
             {
@@ -1544,7 +1565,7 @@ static int coap_client_exchange_non(coap_client_t *client, coap_msg_t *req, coap
         {
             return num;
         }
-        if (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req))
+        if (coap_client_match_msg_id(req, resp))
         {
             if (coap_msg_get_type(resp) == COAP_MSG_RST)
             {
-- 
2.43.0


From fffdf83d5acb90ed0f34e265566fdeb88c90d3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:22 +0000
Subject: [PATCH 14/53] fix: do not accept a request as the response to a
 request

---
 lib/src/coap_client.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 4148ea0..be5bd34 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1298,6 +1298,28 @@ static unsigned coap_client_check_options(coap_msg_t *msg)
 #endif  /* COAP_PROXY */
 }
 
+/**
+ *  @brief Determine if a message is a response
+ *
+ *  A message that carries a request code (or a code in a
+ *  reserved class) is not a response, even if its token
+ *  is equal to the token in the request.
+ *
+ *  @param[in] msg Pointer to a received message
+ *
+ *  @returns Comparison value
+ *  @retval 0 the message is not a response
+ *  @retval 1 the message is a response
+ */
+static int coap_client_is_resp(coap_msg_t *msg)
+{
+    unsigned code_class = coap_msg_get_code_class(msg);
+
+    return ((code_class == COAP_MSG_SUCCESS)
+         || (code_class == COAP_MSG_CLIENT_ERR)
+         || (code_class == COAP_MSG_SERVER_ERR));
+}
+
 /**
  *  @brief Handle a received piggy-backed response message
  *
@@ -1316,6 +1338,12 @@ static int coap_client_handle_piggybacked_response(coap_client_t *client, coap_m
 {
     unsigned op_num = 0;
 
+    if (!coap_client_is_resp(resp))
+    {
+        coap_log_info("Received message that is not a response from host %s and port %s", client->server_host, client->server_port);
+        coap_client_reject(client, resp);
+        return -EBADMSG;
+    }
     op_num = coap_client_check_options(resp);
     if (op_num != 0)
     {
@@ -1345,6 +1373,12 @@ static int coap_client_handle_sep_response(coap_client_t *client, coap_msg_t *re
 {
     unsigned op_num = 0;
 
+    if (!coap_client_is_resp(resp))
+    {
+        coap_log_info("Received message that is not a response from host %s and port %s", client->server_host, client->server_port);
+        coap_client_reject(client, resp);
+        return -EBADMSG;
+    }
     if (coap_msg_get_type(resp) == COAP_MSG_CON)
     {
         coap_log_info("Received confirmable response from host %s and port %s", client->server_host, client->server_port);
-- 
2.43.0


From d9120844f9220a69bffcb6ad26e27a1a3ef0a3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:49 +0000
Subject: [PATCH 15/53] fix: refuse datagrams longer than the receive buffer
 instead of truncating them

---
 lib/src/coap_client.c | 8 +++++++-
 lib/src/coap_server.c | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index be5bd34..541c87c 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -938,11 +938,17 @@ static ssize_t coap_client_recv(coap_client_t *client, coap_msg_t *msg)
         return -1;
     }
 #else
-    num = recv(client->sd, buf, sizeof(buf), 0);
+    num = recv(client->sd, buf, sizeof(buf), MSG_TRUNC);
     if (num < 0)
     {
         return -errno;
     }
+    if (num > (ssize_t)sizeof(buf))
+    {
+        /* the end of the datagram has been discarded */
+        coap_client_handle_format_error(client, buf, sizeof(buf));
+        return -EBADMSG;
+    }
 #endif
     ret = coap_msg_parse(msg, buf, num);
     if (ret < 0)
diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index abc6368..4a5f176 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -1080,11 +1080,17 @@ static ssize_t coap_server_trans_recv(coap_server_trans_t *trans, coap_msg_t *ms
     {
         return -EINVAL;
     }
-    num = recvfrom(server->sd, buf, num, 0, (struct sockaddr *)&client_sin, &client_sin_len);
+    num = recvfrom(server->sd, buf, sizeof(buf), MSG_TRUNC, (struct sockaddr *)&client_sin, &client_sin_len);
     if (num < 0)
     {
         return -errno;
     }
+    if (num > (ssize_t)sizeof(buf))
+    {
+        /* the end of the datagram has been discarded */
+        coap_server_trans_handle_format_error(trans, buf, sizeof(buf));
+        return -EBADMSG;
+    }
 #endif
     ret = coap_msg_parse(msg, buf, num);
     if (ret < 0)
-- 
2.43.0


From 5adf5f86724aabab33201ed356f4dc64f9bc75a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:56 +0000
Subject: [PATCH 16/53] fix: release the copied request when a block-wise
 exchange runs out of memory

---
 lib/src/coap_client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 541c87c..320cc23 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1751,6 +1751,7 @@ static ssize_t coap_client_exchange_blockwise1(coap_client_t *client,
         ret = coap_msg_copy(&msg, req);
         if (ret < 0)
         {
+            coap_msg_destroy(&msg);
             return ret;
         }
         block1_more = 1;
@@ -1912,6 +1913,7 @@ static ssize_t coap_client_exchange_blockwise2(coap_client_t *client,
             ret = coap_msg_copy(&msg, req);
             if (ret < 0)
             {
+                coap_msg_destroy(&msg);
                 return ret;
             }
             block2_more = 0;  /* more must be zero for this use case */
-- 
2.43.0


From 0b717850852b2f45ef43264ebbd1d9325e0bf4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:35 +0000
Subject: [PATCH 17/53] fix: do not wait for a message without a timeout when
 the timer cannot be started

---
 lib/src/coap_client.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 320cc23..d7427c3 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1434,7 +1434,11 @@ static int coap_client_exchange_sep(coap_client_t *client, coap_msg_t *req, coap
 
     /* wait for a separate response to a confirmable request */
     coap_log_info("Expecting response from host %s and port %s", client->server_host, client->server_port);
-    coap_client_start_resp_timer(client);
+    ret = coap_client_start_resp_timer(client);
+    if (ret < 0)
+    {
+        return ret;
+    }
     while (1)
     {
         ret = coap_client_listen_resp(client);
@@ -1506,7 +1510,11 @@ static int coap_client_exchange_con(coap_client_t *client, coap_msg_t *req, coap
      *  or ack message and separate response message
      */
     coap_log_info("Expecting acknowledgement from host %s and port %s", client->server_host, client->server_port);
-    coap_client_start_ack_timer(client);
+    ret = coap_client_start_ack_timer(client);
+    if (ret < 0)
+    {
+        return ret;
+    }
     while (1)
     {
         ret = coap_client_listen_ack(client, req);
@@ -1588,7 +1596,11 @@ static int coap_client_exchange_non(coap_client_t *client, coap_msg_t *req, coap
     int ret = 0;
 
     coap_log_info("Expecting response from host %s and port %s", client->server_host, client->server_port);
-    coap_client_start_resp_timer(client);
+    ret = coap_client_start_resp_timer(client);
+    if (ret < 0)
+    {
+        return ret;
+    }
     while (1)
     {
         ret = coap_client_listen_resp(client);
-- 
2.43.0


From 269ff9d926339188ec89c8ad9e15dfc9258c7d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 18/53] fix: parse HTTP message bodies that contain null bytes

---
 proxy/common/src/http_msg.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index f8afeee..ae9e283 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -361,17 +361,17 @@ static ssize_t http_msg_parse_headers(http_msg_t *msg, char *str)
  *
  *  @param[in,out] msg Pointer to a message structure
  *  @param[in] str String representation of the message body
+ *  @param[in] str_len Length of the message body, which can contain null bytes
  *
  *  @returns Number of bytes parsed or error code
  *  @retval >=0 Number of bytes parsed
  *  @retval <0 Error code
  */
-static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
+static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
 {
     http_msg_header_t *header = NULL;
     ssize_t num = 0;
     size_t content_len = 0;
-    size_t str_len = 0;
     char *chunk_size = NULL;
     char *chunk_data = NULL;
     char *param = NULL;
@@ -383,8 +383,6 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
     int ret = 0;
     int i = 0;
 
-    str_len = strlen(str);
-
     header = http_msg_get_first_header(msg);
     while (header != NULL)
     {
@@ -521,11 +519,12 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
  *
  *  @param[out] msg Pointer to a message structure
  *  @param[in,out] str String containing the message
+ *  @param[in] len Length of the message
  *
  *  @returns Number of bytes parsed or error code
  *  @retval >0 Number of bytes
  *  @retval <0 Error code
- */static ssize_t __http_msg_parse(http_msg_t *msg, char *str)
+ */static ssize_t __http_msg_parse(http_msg_t *msg, char *str, size_t len)
 {
     ssize_t num = 0;
     char *next = str;
@@ -544,7 +543,7 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
     }
     next += num;
 
-    num = http_msg_parse_body(msg, next);
+    num = http_msg_parse_body(msg, next, len - (next - str));
     if (num < 0)
     {
         return num;
@@ -567,7 +566,7 @@ ssize_t http_msg_parse(http_msg_t *msg, const char *buf, size_t len)
     }
     memcpy(str, buf, len);
     str[len] = '\0';
-    num = __http_msg_parse(msg, str);
+    num = __http_msg_parse(msg, str, len);
     free(str);
     return num;
 }
-- 
2.43.0


From b8498403616ce7817d778071ca46ed9e0b8e0742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:31 +0000
Subject: [PATCH 19/53] fix: refuse malformed chunk lengths in HTTP messages

---
 proxy/common/src/http_msg.c | 47 ++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index ae9e283..f787b05 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -374,13 +374,12 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
     size_t content_len = 0;
     char *chunk_size = NULL;
     char *chunk_data = NULL;
-    char *param = NULL;
     char *next = NULL;
     char *dest = NULL;
-    int total_len = 0;
-    int chunk_len = 0;
+    char *end = NULL;
+    unsigned long chunk_len = 0;
+    size_t total_len = 0;
     int chunked = 0;
-    int ret = 0;
     int i = 0;
 
     header = http_msg_get_first_header(msg);
@@ -421,16 +420,22 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
                 }
                 next += 2;
 
-                /* ignore unrecognised parameters in the chunk-size field */
-                param = strchr(chunk_size, ';');
-                if ((param != NULL) && (param < next))
+                /* parse chunk length */
+                end = chunk_size + strspn(chunk_size, "0123456789abcdefABCDEF");
+                if (end == chunk_size)
+                {
+                    return -EBADMSG;
+                }
+                errno = 0;
+                chunk_len = strtoul(chunk_size, NULL, 16);
+                if (errno != 0)
                 {
-                    *param = ' ';
+                    return -EBADMSG;
                 }
 
-                /* parse chunk length */
-                ret = sscanf(chunk_size, "%x", &chunk_len);
-                if (ret != 1)
+                /* ignore unrecognised parameters in the chunk-size field */
+                end += strspn(end, " \t");
+                if ((*end != ';') && (end != next - 2))
                 {
                     return -EBADMSG;
                 }
@@ -438,19 +443,15 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
                 {
                     break;
                 }
-                if (i == 0)
-                {
-                    total_len += chunk_len;
-                }
-
-                chunk_data = next;
-                next += chunk_len;
 
                 /* parse the end of chunk-data */
-                if (next + 2 > str + str_len)
+                if ((str_len - (next - str) < 2)
+                 || (chunk_len > str_len - (next - str) - 2))
                 {
                     return -EAGAIN;
                 }
+                chunk_data = next;
+                next += chunk_len;
                 if ((*next != '\r')
                  || (*(next + 1) != '\n'))
                 {
@@ -458,8 +459,12 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
                 }
                 next += 2;
 
-                /* copy data on the second pass */
-                if (i == 1)
+                /* count data on the first pass, copy data on the second pass */
+                if (i == 0)
+                {
+                    total_len += chunk_len;
+                }
+                else
                 {
                     memcpy(dest, chunk_data, chunk_len);
                     dest += chunk_len;
-- 
2.43.0


From 949cc4485659c1f3e61aa56d1b0973eed29a194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:31 +0000
Subject: [PATCH 20/53] fix: refuse malformed and conflicting Content-Length
 headers

---
 proxy/common/src/http_msg.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index f787b05..bd6ba5d 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -372,6 +372,7 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
     http_msg_header_t *header = NULL;
     ssize_t num = 0;
     size_t content_len = 0;
+    size_t num_len = 0;
     char *chunk_size = NULL;
     char *chunk_data = NULL;
     char *next = NULL;
@@ -380,6 +381,7 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
     unsigned long chunk_len = 0;
     size_t total_len = 0;
     int chunked = 0;
+    int found = 0;
     int i = 0;
 
     header = http_msg_get_first_header(msg);
@@ -392,7 +394,16 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
         }
         if (strcasecmp(header->name, "Content-Length") == 0)
         {
-            content_len = atoi(header->value);
+            num_len = strspn(header->value, "0123456789");
+            errno = 0;
+            num = strtol(header->value, NULL, 10);
+            if ((num_len == 0) || (header->value[num_len] != '\0') || (errno != 0)
+             || (found && (num != (ssize_t)content_len)))
+            {
+                return -EBADMSG;
+            }
+            content_len = num;
+            found = 1;
         }
         header = header->next;
     }
-- 
2.43.0


From 1c2080024ba603c36c6b3a01013a53492cf954ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:31 +0000
Subject: [PATCH 21/53] fix: release the previous start line and body when an
 HTTP message is modified

---
 proxy/common/src/http_msg.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index bd6ba5d..58c65e9 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -589,6 +589,13 @@ ssize_t http_msg_parse(http_msg_t *msg, const char *buf, size_t len)
 
 int http_msg_set_start(http_msg_t *msg, const char *start1, const char *start2, const char *start3)
 {
+    int i = 0;
+
+    for (i = 0; i < HTTP_MSG_NUM_START; i++)
+    {
+        free(msg->start[i]);
+        msg->start[i] = NULL;
+    }
     msg->start[0] = strdup(start1);
     if (msg->start[0] == NULL)
     {
@@ -614,6 +621,8 @@ int http_msg_set_header(http_msg_t *msg, const char *name, const char *value)
 
 int http_msg_set_body(http_msg_t *msg, const char *buf, size_t len)
 {
+    free(msg->body);
+    msg->body_len = 0;
     msg->body = calloc(len + 1, 1);  /* allocate space for a terminating null character */
     if (msg->body == NULL)           /* even if the body carries binary data */
     {
-- 
2.43.0


From 2c0319d048ba79fc09d8b9f08d5c512d41503ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:31 +0000
Subject: [PATCH 22/53] fix: do not write past the end of a full buffer when an
 HTTP message is formatted

---
 proxy/common/src/http_msg.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index 58c65e9..bc4b7ac 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -665,7 +665,7 @@ size_t http_msg_generate(http_msg_t *msg, char *buf, size_t len)
         {
             memcpy(buf + str_len, msg->body, msg->body_len);  /* full copy */
         }
-        else if (str_len < (len - 1))  /* if there is space for one byte not including the '\0' */
+        else if (str_len + 1 < len)  /* if there is space for one byte not including the '\0' */
         {
             memcpy(buf + str_len, msg->body, (len - 1) - str_len);  /* partial copy */
         }
@@ -689,7 +689,14 @@ size_t http_msg_generate_chunk(char *out, size_t out_len, const char *in, size_t
     num += target;
 
     target = in_len;
-    actual = (target <= (out_len - 1)) ? target : (out_len - 1);
+    if (out_len == 0)
+    {
+        actual = 0;
+    }
+    else
+    {
+        actual = (target <= (out_len - 1)) ? target : (out_len - 1);
+    }
     memcpy(out, in, actual);
     out += actual;
     out_len -= actual;
-- 
2.43.0


From 6d1f4d9762a00b194b4061a27ced1d48d5604bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:40 +0000
Subject: [PATCH 23/53] fix: initialise the terminating null character when a
 data buffer is expanded

---
 proxy/common/src/data_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/data_buf.c b/proxy/common/src/data_buf.c
index 8baba87..086816e 100755
--- a/proxy/common/src/data_buf.c
+++ b/proxy/common/src/data_buf.c
@@ -75,7 +75,7 @@ int data_buf_expand(data_buf_t *buf)
         return -ENOMEM;
     }
     memcpy(new_data, buf->data, buf->count);
-    memset(new_data + buf->count, 0, new_size - buf->count);
+    memset(new_data + buf->count, 0, (new_size + 1) - buf->count);
     free(buf->data);
     buf->data = new_data;
     buf->size = new_size;
-- 
2.43.0


From e45cfd38fecea20ab9ebbdaf4958e3543ca203cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:28 +0000
Subject: [PATCH 24/53] fix: do not look for the URI scheme, user-info and port
 beyond the authority

---
 proxy/common/src/uri.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index 48dcba4..fc46e53 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -369,8 +369,8 @@ static int uri_parse_scheme(uri_t *uri, char **q)
         return -EBADMSG;
     }
     p = *q;
-    r = strchr(p, ':');
-    if (r != NULL)
+    r = strpbrk(p, ":/?#");
+    if ((r != NULL) && (*r == ':'))
     {
         *r = '\0';
         len = strlen(p) + 1;
@@ -432,6 +432,14 @@ static int uri_parse_hier_part(uri_t *uri, char **q)
         /* parse authority and path */
 
         p += 2;
+
+        /* separate path from authority */
+        path = strchr(p, '/');
+        if (path != NULL)
+        {
+            *path++ = '\0';
+        }
+
         r = strchr(p, '@');
         if (r != NULL)
         {
@@ -454,20 +462,11 @@ static int uri_parse_hier_part(uri_t *uri, char **q)
             p = r + 1;
         }
 
-        /* check for port and path */
+        /* check for port */
         port = uri_find_port(p);
         if (port != NULL)
         {
             *port++ = '\0';
-            path = strchr(port, '/');
-        }
-        else
-        {
-            path = strchr(p, '/');
-        }
-        if (path != NULL)
-        {
-            *path++ = '\0';
         }
 
         /* parse host */
-- 
2.43.0


From 3b34282c5db1f2f8e50888fcfcbcb5644eb7ceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:28 +0000
Subject: [PATCH 25/53] fix: check the copied host and port when a URI is
 copied

---
 proxy/common/src/uri.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index fc46e53..631cf90 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -747,7 +747,7 @@ int uri_copy(uri_t *dest, uri_t *src)
     if (src->host != NULL)
     {
         dest->host = strdup(src->host);
-        if (dest->scheme == NULL)
+        if (dest->host == NULL)
         {
             uri_destroy(dest);
             return -ENOMEM;
@@ -756,7 +756,7 @@ int uri_copy(uri_t *dest, uri_t *src)
     if (src->port != NULL)
     {
         dest->port = strdup(src->port);
-        if (dest->scheme == NULL)
+        if (dest->port == NULL)
         {
             uri_destroy(dest);
             return -ENOMEM;
-- 
2.43.0


From 352c10470b74955391d63e7a976fa5376a60281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:28 +0000
Subject: [PATCH 26/53] fix: refuse an encoded null character in a URI instead
 of truncating the component

---
 proxy/common/src/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index 631cf90..fcbe82b 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -266,7 +266,7 @@ static ssize_t uri_decode_str(char *dest, const char *src, size_t dest_str_len,
     while (*src != '\0')
     {
         c = uri_decode_octet(&src);
-        if (c == -1)
+        if ((c == -1) || (c == '\0'))  /* an encoded null character would truncate the component */
         {
             return -1;
         }
-- 
2.43.0


From 435ad57b66afca8d5c1286b63f8dfa046f09d169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:28 +0000
Subject: [PATCH 27/53] fix: do not generate URIs whose path is mistaken for an
 authority or a scheme

---
 proxy/common/src/uri.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index fcbe82b..e7e6890 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -1017,7 +1017,8 @@ size_t uri_generate(uri_t *uri, char *buf, size_t len)
         num = uri_encode_str(buf, uri->scheme, num, len, "");
         num = uri_copy_str(buf, ":", num, len);
     }
-    if ((uri->userinfo != NULL) || (uri->host != NULL) || (uri->port != NULL))
+    if ((uri->userinfo != NULL) || (uri->host != NULL) || (uri->port != NULL)
+     || ((uri->path != NULL) && (strncmp(uri->path, "//", 2) == 0)))
     {
         num = uri_copy_str(buf, "//", num, len);
     }
@@ -1047,7 +1048,9 @@ size_t uri_generate(uri_t *uri, char *buf, size_t len)
     }
     if (uri->path != NULL)
     {
-        num = uri_encode_str(buf, uri->path, num, len, "/:@");
+        /* a ':' in a relative path would be mistaken for the end of the scheme */
+        num = uri_encode_str(buf, uri->path, num, len,
+                             ((uri->scheme == NULL) && (uri->path[0] != '/')) ? "/@" : "/:@");
     }
     if (uri->query != NULL)
     {
-- 
2.43.0


From b1eb902cd41c1381ca446a7e34b800018d04b457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:28 +0000
Subject: [PATCH 28/53] fix: do not convert unknown CoAP success codes to HTTP
 error codes

---
 proxy/common/src/cross.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index ab86497..f25467f 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -145,6 +145,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
         case COAP_MSG_CONTENT:
             return http_msg_set_start(http_msg, "HTTP/1.1", "200", "OK");
         }
+        break;
     case COAP_MSG_CLIENT_ERR:
         switch (coap_msg_get_code_detail(coap_msg))
         {
@@ -170,6 +171,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
         case COAP_MSG_UNSUP_CONT_FMT:
             return http_msg_set_start(http_msg, "HTTP/1.1", "415", "Unsupported Media Type");
         }
+        break;
     case COAP_MSG_SERVER_ERR:
         switch (coap_msg_get_code_detail(coap_msg))
         {
@@ -188,6 +190,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
             /* could use 502 Bad Gateway */
             return http_msg_set_start(http_msg, "HTTP/1.1", "501", "Not Implemented");
         }
+        break;
     }
     return -EBADMSG;
 }
-- 
2.43.0


From 38b996eb7fba553cbdf05c56f0b7187f9e0fb4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:28 +0000
Subject: [PATCH 29/53] fix: tell the HTTP client that a response has no body

---
 proxy/common/src/cross.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index f25467f..649173a 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -831,6 +831,16 @@ int cross_resp_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg, const ch
             return ret;
         }
     }
+    else if (strcmp(http_msg_get_start(http_msg, 1), "304") != 0)
+    {
+        /* without a length the HTTP client would wait for a body until the connection is closed */
+        ret = http_msg_set_header(http_msg, "Content-Length", "0");
+        if (ret < 0)
+        {
+            *code = 502;
+            return ret;
+        }
+    }
     *code = 0;
     return 0;
 }
-- 
2.43.0


From ef962ada2e4f5f34b281acf6e05479fee73d3877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:28 +0000
Subject: [PATCH 30/53] fix: do not copy control characters from a CoAP
 entity-tag to a HTTP header

---
 proxy/common/src/cross.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index 649173a..995cf6a 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -598,6 +598,30 @@ static int cross_headers_http_to_coap(coap_msg_t *coap_msg, http_msg_t *http_msg
     return 0;
 }
 
+/**
+ *  @brief Determine if an option value can be represented in a HTTP header
+ *
+ *  @param[in] val Option value
+ *  @param[in] len Length of the option value
+ *
+ *  @returns Comparison value
+ *  @retval 1 Every byte is a printable ASCII character
+ *  @retval 0 There are bytes that are not allowed in a HTTP header
+ */
+static int cross_is_header_value(const char *val, size_t len)
+{
+    size_t i = 0;
+
+    for (i = 0; i < len; i++)
+    {
+        if ((val[i] <= ' ') || (val[i] > '~'))
+        {
+            return 0;
+        }
+    }
+    return 1;
+}
+
 /**
  *  @brief Convert CoAP options to HTTP headers
  *
@@ -648,6 +672,10 @@ static int cross_headers_coap_to_http(coap_msg_t *coap_msg, http_msg_t *http_msg
             switch (coap_msg_op_get_num(op))
             {
             case COAP_MSG_ETAG:
+                if (!cross_is_header_value(tmp, coap_msg_op_get_len(op)))
+                {
+                    break;  /* binary entity-tags cannot be represented in a HTTP header */
+                }
                 ret = http_msg_set_header(http_msg, "Etag", tmp);
                 if (ret < 0)
                 {
-- 
2.43.0


From 9384662e31658e794e53f7ac8d5efc7bfbfeef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:28 +0000
Subject: [PATCH 31/53] fix: report an error when a URI is converted to an
 empty buffer

---
 proxy/common/src/cross.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index 995cf6a..aef125c 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -492,7 +492,7 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
     /* generate URI */
     num = uri_generate(&uri, buf, len);
     uri_destroy(&uri);
-    if (num > len - 1)
+    if (num >= len)
     {
         return -ENOSPC;
     }
-- 
2.43.0


From 6f986f36d2d196d027db38ad88b82f4307307fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:31 +0000
Subject: [PATCH 32/53] fix: do not replace the last byte of a HTTP response
 with a null character

---
 proxy/http_coap/src/connection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index b730fd8..58df002 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -290,7 +290,7 @@ static int connection_send(connection_t *con, http_msg_t *msg)
     while (1)
     {
         len = http_msg_generate(msg, data_buf_get_data(&con->send_buf), data_buf_get_space(&con->send_buf));
-        if (len <= data_buf_get_space(&con->send_buf))
+        if (len < data_buf_get_space(&con->send_buf))  /* http_msg_generate adds a terminating null character */
         {
             break;
         }
-- 
2.43.0


From 282fa90cde4a7e0ae07e6be5ac8778912e3d97c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:31 +0000
Subject: [PATCH 33/53] fix: handle pipelined HTTP requests that have been
 received already

---
 proxy/http_coap/src/connection.c | 84 +++++++++++++++++---------------
 1 file changed, 44 insertions(+), 40 deletions(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 58df002..0c21c4f 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -203,6 +203,50 @@ static int connection_recv(connection_t *con, http_msg_t *msg)
     sd = tls_sock_get_sd(con->sock);
     while (1)
     {
+        /* there may be a complete request in the buffer already */
+        if (data_buf_get_count(&con->recv_buf) > 0)
+        {
+            num = http_msg_parse(msg, data_buf_get_data(&con->recv_buf), data_buf_get_count(&con->recv_buf));
+            if (num > 0)
+            {
+                data_buf_consume(&con->recv_buf, num);
+                coap_log_debug("[%u] <%u> %s Received from HTTP client: %s %s %s",
+                               con->listener_index, con->con_index, con->addr,
+                               http_msg_get_start(msg, 0),
+                               http_msg_get_start(msg, 1),
+                               http_msg_get_start(msg, 2));
+                return 0;  /* success */
+            }
+            else if (num == -EAGAIN)
+            {
+                coap_log_debug("[%u] <%u> %s Received incomplete request message from HTTP client",
+                               con->listener_index, con->con_index, con->addr);
+                if (data_buf_get_space(&con->recv_buf) < CONNECTION_DATA_BUF_MIN_SPACE)
+                {
+                    coap_log_debug("[%u] <%u> %s Increasing size of receive buffer",
+                                   con->listener_index, con->con_index, con->addr);
+                    ret = data_buf_expand(&con->recv_buf);
+                    if (ret == -EINVAL)
+                    {
+                        coap_log_error("[%u] <%u> %s Request message from HTTP client too long",
+                                       con->listener_index, con->con_index, con->addr);
+                        return ret;
+                    }
+                    else if (ret == -ENOMEM)
+                    {
+                        coap_log_error("[%u] <%u> %s Out of memory",
+                                       con->listener_index, con->con_index, con->addr);
+                        return ret;
+                    }
+                }
+            }
+            else
+            {
+                coap_log_error("[%u] <%u> %s Failed to parse request message from HTTP client: %s",
+                               con->listener_index, con->con_index, con->addr, http_msg_strerror(ret));
+                return num;
+            }
+        }
         FD_ZERO(&readfds);
         FD_SET(sd, &readfds);
         errno = 0;
@@ -233,46 +277,6 @@ static int connection_recv(connection_t *con, http_msg_t *msg)
             return CON_RET_CLOSED;
         }
         data_buf_add(&con->recv_buf, num);
-        num = http_msg_parse(msg, data_buf_get_data(&con->recv_buf), data_buf_get_count(&con->recv_buf));
-        if (num > 0)
-        {
-            data_buf_consume(&con->recv_buf, num);
-            coap_log_debug("[%u] <%u> %s Received from HTTP client: %s %s %s",
-                           con->listener_index, con->con_index, con->addr,
-                           http_msg_get_start(msg, 0),
-                           http_msg_get_start(msg, 1),
-                           http_msg_get_start(msg, 2));
-            return 0;  /* success */
-        }
-        else if (num == -EAGAIN)
-        {
-            coap_log_debug("[%u] <%u> %s Received incomplete request message from HTTP client",
-                           con->listener_index, con->con_index, con->addr);
-            if (data_buf_get_space(&con->recv_buf) < CONNECTION_DATA_BUF_MIN_SPACE)
-            {
-                coap_log_debug("[%u] <%u> %s Increasing size of receive buffer",
-                               con->listener_index, con->con_index, con->addr);
-                ret = data_buf_expand(&con->recv_buf);
-                if (ret == -EINVAL)
-                {
-                    coap_log_error("[%u] <%u> %s Request message from HTTP client too long",
-                                   con->listener_index, con->con_index, con->addr);
-                    return ret;
-                }
-                else if (ret == -ENOMEM)
-                {
-                    coap_log_error("[%u] <%u> %s Out of memory",
-                                   con->listener_index, con->con_index, con->addr);
-                    return ret;
-                }
-            }
-        }
-        else
-        {
-            coap_log_error("[%u] <%u> %s Failed to parse request message from HTTP client: %s",
-                           con->listener_index, con->con_index, con->addr, http_msg_strerror(ret));
-            return num;
-        }
     }
     return 0;
 }
-- 
2.43.0


From 11430335c06ca9fe8c5379023301db76dec3bd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:31 +0000
Subject: [PATCH 34/53] fix: do not wait for a HTTP request that has been
 received and decrypted already

---
 proxy/common/include/tls_sock.h  |  1 +
 proxy/http_coap/src/connection.c | 32 ++++++++++++++++++--------------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/proxy/common/include/tls_sock.h b/proxy/common/include/tls_sock.h
index ea004df..bbbb432 100755
--- a/proxy/common/include/tls_sock.h
+++ b/proxy/common/include/tls_sock.h
@@ -48,6 +48,7 @@
 #define tls_sock_get_addr_string(s, out, out_len)    (tls_sock_get_addr_string_(out, out_len, (s)->sin.SOCK_SIN_ADDR))
 #define tls_sock_get_timeout(s)                      ((s)->timeout)
 #define tls_sock_get_session(s)                      ((s)->session)
+#define tls_sock_get_pending(s)                      (gnutls_record_check_pending((s)->session))
 #define tls_sock_is_resumed(s)                       (gnutls_session_is_resumed((s)->session))
 
 #define tls_ssoct_get_sd(ss)                         ((ss)->sd)
diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 0c21c4f..f645d56 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -247,21 +247,25 @@ static int connection_recv(connection_t *con, http_msg_t *msg)
                 return num;
             }
         }
-        FD_ZERO(&readfds);
-        FD_SET(sd, &readfds);
-        errno = 0;
-        ret = select(sd + 1, &readfds, NULL, NULL, &tv);
-        if (ret == 0)
+        /* data from a record that has been partly read is not visible to select */
+        if (tls_sock_get_pending(con->sock) == 0)
         {
-            coap_log_info("[%u] <%u> %s Timed out waiting to read from socket connected to HTTP client",
-                          con->listener_index, con->con_index, con->addr);
-            return CON_RET_TIMEDOUT;
-        }
-        else if (ret == -1)
-        {
-            coap_log_error("[%u] <%u> %s Call to select returned: -1, errno: %d (%s)",
-                           con->listener_index, con->con_index, con->addr, errno, strerror(errno));
-            return -errno;
+            FD_ZERO(&readfds);
+            FD_SET(sd, &readfds);
+            errno = 0;
+            ret = select(sd + 1, &readfds, NULL, NULL, &tv);
+            if (ret == 0)
+            {
+                coap_log_info("[%u] <%u> %s Timed out waiting to read from socket connected to HTTP client",
+                              con->listener_index, con->con_index, con->addr);
+                return CON_RET_TIMEDOUT;
+            }
+            else if (ret == -1)
+            {
+                coap_log_error("[%u] <%u> %s Call to select returned: -1, errno: %d (%s)",
+                               con->listener_index, con->con_index, con->addr, errno, strerror(errno));
+                return -errno;
+            }
         }
         num = tls_sock_read(con->sock, data_buf_get_next(&con->recv_buf), data_buf_get_space(&con->recv_buf));
         if (num < 0)
-- 
2.43.0


From d1bf2aac0c66b6d96d50fb58bc4676e26d2306d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:31 +0000
Subject: [PATCH 35/53] fix: tell the HTTP client that an error response has no
 body

---
 proxy/http_coap/src/connection.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index f645d56..2659601 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -348,6 +348,7 @@ static int connection_gen_error_resp(connection_t *con, http_msg_t *msg, unsigne
     char int_buf[CONNECTION_INT_BUF_LEN] = {0};
     int ret = 0;
 
+    http_msg_reset(msg);
     snprintf(int_buf, sizeof(int_buf), "%u", code);
     str = cross_http_resp_code_to_str(code);
     ret = http_msg_set_start(msg, "HTTP/1.1", int_buf, str);
@@ -357,6 +358,14 @@ static int connection_gen_error_resp(connection_t *con, http_msg_t *msg, unsigne
                        con->listener_index, con->con_index, con->addr, http_msg_strerror(ret));
         return ret;
     }
+    /* without a length the HTTP client would wait for a body until the connection is closed */
+    ret = http_msg_set_header(msg, "Content-Length", "0");
+    if (ret < 0)
+    {
+        coap_log_error("[%u] <%u> %s Failed to set header in response message to HTTP client: %s",
+                       con->listener_index, con->con_index, con->addr, http_msg_strerror(ret));
+        return ret;
+    }
     return 0;
 }
 
-- 
2.43.0


From 0f6a3806ebb6fab6f0483fce2ad9735df036da14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:31 +0000
Subject: [PATCH 36/53] fix: forward HTTP DELETE requests to the CoAP server

---
 proxy/http_coap/src/connection.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 2659601..adfccc6 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -528,6 +528,19 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
             con->body_end = num;
         }
     }
+    else
+    {
+        /* execute regular exchange */
+        con->body_end = 0;
+        coap_log_info("[%u] <%u> %s Sending DELETE request to CoAP server host %s and port %s",
+                      con->listener_index, con->con_index, con->addr,
+                      con->coap_client_host, con->coap_client_port);
+        ret = coap_client_exchange(&con->coap_client, req_msg, resp_msg);
+        if (ret < 0)
+        {
+            return ret;
+        }
+    }
     return 0;
 }
 
-- 
2.43.0


From f3142efa9c8d5a655b107e49f37ea73c43dc3504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:31 +0000
Subject: [PATCH 37/53] fix: do not return the body of a GET request as the
 body of the response

---
 proxy/http_coap/src/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index adfccc6..1d42556 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -385,6 +385,7 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
     if (coap_msg_get_code_detail(req_msg) == COAP_MSG_GET)
     {
         /* execute regular exchange */
+        con->body_end = 0;  /* a request body that is too long for the payload is not forwarded */
         coap_log_info("[%u] <%u> %s Sending GET request to CoAP server host %s and port %s",
                       con->listener_index, con->con_index, con->addr,
                       con->coap_client_host, con->coap_client_port);
-- 
2.43.0


From 2ef911ea82ae8971c153ad535215753d2a480c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:31 +0000
Subject: [PATCH 38/53] fix: do not crash when the URI in a HTTP request has no
 host or no port

---
 proxy/http_coap/src/connection.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 1d42556..0338261 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -53,6 +53,8 @@
 #define CONNECTION_BODY_LEN            8192
 #define CONNECTION_COAP_BLOCK1_SIZE    32
 #define CONNECTION_COAP_BLOCK2_SIZE    32
+#define CONNECTION_COAP_PORT           "5683"
+#define CONNECTION_COAPS_PORT          "5684"
 
 typedef enum
 {
@@ -575,6 +577,24 @@ static int connection_process(connection_t *con, http_msg_t *req_msg, http_msg_t
         coap_msg_destroy(&coap_req_msg);
         return ret;
     }
+    if (uri_get_host(&uri) == NULL)
+    {
+        coap_log_error("[%u] <%u> %s No host in request URI in request message from HTTP client",
+                       con->listener_index, con->con_index, con->addr);
+        uri_destroy(&uri);
+        coap_msg_destroy(&coap_req_msg);
+        return connection_gen_error_resp(con, resp_msg, 400);
+    }
+    if ((uri_get_port(&uri) == NULL) || (*uri_get_port(&uri) == '\0'))
+    {
+        ret = uri_set_port(&uri, (strcasecmp(uri_get_scheme(&uri), "coap") == 0) ? CONNECTION_COAP_PORT : CONNECTION_COAPS_PORT);
+        if (ret < 0)
+        {
+            uri_destroy(&uri);
+            coap_msg_destroy(&coap_req_msg);
+            return ret;
+        }
+    }
     if (!con->coap_client_active)
     {
         /* first exchange with a CoAP server */
-- 
2.43.0


From b3b9e168dbf1d4f371874273d7863eebebdefcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:31 +0000
Subject: [PATCH 39/53] fix: answer a HTTP request when the CoAP server cannot
 be reached

---
 proxy/http_coap/src/connection.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 0338261..38828bf 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -603,7 +603,7 @@ static int connection_process(connection_t *con, http_msg_t *req_msg, http_msg_t
         {
             uri_destroy(&uri);
             coap_msg_destroy(&coap_req_msg);
-            return ret;
+            return connection_gen_error_resp(con, resp_msg, (ret == -ETIMEDOUT) ? 504 : 502);
         }
     }
     else if ((strcasecmp(uri_get_host(&uri), con->coap_client_host) != 0)
@@ -616,7 +616,7 @@ static int connection_process(connection_t *con, http_msg_t *req_msg, http_msg_t
         {
             uri_destroy(&uri);
             coap_msg_destroy(&coap_req_msg);
-            return ret;
+            return connection_gen_error_resp(con, resp_msg, (ret == -ETIMEDOUT) ? 504 : 502);
         }
     }
     else
-- 
2.43.0


From 4e9ff749cb472c593c9490170b6a8da14211915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:50 +0000
Subject: [PATCH 40/53] fix: do not return the first block of a CoAP response
 as the whole response

---
 proxy/http_coap/src/connection.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 38828bf..fc4d7b6 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -544,6 +544,15 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
             return ret;
         }
     }
+    if (con->body_end == 0)
+    {
+        /* the first block of a response is not the whole response */
+        ret = coap_msg_parse_block_op(&block_num, &block_more, &block_size, resp_msg, COAP_MSG_BLOCK2);
+        if ((ret < 0) || ((ret == 0) && (block_more)))
+        {
+            return -EBADMSG;
+        }
+    }
     return 0;
 }
 
-- 
2.43.0


From 620d5d59c64400d0334afc1763926cbf02db356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:39 +0000
Subject: [PATCH 41/53] fix: do not percent-decode the values of CoAP URI
 options

---
 proxy/common/src/cross.c | 85 ++++++++++++++++++++++++++++++++--------
 1 file changed, 69 insertions(+), 16 deletions(-)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index aef125c..3fcc7a6 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -360,6 +360,53 @@ int cross_uri_http_to_coap(coap_msg_t *coap_msg, const char *http_uri)
     return 0;
 }
 
+/**
+ *  @brief Copy the value of a URI option to a string
+ *
+ *  The fields of a URI structure are set from percent-encoded
+ *  strings but the values of URI options are not percent-encoded.
+ *
+ *  @param[out] buf Buffer to hold the string
+ *  @param[in] len Length of the buffer
+ *  @param[in] op Pointer to an option
+ *
+ *  @returns Length of the string or error code
+ *  @retval >=0 Length of the string
+ *  @retval <0 Error
+ */
+static ssize_t cross_copy_uri_op_val(char *buf, size_t len, coap_msg_op_t *op)
+{
+    const char *val = coap_msg_op_get_val(op);
+    unsigned i = 0;
+    size_t num = 0;
+
+    for (i = 0; i < coap_msg_op_get_len(op); i++)
+    {
+        if (val[i] == '\0')
+        {
+            return -EBADMSG;
+        }
+        if (num + 3 >= len)
+        {
+            if ((val[i] == '%') || (num + 1 >= len))
+            {
+                return -ENOSPC;
+            }
+        }
+        if (val[i] == '%')
+        {
+            memcpy(buf + num, "%25", 3);
+            num += 3;
+        }
+        else
+        {
+            buf[num++] = val[i];
+        }
+    }
+    buf[num] = '\0';
+    return num;
+}
+
 int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
 {
     coap_msg_op_t *op = NULL;
@@ -384,13 +431,12 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
     {
         if (coap_msg_op_get_num(op) == COAP_MSG_URI_HOST)
         {
-            if (coap_msg_op_get_len(op) >= sizeof(tmp))
+            ret = cross_copy_uri_op_val(tmp, sizeof(tmp), op);
+            if (ret < 0)
             {
                 uri_destroy(&uri);
-                return -ENOSPC;
+                return ret;
             }
-            memcpy(tmp, coap_msg_op_get_val(op), coap_msg_op_get_len(op));
-            tmp[coap_msg_op_get_len(op)] = '\0';
             ret = uri_set_host(&uri, tmp);
             if (ret < 0)
             {
@@ -408,13 +454,12 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
     {
         if (coap_msg_op_get_num(op) == COAP_MSG_URI_PORT)
         {
-            if (coap_msg_op_get_len(op) > sizeof(tmp) - 1)  /* -1 for the terminating '\0' */
+            ret = cross_copy_uri_op_val(tmp, sizeof(tmp), op);
+            if (ret < 0)
             {
                 uri_destroy(&uri);
-                return -ENOSPC;
+                return ret;
             }
-            memcpy(tmp, coap_msg_op_get_val(op), coap_msg_op_get_len(op));
-            tmp[coap_msg_op_get_len(op)] = '\0';
             ret = uri_set_port(&uri, tmp);
             if (ret < 0)
             {
@@ -433,15 +478,19 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
     {
         if (coap_msg_op_get_num(op) == COAP_MSG_URI_PATH)
         {
-            if (coap_msg_op_get_len(op) + 1 > sizeof(tmp) - 1 - num)  /* +1 for the leading '/' */
+            if (num + 2 > sizeof(tmp))  /* +2 for the leading '/' and the terminating '\0' */
             {
                 uri_destroy(&uri);
                 return -ENOSPC;
             }
             tmp[num++] = '/';
-            memcpy(tmp + num, coap_msg_op_get_val(op), coap_msg_op_get_len(op));
-            num += coap_msg_op_get_len(op);
-            tmp[num] = '\0';
+            ret = cross_copy_uri_op_val(tmp + num, sizeof(tmp) - num, op);
+            if (ret < 0)
+            {
+                uri_destroy(&uri);
+                return ret;
+            }
+            num += ret;
         }
         op = coap_msg_op_get_next(op);
     }
@@ -464,7 +513,7 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
     {
         if (coap_msg_op_get_num(op) == COAP_MSG_URI_QUERY)
         {
-            if (coap_msg_op_get_len(op) + 1 > sizeof(tmp) - 1 - num)  /* +1 for the leading '&' */
+            if (num + 2 > sizeof(tmp))  /* +2 for the leading '&' and the terminating '\0' */
             {
                 uri_destroy(&uri);
                 return -ENOSPC;
@@ -473,9 +522,13 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
             {
                 tmp[num++] = '&';
             }
-            memcpy(tmp + num, coap_msg_op_get_val(op), coap_msg_op_get_len(op));
-            num += coap_msg_op_get_len(op);
-            tmp[num] = '\0';
+            ret = cross_copy_uri_op_val(tmp + num, sizeof(tmp) - num, op);
+            if (ret < 0)
+            {
+                uri_destroy(&uri);
+                return ret;
+            }
+            num += ret;
         }
         op = coap_msg_op_get_next(op);
     }
-- 
2.43.0


From f1e9db8c365d07863e29d26ceaf0515cbd4cdcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:46 +0000
Subject: [PATCH 42/53] fix: do not read past the end of a configuration that
 does not end with a newline

---
 proxy/common/src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/config.c b/proxy/common/src/config.c
index d5fe226..5b28e47 100755
--- a/proxy/common/src/config.c
+++ b/proxy/common/src/config.c
@@ -270,7 +270,7 @@ static int config_parser_next(config_parser_t *p)
 
     p->prev_line = p->line;
     p->prev_col = p->col;
-    if (p->in_idx == p->in_len)
+    if (p->in_idx >= p->in_len)
     {
         c = '\0';
     }
-- 
2.43.0


From 62327887b635ddcf5492b3ead544bed6bc1fd445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:46 +0000
Subject: [PATCH 43/53] fix: keep the old value of a configuration entry until
 the new one has been copied

---
 proxy/common/src/config.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/proxy/common/src/config.c b/proxy/common/src/config.c
index 5b28e47..a38fbf4 100755
--- a/proxy/common/src/config.c
+++ b/proxy/common/src/config.c
@@ -896,6 +896,7 @@ int config_set(config_t *config, const char *section_name, const char *entry_nam
 {
     config_section_t *section = NULL;
     config_entry_t *entry = NULL;
+    char *value = NULL;
     int ret = 0;
 
     section = config_find_section(config, section_name);
@@ -911,12 +912,13 @@ int config_set(config_t *config, const char *section_name, const char *entry_nam
     if (entry != NULL)
     {
         /* replace existing value */
-        free(entry->value);
-        entry->value = strdup(entry_value);
-        if (entry->value == NULL)
+        value = strdup(entry_value);
+        if (value == NULL)
         {
             return CONFIG_ENOMEM;
         }
+        free(entry->value);
+        entry->value = value;
     }
     else
     {
-- 
2.43.0


From 12b40515c62fa1b48ace665ac4b0ef4dc45082d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:31 +0000
Subject: [PATCH 44/53] fix: protect the memory allocators against concurrent
 use by the proxy's threads

---
 lib/include/coap_mem.h |  2 ++
 lib/src/coap_mem.c     | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/lib/include/coap_mem.h b/lib/include/coap_mem.h
index 59294b8..8bf2e6e 100755
--- a/lib/include/coap_mem.h
+++ b/lib/include/coap_mem.h
@@ -35,6 +35,7 @@
 #define COAP_MEM_H
 
 #include <stddef.h>
+#include <pthread.h>
 
 #define coap_mem_get_buf(mem)         ((mem)->buf)                              /**< Get the array of buffers in a memory allocator */
 #define coap_mem_get_num(mem)         ((mem)->num)                              /**< Get the number of buffers in a memory allocator */
@@ -51,6 +52,7 @@ typedef struct
     size_t num;                                                                 /**< Number of buffers */
     size_t len;                                                                 /**< Length of each buffer */
     char *active;                                                               /**< Bitset marking active buffers */
+    pthread_mutex_t lock;                                                       /**< Lock to allow buffers to be allocated and freed by multiple threads */
 }
 coap_mem_t;
 
diff --git a/lib/src/coap_mem.c b/lib/src/coap_mem.c
index 41509ec..20acb40 100755
--- a/lib/src/coap_mem.c
+++ b/lib/src/coap_mem.c
@@ -38,6 +38,8 @@
 
 int coap_mem_create(coap_mem_t *mem, size_t num, size_t len)
 {
+    int ret = 0;
+
     memset(mem, 0, sizeof(coap_mem_t));
     if (((num & 0x7) != 0) || (len == 0))
     {
@@ -57,11 +59,23 @@ int coap_mem_create(coap_mem_t *mem, size_t num, size_t len)
         memset(mem, 0, sizeof(coap_mem_t));
         return -ENOMEM;
     }
+    ret = pthread_mutex_init(&mem->lock, NULL);
+    if (ret != 0)
+    {
+        free(mem->active);
+        free(mem->buf);
+        memset(mem, 0, sizeof(coap_mem_t));
+        return -ret;
+    }
     return 0;
 }
 
 void coap_mem_destroy(coap_mem_t *mem)
 {
+    if (mem->buf != NULL)
+    {
+        pthread_mutex_destroy(&mem->lock);
+    }
     free(mem->active);
     free(mem->buf);
     memset(mem, 0, sizeof(coap_mem_t));
@@ -78,6 +92,7 @@ void *coap_mem_alloc(coap_mem_t *mem, size_t len)
     {
         return NULL;
     }
+    pthread_mutex_lock(&mem->lock);
     for (byte = 0; byte < coap_mem_get_active_len(mem); byte++)
     {
         for (bit = 0; bit < 8; bit++)
@@ -87,10 +102,12 @@ void *coap_mem_alloc(coap_mem_t *mem, size_t len)
             {
                 mem->active[byte] |= mask;
                 mem_buf = &mem->buf[(8 * byte + bit) * mem->len];
+                pthread_mutex_unlock(&mem->lock);
                 return mem_buf;
             }
         }
     }
+    pthread_mutex_unlock(&mem->lock);
     return NULL;
 }
 
@@ -101,6 +118,7 @@ void coap_mem_free(coap_mem_t *mem, void *buf)
     size_t bit = 0;
     void *mem_buf = NULL;
 
+    pthread_mutex_lock(&mem->lock);
     for (byte = 0; byte < coap_mem_get_active_len(mem); byte++)
     {
         for (bit = 0; bit < 8; bit++)
@@ -113,6 +131,7 @@ void coap_mem_free(coap_mem_t *mem, void *buf)
             }
         }
     }
+    pthread_mutex_unlock(&mem->lock);
 }
 
 /**
-- 
2.43.0


From 5aa52af52dffa1c66c30a400d79daaf8aad3b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:46 +0000
Subject: [PATCH 45/53] fix: do not use cached TLS session data that another
 thread may overwrite

---
 proxy/common/src/tls.c      | 9 +++++++--
 proxy/common/src/tls_sock.c | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/tls.c b/proxy/common/src/tls.c
index 19ec24c..d8b1d8e 100755
--- a/proxy/common/src/tls.c
+++ b/proxy/common/src/tls.c
@@ -133,6 +133,7 @@ static int tls_client_cache_set(tls_client_cache_t *cache, char *addr, gnutls_da
     return SOCK_OK;
 }
 
+/* the data in the return value must be freed by the calling function */
 static gnutls_datum_t tls_client_cache_get(tls_client_cache_t *cache, char *addr)
 {
     gnutls_datum_t res = {0};
@@ -142,8 +143,12 @@ static gnutls_datum_t tls_client_cache_get(tls_client_cache_t *cache, char *addr
     {
         if (strcmp(addr, cache->element[i].addr) == 0)
         {
-            res.data = cache->element[i].session_data;
-            res.size = cache->element[i].session_data_size;
+            res.data = (unsigned char *)gnutls_malloc(cache->element[i].session_data_size);
+            if (res.data != NULL)
+            {
+                res.size = cache->element[i].session_data_size;
+                memcpy(res.data, cache->element[i].session_data, res.size);
+            }
             break;
         }
     }
diff --git a/proxy/common/src/tls_sock.c b/proxy/common/src/tls_sock.c
index 7b8cfd8..b3255ea 100755
--- a/proxy/common/src/tls_sock.c
+++ b/proxy/common/src/tls_sock.c
@@ -193,6 +193,7 @@ int tls_sock_open_(tls_sock_t *s, const char *common_name, int timeout)
         if (data.size != 0)
         {
             ret = gnutls_session_set_data(s->session, data.data, data.size);
+            gnutls_free(data.data);
             if (ret != GNUTLS_E_SUCCESS)
             {
                 gnutls_deinit(s->session);
-- 
2.43.0


From bdd915a4f06b62136bdb1785ceabf5834c0e7618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:46 +0000
Subject: [PATCH 46/53] fix: do not return a null pointer as TLS session data
 when out of memory

---
 proxy/common/src/tls.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/tls.c b/proxy/common/src/tls.c
index d8b1d8e..9b06f98 100755
--- a/proxy/common/src/tls.c
+++ b/proxy/common/src/tls.c
@@ -347,10 +347,10 @@ static gnutls_datum_t tls_server_cache_get(tls_server_cache_t *cache, gnutls_dat
         if ((key.size == cache->element[i].session_id_size)
          && (memcmp(key.data, cache->element[i].session_id, key.size) == 0))
         {
-            res.size = cache->element[i].session_data_size;
-            res.data = (unsigned char *)gnutls_malloc(res.size);
+            res.data = (unsigned char *)gnutls_malloc(cache->element[i].session_data_size);
             if (res.data != NULL)
             {
+                res.size = cache->element[i].session_data_size;
                 memcpy(res.data, cache->element[i].session_data, res.size);
             }
             break;
-- 
2.43.0


From 436fcc33eaa7092cfbae4387ec47ec37ba051823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:38 +0000
Subject: [PATCH 47/53] fix: replace the cached TLS session data of a session
 that is stored again

---
 proxy/common/src/tls.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/proxy/common/src/tls.c b/proxy/common/src/tls.c
index 9b06f98..003612c 100755
--- a/proxy/common/src/tls.c
+++ b/proxy/common/src/tls.c
@@ -317,19 +317,34 @@ static void tls_server_cache_destroy(tls_server_cache_t *cache)
 
 static int tls_server_cache_set(tls_server_cache_t *cache, gnutls_datum_t key, gnutls_datum_t data)
 {
+    unsigned i = 0;
+    int found = 0;
+
     if ((key.size > TLS_SERVER_MAX_SESSION_ID_SIZE) || (data.size > TLS_SERVER_MAX_SESSION_DATA_SIZE))
     {
         return SOCK_TLS_CACHE_ERROR;
     }
 
-    memcpy(cache->element[cache->index].session_id, key.data, key.size);
-    cache->element[cache->index].session_id_size = key.size;
+    for (i = 0; i < cache->size; i++)
+    {
+        if ((key.size == cache->element[i].session_id_size)
+         && (memcmp(key.data, cache->element[i].session_id, key.size) == 0))
+        {
+            found = 1;
+            break;
+        }
+    }
+    if (!found)
+    {
+        i = cache->index++;
+        cache->index %= cache->size;
+    }
 
-    memcpy(cache->element[cache->index].session_data, data.data, data.size);
-    cache->element[cache->index].session_data_size = data.size;
+    memcpy(cache->element[i].session_id, key.data, key.size);
+    cache->element[i].session_id_size = key.size;
 
-    cache->index++;
-    cache->index %= cache->size;
+    memcpy(cache->element[i].session_data, data.data, data.size);
+    cache->element[i].session_data_size = data.size;
 
     return SOCK_OK;
 }
-- 
2.43.0


From 2c68e25c5c2142e7fb931e547acd174ee8a3b64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:01 +0000
Subject: [PATCH 48/53] fix: do not process the beginning of a DTLS message
 that does not fit in the buffer

---
 lib/src/coap_client.c | 14 ++++++++++++++
 lib/src/coap_server.c | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index d7427c3..704af26 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -902,6 +902,7 @@ static ssize_t coap_client_recv(coap_client_t *client, coap_msg_t *msg)
 #ifdef COAP_DTLS_EN
     gnutls_alert_description_t alert = 0;
     const char *alert_name = NULL;
+    char rest[COAP_MSG_MAX_BUF_LEN] = {0};
 #endif
     ssize_t num = 0;
     ssize_t ret = 0;
@@ -937,6 +938,19 @@ static ssize_t coap_client_recv(coap_client_t *client, coap_msg_t *msg)
         coap_log_error("Failed to receive from server: %s", gnutls_strerror_name(num));
         return -1;
     }
+    if (gnutls_record_check_pending(client->session) > 0)
+    {
+        /* the message does not fit in the buffer, discard the end of it */
+        while (gnutls_record_check_pending(client->session) > 0)
+        {
+            if (gnutls_record_recv(client->session, rest, sizeof(rest)) <= 0)
+            {
+                break;
+            }
+        }
+        coap_client_handle_format_error(client, buf, num);
+        return -EBADMSG;
+    }
 #else
     num = recv(client->sd, buf, sizeof(buf), MSG_TRUNC);
     if (num < 0)
diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 4a5f176..4ca046c 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -1028,6 +1028,7 @@ static ssize_t coap_server_trans_recv(coap_server_trans_t *trans, coap_msg_t *ms
 #ifdef COAP_DTLS_EN
     gnutls_alert_description_t alert = 0;
     const char *alert_name = NULL;
+    char rest[COAP_MSG_MAX_BUF_LEN] = {0};
 #else
     coap_ipv_sockaddr_in_t client_sin = {0};
     coap_server_t *server = NULL;
@@ -1067,6 +1068,19 @@ static ssize_t coap_server_trans_recv(coap_server_trans_t *trans, coap_msg_t *ms
         coap_log_error("Failed to receive from client: %s", gnutls_strerror_name(num));
         return -1;
     }
+    if (gnutls_record_check_pending(trans->session) > 0)
+    {
+        /* the message does not fit in the buffer, discard the end of it */
+        while (gnutls_record_check_pending(trans->session) > 0)
+        {
+            if (gnutls_record_recv(trans->session, rest, sizeof(rest)) <= 0)
+            {
+                break;
+            }
+        }
+        coap_server_trans_handle_format_error(trans, buf, num);
+        return -EBADMSG;
+    }
 #else
     server = trans->server;
     client_sin_len = sizeof(client_sin);
-- 
2.43.0


From 4d60b815335c71df5a03a48c31b40add167af843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:51 +0000
Subject: [PATCH 49/53] fix: do not stop listening when a connection cannot be
 served

---
 proxy/http_coap/src/listener.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/proxy/http_coap/src/listener.c b/proxy/http_coap/src/listener.c
index 119c623..2f87109 100755
--- a/proxy/http_coap/src/listener.c
+++ b/proxy/http_coap/src/listener.c
@@ -32,6 +32,7 @@
  */
 
 #include <stdlib.h>
+#include <unistd.h>
 #include "listener.h"
 #include "connection.h"
 #include "sock.h"
@@ -58,7 +59,8 @@ static void *listener_thread_func(void *data)
         if (sock == NULL)
         {
             coap_log_error("Out of memory");
-            break;
+            sleep(1);
+            continue;
         }
 
         ret = tls_ssock_accept(&listener->ssock, sock);
@@ -78,7 +80,7 @@ static void *listener_thread_func(void *data)
             coap_log_error("Unable to create connection data");
             tls_sock_close(sock);
             free(sock);
-            break;
+            continue;
         }
 
         ret = thread_init(&thread, &listener->ctx, connection_thread_func, con);
@@ -86,7 +88,7 @@ static void *listener_thread_func(void *data)
         {
             coap_log_error("Unable to create connection thread");
             connection_delete(con);
-            break;
+            continue;
         }
     }
     coap_log_notice("[%u] Stopped listening on port %s", listener->index, param_get_port(listener->param));
-- 
2.43.0


From 9f392ded2f1a58cf32486052ec40e4147b3036f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:51 +0000
Subject: [PATCH 50/53] fix: refuse a memory pool whose size overflows

---
 lib/src/coap_mem.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/coap_mem.c b/lib/src/coap_mem.c
index 20acb40..0c23741 100755
--- a/lib/src/coap_mem.c
+++ b/lib/src/coap_mem.c
@@ -31,6 +31,7 @@
  *  @brief Source file for the FreeCoAP memory allocator
  */
 
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 #include <errno.h>
@@ -45,6 +46,10 @@ int coap_mem_create(coap_mem_t *mem, size_t num, size_t len)
     {
         return -EINVAL;
     }
+    if ((num != 0) && (len > SIZE_MAX / num))
+    {
+        return -ENOMEM;
+    }
     mem->buf = (char *)malloc(num * len);
     if (mem->buf == NULL)
     {
-- 
2.43.0


From 92a6da7ec54da2e92f983b0d9105d6235cb5f6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:28 +0000
Subject: [PATCH 51/53] fix: unlink a removed client from its neighbours in the
 registrar

---
 sample/reg_server/registrar.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sample/reg_server/registrar.c b/sample/reg_server/registrar.c
index 1c918ee..a246474 100755
--- a/sample/reg_server/registrar.c
+++ b/sample/reg_server/registrar.c
@@ -128,16 +128,24 @@ int registrar_add(registrar_t *registrar, const char *id, const char *addr)
 int registrar_del(registrar_t *registrar, const char *id)
 {
     registrar_entry_t *entry = NULL;
+    registrar_entry_t *prev = NULL;
+    registrar_entry_t *next = NULL;
 
     entry = registrar_find(registrar, id);
     if (entry == NULL)
     {
         return -EINVAL;
     }
-    if (registrar->first == entry)
-        registrar->first = registrar_entry_get_next(registrar->first);
-    if (registrar->last == entry)
-        registrar->last = registrar_entry_get_prev(registrar->last);
+    prev = registrar_entry_get_prev(entry);
+    next = registrar_entry_get_next(entry);
+    if (prev != NULL)
+        registrar_entry_set_next(prev, next);
+    else
+        registrar->first = next;
+    if (next != NULL)
+        registrar_entry_set_prev(next, prev);
+    else
+        registrar->last = prev;
     registrar_entry_delete(entry);
     return 0;
 }
-- 
2.43.0


From e513fc609a6f5ea953da78a82fc1e74e1446e572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:21 +0000
Subject: [PATCH 52/53] fix: do not report success when a transferred file
 could not be written

---
 sample/transfer_server/transfer_server.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sample/transfer_server/transfer_server.c b/sample/transfer_server/transfer_server.c
index 4989c3a..3e6d475 100755
--- a/sample/transfer_server/transfer_server.c
+++ b/sample/transfer_server/transfer_server.c
@@ -68,7 +68,12 @@ static int transfer_server_handle_rx(coap_server_trans_t *trans, coap_msg_t *req
         coap_log_warn("%s", strerror(-num));
         return coap_msg_set_code(resp, COAP_MSG_SERVER_ERR, COAP_MSG_INT_SERVER_ERR);
     }
-    fclose(file);
+    if (fclose(file) != 0)
+    {
+        num = -EIO;
+        coap_log_warn("%s", strerror(-num));
+        return coap_msg_set_code(resp, COAP_MSG_SERVER_ERR, COAP_MSG_INT_SERVER_ERR);
+    }
     coap_log_info("Saved %zu bytes to '%s'",
                   coap_server_trans_get_body_end(trans),
                   TRANSFER_SERVER_FILENAME);
-- 
2.43.0


From b029d9a437d2d0a254102e573f98289201dd6b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:21 +0000
Subject: [PATCH 53/53] fix: report the failure of a transfer and release the
 messages of a successful one

---
 sample/transfer_client/transfer_client.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sample/transfer_client/transfer_client.c b/sample/transfer_client/transfer_client.c
index 9295eed..cee5b0c 100755
--- a/sample/transfer_client/transfer_client.c
+++ b/sample/transfer_client/transfer_client.c
@@ -229,16 +229,18 @@ int transfer_client_execute(transfer_client_t *client, const char *filename)
         if (num != -1)
         {
             /* a return value of -1 indicates a DTLS failure which has already been logged */
-            coap_log_error("%s", strerror(-ret));
+            coap_log_error("%s", strerror(-num));
         }
         coap_msg_destroy(&resp);
         coap_msg_destroy(&req);
         free(file_buf);
-        return ret;
+        return num;
     }
     free(file_buf);
     coap_log_info("Transfer response: %u.%u",
                   coap_msg_get_code_class(&resp),
                   coap_msg_get_code_detail(&resp));
+    coap_msg_destroy(&resp);
+    coap_msg_destroy(&req);
     return 0;
 }
-- 
2.43.0


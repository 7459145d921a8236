From 729f595d78d3635e900b96c2713d7463b96d51bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 01/42] fix: circ_buf_alloc() wraps stop_ind after an exact fit

---
 circular_buffer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/circular_buffer.c b/circular_buffer.c
index ad0585a..476a3e2 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -78,6 +78,11 @@ int circ_buf_alloc(circ_buf_t* circ_buf,
         *segment2 = 0;
         *segment2_len = 0;
         circ_buf->stop_ind += len;
+
+        // An exact fit wraps stop_ind back to the start of the buffer.
+        if (circ_buf->stop_ind == buf_size)
+            circ_buf->stop_ind = 0;
+
         return 0;
     }
 
-- 
2.43.0


From 1d95d9f71e548286995df889a18b30a5d4559e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 02/42] fix: circ_buf_trim() computes the new end correctly
 when the data wraps

---
 circular_buffer.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index 476a3e2..f684498 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -124,12 +124,8 @@ void circ_buf_trim(circ_buf_t* circ_buf, uint32_t target_len)
     // Data:       A  B  -  -  -
     // Start/stop  S  s
     //
-    if (circ_buf->stop_ind > target_len) {
-        circ_buf->stop_ind -= in_use - target_len;
-        return;
-    }
-
-    // We need to wrap stop_ind back to the end of the buffer.
+    // If the data wraps we may need to move stop_ind back to the end of
+    // the buffer.
     //
     // target_len: 1
     // Before
-- 
2.43.0


From 29aa7f8ad999c099511c605a9dbd719495afb8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 03/42] fix: circ_buf_read_offset() reads the wrapped part from
 the start of the buffer

---
 circular_buffer.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index f684498..f94485d 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -237,14 +237,10 @@ int circ_buf_read_offset(circ_buf_t* circ_buf,
     // 0 to either stop_ind (last data byte) or the number of bytes left
     // wanted by the caller, whichever is smaller.
     len -= segment_len;
-    if (offset > segment_len)
-        offset -= segment_len;
-    else
-        offset = 0;
 
     segment_len = RMC_MIN(len, circ_buf->stop_ind);
 
-    memcpy(target + copied_bytes, circ_buf->buffer + offset, segment_len);
+    memcpy(target + copied_bytes, circ_buf->buffer, segment_len);
 
     copied_bytes += segment_len;
 
-- 
2.43.0


From ddfa3efc3c6b0211220098b87ceb08d24b7e1599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 04/42] fix: rmc_sub_write_control_message() copies the wrapped
 part from the payload

---
 rmc_sub_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_write.c b/rmc_sub_write.c
index a89713f..dfc1713 100644
--- a/rmc_sub_write.c
+++ b/rmc_sub_write.c
@@ -213,7 +213,7 @@ int rmc_sub_write_control_message(rmc_sub_context_t* ctx,
         memcpy(seg1, (uint8_t*) payload, seg1_len);
 
        if (seg2_len)
-            memcpy(seg2, ((uint8_t*) &payload) + seg1_len, seg2_len);
+            memcpy(seg2, ((uint8_t*) payload) + seg1_len, seg2_len);
 
 
         // We always want to read from the tcp  socket.
-- 
2.43.0


From 527217c090eafd05ef330482c3c9059487077c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 05/42] fix: rmc_pub_init_context() initialises the control
 message callback

---
 rmc_pub_context.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 4c77812..bf8aa38 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -129,6 +129,7 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     ctx->subscriber_disconnect_cb = 0;
 
     ctx->subscriber_connect_cb = 0;
+    ctx->subscriber_control_message_cb = 0;
 
     ctx->announce_cb = 0;
     ctx->announce_send_interval = 0;
-- 
2.43.0


From bdf45cae4738a34de0d71858499ed48c514f2532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 06/42] fix: rmc_conn_process_accept() stores the peer address
 and port in host order

---
 rmc_connection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 73730e2..9a2d4ac 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -373,7 +373,8 @@ int rmc_conn_process_accept(int listen_descriptor,
     }
 
     conn_vec->connections[c_ind].mode = RMC_CONNECTION_MODE_CONNECTED;
-    conn_vec->connections[c_ind].remote_address = src_addr.sin_addr.s_addr;
+    conn_vec->connections[c_ind].remote_address = ntohl(src_addr.sin_addr.s_addr);
+    conn_vec->connections[c_ind].remote_port = ntohs(src_addr.sin_port);
 
     conn_vec->connections[c_ind].action = RMC_POLLREAD;
     if (conn_vec->poll_add)
-- 
2.43.0


From 558f119cca6dc057dd52ae3949f5f3de59d56001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 07/42] fix: rmc_conn_process_accept() releases descriptor and
 slot when setsockopt() fails

---
 rmc_connection.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 9a2d4ac..717cbf0 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -368,7 +368,9 @@ int rmc_conn_process_accept(int listen_descriptor,
     // out acks.
     if (setsockopt(conn_vec->connections[c_ind].descriptor, IPPROTO_TCP, TCP_NODELAY, (void *)&tr, sizeof(tr))) {
         sock_err = errno;
-        rmc_conn_close_connection(conn_vec, conn_vec->connections[c_ind].descriptor);
+        close(conn_vec->connections[c_ind].descriptor);
+        conn_vec->connections[c_ind].descriptor = -1;
+        _reset_max_connection_ind(conn_vec);
         return sock_err;
     }
 
-- 
2.43.0


From fdf928fd14641789cf149d04c09aa5fd504243e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 08/42] fix: announcements from a publisher we are connecting
 to no longer start a second connection

---
 rmc_sub_read.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index a77ee4c..15e8e8c 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -171,9 +171,11 @@ static int process_multicast_read(rmc_sub_context_t* ctx, uint8_t* read_res, uin
 
     if (!conn || conn->mode == RMC_CONNECTION_MODE_CONNECTING) {
         RMC_LOG_INDEX_DEBUG(conn?conn->connection_index:RMC_NIL_INDEX, "mode[%d]", conn?conn->mode:-1);
-        res = decode_unsubscribed_multicast(ctx,
-                                            pack_hdr,
-                                            data);
+        // Nothing to do if we are already connecting to the publisher.
+        if (!conn)
+            res = decode_unsubscribed_multicast(ctx,
+                                                pack_hdr,
+                                                data);
 
         if (read_res)
             *read_res = RMC_READ_MULTICAST_NOT_READY;
-- 
2.43.0


From 20f813739deca13dee48dd5a78dce3207f287299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 09/42] fix: pub_get_timed_out_packets() starts with the oldest
 packet

---
 pub.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pub.c b/pub.c
index b483f18..976961b 100644
--- a/pub.c
+++ b/pub.c
@@ -322,13 +322,13 @@ void pub_get_timed_out_packets(pub_subscriber_t* sub,
                                usec_timestamp_t timeout_period, // Number of usecs until timeout
                                pub_packet_list_t* result)
 {
-    pub_packet_node_t* pack_node = pub_packet_list_head(&sub->inflight);
+    pub_packet_node_t* pack_node = pub_packet_list_tail(&sub->inflight);
 
     // Traverse all inflight packets for subscriber until we find one that is not timed out.x
     while(pack_node &&
           pack_node->data->send_ts + timeout_period <= current_ts) {
         pub_packet_list_push_tail(result, pack_node->data);
-        pack_node = pub_packet_list_next(pack_node);
+        pack_node = pub_packet_list_prev(pack_node);
     }
 
     return;
-- 
2.43.0


From 91bcba528aa23694745938db88007dfd5b913233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 10/42] fix: rmc_sub_activate_context() closes the socket when
 bind() fails

---
 rmc_sub_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index d18a6f8..bb3c55e 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -174,7 +174,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
              (struct sockaddr *) &sock_addr,
              sizeof(sock_addr)) < 0) {
         perror("rmc_listen(multicast_recv): bind()");
-        return errno;
+        goto error;
     }
 
     // Setup multicast group membership
-- 
2.43.0


From 18a355b564aecd815c77756187e9678da3e3dec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 11/42] fix: rmc_conn_complete_connection() removes a failed
 connection from the poll loop once

---
 rmc_connection.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 717cbf0..d6f7c25 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -211,9 +211,6 @@ int rmc_conn_complete_connection(rmc_connection_vector_t* conn_vec,
                               conn->remote_port,
                               strerror(sock_err));
 
-        if (conn_vec->poll_remove)
-            (*conn_vec->poll_remove)(conn_vec->user_data, conn->descriptor, conn->connection_index);
-
         rmc_conn_close_connection(conn_vec, conn->connection_index);
 
         return sock_err;
@@ -230,9 +227,6 @@ int rmc_conn_complete_connection(rmc_connection_vector_t* conn_vec,
                               conn->remote_port,
                               strerror(sock_err));
 
-        if (conn_vec->poll_remove)
-            (*conn_vec->poll_remove)(conn_vec->user_data, conn->descriptor, conn->connection_index);
-
         rmc_conn_close_connection(conn_vec, conn->connection_index);
         return sock_err;
     }
-- 
2.43.0


From a41df78386fd5bb9c48eda634760d8a79aed841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 12/42] fix: pending queries reject a missing context

---
 rmc_pub_read.c  | 2 +-
 rmc_pub_write.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 68c22b9..5287121 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -235,7 +235,7 @@ int rmc_pub_context_has_pending_send(rmc_pub_context_t* ctx, rmc_index_t s_ind)
     payload_len_t len = 0;
 
     if (!ctx)
-        EINVAL;
+        return EINVAL;
 
     conn = rmc_conn_find_by_index(&ctx->conn_vec, s_ind);
     if (!conn)
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index c16e524..37f7979 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -315,7 +315,7 @@ int rmc_pub_context_get_pending(rmc_pub_context_t* ctx,
     uint32_t queue_size = 0;
 
     if (!ctx)
-        EINVAL;
+        return EINVAL;
 
     if (ack_count)
         *ack_count = 0;
-- 
2.43.0


From b0430d0781bb1df41cf7312d51ab5ebb9cff89ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 13/42] fix: rmc_pub_set_multicast_ttl() rejects a missing
 context

---
 rmc_pub_context.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index bf8aa38..98c5153 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -341,6 +341,9 @@ int rmc_pub_set_announce_interval(rmc_pub_context_t* ctx, uint32_t send_interval
 // Can be called once the context is activated.
 int rmc_pub_set_multicast_ttl(rmc_pub_context_t* ctx, int hops)
 {
+    if (!ctx)
+        return EINVAL;
+
     if (ctx->mcast_send_descriptor == -1)
         return ENOTCONN;
 
-- 
2.43.0


From 5c86219a5bb5fce258fcf490122e7e95564ee2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 14/42] fix: rmc_sub_packet_received() rejects a missing
 context and an index out of range

---
 rmc_sub_packet.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index 6329934..1cad160 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -36,8 +36,12 @@ int rmc_sub_packet_received(rmc_sub_context_t* ctx,
                             usec_timestamp_t current_ts,
                             user_data_t pkg_user_data)
 {
-    sub_publisher_t* pub = &ctx->publishers[index];
+    sub_publisher_t* pub = 0;
 
+    if (!ctx || index >= ctx->conn_vec.size)
+        return EINVAL;
+
+    pub = &ctx->publishers[index];
 
     // If this packet is the first one that needs to be acked for the
     // given publisher, then add the index of the publisher (and
-- 
2.43.0


From 53e676576cf738fc87a99342f95a2a5eebf148b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 15/42] fix: rmc_conn_connect_tcp_by_address() ignores a stale
 errno when connect() succeeds at once

---
 rmc_connection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index d6f7c25..31803dc 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -297,7 +297,7 @@ int rmc_conn_connect_tcp_by_address(rmc_connection_vector_t* conn_vec,
     }
 
     // Nil out the in progress error.
-    res = (errno == EINPROGRESS)?0:errno;
+    res = 0;
 
 
     conn_vec->connections[c_ind].remote_address = address;
-- 
2.43.0


From 12471ceed59ddc8329dbf756a7f3919d1e2cc6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 16/42] fix: rmc_conn_tcp_read() gives back the whole
 reservation when nothing was read

---
 rmc_protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_protocol.c b/rmc_protocol.c
index c75fec7..4ab1947 100644
--- a/rmc_protocol.c
+++ b/rmc_protocol.c
@@ -226,7 +226,7 @@ int rmc_conn_tcp_read(rmc_connection_vector_t* conn_vec,
         *op_res = RMC_READ_DISCONNECT;
 
         // Give back the memory.
-        circ_buf_trim(&conn->read_buf, available);
+        circ_buf_trim(&conn->read_buf, orig_in_use);
         return EPIPE;
     }
 
-- 
2.43.0


From 996d8276745110c937262e3afc6fafdf8703c1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 17/42] fix: rmc_sub_read() keeps asking for write readiness
 while output is pending

---
 rmc_sub_read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 15e8e8c..d77f113 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -443,8 +443,8 @@ rearm:
         (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                      conn->descriptor,
                                      s_ind,
-                                     RMC_POLLREAD,
-                                     RMC_POLLREAD);
+                                     conn->action,
+                                     conn->action);
     }
     return res;
 }
-- 
2.43.0


From 535c9f3d5c3f11afcc966ec1419915b9ddafdcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 18/42] fix: rmc_pub_close_connection() resumes suspended
 traffic when the disconnect frees packets

---
 rmc_internal.h   |  2 ++
 rmc_pub_packet.c | 28 +++++++++++++++++-----------
 rmc_pub_read.c   |  3 +++
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/rmc_internal.h b/rmc_internal.h
index 8068eaa..e98bece 100644
--- a/rmc_internal.h
+++ b/rmc_internal.h
@@ -382,6 +382,8 @@ typedef struct rmc_conn_command_dispatch {
 
 extern int rmc_pub_packet_ack(struct rmc_pub_context* ctx, struct rmc_connection* conn, packet_id_t pid);
 
+extern void rmc_pub_check_resume(struct rmc_pub_context* ctx);
+
 
 
 
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index 98ae2a1..4c26066 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -92,6 +92,22 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
     free(payload);
 }
 
+// If we currently have suspended traffic,
+// check if we are to resume it.
+void rmc_pub_check_resume(rmc_pub_context_t* ctx)
+{
+    if (!ctx->traffic_suspended)
+        return;
+
+    if (pub_get_unacknowledged_packet_count(&ctx->pub_ctx) <= ctx->traffic_resume_threshold) {
+        RMC_LOG_INFO("Resuming traffic");
+        ctx->traffic_suspended = 0;
+    } else
+        RMC_LOG_DEBUG("Still suspended unacked[%d] threshold[%d]",
+                      pub_get_unacknowledged_packet_count(&ctx->pub_ctx),
+                      ctx->traffic_resume_threshold);
+}
+
 int rmc_pub_packet_ack(rmc_pub_context_t* ctx, rmc_connection_t* conn, packet_id_t pid)
 {
     pub_packet_ack(&ctx->subscribers[conn->connection_index],
@@ -99,17 +115,7 @@ int rmc_pub_packet_ack(rmc_pub_context_t* ctx, rmc_connection_t* conn, packet_id
                    // packet free function invoked when the last subscriber acks the packet.
                    ctx->payload_free?ctx->payload_free:_payload_free_generic);
 
-    // If we currently have suspended traffic,
-    // check if we are to resume it.
-    if (ctx->traffic_suspended) {
-        if (pub_get_unacknowledged_packet_count(&ctx->pub_ctx) <= ctx->traffic_resume_threshold) {
-            RMC_LOG_INFO("Resuming traffic");
-            ctx->traffic_suspended = 0;
-        } else
-            RMC_LOG_DEBUG("Still suspended unacked[%d] threshold[%d]",
-                          pub_get_unacknowledged_packet_count(&ctx->pub_ctx),
-                          ctx->traffic_resume_threshold);
-    }
+    rmc_pub_check_resume(ctx);
 
     return 0;
 }
diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 5287121..acbd5e6 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -113,6 +113,9 @@ int rmc_pub_close_connection(rmc_pub_context_t* ctx, rmc_index_t s_ind)
     RMC_LOG_INDEX_INFO(s_ind, "rmc_pub_close_connection() - ok");
     pub_reset_subscriber(&ctx->subscribers[s_ind],
                          ctx->payload_free?ctx->payload_free:_generic_payload_free);
+
+    // The packets given up above may have been what kept traffic suspended.
+    rmc_pub_check_resume(ctx);
     return 0;
 }
 
-- 
2.43.0


From b36167ac871b78201d1cfff9ac932ee4babe3ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 19/42] fix: rmc_sub_deactivate_context() releases the packets
 that are ready for dispatch

---
 rmc_sub_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index bb3c55e..bf9d3a4 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -231,7 +231,7 @@ int rmc_sub_deactivate_context(rmc_sub_context_t* ctx)
         return EINVAL;
 
     // Empty all packets that are dispatch ready.
-    while(sub_packet_list_pop_head(&ctx->dispatch_ready, &pack))
+    while((pack = rmc_sub_get_next_dispatch_ready(ctx)))
         rmc_sub_packet_dispatched(ctx, pack);
 
     // Empty ack list
-- 
2.43.0


From 4058bb0a1cbfa740431dd0a10a8001a9417e756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 20/42] fix: rmc_sub_deactivate_context() leaves the poll loop
 before closing, and only when active

---
 rmc_sub_context.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index bf9d3a4..9ec5405 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -237,13 +237,15 @@ int rmc_sub_deactivate_context(rmc_sub_context_t* ctx)
     // Empty ack list
     rmc_index_list_empty(&ctx->pub_ack_list);
 
-    close(ctx->mcast_recv_descriptor);
-    if (ctx->conn_vec.poll_remove)
-        (*ctx->conn_vec.poll_remove)(ctx->user_data,
-                                     ctx->mcast_recv_descriptor,
-                                     RMC_MULTICAST_INDEX);
+    if (ctx->mcast_recv_descriptor != -1) {
+        if (ctx->conn_vec.poll_remove)
+            (*ctx->conn_vec.poll_remove)(ctx->user_data,
+                                         ctx->mcast_recv_descriptor,
+                                         RMC_MULTICAST_INDEX);
 
-    ctx->mcast_recv_descriptor = -1;
+        close(ctx->mcast_recv_descriptor);
+        ctx->mcast_recv_descriptor = -1;
+    }
 
     rmc_conn_get_max_index_in_use(&ctx->conn_vec, &max);
     for(ind = 0; ind <= max; ++ind) {
-- 
2.43.0


From 5ffdf9b1366e9ba4534bc256e2d9bebdebd0c12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 21/42] fix: rmc_pub_deactivate_context() only removes and
 closes descriptors that are open

---
 rmc_pub_context.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 98c5153..c115a80 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -274,13 +274,15 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
     // Callback to remnove listen and multicast descriptor
     // from caller's poll vector.
     if (ctx->conn_vec.poll_remove) {
-        (*ctx->conn_vec.poll_remove)(ctx->user_data,
-                                     ctx->mcast_send_descriptor,
-                                     RMC_MULTICAST_INDEX);
-
-        (*ctx->conn_vec.poll_remove)(ctx->user_data,
-                                     ctx->listen_descriptor,
-                                     RMC_LISTEN_INDEX);
+        if (ctx->mcast_send_descriptor != -1)
+            (*ctx->conn_vec.poll_remove)(ctx->user_data,
+                                         ctx->mcast_send_descriptor,
+                                         RMC_MULTICAST_INDEX);
+
+        if (ctx->listen_descriptor != -1)
+            (*ctx->conn_vec.poll_remove)(ctx->user_data,
+                                         ctx->listen_descriptor,
+                                         RMC_LISTEN_INDEX);
     }
 
     rmc_conn_get_max_index_in_use(&ctx->conn_vec, &max);
@@ -297,8 +299,11 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
         }
     }
 
-    close(ctx->mcast_send_descriptor);
-    close(ctx->listen_descriptor);
+    if (ctx->mcast_send_descriptor != -1)
+        close(ctx->mcast_send_descriptor);
+
+    if (ctx->listen_descriptor != -1)
+        close(ctx->listen_descriptor);
 
     ctx->mcast_send_descriptor = -1;
     ctx->listen_descriptor = -1;
-- 
2.43.0


From c9ed1f54fcd0cb28edb6f6db8b4033d03316f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 22/42] fix: rmc_sub_close_connection() rejects a missing
 context and an index that is not open

---
 rmc_sub_read.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index d77f113..5a85a86 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -356,9 +356,16 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
 
 int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
+    int res = 0;
+
     RMC_LOG_INDEX_COMMENT(s_ind, "rmc_sub_close_connection(): called");
 
-    rmc_conn_close_connection(&ctx->conn_vec, s_ind);
+    if (!ctx)
+        return EINVAL;
+
+    res = rmc_conn_close_connection(&ctx->conn_vec, s_ind);
+    if (res)
+        return res;
 
     sub_reset_publisher(&ctx->publishers[s_ind],
                         ctx->payload_free?ctx->payload_free:_payload_free_generic);
-- 
2.43.0


From fb394db2ff2a70fe8d3116319abe7b0527493aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 23/42] fix: rmc_sub_init_context() initialises every publisher
 entry

---
 rmc_sub_context.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 9ec5405..060d5ad 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -49,6 +49,7 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     unsigned int seed = rmc_usec_monotonic_timestamp() & 0xFFFFFFFF;
     rmc_sub_context_t* ctx;
     uint8_t* conn_vec = 0;
+    uint32_t ind = 0;
 
     if (!context_res || !mcast_group_addr)
         return EINVAL;
@@ -123,6 +124,11 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     // FIXME: Better memory management
     ctx->publishers = malloc(sizeof(sub_publisher_t) * max_publishers);
 
+    // A connection can be closed before sub_init_publisher() is called for
+    // its publisher when the connection is completed.
+    for (ind = 0; ind < max_publishers; ++ind)
+        sub_init_publisher(&ctx->publishers[ind]);
+
     RMC_LOG_DEBUG("Subscriber Context init. node_id[%u] mcast_group[%s:%d] mcast_if[%s] user_data[%u]",
                   ctx->node_id, mcast_group_addr, multicast_port, mcast_if_addr, user_data.u32);
     return 0;
-- 
2.43.0


From 84d1ce1faeaf85196a6f7e9ecfff55ea5aee4a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 24/42] fix: rmc_sub_close_connection() drops the publisher
 from the pending acknowledgement list

---
 rmc_sub_read.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 5a85a86..ed4ea69 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -354,9 +354,15 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
     free(payload);
 }
 
+static int _compare_index(rmc_index_t needle, rmc_index_t haystack, void* user_data)
+{
+    return needle == haystack;
+}
+
 int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
     int res = 0;
+    rmc_index_node_t* inode = 0;
 
     RMC_LOG_INDEX_COMMENT(s_ind, "rmc_sub_close_connection(): called");
 
@@ -367,6 +373,11 @@ int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
     if (res)
         return res;
 
+    // There is nobody left to acknowledge packets to.
+    inode = rmc_index_list_find_node(&ctx->pub_ack_list, s_ind, _compare_index, 0);
+    if (inode)
+        rmc_index_list_delete(inode);
+
     sub_reset_publisher(&ctx->publishers[s_ind],
                         ctx->payload_free?ctx->payload_free:_payload_free_generic);
     return 0;
-- 
2.43.0


From 19e64142bb6ae65be2b0eccdddb60c0c49ed87db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 25/42] fix: rmc_sub_close_connection() hands the context's
 user data to payload_free()

---
 rmc_sub_read.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index ed4ea69..b7b4e74 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -363,6 +363,7 @@ int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
     int res = 0;
     rmc_index_node_t* inode = 0;
+    sub_packet_node_t* pnode = 0;
 
     RMC_LOG_INDEX_COMMENT(s_ind, "rmc_sub_close_connection(): called");
 
@@ -378,6 +379,13 @@ int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
     if (inode)
         rmc_index_list_delete(inode);
 
+    // Packets dropped below have their payload freed with their own user data,
+    // which up to now is the index of the publisher.
+    for (pnode = sub_packet_list_head(&ctx->publishers[s_ind].received_pid);
+         pnode;
+         pnode = sub_packet_list_next(pnode))
+        pnode->data->pkg_user_data = ctx->user_data;
+
     sub_reset_publisher(&ctx->publishers[s_ind],
                         ctx->payload_free?ctx->payload_free:_payload_free_generic);
     return 0;
-- 
2.43.0


From 708d5092cbafeadbf77f109f5f5a81e352864a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 26/42] fix: packets nobody has to acknowledge are released
 once sent

---
 pub.c            | 37 ++++++++++++++++++++++++++++++++-----
 rmc_internal.h   |  2 ++
 rmc_pub.h        |  6 ++++++
 rmc_pub_packet.c |  6 ++++++
 rmc_pub_write.c  |  4 ++++
 5 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/pub.c b/pub.c
index 976961b..f917300 100644
--- a/pub.c
+++ b/pub.c
@@ -196,17 +196,20 @@ void pub_packet_sent(pub_context_t* ctx,
     // Record the usec timestamp when it was sent.
     pack->send_ts = send_ts;
 
+    // Do not set packet up for acknowledgement if pid is 0, which
+    // means that it should not be acked at all by the subscriber.
+    if (!pack->pid) {
+        pub_packet_list_delete(pack->parent_node);
+        pack->parent_node = 0;
+        return;
+    }
+
     // Unlink the node from queued packets in our context.
     // pack->parent will still be allocated and can be reused
     // when we insert the pack into the inflight packets
     // of context
     pub_packet_list_unlink(pack->parent_node);
 
-    // Do not set packet up for acknowledgement if pid is 0, which
-    // means that it should not be acked at all by the subscriber.
-    if (!pack->pid)
-        return;
-
     // Insert existing pack->parent list_node_t struct into
     // the context's inflight packets.
     // Sorted on ascending pid.
@@ -233,6 +236,30 @@ void pub_packet_sent(pub_context_t* ctx,
 }
 
 
+// Release a packet that is not waiting for any acknowledgement.
+void pub_packet_release(pub_packet_t* pack,
+                        void (*pub_payload_free)(void* payload,
+                                                 payload_len_t payload_len,
+                                                 user_data_t user_data))
+{
+    assert(pack);
+    assert(!pack->ref_count);
+
+    // Remove it from the queued or inflight packets of the context.
+    if (pack->parent_node)
+        pub_packet_list_delete(pack->parent_node);
+
+    // Free data using function provided with this call.
+    if (pub_payload_free)
+        (*pub_payload_free)(pack->payload,
+                            pack->payload_len,
+                            pack->pkg_user_data);
+
+    // Delete the pack.
+    _free_pending_packet(pack);
+}
+
+
 void pub_packet_ack(pub_subscriber_t* sub,
                     packet_id_t pid,
                     void (*pub_payload_free)(void* payload,
diff --git a/rmc_internal.h b/rmc_internal.h
index e98bece..c74df06 100644
--- a/rmc_internal.h
+++ b/rmc_internal.h
@@ -382,6 +382,8 @@ typedef struct rmc_conn_command_dispatch {
 
 extern int rmc_pub_packet_ack(struct rmc_pub_context* ctx, struct rmc_connection* conn, packet_id_t pid);
 
+extern void rmc_pub_packet_release(struct rmc_pub_context* ctx, pub_packet_t* pack);
+
 extern void rmc_pub_check_resume(struct rmc_pub_context* ctx);
 
 
diff --git a/rmc_pub.h b/rmc_pub.h
index 4fbc496..6dc388b 100644
--- a/rmc_pub.h
+++ b/rmc_pub.h
@@ -136,6 +136,12 @@ extern void pub_packet_sent(pub_context_t* ctx,
                             pub_packet_t* ppack,
                             usec_timestamp_t send_ts);
 
+// Release a packet that is not waiting for any acknowledgement.
+extern void pub_packet_release(pub_packet_t* ppack,
+                               void (*pub_payload_free)(void* payload,
+                                                        payload_len_t payload_len,
+                                                        user_data_t user_data));
+
 extern void pub_packet_ack(pub_subscriber_t* sub,
                            packet_id_t pid,
                            // Called if this was the last subscriber acking the packet
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index 4c26066..441e953 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -92,6 +92,12 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
     free(payload);
 }
 
+// Release a packet that no subscriber has to acknowledge.
+void rmc_pub_packet_release(rmc_pub_context_t* ctx, pub_packet_t* pack)
+{
+    pub_packet_release(pack, ctx->payload_free?ctx->payload_free:_payload_free_generic);
+}
+
 // If we currently have suspended traffic,
 // check if we are to resume it.
 void rmc_pub_check_resume(rmc_pub_context_t* ctx)
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index 37f7979..c0c7508 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -106,6 +106,10 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
 
     pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
 
+    // Announcements, and data sent without any subscribers, will not be acknowledged.
+    if (!pack->ref_count)
+        rmc_pub_packet_release(ctx, pack);
+
     res = 0;
 rearm:
     if (ctx->conn_vec.poll_modify) {
-- 
2.43.0


From a5225f6b0d926f1c811e8433ef4965d50433f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 27/42] fix: announcements own a copy of the bytes supplied by
 the announce callback

---
 rmc_internal.h    |  2 ++
 rmc_pub_packet.c  | 52 ++++++++++++++++++++++++++++++++++++++++++-----
 rmc_pub_timeout.c |  2 +-
 3 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/rmc_internal.h b/rmc_internal.h
index c74df06..fe15482 100644
--- a/rmc_internal.h
+++ b/rmc_internal.h
@@ -382,6 +382,8 @@ typedef struct rmc_conn_command_dispatch {
 
 extern int rmc_pub_packet_ack(struct rmc_pub_context* ctx, struct rmc_connection* conn, packet_id_t pid);
 
+extern int rmc_pub_queue_announcement(struct rmc_pub_context* ctx, void* payload, payload_len_t payload_len);
+
 extern void rmc_pub_packet_release(struct rmc_pub_context* ctx, pub_packet_t* pack);
 
 extern void rmc_pub_check_resume(struct rmc_pub_context* ctx);
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index 441e953..a5029de 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -14,10 +14,14 @@
 #include <stdio.h>
 #include <stdlib.h>
 
-int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
+// Marks packets whose payload was allocated by rmc_pub_queue_announcement().
+#define RMC_PUB_PAYLOAD_OWNED 1
+
+static int _queue_packet(rmc_pub_context_t* ctx,
                          void* payload,
                          payload_len_t payload_len,
-                         uint8_t announce_flag)
+                         uint8_t announce_flag,
+                         user_data_t pkg_user_data)
 {
     pub_packet_t *pack;
 
@@ -42,9 +46,9 @@ int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
     // If this is an announcement, force PID to 0.
     // If this is a regular packet, let pub.c figure out the next PID to use.
     if (announce_flag)
-        pub_queue_no_acknowledge_packet(&ctx->pub_ctx, payload, payload_len, user_data_nil());
+        pub_queue_no_acknowledge_packet(&ctx->pub_ctx, payload, payload_len, pkg_user_data);
     else
-        pub_queue_packet(&ctx->pub_ctx, payload, payload_len, user_data_nil());
+        pub_queue_packet(&ctx->pub_ctx, payload, payload_len, pkg_user_data);
 
     if (ctx->conn_vec.poll_modify)  {
         // Did we already have a packet pending for send prior
@@ -69,6 +73,41 @@ int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
 }
 
 
+int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
+                         void* payload,
+                         payload_len_t payload_len,
+                         uint8_t announce_flag)
+{
+    return _queue_packet(ctx, payload, payload_len, announce_flag, user_data_nil());
+}
+
+
+// Queue an announcement with a copy of payload, which has to stay around
+// until the announcement has been sent.
+int rmc_pub_queue_announcement(rmc_pub_context_t* ctx,
+                               void* payload,
+                               payload_len_t payload_len)
+{
+    void* copy = 0;
+    int res = 0;
+
+    if (!ctx || !payload)
+        return EINVAL;
+
+    copy = malloc(payload_len?payload_len:1);
+    if (!copy)
+        return ENOMEM;
+
+    memcpy(copy, payload, payload_len);
+
+    res = _queue_packet(ctx, copy, payload_len, 1, user_data_u32(RMC_PUB_PAYLOAD_OWNED));
+    if (res)
+        free(copy);
+
+    return res;
+}
+
+
 uint32_t rmc_pub_queue_length(rmc_pub_context_t* ctx)
 {
     if (!ctx)
@@ -95,7 +134,10 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
 // Release a packet that no subscriber has to acknowledge.
 void rmc_pub_packet_release(rmc_pub_context_t* ctx, pub_packet_t* pack)
 {
-    pub_packet_release(pack, ctx->payload_free?ctx->payload_free:_payload_free_generic);
+    if (ctx->payload_free && pub_packet_user_data(pack).u32 != RMC_PUB_PAYLOAD_OWNED)
+        pub_packet_release(pack, ctx->payload_free);
+    else
+        pub_packet_release(pack, _payload_free_generic);
 }
 
 // If we currently have suspended traffic,
diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index da3fd1e..b0e3ab7 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -146,7 +146,7 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
 
         if (send_announce) {
             RMC_LOG_DEBUG("Sending announce");
-            rmc_pub_queue_packet(ctx, buffer, len, 1);
+            rmc_pub_queue_announcement(ctx, buffer, len);
         }
 
         // Setup next announce.
-- 
2.43.0


From 7048cce41be55658a90281d41c12733f354c9517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 28/42] fix: rmc_sub_packet_dispatched() frees the packet
 record

---
 rmc_sub_packet.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index 1cad160..a7dd4e1 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -114,6 +114,7 @@ int rmc_sub_packet_dispatched(rmc_sub_context_t* ctx, sub_packet_t* pack)
 {
     int res = rmc_sub_packet_dispatched_keep_payload(ctx, pack);
 
+    // ENOENT means that pack is not ours to touch.
     if (res)
         return res;
 
@@ -122,6 +123,8 @@ int rmc_sub_packet_dispatched(rmc_sub_context_t* ctx, sub_packet_t* pack)
     else
         free(pack->payload);
 
+    free(pack);
+
     return 0;
 }
 
-- 
2.43.0


From 4bad8191826a0b681a135cd8ab5b11f600e999d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 29/42] fix: rmc_pub_delete_context() releases queued packets
 and the subscriber table

---
 rmc_pub_context.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index c115a80..75fedc4 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -313,11 +313,17 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
 
 int rmc_pub_delete_context(rmc_pub_context_t* ctx)
 {
+    pub_packet_t* pack = 0;
 
     if (!ctx)
         return EINVAL;
     rmc_pub_deactivate_context(ctx);
 
+    // Packets that were never sent.
+    while((pack = pub_next_queued_packet(&ctx->pub_ctx)))
+        rmc_pub_packet_release(ctx, pack);
+
+    free(ctx->subscribers);
     free(ctx->conn_vec.connections);
     free(ctx);
     return 0;
-- 
2.43.0


From ff75c753d0b22c05002ff2e7cb56b05a21fd8034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 30/42] fix: rmc_sub_delete_context() releases the publisher
 table

---
 rmc_sub_context.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 060d5ad..b4e429c 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -274,6 +274,7 @@ int rmc_sub_delete_context(rmc_sub_context_t* ctx)
         return EINVAL;
     rmc_sub_deactivate_context(ctx);
 
+    free(ctx->publishers);
     free(ctx->conn_vec.connections);
     free(ctx);
     return 0;
-- 
2.43.0


From 213c1d06f62cca1f9cd4b5cf104e3b3101e0df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 31/42] fix: rmc_sub_packet_received() sorts the publisher on
 the packet just received

---
 rmc_sub_packet.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index a7dd4e1..3559acd 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -37,31 +37,34 @@ int rmc_sub_packet_received(rmc_sub_context_t* ctx,
                             user_data_t pkg_user_data)
 {
     sub_publisher_t* pub = 0;
+    uint8_t first_pending = 0;
 
     if (!ctx || index >= ctx->conn_vec.size)
         return EINVAL;
 
     pub = &ctx->publishers[index];
+    first_pending = !sub_oldest_unacknowledged_packet(pub);
+
+    sub_packet_received(&ctx->publishers[index],
+                        pid,
+                        payload,
+                        payload_len,
+                        1, // We want to add this packet to receive interval so that we can ack it.
+                        rmc_usec_monotonic_timestamp(),
+                        user_data_u32(index));
 
     // If this packet is the first one that needs to be acked for the
     // given publisher, then add the index of the publisher (and
     // connection) into the ctx->pub_ack_list.
-    // The list is sorted on oldest unacknowledged packet.
+    // The list is sorted on oldest unacknowledged packet, so this has to
+    // be done once the packet is recorded.
     //
-    if (!sub_oldest_unacknowledged_packet(pub))
+    if (first_pending)
         rmc_index_list_insert_sorted_rev(&ctx->pub_ack_list,
                                          index,
                                          _compare_oldest_unackowledged_packet,
                                          ctx);
 
-    sub_packet_received(&ctx->publishers[index],
-                        pid,
-                        payload,
-                        payload_len,
-                        1, // We want to add this packet to receive interval so that we can ack it.
-                        rmc_usec_monotonic_timestamp(),
-                        user_data_u32(index));
-
     return 0;
 }
 
-- 
2.43.0


From 8f99c15e4293f307b138fa6a44e40c1e095da964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 32/42] fix: sub_oldest_unacknowledged_packet() considers every
 pending interval

---
 sub.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sub.c b/sub.c
index 34d0e95..354d638 100644
--- a/sub.c
+++ b/sub.c
@@ -194,10 +194,20 @@ inline user_data_t sub_packet_user_data(sub_packet_t* pack)
 
 usec_timestamp_t sub_oldest_unacknowledged_packet(sub_publisher_t* pub)
 {
+    sub_pid_interval_node_t* inode = 0;
+    usec_timestamp_t oldest = 0;
+
     if (!pub || !sub_pid_interval_list_size(&pub->received_interval))
         return 0;
 
-    return sub_pid_interval_list_head(&pub->received_interval)->data.receive_ts;
+    // The list is sorted on pid, not on receive time.
+    inode = sub_pid_interval_list_head(&pub->received_interval);
+    oldest = inode->data.receive_ts;
+    while((inode = sub_pid_interval_list_next(inode)))
+        if (inode->data.receive_ts < oldest)
+            oldest = inode->data.receive_ts;
+
+    return oldest;
 }
 
 // Add the pid of a received packet to the number of
-- 
2.43.0


From 317555d0e1ee1e94071daff87b178133d19bf1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 33/42] fix: rmc_pub_timeout_process() goes on with the other
 subscribers when one cannot take more

---
 rmc_pub_timeout.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index b0e3ab7..c30b24c 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -165,17 +165,17 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
     // Traverse the list of subscribers and process their timed out packets
     // by sending them via the TCP control channel.
     while(pub_sub_list_pop_head(&subs, &sub)) {
-        res = process_subscriber_timeout(ctx, sub, current_ts);
+        int sub_res = process_subscriber_timeout(ctx, sub, current_ts);
 
-        if (res) {
-            // Clean up the list.
-            RMC_LOG_COMMENT("subscriber timeout failed: %s", strerror(res));
-            pub_sub_list_empty(&subs);
-            return res;
+        // Report the first error, but do not let it hold up the other subscribers.
+        if (sub_res) {
+            RMC_LOG_COMMENT("subscriber timeout failed: %s", strerror(sub_res));
+            if (!res)
+                res = sub_res;
         }
     }
 
-    return 0;
+    return res;
 }
 
 
-- 
2.43.0


From b829ef65d3e1631bce5c758e26e1524fd5ac383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 34/42] fix: process_cmd_ack_interval() ignores packet ids that
 have not been used yet

---
 rmc_pub_read.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index acbd5e6..d84f450 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -34,6 +34,10 @@ static int process_cmd_ack_interval(rmc_connection_t* conn, user_data_t user_dat
     RMC_LOG_INDEX_COMMENT(conn->connection_index,
                           "process_cmd_ack_interval(): interval[%lu:%lu]", ack.first_pid, ack.last_pid);
 
+    // The interval comes from the network. Do not go beyond the packets we have queued so far.
+    if (ack.last_pid >= ctx->pub_ctx.next_pid)
+        ack.last_pid = ctx->pub_ctx.next_pid - 1;
+
     // Mark all packets in the interval as acknwoledged, and call the
     // payload free function provided to rmc_pub_init_context(). If no
     // function is provided, free() will bre called.
-- 
2.43.0


From 35802385db37609f22bbae024e567611451cbae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 35/42] fix: rmc_sub_timeout_process() keeps acknowledgements
 pending until they are queued

---
 rmc_internal.h    |  2 ++
 rmc_sub_packet.c  | 15 +++++++++++----
 rmc_sub_timeout.c | 37 +++++++++++++++++++++++++++----------
 3 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/rmc_internal.h b/rmc_internal.h
index fe15482..08cc411 100644
--- a/rmc_internal.h
+++ b/rmc_internal.h
@@ -411,6 +411,8 @@ extern int rmc_sub_packet_interval_acknowledged(struct rmc_sub_context* context,
                                                 rmc_index_t index,
                                                 sub_pid_interval_t* interval);
 
+extern void rmc_sub_schedule_acks(struct rmc_sub_context* ctx, rmc_index_t index);
+
 extern rmc_index_t rmc_sub_packet_connection(sub_packet_t* packet);
 
 extern void rmc_conn_init_connection_vector(struct rmc_connection_vector* conn_vec,
diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index 3559acd..299ef33 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -28,6 +28,16 @@ static int _compare_oldest_unackowledged_packet(rmc_index_t n_ind, rmc_index_t o
 }
 
 
+// Have acks sent to the given publisher once its oldest pending packet is due.
+void rmc_sub_schedule_acks(rmc_sub_context_t* ctx, rmc_index_t index)
+{
+    rmc_index_list_insert_sorted_rev(&ctx->pub_ack_list,
+                                     index,
+                                     _compare_oldest_unackowledged_packet,
+                                     ctx);
+}
+
+
 int rmc_sub_packet_received(rmc_sub_context_t* ctx,
                             rmc_index_t index, // Into ctx->connections and ctx->publishers
                             packet_id_t pid,
@@ -60,10 +70,7 @@ int rmc_sub_packet_received(rmc_sub_context_t* ctx,
     // be done once the packet is recorded.
     //
     if (first_pending)
-        rmc_index_list_insert_sorted_rev(&ctx->pub_ack_list,
-                                         index,
-                                         _compare_oldest_unackowledged_packet,
-                                         ctx);
+        rmc_sub_schedule_acks(ctx, index);
 
     return 0;
 }
diff --git a/rmc_sub_timeout.c b/rmc_sub_timeout.c
index d7a4a13..e5ab37d 100644
--- a/rmc_sub_timeout.c
+++ b/rmc_sub_timeout.c
@@ -22,6 +22,7 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
 {
     usec_timestamp_t current_ts = rmc_usec_monotonic_timestamp();
     rmc_index_node_t *inode = 0;
+    int res = 0;
 
     if (!ctx)
         return EINVAL;
@@ -48,7 +49,10 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
     //
     while(inode) {
         sub_publisher_t* pub = &ctx->publishers[inode->data];
-        sub_pid_interval_t pid_intv;
+        rmc_index_node_t *inext = rmc_index_list_next(inode);
+        sub_pid_interval_node_t* pid_intv = 0;
+        uint8_t progress = 0;
+        int pub_res = 0;
 
 
         // If it is not yet time to send acks for this publisher, then
@@ -66,20 +70,33 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
 
         // For each publisher that we have a timed out ack  for, we will ack
         // all pending packets in one go.
-        while(sub_pid_interval_list_pop_head(&pub->received_interval, &pid_intv)) {
-            int res = 0;
-            res = rmc_sub_packet_interval_acknowledged(ctx, inode->data, &pid_intv);
-            if (res) {
-                RMC_LOG_INDEX_INFO(inode->data,"Failed to send packet ack: %s", strerror(res));
-                return res;
+        while((pid_intv = sub_pid_interval_list_head(&pub->received_interval))) {
+            pub_res = rmc_sub_packet_interval_acknowledged(ctx, inode->data, &pid_intv->data);
+            if (pub_res) {
+                RMC_LOG_INDEX_INFO(inode->data,"Failed to send packet ack: %s", strerror(pub_res));
+                break;
             }
+            sub_pid_interval_list_delete(pid_intv);
+            progress = 1;
         }
 
-        rmc_index_list_delete(inode);
-        inode = rmc_index_list_head(&ctx->pub_ack_list);
+        // Keep what could not be queued for the next call, sorted on the
+        // oldest packet that remains, and go on with the other publishers.
+        if (pub_res && !res)
+            res = pub_res;
+
+        if (!pub_res || progress) {
+            rmc_index_t index = inode->data;
+
+            rmc_index_list_delete(inode);
+            if (pub_res)
+                rmc_sub_schedule_acks(ctx, index);
+        }
+
+        inode = inext;
     }
 
-    return 0;
+    return res;
 }
 
 
-- 
2.43.0


From 251fc354328cf6ac087933f5ee4e6ed44c655577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 36/42] fix: rmc_pub_init_context() leaves nothing allocated
 when it fails

---
 rmc_pub_context.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 75fedc4..d7d979a 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -92,21 +92,21 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     if (!inet_aton(mcast_group_addr, &addr)) {
         RMC_LOG_WARNING("Could not resolve multicast address %s to IP address\n",
                 mcast_group_addr);
-        return EINVAL;
+        goto error;
     }
     ctx->mcast_group_addr = ntohl(addr.s_addr);
 
     if (!inet_aton(control_listen_if_addr, &addr)) {
         RMC_LOG_WARNING("Could not resolve tcp listen address %s to IP address\n",
                 control_listen_if_addr);
-        return EINVAL;
+        goto error;
     }
     ctx->control_listen_if_addr = ntohl(addr.s_addr);
 
     if (!inet_aton(mcast_if_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_interface_addr): Could not resolve %s to IP address\n",
                 mcast_if_addr);
-        return EINVAL;
+        goto error;
     }
     ctx->mcast_if_addr = ntohl(addr.s_addr);
 
@@ -150,6 +150,12 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     RMC_LOG_DEBUG("Publisher Context init. node_id[0x%X] mcast_group[%s:%d] mcast_if[%s] user_data[0x%X]",
                   ctx->node_id, mcast_group_addr, multicast_port,  mcast_if_addr, user_data.u32);
     return 0;
+
+error:
+    free(conn_vec);
+    free(ctx);
+    *context_res = 0;
+    return EINVAL;
 }
 
 
-- 
2.43.0


From 34b6317ec7fdc35626bd38837a9f5910d57a4a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 37/42] fix: rmc_sub_init_context() leaves nothing allocated
 when it fails

---
 rmc_sub_context.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index b4e429c..f3a5791 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -93,14 +93,14 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     if (!inet_aton(mcast_group_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_group_addr): Could not resolve %s to IP address\n",
                 mcast_group_addr);
-        return EINVAL;
+        goto error;
     }
     ctx->mcast_group_addr = ntohl(addr.s_addr);
 
     if (!inet_aton(mcast_if_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_interface_addr): Could not resolve %s to IP address\n",
                 mcast_if_addr);
-        return EINVAL;
+        goto error;
     }
     ctx->mcast_if_addr = ntohl(addr.s_addr);
 
@@ -132,6 +132,12 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     RMC_LOG_DEBUG("Subscriber Context init. node_id[%u] mcast_group[%s:%d] mcast_if[%s] user_data[%u]",
                   ctx->node_id, mcast_group_addr, multicast_port, mcast_if_addr, user_data.u32);
     return 0;
+
+error:
+    free(conn_vec);
+    free(ctx);
+    *context_res = 0;
+    return EINVAL;
 }
 
 
-- 
2.43.0


From 6ac367c11383d38062f438aaa29befb039061f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:44 +0000
Subject: [PATCH 38/42] fix: rmc_pub_activate_context() refuses a context that
 is already active

---
 rmc_pub_context.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index d7d979a..0431b90 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -169,6 +169,9 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
     if (!ctx)
         return EINVAL;
 
+    if (ctx->mcast_send_descriptor != -1 || ctx->listen_descriptor != -1)
+        return EEXIST;
+
     //
     // Setup udp send descriptor to be received by multicast members.
     //
-- 
2.43.0


From 3b492b79409e9aef81848bc0b88997a69702ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:59 +0000
Subject: [PATCH 39/42] fix: reading the publisher's multicast channel dropped
 the request for write readiness

With packets waiting to be sent, poll_modify() was called with RMC_POLLREAD
only, so that the packets stayed queued until another one was published.
---
 rmc_pub_read.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index d84f450..3b504e5 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -192,12 +192,15 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
             return errno;
         }
         RMC_LOG_INDEX_INFO(RMC_MULTICAST_INDEX, "recvfrom(MULTICAST): Ignored loopback");
+
+        // Re-arm, still asking for write readiness if there are packets to send.
+        old_action = RMC_POLLREAD | (pub_next_queued_packet(&ctx->pub_ctx)?RMC_POLLWRITE:0);
         if (ctx->conn_vec.poll_modify)
             (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                          ctx->mcast_send_descriptor,
                                          RMC_MULTICAST_INDEX,
-                                         RMC_POLLREAD,
-                                         RMC_POLLREAD);
+                                         old_action,
+                                         old_action);
         return 0;
     }
 
-- 
2.43.0


From ab90928148bf95e2d513ef15885678074c8769cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:59 +0000
Subject: [PATCH 40/42] fix: packets published while a publisher is not active
 were not sent once it was

Publishing updated the poll registration of descriptor -1, and activating
did not ask for write readiness for the packets already queued.
---
 rmc_pub_context.c | 3 ++-
 rmc_pub_packet.c  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 0431b90..e7e0e4a 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -247,7 +247,8 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
         (*ctx->conn_vec.poll_add)(ctx->user_data,
                                   ctx->mcast_send_descriptor,
                                   RMC_MULTICAST_INDEX,
-                                  RMC_POLLREAD);
+                                  RMC_POLLREAD |
+                                  (pub_next_queued_packet(&ctx->pub_ctx)?RMC_POLLWRITE:0));
 
         (*ctx->conn_vec.poll_add)(ctx->user_data,
                                   ctx->listen_descriptor,
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index a5029de..48d7298 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -50,7 +50,8 @@ static int _queue_packet(rmc_pub_context_t* ctx,
     else
         pub_queue_packet(&ctx->pub_ctx, payload, payload_len, pkg_user_data);
 
-    if (ctx->conn_vec.poll_modify)  {
+    // Not activated yet: rmc_pub_activate_context() asks for write readiness.
+    if (ctx->conn_vec.poll_modify && ctx->mcast_send_descriptor != -1)  {
         // Did we already have a packet pending for send prior
         // to queueing the lastest packet? If so, old action
         // was POLLWRITE, if not, it was 0.
-- 
2.43.0


From ebb5dbb7ac1ad85019dc4381d3aff04fb15e8984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:33 +0000
Subject: [PATCH 41/42] fix: rmc_pub_read() did not report that a multicast
 loopback message was discarded

The operation result was left as the caller passed it in.
---
 rmc_pub_read.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 3b504e5..ff4ac1d 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -192,6 +192,7 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
             return errno;
         }
         RMC_LOG_INDEX_INFO(RMC_MULTICAST_INDEX, "recvfrom(MULTICAST): Ignored loopback");
+        *op_res = RMC_READ_MULTICAST_LOOPBACK;
 
         // Re-arm, still asking for write readiness if there are packets to send.
         old_action = RMC_POLLREAD | (pub_next_queued_packet(&ctx->pub_ctx)?RMC_POLLWRITE:0);
-- 
2.43.0


From 76555ccbacd0e19e333a6084f66cd04e8f3eed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:20 +0000
Subject: [PATCH 42/42] fix: writing a log message no longer changes errno

rmc_log() calls isatty() and the stdio functions, any of which may set errno. Callers
log a failed call before they return errno, so that turning on logging changed what
they answered: with stdout redirected, the first message left ENOTTY.
---
 rmc_log.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rmc_log.c b/rmc_log.c
index 2db7c70..0e1084c 100644
--- a/rmc_log.c
+++ b/rmc_log.c
@@ -13,6 +13,7 @@
 #include "string.h"
 #include <unistd.h>
 #include <stdlib.h>
+#include <errno.h>
 
 static usec_timestamp_t start_time = 0;
 
@@ -193,6 +194,8 @@ void rmc_log(int log_level, const char* func, const char* file, int line, uint16
     const char* tag = 0;
     char index_str[32];
     va_list ap;
+    // Callers log a failed call before they return its errno.
+    int saved_errno = errno;
 
     // Default rmc_log_file, if not set.
     if (!_rmc_log_file)
@@ -278,5 +281,6 @@ void rmc_log(int log_level, const char* func, const char* file, int line, uint16
     vfprintf(_rmc_log_file, fmt, ap);
     va_end(ap);
     fputc('\n', _rmc_log_file);
+    errno = saved_errno;
 }
 // 8592
-- 
2.43.0


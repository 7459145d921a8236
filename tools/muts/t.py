T, ST, A, S, W, R, C, K = "rmc_pub_timeout.c", "rmc_sub_timeout.c", "pub.c", "sub.c", "rmc_pub_write.c", "rmc_pub_read.c", "rmc_connection.c", "rmc_pub_packet.c"
MUTS = [
 ("t01-max", "T01", T, "(ack_timeout_ts < announce_timeout_ts)?ack_timeout_ts:announce_timeout_ts", "(ack_timeout_ts < announce_timeout_ts)?announce_timeout_ts:ack_timeout_ts", "bug"),
 ("t01-le-ok", "T01", T, "(ack_timeout_ts < announce_timeout_ts)?ack_timeout_ts", "(ack_timeout_ts <= announce_timeout_ts)?ack_timeout_ts", "ok"),
 ("t01-head", "T01", A, "pack = pub_packet_list_tail(lst)->data;", "pack = pub_packet_list_head(lst)->data;", "bug"),
 ("t01-first", "T01", A, "if (oldest == -1 || pack->send_ts < oldest) {", "if (oldest == -1) {", "bug"),
 ("t01-empty-break", "T01", A, "            sub_node = pub_sub_list_next(sub_node);\n            continue;", "            break;", "bug"),
 ("t01-ms", "T01", T, "        ack_timeout_ts += ctx->resend_timeout;", "        ack_timeout_ts += ctx->resend_timeout / 2;", "bug"),
 ("t01-ann0", "T01", T, "    if (ctx->announce_next_send_ts != 0)\n        announce", "    if (ctx->announce_send_interval == 0)\n        announce", "bug"),
 ("t01-ann-ok", "T01", T, "    if (ctx->announce_next_send_ts != 0)\n        announce", "    if (ctx->announce_send_interval && ctx->announce_next_send_ts != 0)\n        announce", "ok"),
 ("t01-drop", "T01", T, "    if (announce_timeout_ts == -1 && ack_timeout_ts != -1) {\n        *result_ts = ack_timeout_ts;", "    if (announce_timeout_ts == -1 && ack_timeout_ts != -1) {\n        *result_ts = announce_timeout_ts;", "bug"),
 ("t01-zero", "T01", T, "    if (announce_timeout_ts == -1 && ack_timeout_ts == -1) {\n        *result_ts = -1;", "    if (announce_timeout_ts == -1 && ack_timeout_ts == -1) {\n        *result_ts = 0;", "bug"),
 ("t01-neg-ok", "T01", T, "(ack_timeout_ts != -1)\n        ack", "(ack_timeout_ts >= 0)\n        ack", "ok"),
 ("t01-sub-tail", "T01", ST, "rmc_index_list_head(&ctx->pub_ack_list)->data];\n\n    *result", "rmc_index_list_tail(&ctx->pub_ack_list)->data];\n\n    *result", "bug"),
 ("t01-sub-raw", "T01", ST, "    *result = sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout;", "    *result = sub_oldest_unacknowledged_packet(pub);", "bug"),
 ("t01-sub-0", "T01", ST, "        *result = -1;", "        *result = 0;", "bug"),
 ("t01-sub-first", "T01", S, "        if (inode->data.receive_ts < oldest)\n", "        if (0)\n", "bug"),
 ("t01-set-keep", "T01", "rmc_pub_context.c", "        ctx->announce_next_send_ts = 0;\n", "        ;\n", "bug"),
 ("t01-set-when", "T01", "rmc_pub_context.c", "rmc_usec_monotonic_timestamp() + send_interval_usec;", "rmc_usec_monotonic_timestamp() + 2 * send_interval_usec;", "bug"),
 ("t02-lt", "T02", W, "ind <= max_ind; ++ind) {\n        rmc_connection_t* conn = 0;\n        pub_subscriber_t *sub = 0;\n        payload", "ind < max_ind; ++ind) {\n        rmc_connection_t* conn = 0;\n        pub_subscriber_t *sub = 0;\n        payload", "bug"),
 ("t02-stop", "T02", W, "        if (!conn)\n            continue;\n\n        sub = &ctx->subscribers[conn", "        if (!conn)\n            break;\n\n        sub = &ctx->subscribers[conn", "bug"),
 ("t02-assign", "T02", W, "                *ack_count += count;", "                *ack_count = count;", "bug"),
 ("t02-assign2", "T02", W, "                *send_buf_len += len;", "                *send_buf_len = len;", "bug"),
 ("t02-busy", "T02", W, "        if (len != 0) {\n            busy = 1;\n", "        if (len != 0) {\n", "bug"),
 ("t02-busy2", "T02", W, "        if (count != 0) {\n            busy = 1;\n", "        if (count != 0) {\n            if (ack_count) busy = 1;\n", "bug"),
 ("t02-busyq", "T02", W, "        return busy?EBUSY:0;\n\n    for", "        return 0;\n\n    for", "bug"),
 ("t02-null", "T02", W, "            if (send_buf_len)\n                *send_buf_len += len;", "                *send_buf_len += len;", "bug"),
 ("t02-noinit", "T02", W, "    if (ack_count)\n        *ack_count = 0;\n", "", "bug"),
 ("t02-inflight", "T02", W, "    queue_size = pub_queue_size(&ctx->pub_ctx);", "    queue_size = pub_packet_list_size(&ctx->pub_ctx.queued) + pub_packet_list_size(&ctx->pub_ctx.inflight);", "bug"),
 ("t02-q-ok", "T02", W, "    queue_size = pub_queue_size(&ctx->pub_ctx);", "    queue_size = pub_packet_list_size(&ctx->pub_ctx.queued);", "ok"),
 ("t02-size-ok", "T02", W, "        conn = rmc_conn_find_by_index(&ctx->conn_vec, ind);\n\n        if (!conn)\n            continue;\n\n        sub = &ctx->subscribers[conn", "        conn = &ctx->conn_vec.connections[ind];\n\n        if (conn->mode == RMC_CONNECTION_MODE_CLOSED)\n            continue;\n\n        sub = &ctx->subscribers[conn", "ok"),
 ("t02-has", "T02", R, "    if (len > 0)\n        return EBUSY;", "    if (len > 1)\n        return EBUSY;", "bug"),
 ("t02-readbuf", "T02", C, "    *result = circ_buf_in_use(&conn->write_buf);", "    *result = circ_buf_in_use(&conn->read_buf);", "bug"),
 ("t02-avail", "T02", C, "    *result = circ_buf_in_use(&conn->write_buf);", "    *result = circ_buf_available(&conn->write_buf);", "bug"),
 ("t02-u8", "T02", W, "    int count = 0;", "    int8_t count = 0;", "ok"),
]

C, P, S, PR, PW, SR, SW = "rmc_connection.c", "rmc_pub_context.c", "rmc_sub_context.c", "rmc_pub_read.c", "rmc_pub_write.c", "rmc_sub_read.c", "rmc_sub_write.c"
MUTS = [
 ("k01-acc-leak", "K01", C, "        close(conn_vec->connections[c_ind].descriptor);\n        conn_vec->connections[c_ind].descriptor = -1;\n        _reset_max_connection_ind(conn_vec);\n        return sock_err;", "        conn_vec->connections[c_ind].descriptor = -1;\n        _reset_max_connection_ind(conn_vec);\n        return sock_err;", "bug"),
 ("k01-conn-keep", "K01,K02", C, "        close(conn_vec->connections[c_ind].descriptor);\n        conn_vec->connections[c_ind].descriptor = -1;\n        _reset_max_connection_ind(conn_vec);\n        return 0;", "        close(conn_vec->connections[c_ind].descriptor);\n        _reset_max_connection_ind(conn_vec);\n        return 0;", "bug"),
 ("k01-remove-late", "K01", C, "    if (conn_vec->poll_remove)\n        (*conn_vec->poll_remove)(conn_vec->user_data,\n                                 conn->descriptor,\n                                 s_ind);\n\n    if (close(conn->descriptor) != 0)\n        RMC_LOG_WARNING(\"Could not close descriptor %d: %s\", conn->descriptor, strerror(errno));\n", "    if (close(conn->descriptor) != 0)\n        RMC_LOG_WARNING(\"Could not close descriptor %d: %s\", conn->descriptor, strerror(errno));\n    if (conn_vec->poll_remove)\n        (*conn_vec->poll_remove)(conn_vec->user_data,\n                                 conn->descriptor,\n                                 s_ind);\n", "bug"),
 ("k01-shutdown-order-ok", "K01,K02,K03,K04", C, "    shutdown(conn->descriptor, SHUT_RDWR);\n", "", "ok"),
 ("k01-no-remove", "K01", C, "    if (conn_vec->poll_remove)\n        (*conn_vec->poll_remove)(conn_vec->user_data,\n                                 conn->descriptor,\n                                 s_ind);", "    if (conn_vec->poll_remove && conn_vec->active_connection_count > 1)\n        (*conn_vec->poll_remove)(conn_vec->user_data,\n                                 conn->descriptor,\n                                 s_ind);", "bug"),
 ("k01-remove-index", "K01", C, "                                 conn->descriptor,\n                                 s_ind);\n\n    if (close", "                                 conn->descriptor,\n                                 conn_vec->max_connection_ind);\n\n    if (close", "bug"),
 ("k01-pub-act-leak", "K01", P, "    if (ctx->listen_descriptor != -1) {\n        close(ctx->listen_descriptor);\n        ctx->listen_descriptor = -1;\n    }\n\n    return errno;", "    ctx->listen_descriptor = -1;\n\n    return errno;", "bug"),
 ("k01-pub-act-leak2", "K01", P, "        perror(\"rmc_activate_context(multicast_recv): setsockopt(IP_MULTICAST_IF)\");\n        goto error;", "        perror(\"rmc_activate_context(multicast_recv): setsockopt(IP_MULTICAST_IF)\");\n        ctx->mcast_send_descriptor = -1;\n        goto error;", "bug"),
 ("k01-pub-deact-mcast", "K01,A04", P, "    if (ctx->mcast_send_descriptor != -1)\n        close(ctx->mcast_send_descriptor);\n\n    if (ctx->listen", "    if (ctx->listen", "bug"),
 ("k01-pub-deact-stale", "K01", P, "    ctx->mcast_send_descriptor = -1;\n    ctx->listen_descriptor = -1;\n\n    return 0;", "    ctx->mcast_send_descriptor = -1;\n\n    return 0;", "bug"),
 ("k01-pub-add-swap", "K01", P, "                                  ctx->listen_descriptor,\n                                  RMC_LISTEN_INDEX,\n                                  RMC_POLLREAD);", "                                  ctx->listen_descriptor,\n                                  RMC_MULTICAST_INDEX,\n                                  RMC_POLLREAD);", "bug"),
 ("k01-sub-act-leak", "K01", S, "        close(ctx->mcast_recv_descriptor);\n        ctx->mcast_recv_descriptor = -1;\n    }\n\n\n    return errno;", "        ctx->mcast_recv_descriptor = -1;\n    }\n\n\n    return errno;", "bug"),
 ("k01-sub-deact-break", "K01", S, "        if (!conn)\n            continue;\n\n        rmc_sub_close", "        if (!conn)\n            break;\n\n        rmc_sub_close", "bug"),
 ("k01-pub-deact-lt", "K01", P, "        for(ind = 0; ind <= max; ++ind) {\n            rmc_connection_t* conn = rmc_conn_find", "        for(ind = 0; ind < max; ++ind) {\n            rmc_connection_t* conn = rmc_conn_find", "bug"),
 ("k01-sub-leave-ok", "K01,K02,K03,K04", S, "    for(ind = 0; ind <= max; ++ind) {\n        rmc_connection_t* conn = rmc_conn_find", "    if (max != RMC_NIL_INDEX)\n    for(ind = 0; ind <= max; ++ind) {\n        rmc_connection_t* conn = rmc_conn_find", "ok"),
 ("k01-complete-dbl", "K01", C, "                              strerror(sock_err));\n\n        rmc_conn_close_connection(conn_vec, conn->connection_index);\n\n        return sock_err;", "                              strerror(sock_err));\n\n        close(conn->descriptor);\n        rmc_conn_close_connection(conn_vec, conn->connection_index);\n\n        return sock_err;", "bug"),
 ("k01-connect-noadd", "K01", C, "    if (conn_vec->poll_add)\n        (*conn_vec->poll_add)(conn_vec->user_data,\n                              conn_vec->connections[c_ind].descriptor,\n                              c_ind,\n                              conn_vec->connections[c_ind].action);\n\n    if (result_index)\n        *result_index = c_ind;\n\n    conn_vec->active_connection_count++;\n    return res;", "    if (conn_vec->poll_add && result_index)\n        (*conn_vec->poll_add)(conn_vec->user_data,\n                              conn_vec->connections[c_ind].descriptor,\n                              c_ind,\n                              conn_vec->connections[c_ind].action);\n\n    if (result_index)\n        *result_index = c_ind;\n\n    conn_vec->active_connection_count++;\n    return res;", "bug"),
 ("k02-slot-le", "K02", C, "    while(ind < conn_vec->size) {\n        if (conn_vec->connections[ind].descriptor == -1) {", "    while(ind <= conn_vec->size) {\n        if (conn_vec->connections[ind].descriptor == -1) {", "bug"),
 ("k02-slot-off", "K02", C, "    while(ind < conn_vec->size) {\n        if (conn_vec->connections[ind].descriptor == -1) {", "    while(ind < conn_vec->size) {\n        if (conn_vec->connections[ind].mode != RMC_CONNECTION_MODE_CONNECTED) {", "bug"),
 ("k02-slot-mode-ok", "K01,K02,K03,K04", C, "    while(ind < conn_vec->size) {\n        if (conn_vec->connections[ind].descriptor == -1) {", "    while(ind < conn_vec->size) {\n        if (conn_vec->connections[ind].mode == RMC_CONNECTION_MODE_CLOSED) {", "ok"),
 ("k02-max", "K02", C, "            if (conn_vec->max_connection_ind < ind ||\n                conn_vec->max_connection_ind == RMC_NIL_INDEX)\n", "            if (conn_vec->max_connection_ind < ind)\n", "bug"),
 ("k02-max2", "K02", C, "            if (conn_vec->max_connection_ind < ind ||\n                conn_vec->max_connection_ind == RMC_NIL_INDEX)\n", "            if (conn_vec->max_connection_ind == RMC_NIL_INDEX)\n", "bug"),
 ("k02-max-always", "K02", C, "            if (conn_vec->max_connection_ind < ind ||\n                conn_vec->max_connection_ind == RMC_NIL_INDEX)\n", "", "bug"),
 ("k02-reset", "K02", C, "    if (s_ind == conn_vec->max_connection_ind)\n        _reset_max_connection_ind(conn_vec);", "    if (s_ind == conn_vec->max_connection_ind)\n        conn_vec->max_connection_ind = s_ind?s_ind - 1:RMC_NIL_INDEX;", "ok"),
 ("k02-reset-nil", "K02", C, "    if (s_ind == conn_vec->max_connection_ind)\n        _reset_max_connection_ind(conn_vec);", "    if (s_ind == conn_vec->max_connection_ind)\n        conn_vec->max_connection_ind = RMC_NIL_INDEX;", "bug"),
 ("k02-reset-always-ok", "K02", C, "    if (s_ind == conn_vec->max_connection_ind)\n        _reset", "        _reset", "ok"),
 ("k02-count-close", "K02", C, "    conn_vec->active_connection_count--;\n", "    if (conn_vec->max_connection_ind != RMC_NIL_INDEX) conn_vec->active_connection_count--;\n", "bug"),
 ("k02-count-acc", "K02", C, "        *result_index = c_ind;\n\n    conn_vec->active_connection_count++;\n    return 0;", "        *result_index = c_ind;\n\n    return 0;", "bug"),
 ("k02-find-lt", "K02", C, "    while(ind <= conn_vec->max_connection_ind) {\n        if (conn_vec->connections[ind].descriptor != -1 &&\n            conn_vec->connections[ind].node_id", "    while(ind < conn_vec->max_connection_ind) {\n        if (conn_vec->connections[ind].descriptor != -1 &&\n            conn_vec->connections[ind].node_id", "bug"),
 ("k02-find-closed", "K02", C, "        if (conn_vec->connections[ind].descriptor != -1 &&\n            conn_vec->connections[ind].node_id", "        if (\n            conn_vec->connections[ind].node_id", "bug"),
 ("k02-find-port", "K02", C, "            remote_address == conn_vec->connections[ind].remote_address &&\n            remote_port == conn_vec->connections[ind].remote_port)", "            remote_address == conn_vec->connections[ind].remote_address)", "bug"),
 ("k02-find-mode", "K02", C, "    if (conn_vec->connections[index].mode == RMC_CONNECTION_MODE_CLOSED)\n        return 0;", "    if (conn_vec->connections[index].mode != RMC_CONNECTION_MODE_CONNECTED)\n        return 0;", "bug"),
 ("k02-find-range", "K02", C, "    if (index >= conn_vec->size)\n        return 0;", "    if (index > conn_vec->size)\n        return 0;", "bug"),
 ("k03-sockerr", "K03", C, "    if (sock_err != 0) {", "    if (sock_err < 0) {", "bug"),
 ("k03-connect-now", "K03", C, "    conn_vec->connections[c_ind].mode = RMC_CONNECTION_MODE_CONNECTING;", "    conn_vec->connections[c_ind].mode = RMC_CONNECTION_MODE_CONNECTED;", "bug"),
 ("k03-einprog", "K03", C, "    if (res == -1 && errno != EINPROGRESS) {", "    if (res == -1 && errno == ECONNREFUSED) {", "bug"),
 ("k03-einprog2", "K03", C, "    if (res == -1 && errno != EINPROGRESS) {", "    if (res == -1) {", "bug"),
 ("k03-noreset", "K03", C, "    circ_buf_init(&conn->write_buf, conn->write_buf_data, sizeof(conn->write_buf_data));\n    memset", "    if (conn->write_buf.size == 0) circ_buf_init(&conn->write_buf, conn->write_buf_data, sizeof(conn->write_buf_data));\n    memset", "bug"),
 ("k03-nonode", "K03", C, "    conn->node_id = 0;\n", "", "bug"),
 ("k03-nomode", "K03,K02", C, "    conn->mode = RMC_CONNECTION_MODE_CLOSED;\n    circ", "    circ", "ok"),
 ("k03-read-conn", "K03", SR, "    if (!conn || conn->mode != RMC_CONNECTION_MODE_CONNECTED) {\n        *op_res = RMC_ERROR;", "    if (!conn) {\n        *op_res = RMC_ERROR;", "bug"),
 ("k03-ctl-conn", "K03", SW, "        if (conn->mode != RMC_CONNECTION_MODE_CONNECTED) {\n", "        if (conn->mode == RMC_CONNECTION_MODE_CLOSED) {\n", "bug"),
 ("k03-ack-conn", "K03", SW, "        if (conn->mode != RMC_CONNECTION_MODE_CONNECTED)\n            return ENOTCONN;\n\n        available", "        available", "bug"),
 ("k03-byaddr-ok", "K03,K04", SW, "    if (!conn || conn->mode != RMC_CONNECTION_MODE_CONNECTED)\n        return ENOTCONN;\n\n    return rmc_sub_write_control_message(ctx, conn, payload, payload_len);\n}\n\n\n\nint rmc_sub_write_control_message_by_node_id", "    if (!conn)\n        return ENOTCONN;\n\n    return rmc_sub_write_control_message(ctx, conn, payload, payload_len);\n}\n\n\n\nint rmc_sub_write_control_message_by_node_id", "ok"),
 ("k03-complete-skip", "K03", C, "    conn->mode = RMC_CONNECTION_MODE_CONNECTED;\n    old_action", "    old_action", "bug"),
 ("k04-ack-nowr", "K04", SW, "        conn->action |= RMC_POLLWRITE;\n\n        if (ctx->conn_vec.poll_modify)\n            (*ctx->conn_vec.poll_modify)(ctx->user_data,\n                                         conn->descriptor,\n                                         conn->connection_index,\n                                         old_action,\n                                         conn->action);\n        return 0;", "        conn->action |= RMC_POLLWRITE;\n\n        return 0;", "bug"),
 ("k04-ack-only", "K04", SW, "        conn->action |= RMC_POLLWRITE;\n\n        if (ctx->conn_vec.poll_modify)\n            (*ctx->conn_vec.poll_modify)(ctx->user_data,\n                                         conn->descriptor,\n                                         conn->connection_index,\n                                         old_action,\n                                         conn->action);\n        return 0;", "        conn->action = RMC_POLLWRITE;\n\n        if (ctx->conn_vec.poll_modify)\n            (*ctx->conn_vec.poll_modify)(ctx->user_data,\n                                         conn->descriptor,\n                                         conn->connection_index,\n                                         old_action,\n                                         conn->action);\n        return 0;", "bug"),
 ("k04-ack-cond-ok", "K04", SW, "        if (ctx->conn_vec.poll_modify)\n            (*ctx->conn_vec.poll_modify)(ctx->user_data,\n                                         conn->descriptor,\n                                         conn->connection_index,\n                                         old_action,\n                                         conn->action);\n        return 0;\n}\n\n\n\nint rmc_sub_write_control_message(", "        if (ctx->conn_vec.poll_modify && old_action != conn->action)\n            (*ctx->conn_vec.poll_modify)(ctx->user_data,\n                                         conn->descriptor,\n                                         conn->connection_index,\n                                         old_action,\n                                         conn->action);\n        return 0;\n}\n\n\n\nint rmc_sub_write_control_message(", "ok"),
 ("k04-pubread-drop", "K04", PR, "    conn->action = RMC_POLLREAD | ((write_buf_sz > 0)?RMC_POLLWRITE:0);", "    conn->action = RMC_POLLREAD;", "bug"),
 ("k04-pubread-wrong", "K04", PR, "    conn->action = RMC_POLLREAD | ((write_buf_sz > 0)?RMC_POLLWRITE:0);", "    conn->action |= RMC_POLLREAD;", "ok"),
 ("k04-pubread-old", "K04", PR, "    old_action = conn->action;\n    rmc_conn_get_pending_send_length(conn, &write_buf_sz);\n\n    conn->action =", "    rmc_conn_get_pending_send_length(conn, &write_buf_sz);\n\n    old_action = conn->action =", "ok"),
 ("k04-pubwrite-keep", "K04", PW, "    if (bytes_left_after == 0)\n        conn->action &= ~RMC_POLLWRITE;\n    else\n        conn->action |= RMC_POLLWRITE;", "    if (bytes_left_after == 0 && !res)\n        conn->action &= ~RMC_POLLWRITE;\n    else\n        conn->action |= RMC_POLLWRITE;", "ok"),
 ("k04-pubwrite-drop", "K04", PW, "    if (bytes_left_after == 0)\n        conn->action &= ~RMC_POLLWRITE;\n    else\n        conn->action |= RMC_POLLWRITE;", "    conn->action &= ~RMC_POLLWRITE;", "bug"),
 ("k04-subwrite-never", "K04", SW, "    if (bytes_left_after == 0)\n        conn->action &= ~RMC_POLLWRITE;", "    if (bytes_left_after == 1)\n        conn->action &= ~RMC_POLLWRITE;", "bug"),
 ("k04-subwrite-zero", "K04", SW, "    if (bytes_left_after == 0)\n        conn->action &= ~RMC_POLLWRITE;", "    if (bytes_left_after == 0)\n        conn->action = 0;", "bug"),
 ("k04-subwrite-index", "K04", SW, "                                     conn->descriptor,\n                                     s_ind,\n                                     old_action,\n                                     conn->action);\n\n    // Did", "                                     conn->descriptor,\n                                     ctx->conn_vec.max_connection_ind,\n                                     old_action,\n                                     conn->action);\n\n    // Did", "bug"),
 ("k04-subread-drop", "K04", SR, "                                     s_ind,\n                                     conn->action,\n                                     conn->action);\n    }\n    return res;", "                                     s_ind,\n                                     conn->action,\n                                     RMC_POLLREAD);\n    }\n    return res;", "bug"),
 ("k04-subread-old", "K04", SR, "                                     s_ind,\n                                     conn->action,\n                                     conn->action);\n    }\n    return res;", "                                     s_ind,\n                                     RMC_POLLREAD,\n                                     conn->action);\n    }\n    return res;", "bug"),
 ("k04-resend", "K04", PW, "        conn->action |= RMC_POLLWRITE;\n        if (ctx->conn_vec.poll_modify)\n            (*ctx->conn_vec.poll_modify)(ctx->user_data,\n                                         conn->descriptor,\n                                         conn->connection_index,\n                                         old_action,", "        conn->action |= RMC_POLLWRITE;\n        if (ctx->conn_vec.poll_modify)\n            (*ctx->conn_vec.poll_modify)(ctx->user_data,\n                                         conn->descriptor,\n                                         conn->connection_index,\n                                         conn->action,", "bug"),
 ("k04-complete-wr", "K04", C, "    conn->action = RMC_POLLREAD;\n\n    // We start", "    conn->action |= RMC_POLLREAD;\n\n    // We start", "bug"),
 ("k04-complete-silent", "K04", C, "    // We start off in reading mode\n    if (conn_vec->poll_modify)", "    // We start off in reading mode\n    if (conn_vec->poll_modify && old_action == conn->action)", "bug"),
 ("k04-listen-idx", "K04,K01", C, "                                 listen_descriptor,\n                                 RMC_LISTEN_INDEX,\n", "                                 conn_vec->connections[c_ind].descriptor,\n                                 RMC_LISTEN_INDEX,\n", "bug"),
]
MUTS += [
 ("k04-mread", "K04", "rmc_pub_read.c", "        old_action = RMC_POLLREAD | (pub_next_queued_packet(&ctx->pub_ctx)?RMC_POLLWRITE:0);", "        old_action = RMC_POLLREAD;", "bug"),
 ("k04-act", "K04", "rmc_pub_context.c", "                                  RMC_POLLREAD |\n                                  (pub_next_queued_packet(&ctx->pub_ctx)?RMC_POLLWRITE:0));", "                                  RMC_POLLREAD);", "bug"),
 ("k04-mqueue", "P08", "rmc_pub_packet.c", " && ctx->mcast_send_descriptor != -1)  {", ")  {", "bug"),
 ("k04-lazy", "K04", "rmc_pub_read.c", "    if (ctx->conn_vec.poll_modify)\n        (*ctx->conn_vec.poll_modify)(ctx->user_data,\n                                     conn->descriptor,", "    if (ctx->conn_vec.poll_modify && old_action != conn->action)\n        (*ctx->conn_vec.poll_modify)(ctx->user_data,\n                                     conn->descriptor,", "bug"),
 ("k04-lazy2", "K04", "rmc_sub_write.c", "    if (ctx->conn_vec.poll_modify)\n        (*ctx->conn_vec.poll_modify)(ctx->user_data,\n                                     conn->descriptor,\n                                     s_ind,", "    if (ctx->conn_vec.poll_modify && old_action != conn->action)\n        (*ctx->conn_vec.poll_modify)(ctx->user_data,\n                                     conn->descriptor,\n                                     s_ind,", "bug"),
 ("k04-subm", "K04", "rmc_sub_read.c", "    if (ctx->conn_vec.poll_modify)\n        (*ctx->conn_vec.poll_modify)(ctx->user_data,\n                                     ctx->mcast_recv", "    if (0)\n        (*ctx->conn_vec.poll_modify)(ctx->user_data,\n                                     ctx->mcast_recv", "bug"),
 ("k04-listen", "K04", "rmc_connection.c", "                                 RMC_LISTEN_INDEX,\n                                 RMC_POLLREAD,\n                                 RMC_POLLREAD);", "                                 RMC_LISTEN_INDEX,\n                                 RMC_POLLREAD,\n                                 0);", "bug"),
]

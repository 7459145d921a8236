A, K, T, W, R, C = "pub.c", "rmc_pub_packet.c", "rmc_pub_timeout.c", "rmc_pub_write.c", "rmc_pub_read.c", "rmc_pub_context.c"
MUTS = [
 # P01
 ("p01-pre", "P01", A, "return ctx->next_pid++;", "return ++ctx->next_pid;", "bug"),
 ("p01-first", "P01", A, "    ctx->next_pid = 1;", "    ctx->next_pid = 0;", "bug"),
 ("p01-ann-id", "P01", A, "    return pub_queue_packet_with_pid(ctx,\n                                     0,", "    return pub_queue_packet_with_pid(ctx,\n                                     _next_pid(ctx) * 0,", "bug"),
 ("p01-refuse", "P01", K, "    if (rmc_pub_traffic_suspended(ctx) == EBUSY)\n        return EBUSY;", "    if (rmc_pub_traffic_suspended(ctx) == EBUSY) {\n        if (!announce_flag) ctx->pub_ctx.next_pid++;\n        return EBUSY;\n    }", "bug"),
 ("p01-flag1", "P01", K, "    if (announce_flag)\n", "    if (announce_flag == 1)\n", "bug"),
 ("p01-len", "P01", A, "    ppack->payload_len = payload_len;", "    ppack->payload_len = payload_len & 0x7FFF;", "bug"),
 ("p01-sort", "P01", A, "pub_packet_list_insert_sorted(&ctx->queued,\n                                      ppack,\n                                      _compare_pid,\n                                      0);", "pub_packet_list_push_tail(&ctx->queued, ppack);", "bug"),
 ("p01-head-ok", "P01,P02,P04", A, "        pub_packet_list_insert_sorted(&ctx->queued,\n                                      ppack,\n                                      _compare_pid,\n                                      0);", "        pid ? pub_packet_list_push_head(&ctx->queued, ppack) : pub_packet_list_push_tail(&ctx->queued, ppack);", "ok"),
 ("p01-nextpid-ok", "P01", A, "    return ctx->next_pid++;", "    packet_id_t p = ctx->next_pid;\n    ctx->next_pid = p + 1;\n    return p;", "ok"),
 # P02
 ("p02-reset-free", "P02", A, "        pub_packet_ack(sub, node->data->pid, pub_payload_free);", "        pub_packet_ack(sub, node->data->pid, 0);", "bug"),
 ("p02-nosub", "P02", W, "    if (!pack->ref_count)\n        rmc_pub_packet_release(ctx, pack);", "    if (!pack->pid)\n        rmc_pub_packet_release(ctx, pack);", "bug"),
 ("p02-ackle", "P02", A, "        if (node->data->pid == pid)\n            break;", "        if (node->data->pid >= pid)\n            break;", "bug"),
 ("p02-refcount", "P02", A, "    if (!pack->ref_count) {\n        pub_packet_list_delete", "    if (pack->ref_count <= 1) {\n        pub_packet_list_delete", "bug"),
 ("p02-onlyhead", "P02", A, "        pack->ref_count++;\n        sub_node = pub_sub_list_next(sub_node);", "        pack->ref_count++;\n        sub_node = pub_sub_list_next(sub_node);\n        if (pub_packet_list_size(&sub->inflight) > 1) break;", "bug"),
 ("p02-len", "P02", A, "            (*pub_payload_free)(pack->payload,\n                                pack->payload_len,\n                                pack->pkg_user_data);\n\n        // Delete", "            (*pub_payload_free)(pack->payload,\n                                pack->ref_count,\n                                pack->pkg_user_data);\n\n        // Delete", "bug"),
 ("p02-leak", "P02", A, "        // Delete the pack.\n        _free_pending_packet(pack);\n    }", "        // Delete the pack.\n        if (pub_payload_free) _free_pending_packet(pack);\n    }", "ok"),
 ("p02-leak2", "P02", A, "        // Delete the pack.\n        _free_pending_packet(pack);\n    }", "        // Delete the pack.\n        if (pack->payload_len) _free_pending_packet(pack);\n    }", "bug"),
 ("p02-generic", "P02", K, "ctx->payload_free?ctx->payload_free:_payload_free_generic);", "ctx->payload_free);", "bug"),
 ("p02-reset-one", "P02", A, "    while((node = pub_packet_list_tail(&sub->inflight)))\n", "    if((node = pub_packet_list_tail(&sub->inflight)))\n", "bug"),
 ("p02-fromhead-ok", "P02,P09,P03", A, "    node = pub_packet_list_tail(&sub->inflight);\n\n    while(node) {\n        if (node->data->pid == pid)\n            break;\n\n        node = pub_packet_list_prev(node);", "    node = pub_packet_list_head(&sub->inflight);\n\n    for(; node; node = pub_packet_list_next(node)) {\n        if (pid == node->data->pid)\n            break;\n", "ok"),
 # P03
 ("p03-all", "P03", A, "    while(pack_node &&\n          pack_node->data->send_ts + timeout_period <= current_ts) {", "    while(pack_node) {", "bug"),
 ("p03-lt", "P03", A, "          pack_node->data->send_ts + timeout_period <= current_ts) {", "          pack_node->data->send_ts + timeout_period < current_ts) {", "bug"),
 ("p03-head", "P03", A, "            pub_packet_list_tail(&sub_node->data->inflight)->data->send_ts + timeout_period <= current_ts)", "            pub_packet_list_head(&sub_node->data->inflight)->data->send_ts + timeout_period <= current_ts)", "bug"),
 ("p03-rev", "P03", A, "        pub_packet_list_push_tail(result, pack_node->data);", "        pub_packet_list_push_head(result, pack_node->data);", "bug"),
 ("p03-ackfail", "P03", T, "    if (!res)\n        rmc_pub_packet_ack(ctx, conn, pack->pid) ;", "    if (!res || res == EAGAIN)\n        rmc_pub_packet_ack(ctx, conn, pack->pid) ;", "bug"),
 ("p03-stop", "P03", T, "            if (!res)\n                res = sub_res;\n", "            if (!res)\n                res = sub_res;\n            break;\n", "bug"),
 ("p03-once", "P03", T, "        pub_packet_list_pop_head(&packets, &pack);\n    }", "        pub_packet_list_pop_head(&packets, &pack);\n        if (pub_packet_list_size(&packets) == 1) break;\n    }", "bug"),
 ("p03-disc", "P03", T, "        rmc_pub_packet_ack(ctx, conn, pack->pid) ;\n        return 0;\n", "        return 0;\n", "bug"),
 ("p03-helper-ok", "P03", T, "    while((pnode = pub_packet_list_head(&packets))) {", "    for (pnode = pub_packet_list_head(&packets); pnode; pnode = pub_packet_list_head(&packets)) {", "ok"),
 ("p03-cmp-ok", "P03", A, "          pack_node->data->send_ts + timeout_period <= current_ts) {", "          current_ts - pack_node->data->send_ts >= timeout_period) {", "ok"),
 # P04
 ("p04-head", "P04", A, "    node = pub_packet_list_tail(&ctx->queued);\n\n    return", "    node = pub_packet_list_head(&ctx->queued);\n\n    return", "bug"),
 ("p04-eagain", "P04", W, "        res = EAGAIN;\n        goto rearm;\n    }\n\n    pub_packet_sent", "        res = EAGAIN;\n    }\n\n    pub_packet_sent", "bug"),
 ("p04-cont", "P04", W, "            break;\n\n        ++count;", "            if (res != EAGAIN) break;\n\n        ++count;", "bug"),
 ("p04-fail-drop", "P04", W, "            return errno;\n        }\n\n        // We are ok", "            if (errno == EMSGSIZE) pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());\n            return errno;\n        }\n\n        // We are ok", "bug"),
 ("p04-ts", "P04", A, "    pack->send_ts = send_ts;", "    pack->send_ts = send_ts / 1000 * 1000;", "bug"),
 ("p04-ts2", "P04", A, "    pack->send_ts = send_ts;", "    if (!pack->send_ts && ctx->next_pid > 10) pack->send_ts = send_ts;", "bug"),
 ("p04-early-now-ok", "P04", W, "    pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());", "    usec_timestamp_t when = rmc_usec_monotonic_timestamp();\n    pub_packet_sent(pctx, pack, when);", "ok"),
 ("p04-loop-ok", "P04,P02", W, "    while(pack) {\n        if ((res = send_single_multicast_packet(ctx, pack)))\n            break;\n\n        ++count;\n        pack = pub_next_queued_packet(pctx);\n    }", "    for(; pack && !res; pack = pub_next_queued_packet(pctx))\n        res = send_single_multicast_packet(ctx, pack);", "ok"),
 # P05
 ("p05-gt", "P05", K, ">= ctx->traffic_suspend_threshold) {", "> ctx->traffic_suspend_threshold) {", "bug"),
 ("p05-lt", "P05", K, "<= ctx->traffic_resume_threshold) {", "< ctx->traffic_resume_threshold) {", "bug"),
 ("p05-queued", "P05", A, "    return pub_packet_list_size(&ctx->inflight);", "    return pub_packet_list_size(&ctx->inflight) + pub_packet_list_size(&ctx->queued);", "bug"),
 ("p05-zero", "P05", K, "    if (ctx->traffic_suspend_threshold > 0 &&\n", "    if (\n", "bug"),
 ("p05-close", "P05", R, "    rmc_pub_check_resume(ctx);\n", "", "bug"),
 ("p05-cfg", "P05", C, "    if (suspend_threshold < resume_threshold) {", "    ctx->traffic_resume_threshold = resume_threshold;\n    if (suspend_threshold < resume_threshold) {", "bug"),
 ("p05-cfg2", "P05", C, "    if (suspend_threshold < resume_threshold) {", "    if (suspend_threshold <= resume_threshold) {", "bug"),
 ("p05-gate", "P05", K, "    if (rmc_pub_traffic_suspended(ctx) == EBUSY)\n        return EBUSY;", "    if (!announce_flag && rmc_pub_traffic_suspended(ctx) == EBUSY)\n        return EBUSY;", "bug"),
 ("p05-ok", "P05", K, "    if (!ctx->traffic_suspended)\n        return;\n\n    if (pub_get", "    if (ctx->traffic_suspended && pub_get", "ok"),
 # P06
 ("p06-after", "P06", R, "        pub_init_subscriber(&ctx->subscribers[s_ind], &ctx->pub_ctx, user_data_ptr(conn));\n        *op_res = RMC_READ_ACCEPT;", "        *op_res = RMC_READ_ACCEPT;", "bug", [(R, "                rmc_pub_close_connection(ctx, s_ind);\n        }\n\n        return 0;", "                { pub_init_subscriber(&ctx->subscribers[s_ind], &ctx->pub_ctx, user_data_ptr(conn)); rmc_pub_close_connection(ctx, s_ind); return 0; }\n        }\n        pub_init_subscriber(&ctx->subscribers[s_ind], &ctx->pub_ctx, user_data_ptr(conn));\n        return 0;")]),
 ("p06-port", "P06", R, "            if (!(*ctx->subscriber_connect_cb)(ctx, conn->remote_address, conn->remote_port))", "            if (!(*ctx->subscriber_connect_cb)(ctx, conn->remote_address, htons(conn->remote_port)))", "bug"),
 ("p06-closeconn", "P06", R, "conn->remote_port))\n                rmc_pub_close_connection(ctx, s_ind);", "conn->remote_port))\n                rmc_conn_close_connection(&ctx->conn_vec, s_ind);", "bug"),
 ("p06-order", "P06", R, "    rmc_conn_close_connection(&ctx->conn_vec, s_ind);\n\n", "", "bug", [(R, "    // Disconnect callback, if specified through", "    rmc_conn_close_connection(&ctx->conn_vec, s_ind);\n    // Disconnect callback, if specified through")]),
 ("p06-twice", "P06", R, "        RMC_LOG_INDEX_COMMENT(s_ind, \"tcp read returned EPIPE\");", "        if (ctx->subscriber_disconnect_cb) (*ctx->subscriber_disconnect_cb)(ctx, conn->remote_address, conn->remote_port);", "bug"),
 ("p06-noreset", "P06", A, "    assert(snode);\n    pub_sub_list_delete(snode);", "    assert(snode);\n    if (pub_sub_list_size(&sub->context->subscribers) > 1) pub_sub_list_delete(snode);", "bug"),
 ("p06-eproto", "P06", R, "    if (res == EPIPE) {", "    if (res == EPIPE || res == EAGAIN) {", "bug"),
 ("p06-ok", "P06", R, "    if (ctx->subscriber_disconnect_cb) {\n        (*ctx->subscriber_disconnect_cb)(ctx, conn->remote_address, conn->remote_port);\n    }\n\n    rmc_conn_close_connection(&ctx->conn_vec, s_ind);\n", "    uint32_t a = conn->remote_address; uint16_t p = conn->remote_port;\n    rmc_conn_close_connection(&ctx->conn_vec, s_ind);\n    if (ctx->subscriber_disconnect_cb)\n        (*ctx->subscriber_disconnect_cb)(ctx, a, p);\n", "ok"),
 # P07
 ("p07-max", "P07", T, "(ctx, buffer, sizeof(buffer), &len);", "(ctx, buffer, RMC_MAX_PACKET, &len);", "bug"),
 ("p07-now", "P07", T, "            ctx->announce_next_send_ts = current_ts + ctx->announce_send_interval;", "            ctx->announce_next_send_ts += ctx->announce_send_interval;", "bug"),
 ("p07-stack", "P07", T, "            rmc_pub_queue_announcement(ctx, buffer, len);", "            rmc_pub_queue_packet(ctx, buffer, len, 1);", "bug"),
 ("p07-decl", "P07", T, "        if (send_announce) {", "        if (send_announce || len) {", "bug"),
 ("p07-noint", "P07", T, "    if (ctx->announce_send_interval &&\n        ctx", "    if (ctx", "bug"),
 ("p07-len", "P07", K, "    memcpy(copy, payload, payload_len);", "    memcpy(copy, payload, payload_len / 2);", "bug"),
 ("p07-set", "P07", C, "    if (!send_interval_usec)\n        ctx->announce_next_send_ts = 0;", "    if (!send_interval_usec)\n        ctx->announce_next_send_ts = -1;", "bug"),
 ("p07-due", "P07", T, "        ctx->announce_next_send_ts - current_ts <= 0) {", "        ctx->announce_next_send_ts - current_ts <= 1000) {", "bug"),
 ("p07-sched-decl", "P07", T, "        // Setup next announce.\n        if (ctx->announce_send_interval)", "        // Setup next announce.\n        if (!send_announce) ; else if (ctx->announce_send_interval)", "bug"),
 ("p07-ok", "P07", T, "        ctx->announce_next_send_ts - current_ts <= 0) {", "        ctx->announce_next_send_ts <= current_ts) {", "ok"),
 # P08
 ("p08-max", "P08", K, "    if (payload_len > RMC_MAX_PAYLOAD) {", "    if (payload_len > RMC_MAX_PACKET) {", "bug"),
 ("p08-pm", "P08", K, "                                     (pack?RMC_POLLWRITE:0),\n                                     RMC_POLLWRITE);", "                                     RMC_POLLWRITE, (pack?RMC_POLLWRITE:0));", "bug"),
 ("p08-pmcond", "P08", K, "    if (ctx->conn_vec.poll_modify)  {", "    if (ctx->conn_vec.poll_modify && !announce_flag)  {", "bug"),
 ("p08-ud", "P08", K, "        (*ctx->conn_vec.poll_modify)(ctx->user_data,", "        (*ctx->conn_vec.poll_modify)(pkg_user_data,", "bug"),
 ("p08-err", "P08", K, "        return EMSGSIZE;", "        return EINVAL;", "bug"),
 ("p08-leak", "P08", K, "    if (res)\n        free(copy);", "    if (res == EINVAL)\n        free(copy);", "bug"),
 ("p08-ok", "P08,P01,P05", K, "    if (!ctx || !payload)\n        return EINVAL;\n\n\n    if (payload_len", "    if (!payload || !ctx)\n        return EINVAL;\n    if (ctx->traffic_suspended)\n        return EBUSY;\n    if (payload_len", "ok"),
 # P09
 ("p09-lt", "P09", R, "pid <= ack.last_pid; ++pid)", "pid < ack.last_pid; ++pid)", "bug"),
 ("p09-noclamp", "P09", R, "    if (ack.last_pid >= ctx->pub_ctx.next_pid)\n        ack.last_pid = ctx->pub_ctx.next_pid - 1;\n", "", "bug"),
 ("p09-clamp", "P09", R, "        ack.last_pid = ctx->pub_ctx.next_pid - 1;", "        ack.last_pid = ctx->pub_ctx.next_pid - 2;", "bug"),
 ("p09-first", "P09", R, "    // Mark all packets in the interval", "    if (!ack.first_pid) ack.first_pid = ack.last_pid;\n    // Mark all packets in the interval", "bug"),
 ("p09-swap", "P09", R, "    // Mark all packets in the interval", "    if (ack.first_pid > ack.last_pid) { packet_id_t t = ack.first_pid; ack.first_pid = ack.last_pid; ack.last_pid = t; }\n    // Mark all packets in the interval", "bug"),
 ("p09-list-ok", "P09,W01", R, "    for (pid = ack.first_pid; pid <= ack.last_pid; ++pid)\n        rmc_pub_packet_ack(ctx, conn, pid) ;", "    pub_packet_node_t* nd = pub_packet_list_tail(&ctx->subscribers[conn->connection_index].inflight);\n    while(nd) {\n        pid = nd->data->pid;\n        nd = pub_packet_list_prev(nd);\n        if (pid >= ack.first_pid && pid <= ack.last_pid)\n            rmc_pub_packet_ack(ctx, conn, pid);\n    }", "ok"),
]

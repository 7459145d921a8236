P="rmc_pub_context.c"; S="rmc_sub_context.c"; C="rmc_connection.c"
MUTS = [
 # A01
 ("a01-pub-queue-pay", "P08", "rmc_pub_packet.c", "    if (!ctx || !payload)\n        return EINVAL;\n\n\n", "    if (!ctx)\n        return EINVAL;\n\n\n", "bug"),
 ("a01-node", "A01", P, "rmc_node_id_t rmc_pub_node_id(rmc_pub_context_t* ctx)\n{\n    if (!ctx)\n        return 0;\n", "rmc_node_id_t rmc_pub_node_id(rmc_pub_context_t* ctx)\n{\n", "bug"),
 ("a01-delete", "A01", S, "    if (!ctx)\n        return EINVAL;\n    rmc_sub_deactivate_context(ctx);", "    rmc_sub_deactivate_context(ctx);", "bug"),
 ("a01-setcb", "A01", S, "    if (!ctx)\n        return EINVAL;\n\n    ctx->packet_ready_cb", "    ctx->packet_ready_cb", "bug"),
 ("a01-close-range", "A01", C, "    if (s_ind >= conn_vec->size)", "    if (s_ind > conn_vec->size)", "bug"),
 ("a01-pkt-range", "A01", "rmc_sub_packet.c", "if (!ctx || index >= ctx->conn_vec.size)", "if (!ctx || index > ctx->conn_vec.size)", "bug"),
 ("a01-init-order", "A01", S, "    if (!context_res || !mcast_group_addr)\n        return EINVAL;\n\n    ctx = (rmc_sub_context_t*) malloc(sizeof(rmc_sub_context_t));", "    ctx = (rmc_sub_context_t*) malloc(sizeof(rmc_sub_context_t));\n    if (!context_res || !mcast_group_addr)\n        return EINVAL;\n", "bug"),
 ("a01-ok-assert", "A01", P, "rmc_node_id_t rmc_pub_node_id(rmc_pub_context_t* ctx)\n{\n    if (!ctx)\n        return 0;\n", "rmc_node_id_t rmc_pub_node_id(rmc_pub_context_t* ctx)\n{\n    assert(ctx);\n", "ok"),
 ("a01-ok-order", "A01", "rmc_sub_packet.c", "if (!ctx || index >= ctx->conn_vec.size)", "if (!(ctx && index < ctx->conn_vec.size))", "ok"),
 # A02
 ("a02-accept-port", "A02", C, "remote_port = ntohs(src_addr.sin_port)", "remote_port = src_addr.sin_port", "bug"),
 ("a02-accept-addr", "A02", C, "remote_address = ntohl(src_addr.sin_addr.s_addr)", "remote_address = src_addr.sin_addr.s_addr", "bug"),
 ("a02-connect", "A02", C, ".sin_addr = (struct in_addr) { .s_addr = htonl(address) }", ".sin_addr = (struct in_addr) { .s_addr = address }", "bug"),
 ("a02-connect-port", "A02", C, ".sin_port = htons(port)", ".sin_port = port", "bug"),
 ("a02-port0", "A02", P, "ctx->control_listen_port = ntohs(sock_addr.sin_port);", "ctx->control_listen_port = sock_addr.sin_port;", "bug"),
 ("a02-bind", "A02", P, "sock_addr.sin_addr.s_addr = htonl(ctx->control_listen_if_addr);", "sock_addr.sin_addr.s_addr = ctx->control_listen_if_addr;", "bug"),
 ("a02-mcif", "A02", P, "in_addr.s_addr = htonl(ctx->mcast_if_addr);", "in_addr.s_addr = ctx->mcast_if_addr;", "bug"),
 ("a02-mreq", "A02", S, "mreq.imr_interface.s_addr = htonl(ctx->mcast_if_addr);", "mreq.imr_interface.s_addr = ctx->mcast_if_addr;", "bug"),
 ("a02-src", "A02", "rmc_sub_read.c", "ntohl(src_addr.sin_addr.s_addr), buffer", "src_addr.sin_addr.s_addr, buffer", "bug"),
 ("a02-text", "A02", S, "ctx->mcast_if_addr = ntohl(addr.s_addr);", "ctx->mcast_if_addr = addr.s_addr;", "bug"),
 ("a02-text2", "A02", S, "ctx->mcast_if_addr = ntohl(addr.s_addr);", "ctx->mcast_if_addr = addr.s_addr;", "bug", [(S, "mreq.imr_interface.s_addr = htonl(ctx->mcast_if_addr);", "mreq.imr_interface.s_addr = ctx->mcast_if_addr;")]),
 ("a02-send", "A02", "rmc_pub_write.c", ".sin_port = htons(ctx->mcast_port),", ".sin_port = htonl(ctx->mcast_port),", "bug"),
 ("a02-ok-bswap", "A02", C, "remote_port = ntohs(src_addr.sin_port)", "remote_port = htons(src_addr.sin_port)", "ok"),
 # A03
 ("a03-cb", "A03", P, "    ctx->subscriber_disconnect_cb = 0;\n", "", "bug"),
 ("a03-thr", "A03", P, "    ctx->traffic_suspended = 0;\n", "", "bug"),
 ("a03-ready", "A03", S, "    ctx->packet_ready_cb = 0;\n", "", "bug"),
 ("a03-mcastdesc", "A03", P, "    ctx->mcast_send_descriptor = -1;\n    ctx->listen_descriptor = -1;\n\n    ctx->user_data", "    ctx->listen_descriptor = -1;\n\n    ctx->user_data", "bug"),
 ("a03-throttle", "A03", P, "    ctx->traffic_resume_threshold = resume_threshold;\n    return 0;", "    ctx->traffic_resume_threshold = suspend_threshold;\n    return 0;", "bug"),
 ("a03-throttle-le", "A03", P, "if (suspend_threshold < resume_threshold)", "if (suspend_threshold <= resume_threshold)", "bug"),
 ("a03-setcb", "A03", P, "    ctx->subscriber_disconnect_cb = disconnect_cb;", "    ctx->subscriber_connect_cb = (void*) disconnect_cb;", "bug"),
 ("a03-resend", "A03", "rmc_internal.h", "#define RMC_DEFAULT_PACKET_TIMEOUT 100000", "#define RMC_DEFAULT_PACKET_TIMEOUT 10000", "bug"),
 ("a03-leak", "A03", S, "error:\n    free(conn_vec);\n    free(ctx);\n    *context_res = 0;\n    return EINVAL;", "error:\n    free(ctx);\n    *context_res = 0;\n    return EINVAL;", "bug"),
 ("a03-sock", "A03", P, "        ((ctx->listen_descriptor != -1 )?1:0);", "        ((ctx->listen_descriptor > 0 )?1:0) - 0 * 1 + (ctx->mcast_send_descriptor == -1 ? 1 : 0);", "bug"),
 ("a03-slots", "A03", C, "    while(ind--)\n        rmc_conn_reset_connection", "    while(--ind)\n        rmc_conn_reset_connection", "bug"),
 ("a03-ttl", "A03", P, "IP_MULTICAST_TTL, &hops", "IP_TTL, &hops", "bug"),
 ("a03-default-if", "A03", P, "    if (!control_listen_if_addr)\n        control_listen_if_addr = \"0.0.0.0\";", "    if (!control_listen_if_addr)\n        control_listen_if_addr = \"127.0.0.1\";", "bug"),
 ("a03-ud", "A03", S, "    ctx->user_data = user_data;\n    return 0;", "    ctx->user_data = user_data;\n    ctx->conn_vec.size = ctx->conn_vec.size / 2;\n    return 0;", "bug"),
 ("a03-ok-memset", "A03", P, "    ctx->subscriber_connect_cb = 0;\n    ctx->subscriber_disconnect_cb = 0;\n\n    ctx->subscriber_connect_cb = 0;\n    ctx->subscriber_control_message_cb = 0;\n\n    ctx->announce_cb = 0;\n    ctx->announce_send_interval = 0;\n    ctx->announce_next_send_ts = 0;\n", "", "ok", [(P, "    *context_res = ctx;\n", "    *context_res = ctx;\n    memset(ctx, 0, sizeof(*ctx));\n")]),
 ("a03-ok-calloc", "A03", S, "ctx = (rmc_sub_context_t*) malloc(sizeof(rmc_sub_context_t));", "ctx = (rmc_sub_context_t*) calloc(1, sizeof(rmc_sub_context_t));", "ok"),
 ("a03-ok-up", "A03", C, "    ind = conn_vec->size;\n    while(ind--)\n        rmc_conn_reset_connection", "    for (ind = 0; ind < conn_vec->size; ind++)\n        rmc_conn_reset_connection", "ok"),
 ("a03-ok-any", "A03", P, "    if (!control_listen_if_addr)\n        control_listen_if_addr = \"0.0.0.0\";\n", "    ctx->control_listen_if_addr = INADDR_ANY;\n", "ok", [(P, "    if (!inet_aton(control_listen_if_addr, &addr)) {\n        RMC_LOG_WARNING(\"Could not resolve tcp listen address %s to IP address\\n\",\n                control_listen_if_addr);\n        goto error;\n    }\n    ctx->control_listen_if_addr = ntohl(addr.s_addr);", "    if (control_listen_if_addr) {\n    if (!inet_aton(control_listen_if_addr, &addr)) {\n        goto error;\n    }\n    ctx->control_listen_if_addr = ntohl(addr.s_addr);\n    }")]),
 # A04
 ("a04-conns", "A04", P, "    free(ctx->subscribers);\n    free(ctx->conn_vec.connections);", "    free(ctx->conn_vec.connections);", "bug"),
 ("a04-subs", "A04", S, "    free(ctx->publishers);\n", "", "bug"),
 ("a04-packets", "A04", P, "    while((pack = pub_next_queued_packet(&ctx->pub_ctx)))\n        rmc_pub_packet_release(ctx, pack);\n", "    if ((pack = pub_next_queued_packet(&ctx->pub_ctx)))\n        rmc_pub_packet_release(ctx, pack);\n", "bug"),
 ("a04-ready", "A04", S, "    while((pack = rmc_sub_get_next_dispatch_ready(ctx)))\n        rmc_sub_packet_dispatched(ctx, pack);\n", "    while((pack = rmc_sub_get_next_dispatch_ready(ctx)))\n        rmc_sub_packet_dispatched_keep_payload(ctx, pack);\n", "bug"),
 ("a04-ackl", "A04", S, "    rmc_index_list_empty(&ctx->pub_ack_list);\n", "", "ok"),
 ("a04-last", "A04", P, "for(ind = 0; ind <= max; ++ind)", "for(ind = 0; ind < max; ++ind)", "bug"),
 ("a04-mcast", "A04", P, "    ctx->mcast_send_descriptor = -1;\n    ctx->listen_descriptor = -1;\n\n    return 0;", "    ctx->listen_descriptor = -1;\n\n    return 0;", "bug"),
 ("a04-order", "A04", S, "    rmc_sub_deactivate_context(ctx);\n\n    free(ctx->publishers);", "    free(ctx->publishers);\n    rmc_sub_deactivate_context(ctx);\n", "bug"),
 ("a04-ok-order", "A04", P, "    free(ctx->subscribers);\n    free(ctx->conn_vec.connections);", "    free(ctx->conn_vec.connections);\n    free(ctx->subscribers);", "ok"),
 ("a04-ok-back", "A04", P, "for(ind = 0; ind <= max; ++ind)", "for(ind = max; ind != (rmc_index_t) -1; --ind)", "ok"),
 ("a04-ok-sockfirst", "A04", P, "    ctx->mcast_send_descriptor = -1;\n    ctx->listen_descriptor = -1;\n\n    return 0;", "    ctx->listen_descriptor = -1;\n    ctx->mcast_send_descriptor = -1;\n    return 0;", "ok"),
]
SR="rmc_sub_read.c"; PR="rmc_pub_read.c"; SW="rmc_sub_write.c"; PW="rmc_pub_write.c"; PR2="rmc_protocol.c"
MUTS += [
 ("a05-loop", "A05", PR, "        *op_res = RMC_READ_MULTICAST_LOOPBACK;\n", "", "bug"),
 ("a05-accept", "A05", PR, "        *op_res = RMC_READ_ACCEPT;\n", "", "bug"),
 ("a05-disc", "A05", PR2, "        *op_res = RMC_READ_DISCONNECT;\n", "", "bug", [(SR, "        *op_res = RMC_READ_DISCONNECT;\n", "")]),
 ("a05-disc-sub-only", "A05", SR, "        *op_res = RMC_READ_DISCONNECT;\n", "", "ok"),
 ("a05-notready", "A05", SR, "            *read_res = RMC_READ_MULTICAST_NOT_READY;", "            *read_res = RMC_READ_MULTICAST;", "bug"),
 ("a05-mcast", "A05", SR, "        *read_res = RMC_READ_MULTICAST;", "        *read_res = RMC_READ_MULTICAST_NEW;", "bug"),
 ("a05-new", "A05", SR, "        if (read_res)\n            *read_res = RMC_READ_MULTICAST_NOT_READY;", "        if (read_res)\n            *read_res = conn?RMC_READ_MULTICAST_NOT_READY:RMC_READ_MULTICAST_NEW;", "ok"),
 ("a05-complete", "A05", SW, "            *op_res = RMC_COMPLETE_CONNECTION;", "            *op_res = RMC_WRITE_TCP;", "bug"),
 ("a05-werr", "A05", SW, "    if (res && op_res)\n        *op_res = RMC_ERROR;\n", "", "bug"),
 ("a05-late", "A05", SR, "            res = EAGAIN;\n            goto rearm;", "            res = EAGAIN;\n            if (read_res) *read_res = RMC_ERROR;\n            goto rearm;", "bug"),
]

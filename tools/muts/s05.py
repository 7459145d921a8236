R, P, W, SU = "rmc_sub_read.c", "rmc_sub_packet.c", "rmc_sub_write.c", "sub.c"
MUTS = [
 # S05 bugs
 ("s05-free-len-user", "S05", P, "pack->payload_len, ctx->user_data);", "pack->payload_len, pack->pkg_user_data);", "bug"),
 ("s05-dispatch-nofree-record", "S05", P, "    free(pack);\n", "", "bug"),
 ("s05-free-also", "S05", P, "    else\n        free(pack->payload);", "    free(pack->payload);", "bug"),
 ("s05-uaf", "S05", P, "    if (ctx->payload_free)\n        (*ctx->payload_free)(pack", "    free(pack);\n    if (ctx->payload_free)\n        (*ctx->payload_free)(pack", "bug", [(P, "        free(pack->payload);\n", "        free(pack->payload);\n    return 0;\n")]),
 ("s05-cmp-pid", "S05", P, "return needle == haystack;", "return needle->pid == haystack->pid;", "bug"),
 ("s05-enoent", "S05", P, "        return ENOENT;", "        return 0;", "bug"),
 ("s05-alloc-len", "S05", R, "payload_copy = malloc(pack_hdr->payload_len);", "payload_copy = malloc(pack_hdr->payload_len - sizeof(packet_header_t));", "bug"),
 ("s05-alloc-hdr-tcp", "S05", R, "payload = (*ctx->payload_alloc)(pack_hdr.payload_len, ctx->user_data);", "payload = (*ctx->payload_alloc)(pack_hdr.payload_len + 1, ctx->user_data);", "bug"),
 ("s05-alloc-malloc-tcp", "S05", R, "    if (ctx->payload_alloc)\n        payload = (*", "    if (ctx->payload_alloc && pack_hdr.payload_len > 64)\n        payload = (*", "bug"),
 ("s05-dup-after-alloc", "S05", R, "    if (sub_packet_is_duplicate(pub, pack_hdr->pid)) {\n", "    payload_copy = ctx->payload_alloc ? (*ctx->payload_alloc)(pack_hdr->payload_len, ctx->user_data) : malloc(pack_hdr->payload_len);\n    if (sub_packet_is_duplicate(pub, pack_hdr->pid)) {\n", "bug", [(R, "    if (ctx->payload_alloc)\n        payload_copy = (*ctx->payload_alloc)(pack_hdr->payload_len, ctx->user_data);\n    else\n        payload_copy = malloc(pack_hdr->payload_len);\n", "")]),
 ("s05-dup-after-alloc-ok", "S05", R, "    if (sub_packet_is_duplicate(pub, pack_hdr->pid)) {\n", "    if (ctx->payload_alloc)\n        payload_copy = (*ctx->payload_alloc)(pack_hdr->payload_len, ctx->user_data);\n    else\n        payload_copy = malloc(pack_hdr->payload_len);\n    if (sub_packet_is_duplicate(pub, pack_hdr->pid)) {\n        if (ctx->payload_free) (*ctx->payload_free)(payload_copy, pack_hdr->payload_len, ctx->user_data); else free(payload_copy);\n", "ok", [(R, "    // Use the provided memory allocator to reserve memory for\n", ""), (R, "    ///\n    if (ctx->payload_alloc)\n        payload_copy = (*ctx->payload_alloc)(pack_hdr->payload_len, ctx->user_data);\n    else\n        payload_copy = malloc(pack_hdr->payload_len);\n", "")]),
 ("s05-reset-noempty", "S05", SU, "    while(sub_packet_list_pop_head(&pub->received_pid, &pack)) {\n", "    if (sub_packet_list_pop_head(&pub->received_pid, &pack)) {\n", "bug"),
 ("s05-reset-record", "S05", SU, "        _free_pending_packet(pack);\n    }", "    }\n    _free_pending_packet(pack);", "bug"),
 ("s05-close-user", "S05", R, "        pnode->data->pkg_user_data = ctx->user_data;", "        ;", "bug"),
 ("s05-close-order", "S05", R, "                        ctx->payload_free?ctx->payload_free:_payload_free_generic);\n", "                        ctx->payload_free);\n", "bug"),
 ("s05-shutdown", "S05", "rmc_sub_context.c", "    while((pack = rmc_sub_get_next_dispatch_ready(ctx)))\n        rmc_sub_packet_dispatched(ctx, pack);", "    if((pack = rmc_sub_get_next_dispatch_ready(ctx)))\n        rmc_sub_packet_dispatched(ctx, pack);", "bug"),
 ("s05-shutdown-keep", "S05", "rmc_sub_context.c", "        rmc_sub_packet_dispatched(ctx, pack);", "        rmc_sub_packet_dispatched_keep_payload(ctx, pack);", "bug"),
 ("s05-keep-free", "S05", P, "    sub_packet_list_delete(node);\n", "    sub_packet_list_delete(node);\n    if (!pack->payload_len)\n        free(pack->payload);\n", "bug"),
 ("s05-interval-leak", "S05", SU, "    sub_pid_interval_list_empty(&pub->received_interval);\n", "", "bug"),
 ("s05-ok-helper", "S05", P, "    if (ctx->payload_free)\n        (*ctx->payload_free)(pack->payload, pack->payload_len, ctx->user_data);\n    else\n        free(pack->payload);\n\n", "    void* data = pack->payload; payload_len_t len = pack->payload_len;\n    if (!ctx->payload_free)\n        free(data);\n    else\n        ctx->payload_free(data, len, ctx->user_data);\n", "ok"),
 # S06
 ("s06-self", "S06", R, '        RMC_LOG_COMMENT("Processing announce from self.");', "        return 0;", "bug"),
 ("s06-nonzero", "S06", R, "    if (res)\n        rmc_conn_connect_tcp", "    if (res == 1)\n        rmc_conn_connect_tcp", "bug"),
 ("s06-port", "S06", R, "rmc_conn_find_by_address(&ctx->conn_vec, pack_hdr->listen_ip, pack_hdr->listen_port);", "rmc_conn_find_by_node_id(&ctx->conn_vec, pack_hdr->node_id);", "bug"),
 ("s06-src", "S06", R, "ntohl(src_addr.sin_addr.s_addr), buffer", "src_addr.sin_addr.s_addr, buffer", "bug"),
 ("s06-src-always", "S06", R, "    if (pack_hdr->listen_ip == 0)\n", "    if (pack_hdr->listen_ip == 0 || pack_hdr->pid)\n", "bug"),
 ("s06-pid", "S06", R, "    if (pack_hdr->pid) {\n", "    if (pack_hdr->pid > 1) {\n", "bug"),
 ("s06-node", "S06", R, "                                        pack_hdr->node_id, &sock_ind);", "                                        ctx->node_id, &sock_ind);", "bug"),
 ("s06-connecting", "S06", R, "        if (!conn)\n            res = decode", "        if (!conn || !pack_hdr->pid)\n            res = decode", "bug"),
 ("s06-init-after", "S06", W, "        sub_init_publisher(&ctx->publishers[s_ind]);\n", "", "bug", [(W, "            (*ctx->subscription_complete_cb)(ctx, conn->remote_address, conn->remote_port, conn->node_id);\n        }\n", "            (*ctx->subscription_complete_cb)(ctx, conn->remote_address, conn->remote_port, conn->node_id);\n        }\n        sub_init_publisher(&ctx->publishers[s_ind]);\n")]),
 ("s06-init-gone", "S06", W, "        sub_init_publisher(&ctx->publishers[s_ind]);\n", "", "bug"),
 ("s06-init-maxready", "S06", SU, "    pub->max_pid_ready = 0;\n", "", "bug"),
 ("s06-cb-fail", "S06", W, "            rmc_conn_close_connection(&ctx->conn_vec, conn->connection_index);\n            return res;\n        }", "            rmc_conn_close_connection(&ctx->conn_vec, conn->connection_index);\n        }", "bug"),
 ("s06-lookup-port", "S06", "rmc_connection.c", "            remote_port == conn_vec->connections[ind].remote_port)", "            remote_port >= conn_vec->connections[ind].remote_port)", "bug"),
 ("s06-lookup-desc", "S06", "rmc_connection.c", "        if (conn_vec->connections[ind].descriptor != -1 &&\n            remote_address", "        if (remote_address", "bug"),
 ("s06-lookup-last", "S06", "rmc_connection.c", "    while(ind <= conn_vec->max_connection_ind) {", "    while(ind < conn_vec->max_connection_ind) {", "bug"),
 ("s06-ok-init", "S06", W, "        sub_init_publisher(&ctx->publishers[s_ind]);\n", "", "ok", [(W, "        if (ctx->subscription_complete_cb) {\n", "        sub_init_publisher(&ctx->publishers[s_ind]);\n        if (ctx->subscription_complete_cb) {\n")]),
 ("s06-ok-order", "S06", R, "    if (!conn || conn->mode == RMC_CONNECTION_MODE_CONNECTING) {", "    if (conn && conn->mode == RMC_CONNECTION_MODE_CONNECTING) {\n        if (read_res) *read_res = RMC_READ_MULTICAST_NOT_READY;\n        return 0;\n    }\n    if (!conn) {", "ok"),
 # S07
 ("s07-empty-only", "S07", R, "    if (ctx->packet_ready_cb && sub_packet_list_size(&ctx->dispatch_ready) != packet_ready_sz)\n        (*ctx->packet_ready_cb)(ctx);\n\n    return 0;\n}\n\n\nstatic int process_mul", "    if (ctx->packet_ready_cb && !packet_ready_sz && sub_packet_list_size(&ctx->dispatch_ready) != packet_ready_sz)\n        (*ctx->packet_ready_cb)(ctx);\n\n    return 0;\n}\n\n\nstatic int process_mul", "bug"),
 ("s07-any", "S07", R, "    if (ctx->packet_ready_cb && sub_packet_list_size(&ctx->dispatch_ready) != packet_ready_sz)\n        (*ctx->packet_ready_cb)(ctx);\n\n    return 0;\n}\n\n\nstatic int process_mul", "    if (ctx->packet_ready_cb && sub_packet_list_size(&ctx->dispatch_ready))\n        (*ctx->packet_ready_cb)(ctx);\n\n    return 0;\n}\n\n\nstatic int process_mul", "bug"),
 ("s07-before", "S07", R, "    packet_ready_sz = sub_packet_list_size(&ctx->dispatch_ready);\n    sub_process_received_packets(pub, &ctx->dispatch_ready);", "    packet_ready_sz = sub_packet_list_size(&ctx->dispatch_ready);\n    if (ctx->packet_ready_cb && pack_hdr->pid == pub->max_pid_ready + 1) (*ctx->packet_ready_cb)(ctx);\n    sub_process_received_packets(pub, &ctx->dispatch_ready);", "bug"),
 ("s07-tcp-none", "S07", R, "    if (ctx->packet_ready_cb && sub_packet_list_size(&ctx->dispatch_ready) != packet_ready_sz)\n        (*ctx->packet_ready_cb)(ctx);\n\n    return 0;\n}\n\nstatic void", "    return 0;\n}\n\nstatic void", "bug"),
 ("s07-one-more", "S07", R, "sub_packet_list_size(&ctx->dispatch_ready) != packet_ready_sz)\n        (*ctx->packet_ready_cb)(ctx);\n\n    return 0;\n}\n\n\nstatic int process_mul", "sub_packet_list_size(&ctx->dispatch_ready) == packet_ready_sz + 1)\n        (*ctx->packet_ready_cb)(ctx);\n\n    return 0;\n}\n\n\nstatic int process_mul", "bug"),
 ("s07-once", "S07", R, "        do {\n            res = multicast_read(ctx, op_res);\n        } while(!res);", "        res = multicast_read(ctx, op_res);", "ok"),
 ("s07-noloop", "S07", R, "        do {\n            res = multicast_read(ctx, op_res);\n        } while(!res);", "        res = multicast_read(ctx, op_res);", "bug", [(R, "    while(!res) {\n        len = recv", "    {\n        len = recv")]),
 ("s07-eagain", "S07", R, "        return (res == EAGAIN)?0:res;", "        return res;", "bug"),
 ("s07-err0", "S07", R, "        return (res == EAGAIN)?0:res;", "        return 0;", "bug"),
 ("s07-stop-dup", "S07", R, '                            "pid %lu  is duplicate or pre-connect straggler",\n                            pack_hdr->pid);\n        return 0;', '                            "pid %lu  is duplicate or pre-connect straggler",\n                            pack_hdr->pid);\n        return EAGAIN;', "bug"),
 ("s07-ok-tail", "S07", R, "    packet_ready_sz = sub_packet_list_size(&ctx->dispatch_ready);\n    sub_process_received_packets(pub, &ctx->dispatch_ready);\n\n    RMC", "    sub_packet_node_t* t = sub_packet_list_tail(&ctx->dispatch_ready);\n    sub_process_received_packets(pub, &ctx->dispatch_ready);\n\n    RMC", "ok", [(R, "sub_packet_list_size(&ctx->dispatch_ready) != packet_ready_sz)\n        (*ctx->packet_ready_cb)(ctx);\n\n    return 0;\n}\n\n\nstatic int process_mul", "sub_packet_list_tail(&ctx->dispatch_ready) != t)\n        (*ctx->packet_ready_cb)(ctx);\n\n    return 0;\n}\n\n\nstatic int process_mul")]),
 ("s07-ok-max", "S07", R, "    packet_ready_sz = sub_packet_list_size(&ctx->dispatch_ready);\n    sub_process_received_packets(pub, &ctx->dispatch_ready);\n\n    RMC", "    packet_id_t before = sub_packet_list_size(&ctx->dispatch_ready);\n    sub_process_received_packets(pub, &ctx->dispatch_ready);\n\n    RMC", "ok", [(R, "    if (ctx->packet_ready_cb && sub_packet_list_size(&ctx->dispatch_ready) != packet_ready_sz)\n        (*ctx->packet_ready_cb)(ctx);\n\n    return 0;\n}\n\n\nstatic int process_mul", "    if (sub_packet_list_size(&ctx->dispatch_ready) > before && ctx->packet_ready_cb)\n        (*ctx->packet_ready_cb)(ctx);\n\n    return 0;\n}\n\n\nstatic int process_mul")]),
]

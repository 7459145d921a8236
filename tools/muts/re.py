MUTS = [
 ("stale-rearm-sub", "A08", "rmc_sub_read.c", """    // Read data from publisher.
    res = rmc_conn_tcp_read(""", """    // Read data from publisher.
    rmc_poll_action_t armed = conn->action;
    res = rmc_conn_tcp_read(""", "bug", [("rmc_sub_read.c", """                                     conn->action,
                                     conn->action);
    }
    return res;""", """                                     armed,
                                     armed);
    }
    return res;""")]),
 ("complete-late-modify", "A08", "rmc_sub_write.c", """            (*ctx->subscription_complete_cb)(ctx, conn->remote_address, conn->remote_port, conn->node_id);
        }
""", """            (*ctx->subscription_complete_cb)(ctx, conn->remote_address, conn->remote_port, conn->node_id);
        }
        conn->action = RMC_POLLREAD;
        if (ctx->conn_vec.poll_modify)
            (*ctx->conn_vec.poll_modify)(ctx->user_data, conn->descriptor, s_ind, conn->action, conn->action);
""", "bug"),
 ("ready-cached-head", "A08", "rmc_sub_read.c", """    // Check if we have a packet ready callback and packets are available.
    // If that is the case, loop over the packet ready callback until they have
    if (ctx->packet_ready_cb && sub_packet_list_size(&ctx->dispatch_ready) != packet_ready_sz)
        (*ctx->packet_ready_cb)(ctx);

    return 0;
}


static int process_multicast_read""", """    // Check if we have a packet ready callback and packets are available.
    // If that is the case, loop over the packet ready callback until they have
    if (ctx->packet_ready_cb && sub_packet_list_size(&ctx->dispatch_ready) != packet_ready_sz) {
        sub_packet_t* last = sub_packet_list_tail(&ctx->dispatch_ready)->data;
        (*ctx->packet_ready_cb)(ctx);
        RMC_LOG_INDEX_COMMENT(conn->connection_index, "told about packets up to pid[%lu]", last->pid);
    }

    return 0;
}


static int process_multicast_read""", "bug"),
 ("disconnect-resume-order", "P05,A08", "rmc_pub_read.c", """    // The packets given up above may have been what kept traffic suspended.
    rmc_pub_check_resume(ctx);
    return 0;""", """    // The packets given up above may have been what kept traffic suspended.
    if (ctx->traffic_suspended)
        rmc_pub_check_resume(ctx);
    return 0;""", "ok"),
 ("queue-stale-old", "A08", "rmc_pub_write.c", """    int count = 0;

    while(pack) {""", """    int count = 0;


    while(pack) {""", "ok"),
 ("ack-ref-late", "A08", "pub.c", """    // Decrease ref counter
    pack = node->data;

    // Delete from subscriber's inflight packets
    pub_packet_list_delete(node);

    pack->ref_count--;
""", """    // Decrease ref counter
    pack = node->data;

    pack->ref_count--;
""", "bug", [("pub.c", """        // Free data using function provided with this call.
        if (pub_payload_free)
            (*pub_payload_free)(pack->payload,
                                pack->payload_len,
                                pack->pkg_user_data);

        // Delete the pack.
        _free_pending_packet(pack);
    }
}

uint32_t pub_get_un""", """        // Free data using function provided with this call.
        if (pub_payload_free)
            (*pub_payload_free)(pack->payload,
                                pack->payload_len,
                                pack->pkg_user_data);

        // Delete the pack.
        _free_pending_packet(pack);
    }

    // Delete from subscriber's inflight packets
    pub_packet_list_delete(node);
}

uint32_t pub_get_un""")]),
 ("send-batch-next", "A08", "rmc_pub_write.c", """    while(pack) {
        if ((res = send_single_multicast_packet(ctx, pack)))
            break;

        ++count;
        pack = pub_next_queued_packet(pctx);
    }
""", """    count = pub_queue_size(pctx);
    while(count-- > 0) {
        pack = pub_next_queued_packet(pctx);
        if ((res = send_single_multicast_packet(ctx, pack)))
            break;
    }
""", "ok"),
 ("send-ts-reset", "A08", "rmc_pub_write.c", """    if (!pack->ref_count)
        rmc_pub_packet_release(ctx, pack);

    res = 0;
""", """    if (!pack->ref_count)
        rmc_pub_packet_release(ctx, pack);
    RMC_LOG_INDEX_DEBUG(RMC_MULTICAST_INDEX, "sent pid[%lu]", pack_hdr.pid);

    res = 0;
""", "ok"),
 ("send-arm-early", "A08", "rmc_pub_write.c", """    pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
""", """    pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
    int more = pub_next_queued_packet(pctx) != 0;
""", "bug", [("rmc_pub_write.c", "                            pub_next_queued_packet(pctx)?RMC_POLLWRITE:0);\n    }\n    return res;", "                            (res == EAGAIN || more)?RMC_POLLWRITE:0);\n    }\n    return res;"), ("rmc_pub_write.c", "    pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());\n    int more", "    pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());\n    more"), ("rmc_pub_write.c", "    ssize_t res = 0;\n    packet_header_t pack_hdr;", "    ssize_t res = 0;\n    int more = 0;\n    packet_header_t pack_hdr;")]),
 ("accept-callback-before-init", "A08", "rmc_pub_read.c", """        pub_init_subscriber(&ctx->subscribers[s_ind], &ctx->pub_ctx, user_data_ptr(conn));
        *op_res = RMC_READ_ACCEPT;
        // Check if we should accept subscriber
        if (ctx->subscriber_connect_cb) {
            RMC_LOG_COMMENT("Invoking callback for new subscriber connection");
            if (!(*ctx->subscriber_connect_cb)(ctx, conn->remote_address, conn->remote_port))
                rmc_pub_close_connection(ctx, s_ind);
        }
""", """        *op_res = RMC_READ_ACCEPT;
        // Check if we should accept subscriber
        int wanted = 1;
        if (ctx->subscriber_connect_cb) {
            RMC_LOG_COMMENT("Invoking callback for new subscriber connection");
            wanted = (*ctx->subscriber_connect_cb)(ctx, conn->remote_address, conn->remote_port);
        }
        pub_init_subscriber(&ctx->subscribers[s_ind], &ctx->pub_ctx, user_data_ptr(conn));
        if (!wanted)
            rmc_pub_close_connection(ctx, s_ind);
""", "ok"),
 ("dispatch-count-cached", "A08", "rmc_sub_read.c", """    if (ctx->packet_ready_cb && sub_packet_list_size(&ctx->dispatch_ready) != packet_ready_sz)
        (*ctx->packet_ready_cb)(ctx);

    return 0;
}


static int process_multicast_read""", """    while (ctx->packet_ready_cb && sub_packet_list_size(&ctx->dispatch_ready) != packet_ready_sz) {
        packet_ready_sz = sub_packet_list_size(&ctx->dispatch_ready);
        (*ctx->packet_ready_cb)(ctx);
    }

    return 0;
}


static int process_multicast_read""", "bug?"),
 ("release-count-after", "A08", "rmc_pub_packet.c", """    pack = pub_next_queued_packet(&ctx->pub_ctx);


    // If this is an""", """    pack = pub_next_queued_packet(&ctx->pub_ctx);
    if (!pack)
        ctx->pub_ctx.queued.elem_count = 0;


    // If this is an""", "ok"),
 ("reset-walk-cached-prev", "A08", "pub.c", """    while((node = pub_packet_list_tail(&sub->inflight)))
        pub_packet_ack(sub, node->data->pid, pub_payload_free);
""", """    for (node = pub_packet_list_tail(&sub->inflight); node; ) {
        pub_packet_node_t* next = pub_packet_list_prev(node);
        pub_packet_ack(sub, node->data->pid, pub_payload_free);
        node = next;
    }
""", "ok"),
 ("disconnect-after-reset", "A08", "rmc_pub_read.c", """    rmc_conn_close_connection(&ctx->conn_vec, s_ind);

    RMC_LOG_INDEX_INFO(s_ind, "rmc_pub_close_connection() - ok");
    pub_reset_subscriber(""", """    uint32_t waiting = pub_queue_size(&ctx->pub_ctx);
    rmc_conn_close_connection(&ctx->conn_vec, s_ind);

    RMC_LOG_INDEX_INFO(s_ind, "rmc_pub_close_connection() - ok %u", waiting);
    pub_reset_subscriber(""", "ok"),
 ("ack-inflight-cached", "A08", "rmc_pub_packet.c", """    pub_packet_ack(&ctx->subscribers[conn->connection_index],
                   pid,""", """    pub_packet_node_t* oldest = pub_packet_list_tail(&ctx->pub_ctx.queued);
    pub_packet_ack(&ctx->subscribers[conn->connection_index],
                   pid,""", "bug", [("rmc_pub_packet.c", """_payload_free_generic);

    rmc_pub_check_resume(ctx);
""", """_payload_free_generic);

    if (oldest != pub_packet_list_tail(&ctx->pub_ctx.queued))
        ctx->traffic_suspended = 0;
    rmc_pub_check_resume(ctx);
""")]),
]

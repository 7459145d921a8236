S="rmc_sub_context.c"; P="rmc_pub_context.c"; SR="rmc_sub_read.c"; PR="rmc_pub_read.c"; SW="rmc_sub_write.c"; PW="rmc_pub_write.c"; CN="rmc_connection.c"
MUTS=[
 ("a06-ctl", "A06", SW, "    if (available < 1 + sizeof(cmd_control_message_t) + payload_len + 1) {", "    if (available < 1 + sizeof(cmd_control_message_t) + 2 * payload_len + 1) {", "bug"),
 ("a06-half", "A06", SW, "    if (available < 1 + sizeof(ack)) {", "    if (available < sizeof(conn->write_buf_data) / 2) {", "bug"),
 ("a06-refuse", "A06", SW, "    if (!ctx  || !payload || !payload_len)\n        return EINVAL;\n\n    conn = rmc_conn_find_by_node_id", "    if (!ctx  || !payload || payload_len)\n        return EINVAL;\n\n    conn = rmc_conn_find_by_node_id", "bug"),
 ("a06-close", "A06", SR, "        ctx->payload_free?ctx->payload_free:_payload_free_generic);\n    return 0;", "        ctx->payload_free?ctx->payload_free:_payload_free_generic);\n    return 1;", "bug"),
 ("a06-slack", "A06", SW, "    if (available < 1 + sizeof(ack)) {", "    if (available <= 1 + sizeof(ack)) {", "ok"),
 ("a06-zero", "A06", S, "    if (!ctx", "    if (!ctx", "ok"),
 ("a06-node0", "A06", P, "    if (!control_listen_if_addr)\n        control_listen_if_addr = \"0.0.0.0\";\n", "    if (!control_listen_if_addr)\n        return EINVAL;\n", "bug"),
 ("a06-inactive", "A06", PW, "    if (ctx->mcast_send_descriptor == -1)\n        return ENOTCONN;", "    if (ctx->mcast_send_descriptor == -1)\n        return 0;", "bug"),
 ("a06-inactive-noguard", "A06", PW, "    if (ctx->mcast_send_descriptor == -1)\n        return ENOTCONN;", "", "ok"),
 ("a06-rguard", "A06", PR, "        if (ctx->mcast_send_descriptor == -1) {\n            *op_res = RMC_ERROR;\n            return ENOTCONN;\n        }\n", "", "ok"),
]

MUTS = [
 ("ack-len", "W01", "rmc_pub_read.c", "if (circ_buf_in_use(&conn->read_buf) < sizeof(ack) + 1)", "if (circ_buf_in_use(&conn->read_buf) < sizeof(ack))", "bug"),
 ("ack-free", "W01", "rmc_pub_read.c", "circ_buf_free(&conn->read_buf, sizeof(ack) + 1, 0);", "circ_buf_free(&conn->read_buf, sizeof(ack), 0);", "bug"),
 ("ctl-nopay", "W01", "rmc_pub_read.c", "    if (circ_buf_in_use(&conn->read_buf) < sizeof(msg) + 1 + msg.payload_len)\n        return EAGAIN;\n", "", "bug"),
 ("ctl-off", "W01", "rmc_pub_read.c", "if (circ_buf_in_use(&conn->read_buf) < sizeof(msg) + 1 + msg.payload_len)", "if (circ_buf_in_use(&conn->read_buf) <= sizeof(msg) + 1 + msg.payload_len)", "bug"),
 ("ctl-free", "W01", "rmc_pub_read.c", "circ_buf_free(&conn->read_buf, sizeof(msg) + 1 + msg.payload_len, 0);", "circ_buf_free(&conn->read_buf, sizeof(msg) + msg.payload_len, 0);", "bug"),
 ("ctl-free-cb-only", "W01", "rmc_pub_read.c", "    // Free it all\n    circ_buf_free(&conn->read_buf, sizeof(msg) + 1 + msg.payload_len, 0);", "    if (ctx->subscriber_control_message_cb) circ_buf_free(&conn->read_buf, sizeof(msg) + 1 + msg.payload_len, 0);", "bug"),
 ("ctl-early", "W01", "rmc_pub_read.c", "    // Do we have enough data for payload?\n", "    if (ctx->subscriber_connect_cb && msg.payload_len == 7) (*ctx->subscriber_connect_cb)(ctx, 0, 0);\n", "bug"),
 ("ctl-args", "W01", "rmc_pub_read.c", "                                   conn->remote_port,\n                                   conn->node_id,\n                                   payload,", "                                   ctx->control_listen_port,\n                                   conn->node_id,\n                                   payload,", "bug"),
 ("ctl-payload-off", "W01", "rmc_pub_read.c", "circ_buf_read_offset(&conn->read_buf, 1 + sizeof(msg), (uint8_t*) payload", "circ_buf_read_offset(&conn->read_buf, sizeof(msg), (uint8_t*) payload", "bug"),
 ("ctl-twice", "W01", "rmc_pub_read.c", "    // Free it all\n", "    if (ctx->subscriber_control_message_cb && !msg.payload_len) (*ctx->subscriber_control_message_cb)(ctx, conn->remote_address, conn->remote_port, conn->node_id, &msg, 0);\n", "bug"),
 ("pkt-free-first", "W01", "rmc_sub_read.c", "    // Now we know how big the payload is.", "    circ_buf_free(&conn->read_buf, 1 + sizeof(packet_header_t), 0);\n    if (circ_buf_in_use(&conn->read_buf) < pack_hdr.payload_len) return EAGAIN;\n    if (0)\n    // Now we know how big the payload is.", "bug", [("rmc_sub_read.c", "    // We have enough data to process the entire packet\n    // Free command byte and packet header from read buffer.\n    circ_buf_free(&conn->read_buf, 1 + sizeof(packet_header_t), 0);\n", "")]),
 ("pkt-dup-nofree", "W01", "rmc_sub_read.c", "        circ_buf_free(&conn->read_buf, pack_hdr.payload_len, 0);\n        return 0;", "        return 0;", "bug"),
 ("pkt-dup-early", "W01", "rmc_sub_read.c", "    // Is the packet a duplicate?\n    if (", "    if (pack_hdr.pid < 2 || ", "bug"),
 ("pkt-pub0", "W01", "rmc_sub_read.c", "    sub_packet_received(&ctx->publishers[conn->connection_index],\n", "    sub_packet_received(&ctx->publishers[0],\n", "bug"),
 ("pkt-read-len", "W01", "rmc_sub_read.c", "circ_buf_read(&conn->read_buf, payload, pack_hdr.payload_len, 0);", "circ_buf_read(&conn->read_buf, payload, pack_hdr.payload_len & 0x7fff, 0);", "bug"),
 ("disp-once", "W01", "rmc_protocol.c", "        if (!in_use) {\n            return 0;", "        if (in_use < 2) {\n            return 0;", "bug"),
 ("disp-eproto", "W01", "rmc_protocol.c", "            return EPROTO;", "            return 0;", "bug"),
 ("disp-stale", "W01", "rmc_protocol.c", "        res = circ_buf_read(&conn->read_buf, &command, 1, 0);\n        if (res) {\n            RMC_LOG_INDEX_ERROR(s_ind, \"Circular buffer read failed: %s\", strerror(errno));\n            *op_res = RMC_ERROR;\n            return res;\n        }\n    }", "        if (in_use > 0x4000) res = circ_buf_read(&conn->read_buf, &command, 1, 0);\n    }", "bug"),
 ("disp-swallow", "W01", "rmc_protocol.c", "                return res;\n            }\n            break;", "                return (res == EAGAIN)?0:res;\n            }\n            break;", "bug"),
 ("disp-wrongcode", "W01", "rmc_pub_read.c", "{ .command = RMC_CMD_ACK_INTERVAL, .dispatch = process_cmd_ack_interval }", "{ .command = RMC_CMD_ACK_INTERVAL, .dispatch = process_control_message }", "bug", [("rmc_pub_read.c","{ .command = RMC_CMD_CONTROL_MESSAGE, .dispatch = process_control_message }","{ .command = RMC_CMD_CONTROL_MESSAGE, .dispatch = process_cmd_ack_interval }")]),
 ("disp-mask", "W01", "rmc_protocol.c", "if (command != current->command) {", "if ((command & 0x7f) != current->command) {", "bug"),
 ("disp-missing", "W01", "rmc_pub_read.c", "        { .command = RMC_CMD_CONTROL_MESSAGE, .dispatch = process_control_message },\n", "", "bug"),
 ("pub-eproto-lost", "W01", "rmc_pub_read.c", "                                     conn->action);\n\n    return res;", "                                     conn->action);\n\n    return (res == EPROTO)?0:res;", "bug"),
 ("ack-off", "W01", "rmc_pub_read.c", "circ_buf_read_offset(&conn->read_buf, 1, (uint8_t*) &ack", "circ_buf_read_offset(&conn->read_buf, 0, (uint8_t*) &ack", "bug"),
 ("ok-for", "W01", "rmc_protocol.c", "        while(current->dispatch) {\n            if (command != current->command) {\n                ++current;\n                continue;\n            }\n", "        for (; current->dispatch; current++) {\n            if (command != current->command)\n                continue;\n", "ok"),
 ("ok-idx", "W01", "rmc_protocol.c", "        rmc_conn_command_dispatch_t* current = dispatch_table;\n", "        rmc_conn_command_dispatch_t* current = 0;\n        int i = 0;\n        while (dispatch_table[i].dispatch && dispatch_table[i].command != command) i++;\n        current = &dispatch_table[i];\n", "ok"),
 ("ok-helper", "W01", "rmc_protocol.c", "int rmc_conn_process_tcp_read(", "static rmc_conn_command_dispatch_t* find_cmd(rmc_conn_command_dispatch_t* t, uint8_t c)\n{\n    for (; t->dispatch; t++) if (t->command == c) return t;\n    return 0;\n}\nint rmc_conn_process_tcp_read(", "ok",
   [("rmc_protocol.c", "        rmc_conn_command_dispatch_t* current = dispatch_table;\n", "        rmc_conn_command_dispatch_t* current = find_cmd(dispatch_table, command);\n        if (!current) {\n            *op_res = RMC_ERROR;\n            return EPROTO;\n        }\n")]),
 ("ok-needed", "W01", "rmc_sub_read.c", "    // Now we know how big the payload is. Check if we have enough memory for an atomic\n    // process or reject.\n    if (circ_buf_in_use(&conn->read_buf) < 1 + sizeof(packet_header_t) + pack_hdr.payload_len) {", "    const uint32_t needed = 1 + sizeof(packet_header_t) + pack_hdr.payload_len;\n    const uint32_t got = circ_buf_in_use(&conn->read_buf);\n    if (needed > got) {", "ok"),
 ("ok-freeonce", "W01", "rmc_sub_read.c", "    // Free command byte and packet header from read buffer.\n    circ_buf_free(&conn->read_buf, 1 + sizeof(packet_header_t), 0);\n", "", "ok",
   [("rmc_sub_read.c", "        circ_buf_free(&conn->read_buf, pack_hdr.payload_len, 0);\n        return 0;", "        circ_buf_free(&conn->read_buf, 1 + sizeof(packet_header_t) + pack_hdr.payload_len, 0);\n        return 0;"),
    ("rmc_sub_read.c", "    circ_buf_read(&conn->read_buf, payload, pack_hdr.payload_len, 0);\n    circ_buf_free(&conn->read_buf, pack_hdr.payload_len, 0);", "    circ_buf_read_offset(&conn->read_buf, 1 + sizeof(packet_header_t), payload, pack_hdr.payload_len, 0);\n    circ_buf_free(&conn->read_buf, 1 + sizeof(packet_header_t) + pack_hdr.payload_len, 0);")]),
 ("ok-ackhelper", "W01", "rmc_pub_read.c", "    for (pid = ack.first_pid; pid <= ack.last_pid; ++pid)\n        rmc_pub_packet_ack(ctx, conn, pid) ;", "    pid = ack.first_pid;\n    while (pid <= ack.last_pid) {\n        rmc_pub_packet_ack(ctx, conn, pid);\n        pid += 1;\n    }", "ok"),
 ("ok-ctl-malloc", "W01", "rmc_pub_read.c", "        char payload[msg.payload_len];\n", "        char* payload = alloca(msg.payload_len);\n", "ok"),
 ("ok-rearm-helper", "W01", "rmc_pub_read.c", "int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind", "static void rearm(rmc_pub_context_t* ctx, rmc_connection_t* conn, rmc_index_t s_ind, rmc_poll_action_t o)\n{\n    if (ctx->conn_vec.poll_modify)\n        (*ctx->conn_vec.poll_modify)(ctx->user_data, conn->descriptor, s_ind, o, conn->action);\n}\nint rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind", "ok",
   [("rmc_pub_read.c", "    if (ctx->conn_vec.poll_modify)\n        (*ctx->conn_vec.poll_modify)(ctx->user_data,\n                                     conn->descriptor,\n                                     s_ind,\n                                     old_action,\n                                     conn->action);\n\n    return res;", "    rearm(ctx, conn, s_ind, old_action);\n    return res;")]),
]

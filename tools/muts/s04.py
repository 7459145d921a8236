R, P, T, SU = "rmc_sub_read.c", "rmc_sub_packet.c", "rmc_sub_timeout.c", "sub.c"
MUTS = [
 ("s04-direct", "S04", R, "    rmc_sub_packet_received(ctx,\n                            conn->connection_index,\n                            pack_hdr->pid,\n                            payload_copy, pack_hdr->payload_len,\n", "    sub_packet_received(pub, pack_hdr->pid,\n                            payload_copy, pack_hdr->payload_len, 1,\n", "bug"),
 ("s04-first", "S04", P, "    if (first_pending)\n", "    if (first_pending && !rmc_index_list_size(&ctx->pub_ack_list))\n", "bug"),
 ("s04-always", "S04", P, "    if (first_pending)\n", "", "bug"),
 ("s04-before", "S04", P, "    first_pending = !sub_oldest_unacknowledged_packet(pub);\n", "    first_pending = !sub_oldest_unacknowledged_packet(pub);\n    if (first_pending)\n        rmc_sub_schedule_acks(ctx, index);\n", "bug", [(P, "                        user_data_u32(index));\n\n    // If the", "                        user_data_u32(index));\n    first_pending = 0;\n\n    // If the")]),
 ("s04-cmp", "S04", P, "    return (n_oldest < o_oldest)?-1:", "    return (n_oldest <= o_oldest)?-1:", "ok"),
 ("s04-cmp2", "S04", P, "    return (n_oldest < o_oldest)?-1:", "    return (n_oldest > o_oldest)?-1:", "bug", [(P, "        ((n_oldest > o_oldest)?1:0);", "        ((n_oldest < o_oldest)?1:0);")]),
 ("s04-sorted-fwd", "S04", P, "    rmc_index_list_insert_sorted_rev(", "    rmc_index_list_insert_sorted(", "bug"),
 ("s04-pushtail-ok", "S04", P, "    rmc_index_list_insert_sorted_rev(&ctx->pub_ack_list,\n                                     index,\n                                     _compare_oldest_unackowledged_packet,\n                                     ctx);", "    rmc_index_list_push_tail(&ctx->pub_ack_list, index);", "bug"),
 ("s04-oldest-head", "S04", SU, "    while((inode = sub_pid_interval_list_next(inode)))\n        if (inode->data.receive_ts < oldest)\n            oldest = inode->data.receive_ts;\n", "", "bug"),
 ("s04-oldest-newest", "S04", SU, "        if (inode->data.receive_ts < oldest)", "        if (inode->data.receive_ts > oldest)", "bug"),
 ("s04-continue", "S04", T, "        if (sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout > current_ts) {", "        if (sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout >= current_ts) {", "bug"),
 ("s04-return-early", "S04", T, "        if (sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout > current_ts) {", "        if (sub_pid_interval_list_head(&pub->received_interval)->data.receive_ts + ctx->ack_timeout > current_ts) {", "bug"),
 ("s04-delete-first", "S04", T, "            sub_pid_interval_list_delete(pid_intv);\n            progress = 1;", "            progress = 1;", "bug", [(T, "            if (pub_res) {\n", "            sub_pid_interval_list_delete(pid_intv);\n            if (pub_res) {\n")]),
 ("s04-drop", "S04", T, "        if (!pub_res || progress) {", "        {", "bug", [(T, "            if (pub_res)\n                rmc_sub_schedule_acks(ctx, index);\n", "")]),
 ("s04-noresched", "S04", T, "            if (pub_res)\n                rmc_sub_schedule_acks(ctx, index);\n", "", "bug"),
 ("s04-one", "S04", T, "            sub_pid_interval_list_delete(pid_intv);\n            progress = 1;", "            sub_pid_interval_list_delete(pid_intv);\n            progress = 1;\n            break;", "bug"),
 ("s04-stop-on-error", "S04", T, "        if (pub_res && !res)\n            res = pub_res;\n", "        if (pub_res && !res)\n            res = pub_res;\n        if (pub_res && !progress) return res;\n", "bug"),
 ("s04-close-head", "S04", R, "    inode = rmc_index_list_find_node(&ctx->pub_ack_list, s_ind, _compare_index, 0);\n", "    inode = rmc_index_list_head(&ctx->pub_ack_list);\n    if (inode && inode->data != s_ind) inode = 0;\n", "bug"),
 ("s04-close-none", "S04", R, "    if (inode)\n        rmc_index_list_delete(inode);\n", "", "bug"),
 ("s04-close-early", "S04", R, "    res = rmc_conn_close_connection(&ctx->conn_vec, s_ind);\n    if (res)\n        return res;\n", "", "bug", [(R, "    if (inode)\n        rmc_index_list_delete(inode);\n", "    if (inode)\n        rmc_index_list_delete(inode);\n    res = rmc_conn_close_connection(&ctx->conn_vec, s_ind);\n    if (res)\n        return res;\n")]),
 ("s04-ok-loop", "S04", SU, "    while((inode = sub_pid_interval_list_next(inode)))\n        if (inode->data.receive_ts < oldest)\n            oldest = inode->data.receive_ts;\n", "    for (inode = sub_pid_interval_list_next(inode); inode; inode = sub_pid_interval_list_next(inode)) {\n        usec_timestamp_t ts = inode->data.receive_ts;\n        oldest = ts < oldest ? ts : oldest;\n    }\n", "ok"),
 ("s04-ok-find", "S04", P, "    if (first_pending)\n        rmc_sub_schedule_acks(ctx, index);", "    if (!first_pending)\n        return 0;\n    rmc_sub_schedule_acks(ctx, index);", "ok"),
 ("s04-ok-timeout", "S04", T, "        if (sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout > current_ts) {", "        usec_timestamp_t due = sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout;\n        if (!(current_ts >= due)) {", "ok"),
 ("s04-other-conn", "S04", P, "    conn = &ctx->conn_vec.connections[index];", "    conn = rmc_conn_find_by_node_id(&ctx->conn_vec, ctx->conn_vec.connections[index].node_id);", "bug"),
]

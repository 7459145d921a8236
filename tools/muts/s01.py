def B(n, p, o, w, x="bug", f="sub.c", ex=()): return (n, p, f, o, w, x) + ((list(ex),) if ex else ())
MUTS = [
 B("p-break", "S01", "        if (pub->max_pid_ready &&\n            node->data->pid != pub->max_pid_ready + 1)\n            break;", "        if (pub->max_pid_ready &&\n            node->data->pid > pub->max_pid_ready + 2)\n            break;"),
 B("p-one", "S01", "        node = sub_packet_list_head(&pub->received_pid);\n        pub->max_pid_ready++;", "        pub->max_pid_ready++;\n        node = (sub_packet_list_size(&pub->received_pid) > 1)?sub_packet_list_head(&pub->received_pid):0;"),
 B("p-head", "S01", "sub_packet_list_push_tail_node(dispatch_ready, node);", "sub_packet_list_push_head_node(dispatch_ready, node);"),
 B("p-base", "S01", "        pub->max_pid_ready = node->data->pid - 1;", "        pub->max_pid_ready = pub->max_pid_received - 1 + 0 * node->data->pid; if (node->data->pid > 1) pub->max_pid_ready--;"),
 B("p-max", "S01", "        pub->max_pid_ready++;", "        pub->max_pid_ready = pub->max_pid_received;"),
 B("r-len", "S01", "    pack->payload_len = payload_len;", "    pack->payload_len = payload_len & 0x7FFF;"),
 B("r-cmp", "S01", "    return (n_dt->pid < o_dt->pid)?-1:\n        ((n_dt->pid > o_dt->pid)?1:", "    return ((int) n_dt->pid < (int) o_dt->pid)?-1:\n        (((int) n_dt->pid > (int) o_dt->pid)?1:"),
 B("r-cmp2", "S01", "    return (n_dt->pid < o_dt->pid)?-1:\n        ((n_dt->pid > o_dt->pid)?1:\n         0);", "    return (int) (n_dt->pid - o_dt->pid);"),
 B("r-fwd", "S01", "    sub_packet_list_insert_sorted_rev(&pub->received_pid,", "    sub_packet_list_insert_sorted(&pub->received_pid,"),
 B("q-tail", "S01", "        return sub_packet_list_head(&ctx->dispatch_ready)->data;", "        return sub_packet_list_tail(&ctx->dispatch_ready)->data;", f="rmc_sub_packet.c"),
 B("noproc", "S01", "    packet_ready_sz = sub_packet_list_size(&ctx->dispatch_ready);\n    sub_process_received_packets(pub, &ctx->dispatch_ready);", "    packet_ready_sz = sub_packet_list_size(&ctx->dispatch_ready);\n    if (pack_hdr->pid == pub->max_pid_ready + 1)\n        sub_process_received_packets(pub, &ctx->dispatch_ready);", f="rmc_sub_read.c"),
 B("ok-noproc", "S01", "    sub_process_received_packets(pub, &ctx->dispatch_ready);", "    if (!pub->max_pid_ready || pack_hdr->pid == pub->max_pid_ready + 1)\n        sub_process_received_packets(pub, &ctx->dispatch_ready);", "ok", f="rmc_sub_read.c"),
 B("ok-tcp", "S02", "    if (sub_packet_is_duplicate(&ctx->publishers[conn->connection_index], pack_hdr.pid)) {", "    if (pack_hdr.pid <= ctx->publishers[conn->connection_index].max_pid_received && sub_packet_is_duplicate(&ctx->publishers[conn->connection_index], pack_hdr.pid)) {", "ok", f="rmc_sub_read.c"),
 B("idx", "S01", "                        rmc_usec_monotonic_timestamp(),\n                        user_data_u32(index));", "                        rmc_usec_monotonic_timestamp(),\n                        pkg_user_data);", "ok", f="rmc_sub_packet.c"),
 B("idx2", "S01", "                        rmc_usec_monotonic_timestamp(),\n                        user_data_u32(index));", "                        rmc_usec_monotonic_timestamp(),\n                        user_data_u32(pid));", f="rmc_sub_packet.c"),
 B("ok-proc", "S01,S02,S03", "        sub_packet_list_unlink(node);\n\n        sub_packet_list_push_tail_node(dispatch_ready, node);\n        node = sub_packet_list_head(&pub->received_pid);\n        pub->max_pid_ready++;", "        sub_packet_t* pack = 0;\n        pub->max_pid_ready = node->data->pid;\n        sub_packet_list_pop_head(&pub->received_pid, &pack);\n        sub_packet_list_push_tail(dispatch_ready, pack);\n        node = sub_packet_list_head(&pub->received_pid);", "ok"),
 B("ok-for", "S01", "    while(node) {\n        if (pub->max_pid_ready &&\n            node->data->pid != pub->max_pid_ready + 1)\n            break;", "    for(;node && node->data->pid == pub->max_pid_ready + 1;) {", "ok"),
 B("d-le", "S02", "    if (pid <= pub->max_pid_ready) {", "    if (pid < pub->max_pid_ready) {"),
 B("d-stop", "S02", "    if (needle->pid > haystack->pid) {", "    if (needle->pid >= haystack->pid - 1) {"),
 B("d-stop2", "S02", "    if (needle->pid > haystack->pid) {", "    if (needle->pid < haystack->pid) {"),
 B("d-recv", "S02", "    if (pid <= pub->max_pid_ready) {", "    if (pid <= pub->max_pid_ready || pid < pub->max_pid_received - 2) {"),
 B("d-fast", "S02", "    sub_packet_list_find_node_rev(&pub->received_pid,", "    if (pid == pub->max_pid_received) return 1;\n    sub_packet_list_find_node_rev(&pub->received_pid,", "bug"),
 B("d-alloc", "S02", "    // Is the packet a duplicate?\n    if (sub", "    if (ctx->payload_alloc)\n        payload = (*ctx->payload_alloc)(pack_hdr.payload_len, ctx->user_data);\n    if (sub", f="rmc_sub_read.c"),
 B("d-tcp", "S02", "    if (sub_packet_is_duplicate(&ctx->publishers[conn->connection_index], pack_hdr.pid)) {", "    if (pack_hdr.pid < ctx->publishers[conn->connection_index].max_pid_received && sub_packet_is_duplicate(&ctx->publishers[conn->connection_index], pack_hdr.pid)) {", f="rmc_sub_read.c"),
 B("d-ack", "S02,S03", "                            pack_hdr->pid);\n        return 0;\n    }\n\n    // Use the provided", "                            pack_hdr->pid);\n        sub_packet_add_to_received_interval(pub, pack_hdr->pid);\n        return 0;\n    }\n\n    // Use the provided", f="rmc_sub_read.c"),
 B("ok-dup", "S02", "    if (is_duplicate == 1) {\n        return 1;\n    }\n    return 0;", "    return is_duplicate;", "ok"),
 B("ok-dup2", "S02", "    sub_packet_list_find_node_rev(&pub->received_pid,\n                                  &cmp_pack,\n                                  _is_duplicate, &is_duplicate);", "    for (sub_packet_node_t* n = sub_packet_list_head(&pub->received_pid); n; n = sub_packet_list_next(n))\n        if (n->data->pid == cmp_pack.pid) is_duplicate = 1;", "ok"),
 B("i-gap", "S03", "        if (pid > inode->data.last_pid + 1) {", "        if (pid > inode->data.last_pid + 2) {"),
 B("i-coll", "S03", "                inode->data.last_pid = inext->data.last_pid;\n", "                inode->data.last_pid = inext->data.first_pid;\n", "ok"),   # dead code: the scan from the tail meets inext first
 B("i-ts", "S03", "                    (inode->data.receive_ts < iprev->data.receive_ts)?", "                    (inode->data.receive_ts > iprev->data.receive_ts)?"),
 B("i-ts2", "S03", "            inode->data.first_pid = pid;\n", "            inode->data.first_pid = pid;\n            inode->data.receive_ts = rmc_usec_monotonic_timestamp();\n"),
 B("i-first", "S03", "        if (inode->data.first_pid - 1 == pid) {", "        if (inode->data.first_pid - 1 == pid && inode->data.last_pid > pid + 1) {"),
 B("i-tail", "S03", "    sub_pid_interval_list_push_head(&pub->received_interval,", "    sub_pid_interval_list_push_tail(&pub->received_interval,"),
 B("i-tcp", "S03", "                        payload, pack_hdr.payload_len,\n                        0,", "                        payload, pack_hdr.payload_len,\n                        pack_hdr.pid == 1,", f="rmc_sub_read.c"),
 B("i-flag", "S03", "    if (store_receive_interval_data)", "    if (store_receive_interval_data && pid >= pub->max_pid_received)"),
 B("i-mc", "S03", "                        1, // We want to add", "                        pid > 1, // We want to add", f="rmc_sub_packet.c"),
 B("ok-ivl", "S03", "        if (inode->data.last_pid + 1 == pid) {\n            sub_pid_interval_node_t* inext = 0;\n\n            inode->data.last_pid = pid;", "        if (pid == 1 + inode->data.last_pid) {\n            sub_pid_interval_node_t* inext = 0;\n\n            inode->data.last_pid++;", "ok"),
 B("ok-inline", "S03", "    if (store_receive_interval_data)\n        sub_packet_add_to_received_interval(pub, pid);\n    return 1;", "    if (!store_receive_interval_data)\n        return 1;\n    (void) sub_packet_add_to_received_interval(pub, pid);\n    return 1;", "ok"),
]

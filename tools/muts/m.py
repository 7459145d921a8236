P="rmc_pub_context.c"; S="rmc_sub_context.c"; C="rmc_connection.c"
MUTS = [
 ("m04-now", "M04", "rmc_sub_read.c", "    usec_timestamp_t now = rmc_usec_monotonic_timestamp();\n    usec", "    int32_t now = rmc_usec_monotonic_timestamp();\n    usec", "bug"),
 ("m04-ready", "M04", "rmc_sub_read.c", "    uint32_t packet_ready_sz = 0;\n\n    // Skip", "    uint8_t packet_ready_sz = 0;\n\n    // Skip", "bug"),
 ("m04-len", "M04", "rmc_sub_read.c", "uint32_t src_addr, uint8_t* buffer, int len)", "uint32_t src_addr, uint8_t* buffer, int16_t len)", "bug"),
 ("m04-mode", "M04", "rmc_pub_write.c", "    ssize_t res = 0;\n", "    int8_t res = 0;\n", "bug"),
 ("m04-send", "M04", "rmc_protocol.c", "    ssize_t res = 0;", "    int16_t res = 0;", "bug"),
 ("m04-ann", "M04", "rmc_pub_timeout.c", "    usec_timestamp_t current_ts = rmc_usec_monotonic_timestamp();\n    pub_sub", "    uint32_t current_ts = rmc_usec_monotonic_timestamp();\n    pub_sub", "bug"),
 ("m04-cnt", "K02", "rmc_connection.c", "    rmc_index_t ind = 0;\n", "    uint8_t ind = 0;\n", "bug"),

 ("m03-conn", "M03", "rmc_pub_timeout.c", "        payload_len_t len = 0;\n        uint8_t send", "        payload_len_t len;\n        uint8_t send", "bug"),
 ("m03-send", "M03", "rmc_pub_timeout.c", "uint8_t send_announce = 1;", "uint8_t send_announce;", "bug"),
 ("m03-res", "M03", "rmc_sub_read.c", "    rmc_index_t sock_ind = 0;\n    int res = 1;\n", "    rmc_index_t sock_ind = 0;\n    int res;\n", "bug"),
 ("m03-len", "M03", "rmc_connection.c", "    socklen_t addr_len = sizeof(src_addr);", "    socklen_t addr_len;", "bug"),
 ("m01-addrlen", "M01", "rmc_connection.c", "    socklen_t addr_len = sizeof(src_addr);", "    socklen_t addr_len = 64;", "bug"),
 ("m01-addrlen2", "M01", "rmc_sub_read.c", "    socklen_t addr_len = sizeof(src_addr);", "    socklen_t addr_len = sizeof(buffer);", "bug"),
 ("m03-rec", "M03", "sub.c", ".receive_ts = rmc_usec_monotonic_timestamp()", "", "ok"),
 ("m03-ann", "M03", "rmc_pub_context.c", "    ctx->announce_next_send_ts = 0;\n", "", "ok"),

 ("m01-index8", "M01", "rmc_sub_read.c", "    rmc_index_t sock_ind = 0;\n", "    uint8_t sock_ind = 0;\n", "bug"),
 ("m01-annlen", "M01", "rmc_pub_timeout.c", "        if (len > sizeof(buffer))\n            len = sizeof(buffer);\n", "", "bug"),
 ("m01-annbuf", "M01", "rmc_pub_timeout.c", "char buffer[RMC_MAX_PAYLOAD];", "char buffer[1024];", "ok"),
 ("m01-recvbuf", "M01", "rmc_sub_read.c", "                       buffer, sizeof(buffer),\n", "                       buffer, RMC_MAX_PACKET + 8,\n", "bug"),
 ("m01-dgramlen", "M01", "rmc_sub_read.c", "    if (len < sizeof(packet_header_t) + pack_hdr->payload_len) {", "    if (len < pack_hdr->payload_len) {", "bug"),
 ("m01-size", "M01,A03", P, "malloc(sizeof(pub_subscriber_t) * max_subscribers)", "malloc(sizeof(pub_subscriber_t*) * max_subscribers)", "bug"),
 ("m01-copy", "M01", "rmc_sub_read.c", "payload_copy = malloc(pack_hdr->payload_len);", "payload_copy = malloc((uint8_t) pack_hdr->payload_len);", "bug"),
 ("m01-ctl", "M01", "rmc_pub_read.c", "char payload[msg.payload_len];", "char payload[4096];", "bug"),
 ("m02-ready", "M02", "rmc_sub_read.c", "    if (ctx->packet_ready_cb && sub_packet_list_size(&ctx->dispatch_ready) != packet_ready_sz)\n        (*ctx->packet_ready_cb)(ctx);\n\n    return 0;\n}\n\n\nstatic int process_multicast", "    if (sub_packet_list_size(&ctx->dispatch_ready) != packet_ready_sz)\n        (*ctx->packet_ready_cb)(ctx);\n\n    return 0;\n}\n\n\nstatic int process_multicast", "bug"),
 ("m02-ann", "M02", "rmc_sub_read.c", "    if (ctx->announce_cb) {", "    if (1 || ctx->announce_cb) {", "bug"),
 ("m02-disc", "M02", "rmc_pub_read.c", "if (ctx->subscriber_disconnect_cb", "if (ctx->subscriber_connect_cb", "bug"),
 ("m02-free", "M02", "rmc_sub_packet.c", "    if (ctx->payload_free)", "    if (ctx->payload_alloc)", "bug"),
 ("m02-poll", "M02", "rmc_sub_write.c", "    if (ctx->conn_vec.poll_modify)\n        (", "    if (ctx->conn_vec.poll_add)\n        (", "bug"),
 ("m02-accept", "M02", C, "    if (conn_vec->poll_modify)", "    if (conn_vec->poll_add)", "bug"),
 ("m02-deact", "M02", P, "    if (ctx->conn_vec.poll_remove) {", "    if (ctx->conn_vec.poll_add) {", "bug"),
]
MUTS += [("m04-slot", "K02", "rmc_connection.c", "static rmc_index_t _get_free_slot(rmc_connection_vector_t* conn_vec)\n{\n    rmc_index_t ind = 0;", "static rmc_index_t _get_free_slot(rmc_connection_vector_t* conn_vec)\n{\n    uint8_t ind = 0;", "bug"),
 ("m04-slot-ret", "K02", "rmc_connection.c", "static rmc_index_t _get_free_slot(", "static uint8_t _get_free_slot(", "bug"),
 ("m04-slot-from-max", "K02", "rmc_connection.c", "    if (c_ind == RMC_NIL_INDEX)\n        return ENOMEM;\n\n\n    conn_vec", "    if (c_ind == RMC_NIL_INDEX)\n        return ENOMEM;\n    if (c_ind > 255) c_ind = 255;\n\n\n    conn_vec", "bug")]

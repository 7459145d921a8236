MUTS = [
 ("hdr", "W04", "rmc_sub_read.c", "if (len < sizeof(packet_header_t)) {", "if (len < sizeof(packet_header_t) - 2) {", "ok"),
 ("hdr-big", "W04", "rmc_sub_read.c", "if (len < sizeof(packet_header_t)) {", "if (len < sizeof(packet_header_t) + 1) {", "ok"),
 ("no-hdr", "W04", "rmc_sub_read.c", "    if (len < sizeof(packet_header_t)) {", "    if (len < sizeof(packet_header_t) - 12) {", "bug"),
 ("hdr-signed", "W04", "rmc_sub_read.c", "if (len < sizeof(packet_header_t) + pack_hdr->payload_len) {", "if (len < (int)sizeof(packet_header_t) + (int16_t) pack_hdr->payload_len) {", "bug"),
 ("pay", "W04", "rmc_sub_read.c", "if (len < sizeof(packet_header_t) + pack_hdr->payload_len) {", "if (len < pack_hdr->payload_len) {", "bug"),
 ("ret0", "W04", "rmc_sub_read.c", "                      sizeof(packet_header_t) + pack_hdr->payload_len, len);\n\n        return EPROTO;", "                      sizeof(packet_header_t) + pack_hdr->payload_len, len);\n\n        return 0;", "bug"),
 ("again", "W04", "rmc_sub_read.c", "return (res == EAGAIN)?0:res;\n    }\n\n\n    // This is incoming", "return (res == EAGAIN || res == EPROTO)?0:res;\n    }\n\n\n    // This is incoming", "bug"),
 ("cut", "W04", "rmc_sub_read.c", "        return EPROTO;\n    }\n\n    // If the publisher has", "        if (pack_hdr->pid) return EPROTO;\n        pack_hdr->payload_len = len - sizeof(packet_header_t);\n    }\n\n    // If the publisher has", "bug"),
 ("copy", "W04", "rmc_sub_read.c", "memcpy(payload_copy, payload, pack_hdr->payload_len);", "memcpy(payload_copy, payload, (pack_hdr->payload_len + 7) & ~7);", "bug"),
 ("early-find", "W04", "rmc_sub_read.c", "    if (len < sizeof(packet_header_t) + pack_hdr->payload_len) {", "    if (!pack_hdr->pid && ctx->announce_cb) (*ctx->announce_cb)(ctx, pack_hdr->listen_ip, pack_hdr->listen_port, pack_hdr->node_id, data + sizeof(packet_header_t), pack_hdr->payload_len);\n    if (len < sizeof(packet_header_t) + pack_hdr->payload_len) {", "bug"),
 ("opt", "W04", "rmc_sub_read.c", "    uint8_t buffer[RMC_MAX_PACKET];\n    struct sockaddr_in src_addr;", "    uint8_t buffer[RMC_MAX_PAYLOAD];\n    struct sockaddr_in src_addr;", "bug",[("rmc_sub_read.c","buffer, sizeof(buffer),","buffer, RMC_MAX_PACKET,")]),
 ("annlen", "W04", "rmc_sub_read.c", "                                  payload, pack_hdr->payload_len);\n    }", "                                  payload, pack_hdr->payload_len?pack_hdr->payload_len:1);\n    }", "bug"),
 ("ok-early", "W04", "rmc_sub_read.c", "    if (len < sizeof(packet_header_t) + pack_hdr->payload_len) {", "    size_t total = sizeof(packet_header_t) + pack_hdr->payload_len;\n    if (total > (size_t) len) {", "ok"),
 ("ok-valid", "W04", "rmc_sub_read.c", "static int process_multicast_read(", "static int well_formed(const uint8_t* b, int len)\n{\n    const packet_header_t* h = (const packet_header_t*) b;\n    return len >= (int) sizeof(*h) && len - (int) sizeof(*h) >= h->payload_len;\n}\nstatic int process_multicast_read(", "ok",
  [("rmc_sub_read.c", "    if (len < sizeof(packet_header_t)) {", "    if (!well_formed(buffer, len)) return EPROTO;\n    if (len < sizeof(packet_header_t)) {")]),
 ("ok-hdrcopy", "W04", "rmc_sub_read.c", "    packet_header_t* pack_hdr = (packet_header_t*) data;\n\n    if (len < sizeof(packet_header_t)) {", "    packet_header_t hdr_copy;\n    packet_header_t* pack_hdr = &hdr_copy;\n\n    if (len >= sizeof(packet_header_t)) memcpy(&hdr_copy, data, sizeof(hdr_copy));\n    if (len < sizeof(packet_header_t)) {", "ok"),
 ("ok-loop", "W04", "rmc_sub_read.c", "        do {\n            res = multicast_read(ctx, op_res);\n        } while(!res);", "        res = multicast_read(ctx, op_res);\n        while(!res) {\n            res = multicast_read(ctx, op_res);\n        }", "ok"),
 ("ok-for", "W04", "rmc_sub_read.c", "    while(!res) {\n        len = recvfrom(", "    for (;;) {\n        if (res) break;\n        len = recvfrom(", "ok"),
]

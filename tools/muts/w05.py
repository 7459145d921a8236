MUTS = [
 ("port-listen", "W05", "rmc_pub_write.c", "pack_hdr->listen_port = ctx->control_listen_port;", "pack_hdr->listen_port = ctx->mcast_port;", "bug"),
 ("nodeid", "W05", "rmc_pub_write.c", "pack_hdr->node_id = ctx->node_id;", "pack_hdr->node_id = ctx->node_id & 0xFFFF;", "bug"),
 ("limit", "W05", "rmc_pub_write.c", "if (sizeof(packet_header_t) + pack->payload_len > RMC_MAX_PACKET)", "if (pack->payload_len > RMC_MAX_PACKET)", "bug"),
 ("limit2", "W05", "rmc_pub_write.c", "if (sizeof(packet_header_t) + pack->payload_len > RMC_MAX_PACKET)", "if (sizeof(packet_header_t) + pack->payload_len >= RMC_MAX_PAYLOAD)", "bug"),
 ("iovlen", "W05", "rmc_pub_write.c", ".iov_len = pack->payload_len", ".iov_len = pack->payload_len & ~3", "bug"),
 ("hdrsz", "W05", "rmc_pub_write.c", ".iov_len = sizeof(pack_hdr)", ".iov_len = sizeof(pack_hdr) - 2", "bug"),
 ("dst", "W05", "rmc_pub_write.c", ".s_addr = htonl(ctx->mcast_group_addr) }\n    };\n\n\n    if (ctx->mcast_send_descriptor", ".s_addr = ctx->mcast_group_addr }\n    };\n\n\n    if (ctx->mcast_send_descriptor", "bug"),
 ("dstport", "W05", "rmc_pub_write.c", ".sin_port = htons(ctx->mcast_port)", ".sin_port = htons(ctx->control_listen_port)", "bug"),
 ("lip", "W05", "rmc_pub_write.c", "pack_hdr->listen_ip = ctx->control_listen_if_addr;", "pack_hdr->listen_ip = ctx->mcast_if_addr;", "bug"),
 ("fd", "W05", "rmc_pub_write.c", "sendmsg(ctx->mcast_send_descriptor,", "sendmsg(ctx->listen_descriptor,", "bug"),
 ("code", "W05", "rmc_protocol.h", "", "", "skip"),
 ("len-resend", "W05", "rmc_pub_write.c", "    // Allocate packet payload\n    res = circ_buf_alloc(&conn->write_buf, pack->payload_len,", "    // Allocate packet payload\n    res = circ_buf_alloc(&conn->write_buf, pack_hdr.payload_len & 0x7FFF,", "bug"),
 ("trunc", "W05", "rmc_pub_write.c", "        return EMSGSIZE;\n\n    setup", "        pack->payload_len = RMC_MAX_PACKET - sizeof(packet_header_t);\n\n    setup", "bug"),
 ("trunc2", "W05", "rmc_pub_write.c", "        .iov_len = pack->payload_len\n", "        .iov_len = pack->payload_len > 0x8000 ? 0x8000 : pack->payload_len\n", "bug"),
 ("ok-static", "W05", "rmc_pub_write.c", "    setup_packet_header(ctx, pack, &pack_hdr);\n\n//    char", "    pack_hdr.payload_len = pack->payload_len; pack_hdr.listen_port = ctx->control_listen_port; pack_hdr.listen_ip = ctx->control_listen_if_addr; pack_hdr.node_id = ctx->node_id; pack_hdr.pid = pack->pid;\n\n//    char", "ok"),
 ("ok-buf", "W05", "rmc_pub_write.c", "    struct iovec io_vec[2];", "    struct iovec io_vec[2];\n    uint8_t flat[RMC_MAX_PACKET];", "ok",
   [("rmc_pub_write.c", "    io_vec[0] = (struct iovec) {\n        .iov_base = (void*) &pack_hdr,\n        .iov_len = sizeof(pack_hdr)\n    };\n\n    io_vec[1] = (struct iovec) {\n        .iov_base = (void*) pack->payload,\n        .iov_len = pack->payload_len\n    };", "    memcpy(flat, &pack_hdr, sizeof(pack_hdr));\n    memcpy(flat + sizeof(pack_hdr), pack->payload, pack->payload_len);\n    io_vec[0].iov_base = flat;\n    io_vec[0].iov_len = sizeof(pack_hdr) + pack->payload_len;"),
    ("rmc_pub_write.c", ".msg_iovlen = sizeof(io_vec) / sizeof(io_vec[0]),", ".msg_iovlen = 1,")]),
 ("bad-buf", "W05", "rmc_pub_write.c", "    struct iovec io_vec[2];", "    struct iovec io_vec[2];\n    uint8_t flat[RMC_MAX_PACKET];", "bug",
   [("rmc_pub_write.c", "    io_vec[0] = (struct iovec) {\n        .iov_base = (void*) &pack_hdr,\n        .iov_len = sizeof(pack_hdr)\n    };\n\n    io_vec[1] = (struct iovec) {\n        .iov_base = (void*) pack->payload,\n        .iov_len = pack->payload_len\n    };", "    memcpy(flat, &pack_hdr, sizeof(pack_hdr));\n    memcpy(flat + sizeof(pack_hdr), pack->payload, pack->payload_len);\n    io_vec[0].iov_base = flat;\n    io_vec[0].iov_len = sizeof(flat);"),
    ("rmc_pub_write.c", ".msg_iovlen = sizeof(io_vec) / sizeof(io_vec[0]),", ".msg_iovlen = 1,")]),
 ("ok-loop", "W05", "rmc_pub_write.c", "    while(pack) {\n        if ((res = send_single_multicast_packet(ctx, pack)))\n            break;\n\n        ++count;\n        pack = pub_next_queued_packet(pctx);\n    }", "    for (; pack; pack = pub_next_queued_packet(pctx)) {\n        res = send_single_multicast_packet(ctx, pack);\n        if (res) break;\n        count++;\n    }", "ok"),
 ("ok-check", "W05", "rmc_pub_write.c", "    if (sizeof(packet_header_t) + pack->payload_len > RMC_MAX_PACKET)\n        return EMSGSIZE;", "    if (pack->payload_len > RMC_MAX_PACKET - sizeof(packet_header_t))\n        return EMSGSIZE;", "ok"),
]
MUTS = [m for m in MUTS if m[5] != "skip"]

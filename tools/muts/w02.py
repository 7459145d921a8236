MUTS = [
("hdr-src", "W02", "rmc_pub_write.c", "memcpy(seg2, ((uint8_t*) &pack_hdr) + seg1_len, seg2_len);", "memcpy(seg2, ((uint8_t*) &pack_hdr), seg2_len);", "bug"),
("pay-wrap", "W02", "rmc_pub_write.c", "memcpy(seg2, ((uint8_t*) pack->payload) + seg1_len, seg2_len);", "memcpy(seg2, ((uint8_t*) pack->payload) + seg2_len, seg2_len);", "bug"),
("avail-nohdr", "W02", "rmc_pub_write.c", "if (circ_buf_available(&conn->write_buf) < 1 + sizeof(packet_header_t) + pack->payload_len) {", "if (circ_buf_available(&conn->write_buf) < sizeof(packet_header_t) + pack->payload_len) {", "bug"),
("ack-avail", "W02", "rmc_sub_write.c", "if (available < 1 + sizeof(ack)) {", "if (available < sizeof(ack)) {", "bug"),
("ack-swap", "W02", "rmc_sub_write.c", ".last_pid = interval->last_pid\n", ".last_pid = interval->first_pid\n", "bug"),
("ack-mode", "W02", "rmc_sub_write.c", "if (conn->mode != RMC_CONNECTION_MODE_CONNECTED)\n            return ENOTCONN;", "if (conn->mode == RMC_CONNECTION_MODE_CLOSED)\n            return ENOTCONN;", "bug"),
("ctl-cmd", "W02", "rmc_sub_write.c", "*seg1 = RMC_CMD_CONTROL_MESSAGE;", "*seg1 = RMC_CMD_ACK_INTERVAL;", "bug"),
("ctl-orig", "W02", "rmc_sub_write.c", "memcpy(seg2, ((uint8_t*) payload) + seg1_len, seg2_len);", "memcpy(seg2, ((uint8_t*) &msg) + seg1_len, seg2_len);", "bug"),
("ctl-len", "W02", "rmc_sub_write.c", ".payload_len = payload_len,", ".payload_len = payload_len + sizeof(cmd_control_message_t),", "bug"),
("one-alloc", "W02", "rmc_pub_write.c", "    memcpy(seg1, pack->payload, seg1_len);\n    if (seg2_len)\n", "    if (seg1_len) memmove(seg1, pack->payload, seg1_len);\n    if (seg1_len < pack->payload_len)\n", "ok"),
("hdr-helper", "W02", "rmc_pub_write.c", "int rmc_pub_resend_packet(rmc_pub_context_t* ctx,", "static void put2(uint8_t* a, uint32_t n, uint8_t* b, uint32_t m, const void* s) { if (n) memcpy(a, s, n); if (m) memcpy(b, (const uint8_t*) s + n, m); }\nint rmc_pub_resend_packet(rmc_pub_context_t* ctx,", "ok",
  [("rmc_pub_write.c", "    memcpy(seg1, (uint8_t*) &pack_hdr, seg1_len);\n    if (seg2_len)\n        memcpy(seg2, ((uint8_t*) &pack_hdr) + seg1_len, seg2_len);", "    put2(seg1, seg1_len, seg2, seg2_len, &pack_hdr);")]),
("bytewise", "W02", "rmc_sub_write.c", "        memcpy(seg1, (uint8_t*) payload, seg1_len);", "        for (uint32_t i = 0; i < seg1_len; ++i) seg1[i] = ((uint8_t*) payload)[i];", "ok"),
("tmo-mode", "W02", "rmc_pub_timeout.c", "RMC_CONNECTION_MODE_CONNECTED", "RMC_CONNECTION_MODE_CONNECTING", "bug"),
]

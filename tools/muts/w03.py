MUTS = [
 ("rd-trim", "W03", "rmc_protocol.c", "circ_buf_trim(&conn->read_buf, res + orig_in_use);", "circ_buf_trim(&conn->read_buf, res);", "bug"),
 ("rd-trim2", "W03", "rmc_protocol.c", "circ_buf_trim(&conn->read_buf, orig_in_use);", "circ_buf_trim(&conn->read_buf, 0);", "bug"),
 ("rd-iov", "W03", "rmc_protocol.c", "    iov[0].iov_base = seg1;\n    iov[0].iov_len = seg1_len;\n    iov[1].iov_base = seg2;\n    iov[1].iov_len = seg2_len;\n\n    errno = 0;\n\n    res = readv", "    iov[0].iov_base = seg1;\n    iov[0].iov_len = seg1_len;\n    iov[1].iov_base = seg2;\n    iov[1].iov_len = seg1_len;\n\n    errno = 0;\n\n    res = readv", "bug"),
 ("rd-eof0", "W03", "rmc_protocol.c", "if (res == -1 || res == 0) {", "if (res == -1) {", "bug"),
 ("rd-err", "W03", "rmc_protocol.c", "        return EPIPE;", "        return (res == -1)?errno:EPIPE;", "bug"),
 ("rd-op", "W03", "rmc_protocol.c", "        *op_res = RMC_READ_DISCONNECT;\n", "        *op_res = (res == 0)?RMC_READ_DISCONNECT:RMC_ERROR;\n", "bug"),
 ("rd-res", "W03", "rmc_protocol.c", "    return ret;\n}", "    return (ret == EAGAIN)?0:ret;\n}", "bug"),
 ("wr-free", "W03", "rmc_protocol.c", "circ_buf_free(&conn->write_buf, res, bytes_left);", "circ_buf_free(&conn->write_buf, seg1_len, bytes_left);", "bug"),
 ("wr-left", "W03", "rmc_protocol.c", "        *bytes_left = circ_buf_in_use(&conn->write_buf);\n        RMC_LOG_INDEX_INFO(conn->connection_index, \"writev\");", "        *bytes_left = 0;\n        RMC_LOG_INDEX_INFO(conn->connection_index, \"writev\");", "bug"),
 ("wr-err", "W03", "rmc_protocol.c", "        return errno;\n    }\n\n    if (res == 0)", "        return (errno == EAGAIN)?0:errno;\n    }\n\n    if (res == 0)", "bug"),
 ("wr-iov", "W03", "rmc_protocol.c", "res = writev(conn->descriptor, iov, seg2_len?2:1);", "res = writev(conn->descriptor, seg2_len?&iov[1]:iov, 1);", "bug"),
 ("wr-fd", "W03", "rmc_protocol.c", "res = writev(conn->descriptor,", "res = writev(conn->connection_index,", "bug"),
 ("pub-epipe", "W03", "rmc_pub_read.c", "    if (res == EPIPE) {", "    if (res == EPIPE && ctx->subscriber_disconnect_cb) {", "bug"),
 ("sub-op", "W03", "rmc_sub_read.c", "        *op_res = RMC_READ_DISCONNECT;\n", "        *op_res = RMC_READ_TCP;\n", "bug"),
 ("ok-one", "W03", "rmc_protocol.c", "res = writev(conn->descriptor, iov, seg2_len?2:1);", "res = writev(conn->descriptor, iov, 2);", "ok"),
 ("ok-helper", "W03", "rmc_protocol.c", "int rmc_conn_process_tcp_write(", "static int setup_iov(struct iovec* iov, uint8_t* a, uint32_t al, uint8_t* b, uint32_t bl)\n{\n    iov[0].iov_base = a; iov[0].iov_len = al;\n    if (!bl) return 1;\n    iov[1] = (struct iovec) { .iov_base = b, .iov_len = bl };\n    return 2;\n}\nint rmc_conn_process_tcp_write(", "ok",
   [("rmc_protocol.c", "    iov[0].iov_base = seg1;\n    iov[0].iov_len = seg1_len;\n    iov[1].iov_base = seg2;\n    iov[1].iov_len = seg2_len;\n\n    errno = 0;\n    res = writev(conn->descriptor, iov, seg2_len?2:1);", "    errno = 0;\n    res = writev(conn->descriptor, iov, setup_iov(iov, seg1, seg1_len, seg2, seg2_len));")]),
 ("ok-reorder", "W03", "rmc_protocol.c", "    if (res == -1 || res == 0) {\n        *op_res = RMC_READ_DISCONNECT;\n\n        // Give back the memory.\n        circ_buf_trim(&conn->read_buf, orig_in_use);", "    if (res < 1) {\n        circ_buf_trim(&conn->read_buf, orig_in_use);\n        *op_res = RMC_READ_DISCONNECT;", "ok"),
 ("ok-inuse", "W03", "rmc_protocol.c", "    circ_buf_free(&conn->write_buf, res, bytes_left);", "    circ_buf_free(&conn->write_buf, (uint32_t) res, 0);\n    *bytes_left = circ_buf_in_use(&conn->write_buf);", "ok"),
]

P="rmc_pub_context.c"; S="rmc_sub_context.c"; C="rmc_connection.c"
MUTS = [
 ("a07-shut", "A07", P, "        close(ctx->listen_descriptor);\n        ctx->listen_descriptor = -1;\n    }\n\n    return errno;", "        shutdown(ctx->listen_descriptor, SHUT_RDWR);\n        close(ctx->listen_descriptor);\n        ctx->listen_descriptor = -1;\n    }\n\n    return errno;", "bug"),
 ("a07-cb", "A07", S, "error:\n    if (ctx->mcast_recv_descriptor != -1) {\n", "error:\n    if (ctx->mcast_recv_descriptor != -1) {\n        if (ctx->conn_vec.poll_remove)\n            (*ctx->conn_vec.poll_remove)(ctx->user_data, ctx->mcast_recv_descriptor, RMC_MULTICAST_INDEX);\n", "bug"),
 ("a07-zero", "A07", C, "        sock_err = errno; // Save it.", "        sock_err = 0; // Save it.", "bug"),
 ("a07-accept", "A07", C, "&addr_len);\n\n    if (conn_vec->connections[c_ind].descriptor == -1)\n        return errno;", "&addr_len);\n\n    if (conn_vec->connections[c_ind].descriptor == -1)\n        return ENOMEM;", "bug"),
 ("a07-save", "A07", P, "error:\n\n    if (ctx->mcast_send", "error:\n    ;\n    int cause = errno;\n    if (ctx->mcast_send", "ok"),
 ("a07-recv", "A07", "rmc_sub_read.c", "            res = errno;\n            goto rearm;", "            res = EAGAIN;\n            goto rearm;", "bug"),
 ("a07-send", "A07", "rmc_protocol.c", "        RMC_LOG_INDEX_INFO(conn->connection_index, \"writev\");\n        return errno;", "        RMC_LOG_INDEX_INFO(conn->connection_index, \"writev\");\n        return EAGAIN;", "bug"),
 ("a07-stale", "A07", "rmc_protocol.c", "        RMC_LOG_INDEX_INFO(conn->connection_index, \"Failed to send data\");\n        return 0;", "        RMC_LOG_INDEX_INFO(conn->connection_index, \"Failed to send data\");\n        return errno;", "ok"),
 ("a07-close", "A07", "rmc_connection.c", "    shutdown(conn->descriptor, SHUT_RDWR);\n\n    // Finalize", "    if (shutdown(conn->descriptor, SHUT_RDWR) == -1)\n        res = errno;\n\n    // Finalize", "bug", [("rmc_connection.c", "    conn_vec->active_connection_count--;\n\n    return 0;\n}\n\n\nint rmc_conn_get_max", "    conn_vec->active_connection_count--;\n\n    return res;\n}\n\n\nint rmc_conn_get_max"), ("rmc_connection.c", "    conn = &conn_vec->connections[s_ind];\n\n    // Are we connected\n", "    conn = &conn_vec->connections[s_ind];\n    int res = 0;\n    // Are we connected\n")]),
 ("a07-loop", "A07", S, "&on_flag, sizeof(on_flag)) < 0) {\n        perror(\"rmc_activate_context(): setsockopt(IP_MULTICAST_LOOP)\");\n        goto error;\n    }", "&on_flag, sizeof(on_flag)) < 0)\n        perror(\"rmc_activate_context(): setsockopt(IP_MULTICAST_LOOP)\");", "bug"),
 ("a07-ttl", "A07", P, "        RMC_LOG_WARNING(\"rmc_pub_set_multicast_ttl(): setsockopt(IP_MULTICAST_TTL): %s\", strerror(errno));\n        return errno;", "        RMC_LOG_WARNING(\"rmc_pub_set_multicast_ttl(): setsockopt(IP_MULTICAST_TTL): %s\", strerror(errno));\n        return -1;", "bug"),
]

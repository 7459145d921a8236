MUTS = [
 ("g01-e-next", "G01", "rmc_pub_timeout.c", "            RMC_LOG_DEBUG(\"Sending announce\");", "            RMC_LOG_DEBUG(\"Sending announce %ld\", (long) (ctx->announce_next_send_ts = current_ts));", "bug"),
 ("g01-e-ret", "G01", "rmc_protocol.c", "    RMC_LOG_INDEX_DEBUG(conn->connection_index, \"wrote [%ld] bytes\", res);\n\n    return 0;", "    if (_rmc_log_level >= RMC_LOG_LEVEL_DEBUG) {\n        rmc_log(RMC_LOG_LEVEL_DEBUG, __FUNCTION__, __FILE__, __LINE__, conn->connection_index, \"wrote [%ld] bytes\", res);\n        return *bytes_left?EAGAIN:0;\n    }\n\n    return 0;", "bug"),
 ("g01-e-static", "G01", "rmc_pub_packet.c", "        RMC_LOG_INFO(\"Suspending traffic\");", "        { static int count = 0; RMC_LOG_INFO(\"Suspending traffic, time %d\", ++count); }", "ok"),
 ("g01-f-s", "G01", "rmc_sub_read.c", "\"Received resend pid: %lu\", pack_hdr.pid", "\"Received resend pid: %s\", pack_hdr.pid", "bug"),
 ("g01-f-n", "G01", "rmc_pub_context.c", "RMC_LOG_WARNING(\"Traffic throttling suspend threhold[%d] is less than the restart value[%d]. Ignored.\"", "RMC_LOG_WARNING(\"Traffic throttling suspend threhold[%d] is less than the restart value[%d] at %s. Ignored.\"", "bug"),
 ("g01-f-text", "G01", "rmc_log.c", "    vfprintf(_rmc_log_file, fmt, ap);\n", "    { char text[512]; vsnprintf(text, sizeof(text), fmt, ap); fprintf(_rmc_log_file, text); }\n", "bug"),
 ("g01-f-textok", "G01", "rmc_log.c", "    vfprintf(_rmc_log_file, fmt, ap);\n", "    { char text[4096]; vsnprintf(text, sizeof(text), fmt, ap); fputs(text, _rmc_log_file); }\n", "ok"),
 ("g01-m-conn", "G01", "rmc_sub_read.c", "conn?conn->connection_index:RMC_NIL_INDEX, \"mode[%d]\", conn?conn->mode:-1", "conn?conn->connection_index:RMC_NIL_INDEX, \"mode[%d]\", conn->mode", "bug"),
 ("g01-m-pub", "G01", "rmc_sub_read.c", "    RMC_LOG_INDEX_COMMENT(s_ind, \"rmc_sub_close_connection(): called\");", "    RMC_LOG_INDEX_COMMENT(s_ind, \"rmc_sub_close_connection(): node %u\", ctx->node_id);", "bug"),
]

PC="rmc_pub_context.c"; SC="rmc_sub_context.c"; RC="rmc_connection.c"; PT="rmc_pub_timeout.c"; PR="rmc_pub_read.c"
PW="rmc_pub_write.c"; SR="rmc_sub_read.c"; SP="rmc_sub_packet.c"; SW="rmc_sub_write.c"; PP="rmc_pub_packet.c"; RP="rmc_protocol.c"
def src(f): return open("/repo/"+f).read()
def cut(f, start, end):
    """the text of f from start up to (not including) end"""
    t=src(f); a=t.index(start); return t[a:t.index(end, a+len(start))]
REFACS=[
 # the life of a context, with helpers
 ("life3", [
  (PC, "int rmc_pub_activate_context(rmc_pub_context_t* ctx)\n{", """static void _close_sockets(rmc_pub_context_t* ctx)
{
    int* all[2];
    int i = 0;

    all[0] = &ctx->mcast_send_descriptor;
    all[1] = &ctx->listen_descriptor;
    for (i = 0; i < 2; ++i) {
        if (*all[i] == -1)
            continue;
        close(*all[i]);
        *all[i] = -1;
    }
}

static int _switch_on(int fd, int option)
{
    int on = 1;
    return setsockopt(fd, SOL_SOCKET, option, &on, sizeof(on));
}

int rmc_pub_activate_context(rmc_pub_context_t* ctx)
{"""),
  (PC, """    if (setsockopt(ctx->listen_descriptor, SOL_SOCKET,
                   SO_REUSEADDR, &on_flag, sizeof(on_flag)) < 0) {""", "    if (_switch_on(ctx->listen_descriptor, SO_REUSEADDR) != 0) {"),
  (PC, """    if (setsockopt(ctx->listen_descriptor, SOL_SOCKET,
                   SO_REUSEPORT, &on_flag, sizeof(on_flag)) < 0) {""", "    if (_switch_on(ctx->listen_descriptor, SO_REUSEPORT) != 0) {"),
  (PC, "    socklen_t sock_len = sizeof(struct sockaddr_in);\n    int on_flag = 1;\n", "    socklen_t sock_len = sizeof(struct sockaddr_in);\n    int err = 0;\n"),
  (PC, cut(PC, "error:\n\n    if (ctx->mcast_send", "    return errno;\n}\n\nint rmc_pub_deact"), "error:\n    err = errno;\n    _close_sockets(ctx);\n    errno = err;\n"),
  (PC, """    if (ctx->mcast_send_descriptor != -1)
        close(ctx->mcast_send_descriptor);

    if (ctx->listen_descriptor != -1)
        close(ctx->listen_descriptor);

    ctx->mcast_send_descriptor = -1;
    ctx->listen_descriptor = -1;

    return 0;""", "    _close_sockets(ctx);\n    return 0;"),
  (PC, cut(PC, "    if (max != RMC_NIL_INDEX) {\n        for", "    _close" if 0 else "    if (ctx->mcast_send_descriptor != -1)\n        close"), """    for(ind = 0; max != RMC_NIL_INDEX && ind <= max; ++ind)
        if (rmc_conn_find_by_index(&ctx->conn_vec, ind))
            rmc_pub_close_connection(ctx, ind);

"""),
  (PC, """    while((pack = pub_next_queued_packet(&ctx->pub_ctx)))
        rmc_pub_packet_release(ctx, pack);

    free(ctx->subscribers);
    free(ctx->conn_vec.connections);
    free(ctx);
""", """    for (pack = pub_next_queued_packet(&ctx->pub_ctx);
         pack;
         pack = pub_next_queued_packet(&ctx->pub_ctx))
        rmc_pub_packet_release(ctx, pack);

    if (ctx->conn_vec.connections)
        free(ctx->conn_vec.connections);
    free(ctx->subscribers);
    free(ctx);
"""),
  (SC, "    int on_flag = 1;\n    int sz = 1024*1024;\n", "    int on_flag = 1;\n    int sz = 1024*1024;\n    int fd = -1;\n"),
  (SC, cut(SC, "    //\n    // Setup the multicast receiver socket.", "    memset((void*) &sock_addr"), """    fd = socket (AF_INET, SOCK_DGRAM, 0);
    ctx->mcast_recv_descriptor = fd;

    if (fd == -1)
        return errno;

    if (setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, &on_flag, sizeof(on_flag)) < 0 ||
        setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof(sz)) < 0) {
        RMC_LOG_ERROR("setsockopt()");
        goto error;
    }

"""),
  (SC, """    rmc_conn_get_max_index_in_use(&ctx->conn_vec, &max);
    for(ind = 0; ind <= max; ++ind) {
        rmc_connection_t* conn = rmc_conn_find_by_index(&ctx->conn_vec,
                                                        ind);
        // Don't opereate on closed connections.
        if (!conn)
            continue;

        rmc_sub_close_connection(ctx, ind);
    }
""", """    rmc_conn_get_max_index_in_use(&ctx->conn_vec, &max);
    if (max == RMC_NIL_INDEX)
        return 0;

    for(ind = 0; ind <= max; ++ind)
        if (rmc_conn_find_by_index(&ctx->conn_vec, ind) != 0)
            rmc_sub_close_connection(ctx, ind);
"""),
 ]),
 # connections: locals instead of the repeated table access
 ("conn3", [
  (RC, cut(RC, "static rmc_index_t _get_free_slot", "static void rmc_conn_reset_connection"), """static rmc_index_t _get_free_slot(rmc_connection_vector_t* conn_vec)
{
    rmc_index_t slot;

    for (slot = 0; slot < conn_vec->size; slot++)
        if (conn_vec->connections[slot].descriptor < 0)
            break;

    if (slot == conn_vec->size)
        return RMC_NIL_INDEX;

    if (conn_vec->max_connection_ind == RMC_NIL_INDEX || slot > conn_vec->max_connection_ind)
        conn_vec->max_connection_ind = slot;
    return slot;
}

static void _reset_max_connection_ind(rmc_connection_vector_t* conn_vec)
{
    rmc_index_t max = RMC_NIL_INDEX;
    rmc_index_t ind = 0;

    for (ind = 0; ind < conn_vec->size; ++ind)
        if (conn_vec->connections[ind].descriptor != -1)
            max = ind;

    conn_vec->max_connection_ind = max;
}

static void _give_back(rmc_connection_vector_t* conn_vec, rmc_connection_t* conn)
{
    close(conn->descriptor);
    conn->descriptor = -1;
    _reset_max_connection_ind(conn_vec);
}

static int _unblock(int fd)
{
    int flags = fcntl(fd, F_GETFL, 0);
    return fcntl(fd, F_SETFL, flags | O_NONBLOCK);
}

"""),
  (RC, cut(RC, "int rmc_conn_connect_tcp_by_address(", "int rmc_conn_process_accept"), """int rmc_conn_connect_tcp_by_address(rmc_connection_vector_t* conn_vec,
                                    uint32_t address,
                                    in_port_t port,
                                    rmc_node_id_t node_id,
                                    rmc_index_t* result_index)
{
    rmc_connection_t* conn = 0;
    rmc_index_t c_ind = RMC_NIL_INDEX;
    struct sockaddr_in sock_addr;

    assert(conn_vec);
    memset(&sock_addr, 0, sizeof(sock_addr));
    sock_addr.sin_family = AF_INET;
    sock_addr.sin_port = htons(port);
    sock_addr.sin_addr.s_addr = htonl(address);

    c_ind = _get_free_slot(conn_vec);
    if (c_ind == RMC_NIL_INDEX)
        return ENOMEM;

    conn = &conn_vec->connections[c_ind];
    conn->descriptor = socket(AF_INET, SOCK_STREAM, 0);
    if (conn->descriptor == -1)
        return errno;

    _unblock(conn->descriptor);

    conn->node_id = node_id;
    conn->remote_address = address;
    if (connect(conn->descriptor, (struct sockaddr*) &sock_addr, sizeof(sock_addr)) == -1 &&
        errno != EINPROGRESS) {
        RMC_LOG_INFO("Failed to connect: %s", strerror(errno));
        _give_back(conn_vec, conn);
        return 0;
    }

    conn->remote_port = port;
    conn->mode = RMC_CONNECTION_MODE_CONNECTING;
    conn->action = RMC_POLLWRITE;
    ++conn_vec->active_connection_count;

    if (result_index)
        *result_index = c_ind;

    if (conn_vec->poll_add)
        (*conn_vec->poll_add)(conn_vec->user_data, conn->descriptor, c_ind, RMC_POLLWRITE);

    return 0;
}

"""),
  (RC, cut(RC, "int rmc_conn_process_accept(", "int rmc_conn_close_connection("), """int rmc_conn_process_accept(int listen_descriptor,
                             rmc_connection_vector_t* conn_vec,
                             rmc_index_t* result_index)
{
    struct sockaddr_in src_addr;
    socklen_t addr_len = sizeof(src_addr);
    rmc_connection_t* conn = 0;
    rmc_index_t c_ind = _get_free_slot(conn_vec);
    int tr = 1;

    if (c_ind == RMC_NIL_INDEX)
        return ENOMEM;

    conn = conn_vec->connections + c_ind;
    conn->descriptor = accept(listen_descriptor, (struct sockaddr*) &src_addr, &addr_len);
    if (conn->descriptor == -1)
        return errno;

    _unblock(conn->descriptor);

    if (setsockopt(conn->descriptor, IPPROTO_TCP, TCP_NODELAY, (void *)&tr, sizeof(tr))) {
        int err = errno;
        _give_back(conn_vec, conn);
        return err;
    }

    conn->remote_address = ntohl(src_addr.sin_addr.s_addr);
    conn->remote_port = ntohs(src_addr.sin_port);
    conn->action = RMC_POLLREAD;
    conn->mode = RMC_CONNECTION_MODE_CONNECTED;
    conn_vec->active_connection_count += 1;

    if (conn_vec->poll_modify)
        (*conn_vec->poll_modify)(conn_vec->user_data, listen_descriptor, RMC_LISTEN_INDEX,
                                 RMC_POLLREAD, RMC_POLLREAD);

    if (conn_vec->poll_add)
        (*conn_vec->poll_add)(conn_vec->user_data, conn->descriptor, c_ind, conn->action);

    if (result_index)
        *result_index = c_ind;
    return 0;
}

"""),
  (RC, """    conn->mode = RMC_CONNECTION_MODE_CONNECTED;
    old_action = conn->action;
    conn->action = RMC_POLLREAD;

    // We start off in reading mode
    if (conn_vec->poll_modify)
        (*conn_vec->poll_modify)(conn_vec->user_data,
                                 conn->descriptor,
                                 conn->connection_index,
                                 old_action,
                                 conn->action);
""", """    old_action = conn->action;
    if (conn_vec->poll_modify)
        (*conn_vec->poll_modify)(conn_vec->user_data,
                                 conn->descriptor,
                                 conn->connection_index,
                                 old_action,
                                 RMC_POLLREAD);
    conn->action = RMC_POLLREAD;
    conn->mode = RMC_CONNECTION_MODE_CONNECTED;
"""),
 ]),
 ("pubtime3", [
  (PT, cut(PT, "    usec_timestamp_t announce_timeout_ts = -1; //", "    return 0;\n}") if 0 else src(PT)[src(PT).index("    usec_timestamp_t announce_timeout_ts = -1; //"):], """    usec_timestamp_t due = -1;
    usec_timestamp_t next = 0;

    if (!ctx || !result_ts)
        return EINVAL;

    next = ctx->announce_next_send_ts;
    pub_get_oldest_unackowledged_packet(&ctx->pub_ctx, &due);
    if (due != -1)
        due += ctx->resend_timeout;

    if (next != 0 && (due == -1 || next < due))
        due = next;

    *result_ts = due;
    return 0;
}
"""),
  (PT, cut(PT, "    // Traverse packets and send them for timeout. Start", "    return 0;\n}\n\n\nint rmc_pub_timeout_process"), """    for (pnode = pub_packet_list_head(&packets); pnode && !res;
         pnode = pub_packet_list_head(&packets)) {
        pub_packet_list_pop_head(&packets, &pack);
        res = process_sent_packet_timeout(ctx, sub, pack);
    }

    if (res) {
        pub_packet_list_empty(&packets);
        return res;
    }

"""),
  (PT, cut(PT, "    if (conn->mode != RMC_CONNECTION_MODE_CONNECTED) {\n        RMC_LOG_INDEX_INFO", "    RMC_LOG_INDEX_COMMENT(conn->connection_index,\n                          \"Resending"), """    if (conn->mode != RMC_CONNECTION_MODE_CONNECTED) {
        res = 0;
        goto give_up;
    }

"""),
  (PT, """    if (!res)
        rmc_pub_packet_ack(ctx, conn, pack->pid) ;

    return res;
""", """    if (res)
        return res;

give_up:
    rmc_pub_packet_ack(ctx, conn, pack->pid) ;
    return 0;
"""),
  (PT, cut(PT, "        char buffer[RMC_MAX_PAYLOAD];", "        // Setup next announce."), """        send_announce_packet(ctx);

"""),
  (PT, "int rmc_pub_timeout_process(rmc_pub_context_t* ctx)\n{", """static void send_announce_packet(rmc_pub_context_t* ctx)
{
    char buffer[RMC_MAX_PAYLOAD];
    payload_len_t len = 0;

    if (ctx->announce_cb && !(*ctx->announce_cb)(ctx, buffer, RMC_MAX_PAYLOAD, &len))
        return;

    rmc_pub_queue_announcement(ctx, buffer, (len < RMC_MAX_PAYLOAD)?len:RMC_MAX_PAYLOAD);
}

int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
{"""),
 ]),
 ("pubread3", [
  (PR, cut(PR, "    if (s_ind == RMC_LISTEN_INDEX)  {", "    conn = rmc_conn_find_by_index(&ctx->conn_vec, s_ind);\n\n    if (!conn || conn->mode"), """    switch (s_ind) {
    case RMC_LISTEN_INDEX:
        return accept_subscriber(ctx, op_res);
    case RMC_MULTICAST_INDEX:
        return discard_loopback(ctx, op_res);
    default:
        break;
    }

"""),
  (PR, "int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)\n{", """static int accept_subscriber(rmc_pub_context_t* ctx, uint8_t* op_res)
{
    rmc_index_t slot = 0;
    rmc_connection_t* conn = 0;
    int res = rmc_conn_process_accept(ctx->listen_descriptor, &ctx->conn_vec, &slot);

    *op_res = res?RMC_ERROR:RMC_READ_ACCEPT;
    if (res)
        return res;

    conn = rmc_conn_find_by_index(&ctx->conn_vec, slot);
    assert(conn);
    pub_init_subscriber(&ctx->subscribers[slot], &ctx->pub_ctx, user_data_ptr(conn));

    if (ctx->subscriber_connect_cb &&
        !(*ctx->subscriber_connect_cb)(ctx, conn->remote_address, conn->remote_port))
        rmc_pub_close_connection(ctx, slot);

    return 0;
}

static int discard_loopback(rmc_pub_context_t* ctx, uint8_t* op_res)
{
    uint8_t byte = 0;
    rmc_poll_action_t action = RMC_POLLREAD;

    *op_res = RMC_ERROR;
    if (ctx->mcast_send_descriptor == -1)
        return ENOTCONN;

    if (recvfrom(ctx->mcast_send_descriptor, &byte, sizeof(byte), 0, 0, 0) == -1)
        return errno;

    *op_res = RMC_READ_MULTICAST_LOOPBACK;
    if (pub_next_queued_packet(&ctx->pub_ctx))
        action |= RMC_POLLWRITE;

    if (ctx->conn_vec.poll_modify)
        (*ctx->conn_vec.poll_modify)(ctx->user_data, ctx->mcast_send_descriptor,
                                     RMC_MULTICAST_INDEX, action, action);
    return 0;
}

int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
{"""),
  (PR, """    rmc_conn_get_pending_send_length(conn, &write_buf_sz);

    conn->action = RMC_POLLREAD | ((write_buf_sz > 0)?RMC_POLLWRITE:0);
""", """    if (rmc_conn_get_pending_send_length(conn, &write_buf_sz) == 0 && write_buf_sz)
        conn->action = RMC_POLLREAD | RMC_POLLWRITE;
    else
        conn->action = RMC_POLLREAD;
"""),
  (PR, """    for (pid = ack.first_pid; pid <= ack.last_pid; ++pid)
        rmc_pub_packet_ack(ctx, conn, pid) ;
    return 0;""", """    pid = ack.first_pid;
    while (pid <= ack.last_pid) {
        rmc_pub_packet_ack(ctx, conn, pid);
        pid++;
    }
    return 0;"""),
  (PR, cut(PR, "    // Do we have enough data?\n    if (circ_buf_in_use(&conn->read_buf) < sizeof(msg) + 1)", "    RMC_LOG_INDEX_COMMENT(conn->connection_index,\n                          \"process_control"), """    uint32_t have = circ_buf_in_use(&conn->read_buf);
    uint32_t want = 1 + sizeof(msg);

    if (have < want)
        return EAGAIN;

    circ_buf_read_offset(&conn->read_buf, 1, (uint8_t*) &msg, sizeof(msg), 0);
    want += msg.payload_len;
    if (have < want)
        return EAGAIN;

"""),
  (PR, "    circ_buf_free(&conn->read_buf, sizeof(msg) + 1 + msg.payload_len, 0);\n", "    circ_buf_free(&conn->read_buf, want, 0);\n"),
  (PR, """    if (!conn)
        return EINVAL;

    if (conn->mode == RMC_CONNECTION_MODE_CLOSED)
        return ENOTCONN;
""", """    if (!conn)
        return EINVAL;
"""),
  (PR, """    rmc_conn_close_connection(&ctx->conn_vec, s_ind);

    RMC_LOG_INDEX_INFO(s_ind, "rmc_pub_close_connection() - ok");
    pub_reset_subscriber(&ctx->subscribers[s_ind],
                         ctx->payload_free?ctx->payload_free:_generic_payload_free);
""", """    pub_reset_subscriber(&ctx->subscribers[s_ind],
                         ctx->payload_free?ctx->payload_free:_generic_payload_free);
    rmc_conn_close_connection(&ctx->conn_vec, s_ind);
"""),
  (PR, """    if (len > 0)
        return EBUSY;

    return 0;""", "    return len?EBUSY:0;"),
 ]),
 ("write3", [
  (SW, "int rmc_sub_write_interval_acknowledgement(rmc_sub_context_t* ctx,", """static int _append(circ_buf_t* buf, void* data, uint32_t length)
{
    uint8_t *seg1 = 0;
    uint32_t seg1_len = 0;
    uint8_t *seg2 = 0;
    uint32_t seg2_len = 0;

    if (circ_buf_alloc(buf, length, &seg1, &seg1_len, &seg2, &seg2_len))
        return ENOMEM;

    memcpy(seg1, data, seg1_len);
    if (seg2_len)
        memcpy(seg2, (uint8_t*) data + seg1_len, seg2_len);
    return 0;
}

static void _want_write(rmc_sub_context_t* ctx, rmc_connection_t* conn)
{
    rmc_poll_action_t was = conn->action;

    conn->action = was | RMC_POLLWRITE;
    if (ctx->conn_vec.poll_modify)
        (*ctx->conn_vec.poll_modify)(ctx->user_data, conn->descriptor,
                                     conn->connection_index, was, conn->action);
}

int rmc_sub_write_interval_acknowledgement(rmc_sub_context_t* ctx,"""),
  (SW, cut(SW, "        ssize_t res = 0;\n        uint8_t *seg1 = 0;", "int rmc_sub_write_control_message(rmc"), """        cmd_ack_interval_t ack;
        uint8_t cmd = RMC_CMD_ACK_INTERVAL;

        if (!ctx || !conn || !interval)
            return EINVAL;

        if (conn->mode != RMC_CONNECTION_MODE_CONNECTED)
            return ENOTCONN;

        ack.first_pid = interval->first_pid;
        ack.last_pid = interval->last_pid;

        if (circ_buf_available(&conn->write_buf) < sizeof(cmd) + sizeof(ack) ||
            _append(&conn->write_buf, &cmd, sizeof(cmd)) ||
            _append(&conn->write_buf, &ack, sizeof(ack)))
            return ENOMEM;

        _want_write(ctx, conn);
        return 0;
}

"""),
  (SW, cut(SW, "        // Allocate memory for command\n        res = circ_buf_alloc(&conn->write_buf, 1,\n                             &seg1, &seg1_len,\n                             &seg2, &seg2_len);\n\n        if (res) {\n            RMC_LOG_INDEX_ERROR(conn->connection_index,\n                          \"Out", "        RMC_LOG_INDEX_DEBUG(conn->connection_index, \"Sent"), """        if ((res = _append(&conn->write_buf, &cmd, 1)) ||
            (res = _append(&conn->write_buf, &msg, sizeof(msg))) ||
            (res = _append(&conn->write_buf, payload, payload_len)))
            return res;

        _want_write(ctx, conn);
"""),
  (SW, """        cmd_control_message_t msg = {
            .payload_len = payload_len,
        };
        uint32_t available = 0;
        rmc_poll_action_t old_action = 0;
""", """        cmd_control_message_t msg = {
            .payload_len = payload_len,
        };
        uint8_t cmd = RMC_CMD_CONTROL_MESSAGE;
        uint32_t available = 0;
"""),
  (SW, """        old_action = conn->action;

        // Allo""" if 0 else "        old_action = conn->action;\n\n        if ((res", "        if ((res"),
  (SW, """    if (!ctx  || !payload || !payload_len)
        return EINVAL;

    conn = rmc_conn_find_by_node_id(&ctx->conn_vec, node_id);

    if (!conn || conn->mode != RMC_CONNECTION_MODE_CONNECTED)
        return ENOTCONN;

    return rmc_sub_write_control_message(ctx, conn, payload, payload_len);
""", """    if (!ctx  || !payload || !payload_len)
        return EINVAL;

    conn = rmc_conn_find_by_node_id(&ctx->conn_vec, node_id);

    return conn?rmc_sub_write_control_message(ctx, conn, payload, payload_len):ENOTCONN;
"""),
  (SW, cut(SW, "    old_action = conn->action;\n\n    // Do we have any data to write?", "}\n"*1 if 0 else "    // Did we encounter an error."), """    if (circ_buf_in_use(&conn->write_buf) == 0) {
        if (op_res)
            *op_res = RMC_ERROR;

        return ENODATA;
    }

    if (op_res)
        *op_res = RMC_WRITE_TCP;

    old_action = conn->action;
    res = rmc_conn_process_tcp_write(conn, &bytes_left_after);

    conn->action = bytes_left_after?(conn->action | RMC_POLLWRITE):(conn->action & ~RMC_POLLWRITE);

    if (ctx->conn_vec.poll_modify)
        (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                     conn->descriptor,
                                     s_ind,
                                     old_action,
                                     conn->action);

"""),
  (PW, "int rmc_pub_resend_packet(rmc_pub_context_t* ctx,", """static void _append(circ_buf_t* buf, void* data, uint32_t length)
{
    uint8_t *seg[2] = { 0, 0 };
    uint32_t len[2] = { 0, 0 };
    uint32_t done = 0;
    int i = 0;

    if (circ_buf_alloc(buf, length, &seg[0], &len[0], &seg[1], &len[1])) {
        RMC_LOG_FATAL("Could not allocate %d bytes", length);
        exit(255);
    }

    for (i = 0; i < 2; ++i) {
        if (!len[i])
            continue;
        memcpy(seg[i], ((uint8_t*) data) + done, len[i]);
        done += len[i];
    }
}

int rmc_pub_resend_packet(rmc_pub_context_t* ctx,"""),
  (PW, cut(PW, "    // Allocate memory for command\n", "    RMC_LOG_INDEX_DEBUG(conn->connection_index,\n                  \"Queued"), """    setup_packet_header(ctx, pack, &pack_hdr);
    _append(&conn->write_buf, &cmd, 1);
    _append(&conn->write_buf, &pack_hdr, sizeof(pack_hdr));
    _append(&conn->write_buf, pack->payload, pack->payload_len);

"""),
  (PW, """    uint8_t *seg1 = 0;
    uint32_t seg1_len = 0;
    uint8_t *seg2 = 0;
    uint32_t seg2_len = 0;
    int res = 0;
    packet_header_t pack_hdr;
""", """    int res = 0;
    uint8_t cmd = RMC_CMD_PACKET;
    packet_header_t pack_hdr;
"""),
  (PW, """    while(pack) {
        if ((res = send_single_multicast_packet(ctx, pack)))
            break;

        ++count;
        pack = pub_next_queued_packet(pctx);
    }

    return res;""", """    for (; pack && !res; pack = pub_next_queued_packet(pctx)) {
        res = send_single_multicast_packet(ctx, pack);
        count += !res;
    }

    return res;"""),
  (PW, cut(PW, "    for(ind = 0; ind <= max_ind; ++ind) {\n        rmc_connection_t* conn = 0;", "    // Return EBUSY if we have pending data to transmit\n    return busy?EBUSY:0;\n}"), """    for(ind = 0; ind <= max_ind; ++ind) {
        rmc_connection_t* conn = rmc_conn_find_by_index(&ctx->conn_vec, ind);
        payload_len_t len = 0;

        if (!conn)
            continue;

        count = pub_packet_list_size(&ctx->subscribers[ind].inflight);
        rmc_conn_get_pending_send_length(conn, &len);
        if (count || len)
            busy = 1;

        if (ack_count)
            *ack_count += count;

        if (send_buf_len)
            *send_buf_len += len;
    }

"""),
 ]),
 ("sub3", [
  (SR, "static int decode_subscribed_multicast(rmc", """static void* _new_payload(rmc_sub_context_t* ctx, void* content, payload_len_t length)
{
    void* res = ctx->payload_alloc?
        (*ctx->payload_alloc)(length, ctx->user_data):
        malloc(length);

    if (!res)
        exit(255);

    if (content)
        memcpy(res, content, length);
    return res;
}

static void _collect_ready(rmc_sub_context_t* ctx, sub_publisher_t* pub)
{
    uint32_t before = sub_packet_list_size(&ctx->dispatch_ready);

    sub_process_received_packets(pub, &ctx->dispatch_ready);
    if (sub_packet_list_size(&ctx->dispatch_ready) == before || !ctx->packet_ready_cb)
        return;

    (*ctx->packet_ready_cb)(ctx);
}

static int decode_subscribed_multicast(rmc"""),
  (SR, cut(SR, "    // Use the provided memory allocator to reserve memory for", "    start = rmc_usec"), "    payload_copy = _new_payload(ctx, payload, pack_hdr->payload_len);\n\n"),
  (SR, cut(SR, "    pack_rec_time += rmc_usec", "    return 0;\n}\n\n\nstatic int process_multicast_read"), "    pack_rec_time += rmc_usec_monotonic_timestamp() - start;\n    _collect_ready(ctx, pub);\n\n"),
  (SR, "    uint8_t* payload_copy = 0;\n    uint32_t packet_ready_sz = 0;\n", "    uint8_t* payload_copy = 0;\n"),
  (SR, "    rmc_sub_context_t* ctx = (rmc_sub_context_t*) user_data.ptr;\n    uint32_t packet_ready_sz = 0;\n", "    rmc_sub_context_t* ctx = (rmc_sub_context_t*) user_data.ptr;\n    sub_publisher_t* pub = &ctx->publishers[conn->connection_index];\n"),
  (SR, cut(SR, "    // Allocate memory for payload\n", "    // Read in payload and free it"), "    payload = _new_payload(ctx, 0, pack_hdr.payload_len);\n\n"),
  (SR, cut(SR, "    packet_ready_sz = sub_packet_list_size(&ctx->dispatch_ready);\n    sub_process_received_packets(&ctx->publishers[conn", "    return 0;\n}\n\nstatic void _payload_free_generic"), "    _collect_ready(ctx, pub);\n"),
  (SR, cut(SR, "    while(!res) {\n        len = recvfrom", "rearm:"), """    for (;;) {
        addr_len = sizeof(src_addr);
        len = recvfrom(ctx->mcast_recv_descriptor,
                       buffer, sizeof(buffer),
                       MSG_DONTWAIT,
                       (struct sockaddr*) &src_addr, &addr_len);

        if (len <= 0) {
            res = (len == 0)?EAGAIN:errno;
            break;
        }

        res = process_multicast_read(ctx, read_res, ntohl(src_addr.sin_addr.s_addr), buffer, len);
        if (res)
            break;
    }

"""),
  (SR, "rearm:\n    // Re-arm the poll", "    // Re-arm the poll"),
  (SR, """    if (s_ind == RMC_MULTICAST_INDEX) {
        do {
            res = multicast_read(ctx, op_res);
        } while(!res);

        return (res == EAGAIN)?0:res;
    }
""", """    if (s_ind == RMC_MULTICAST_INDEX) {
        while (!(res = multicast_read(ctx, op_res)))
            ;

        if (res == EAGAIN)
            res = 0;
        return res;
    }
"""),
  (SR, """    for (pnode = sub_packet_list_head(&ctx->publishers[s_ind].received_pid);
         pnode;
         pnode = sub_packet_list_next(pnode))
        pnode->data->pkg_user_data = ctx->user_data;
""", """    pnode = sub_packet_list_head(&ctx->publishers[s_ind].received_pid);
    while (pnode) {
        sub_packet_t* pack = pnode->data;

        pack->pkg_user_data = ctx->user_data;
        pnode = sub_packet_list_next(pnode);
    }
"""),
  (SR, cut(SR, "    if (res == ENOMEM) {", "    // Process packets (which"), """    switch (res) {
    case ENOMEM:
        RMC_LOG_INDEX_WARNING(s_ind, "Cannot read tcp control channel since buffer is full.");
        goto rearm;

    case EPIPE:
        rmc_sub_close_connection(ctx, s_ind);
        *op_res = RMC_READ_DISCONNECT;
        return 0;

    default:
        break;
    }

"""),
  (SP, """    return (n_oldest < o_oldest)?-1:
        ((n_oldest > o_oldest)?1:0);
""", """    if (n_oldest == o_oldest)
        return 0;

    return (n_oldest > o_oldest)?1:-1;
"""),
  (SP, """    int res = rmc_sub_packet_dispatched_keep_payload(ctx, pack);

    // ENOENT means that pack is not ours to touch.
    if (res)
        return res;

    if (ctx->payload_free)
        (*ctx->payload_free)(pack->payload, pack->payload_len, ctx->user_data);
    else
        free(pack->payload);

    free(pack);

    return 0;
""", """    void* payload = 0;
    payload_len_t length = 0;
    int res = rmc_sub_packet_dispatched_keep_payload(ctx, pack);

    if (!res) {
        payload = pack->payload;
        length = pack->payload_len;
        free(pack);

        if (ctx->payload_free)
            (*ctx->payload_free)(payload, length, ctx->user_data);
        else
            free(payload);
    }
    return res;
"""),
  (SP, """    if (rmc_sub_get_dispatch_ready_count(ctx))
        return sub_packet_list_head(&ctx->dispatch_ready)->data;

    return 0;
""", """    sub_packet_node_t* node = sub_packet_list_head(&ctx->dispatch_ready);

    return node?node->data:0;
"""),
 ]),
 ("proto3", [
  (RP, cut(RP, "    *op_res = RMC_READ_TCP;\n    while(1) {", "int rmc_conn_tcp_read("), """    *op_res = RMC_READ_TCP;
    do {
        rmc_conn_command_dispatch_t* current = find_command(dispatch_table, command);

        if (!current) {
            *op_res = RMC_ERROR;
            RMC_LOG_INDEX_ERROR(s_ind, "Unknown command byte: %d", command);
            return EPROTO;
        }

        if ((res = (*current->dispatch)(conn, user_data)) != 0) {
            if (res != EAGAIN)
                *op_res = RMC_ERROR;
            return res;
        }

        in_use = circ_buf_in_use(&conn->read_buf);
        if (in_use && (res = circ_buf_read(&conn->read_buf, &command, 1, 0)) != 0) {
            *op_res = RMC_ERROR;
            return res;
        }
    } while(in_use);

    return 0;
}


"""),
  (RP, "// Return EAGAIN if we have a partial command that needs to more data\n", """static rmc_conn_command_dispatch_t* find_command(rmc_conn_command_dispatch_t* table, uint8_t command)
{
    int i = 0;

    for (i = 0; table[i].dispatch; ++i)
        if (table[i].command == command)
            return &table[i];
    return 0;
}

// Return EAGAIN if we have a partial command that needs to more data
"""),
  (PP, cut(PP, "    if (ctx->payload_free && pub_packet_user_data(pack).u32 != RMC", "}\n\n// If we currently"), """    uint8_t owned = (pub_packet_user_data(pack).u32 == RMC_PUB_PAYLOAD_OWNED);

    pub_packet_release(pack, (owned || !ctx->payload_free)?_payload_free_generic:ctx->payload_free);
"""),
  (PP, cut(PP, "    if (pub_get_unacknowledged_packet_count(&ctx->pub_ctx) <= ctx->traffic_resume_threshold) {", "}\n\nint rmc_pub_packet_ack"), """    uint32_t unacked = pub_get_unacknowledged_packet_count(&ctx->pub_ctx);

    ctx->traffic_suspended = (unacked > ctx->traffic_resume_threshold);
"""),
  (PP, """    pub_packet_ack(&ctx->subscribers[conn->connection_index],
                   pid,
""", """    pub_subscriber_t* sub = ctx->subscribers + conn->connection_index;

    pub_packet_ack(sub,
                   pid,
"""),
 ]),
]

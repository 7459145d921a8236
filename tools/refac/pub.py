P="pub.c"; K="rmc_pub_packet.c"; T="rmc_pub_timeout.c"; W="rmc_pub_write.c"; R="rmc_pub_read.c"; X="rmc_pub_context.c"
REFACS=[
 ("pub1", [
  (P, """    if (new_pack->pid > existing_pack->pid)
        return 1;

    if (new_pack->pid < existing_pack->pid)
        return -1;

    return 0;""", """    return (new_pack->pid > existing_pack->pid) - (new_pack->pid < existing_pack->pid);"""),
  (P, """    ppack = _alloc_pending_packet();
    ppack->pid = pid;
    ppack->payload = payload;
    ppack->payload_len = payload_len;
    ppack->ref_count = 0;
    ppack->send_ts = 0; // Will be set by pub_packet_sent()
    ppack->pkg_user_data = pkg_user_data; // Handed to (*payload_free)()
    ppack->parent_node = 0;
""", """    ppack = (pub_packet_t*) calloc(1, sizeof(pub_packet_t));
    assert(ppack);
    ppack->pkg_user_data = pkg_user_data;
    ppack->payload_len = payload_len;
    ppack->payload = payload;
    ppack->pid = pid;
"""),
  (P, """    if (!pack->pid) {
        pub_packet_list_delete(pack->parent_node);
        pack->parent_node = 0;
        return;
    }
""", """    if (pack->pid == 0) {
        pub_packet_node_t* node = pack->parent_node;

        pack->parent_node = 0;
        pub_packet_list_delete(node);
        return;
    }
"""),
  (P, """    sub_node = pub_sub_list_head(&ctx->subscribers);
    while(sub_node) {
        pub_subscriber_t* sub = sub_node->data;

        // Insert the new pub_packet_t in the descending
        // packet_id sorted list of the subscriber's inflight packets.
        pub_packet_list_insert_sorted(&sub->inflight,
                                      pack,
                                      _compare_pid, 0);
        pack->ref_count++;
        sub_node = pub_sub_list_next(sub_node);
    }""", """    for (sub_node = pub_sub_list_tail(&ctx->subscribers); sub_node; sub_node = pub_sub_list_prev(sub_node)) {
        ++pack->ref_count;
        pub_packet_list_insert_sorted(&sub_node->data->inflight, pack, _compare_pid, 0);
    }"""),
  (P, """    node = pub_packet_list_tail(&sub->inflight);

    while(node) {
        if (node->data->pid == pid)
            break;

        node = pub_packet_list_prev(node);
    }

    // No inflight""", """    node = find_pid(&sub->inflight, pid);

    // No inflight"""),
  (P, """void pub_packet_ack(pub_subscriber_t* sub,""", """static pub_packet_node_t* find_pid(pub_packet_list_t* list, packet_id_t pid)
{
    pub_packet_node_t* node;

    for (node = pub_packet_list_head(list); node; node = pub_packet_list_next(node))
        if (node->data->pid == pid)
            return node;
    return 0;
}

void pub_packet_ack(pub_subscriber_t* sub,"""),
  (P, """    pack->ref_count--;

    // If ref_count is zero, then all subscribers have acked the
    // packet, which can now be removed from the pub_context_t::pending
    // list. pack->parent_node points to the list_node_t struct in the pending
    // list that is to be unlinked and deleted.
    //
    if (!pack->ref_count) {
        pub_packet_list_delete(pack->parent_node);

        // Free data using function provided with this call.
        if (pub_payload_free)
            (*pub_payload_free)(pack->payload,
                                pack->payload_len,
                                pack->pkg_user_data);

        // Delete the pack.
        _free_pending_packet(pack);
    }
""", """    if (--pack->ref_count > 0)
        return;
    pub_packet_release(pack, pub_payload_free);
"""),
  (P, """    while((node = pub_packet_list_tail(&sub->inflight)))
        pub_packet_ack(sub, node->data->pid, pub_payload_free);
""", """    while(pub_packet_list_size(&sub->inflight) > 0) {
        node = pub_packet_list_head(&sub->inflight);
        pub_packet_ack(sub, node->data->pid, pub_payload_free);
    }
"""),
  ]),
 ("pub2", [
  (P, """        if (pub_packet_list_size(&sub_node->data->inflight) &&
            pub_packet_list_tail(&sub_node->data->inflight)->data->send_ts + timeout_period <= current_ts)
            pub_sub_list_push_tail(result, sub_node->data);
        sub_node = pub_sub_list_next(sub_node);""", """        pub_packet_node_t* last = pub_packet_list_tail(&sub_node->data->inflight);
        if (last && current_ts - last->data->send_ts >= timeout_period)
            pub_sub_list_push_tail(result, sub_node->data);
        sub_node = sub_node->next;"""),
  (P, """    while(pack_node &&
          pack_node->data->send_ts + timeout_period <= current_ts) {
        pub_packet_list_push_tail(result, pack_node->data);
        pack_node = pub_packet_list_prev(pack_node);
    }
""", """    for (; pack_node; pack_node = pub_packet_list_prev(pack_node)) {
        pub_packet_t* pack = pack_node->data;
        if (pack->send_ts + timeout_period > current_ts)
            break;
        pub_packet_list_push_tail(result, pack);
    }
"""),
  (P, """        pub_packet_list_t* lst = &sub_node->data->inflight;
        pub_packet_t* pack = 0;
        if (!pub_packet_list_size(lst)) {
            sub_node = pub_sub_list_next(sub_node);
            continue;
        }
        pack = pub_packet_list_tail(lst)->data;
        if (oldest == -1 || pack->send_ts < oldest) {
            oldest = pack->send_ts;
        }
        sub_node = pub_sub_list_next(sub_node);""", """        pub_packet_node_t* node = pub_packet_list_tail(&sub_node->data->inflight);
        if (node) {
            usec_timestamp_t ts = node->data->send_ts;
            oldest = (oldest == -1)?ts:((ts < oldest)?ts:oldest);
        }
        sub_node = pub_sub_list_next(sub_node);"""),
  (T, """    if (announce_timeout_ts == -1 && ack_timeout_ts == -1) {
        *result_ts = -1;
        return 0;
    }

    if (announce_timeout_ts != -1 && ack_timeout_ts == -1) {
        *result_ts = announce_timeout_ts;
        return 0;
    }

    if (announce_timeout_ts == -1 && ack_timeout_ts != -1) {
        *result_ts = ack_timeout_ts;
        return 0;
    }

    // Both timeout values specified, use the lesser value.
    *result_ts = (ack_timeout_ts < announce_timeout_ts)?ack_timeout_ts:announce_timeout_ts;
""", """    if (ack_timeout_ts == -1)
        *result_ts = announce_timeout_ts;
    else if (announce_timeout_ts == -1 || ack_timeout_ts < announce_timeout_ts)
        *result_ts = ack_timeout_ts;
    else
        *result_ts = announce_timeout_ts;
"""),
  (T, """    if (ctx->announce_send_interval &&
        ctx->announce_next_send_ts != 0 &&
        ctx->announce_next_send_ts - current_ts <= 0) {
        char buffer[RMC_MAX_PAYLOAD];
        payload_len_t len = 0;
        uint8_t send_announce = 1;

        // Invoke the callback, if specified, to retrieve a payload to send with the
        // announcement packet.
        // If callback returns 0, do not send announce
        if (ctx->announce_cb)
            send_announce = (*ctx->announce_cb)(ctx, buffer, sizeof(buffer), &len);

        if (len > sizeof(buffer))
            len = sizeof(buffer);

        if (send_announce) {
            RMC_LOG_DEBUG("Sending announce");
            rmc_pub_queue_announcement(ctx, buffer, len);
        }

        // Setup next announce.
        if (ctx->announce_send_interval)
            ctx->announce_next_send_ts = current_ts + ctx->announce_send_interval;
        else
            ctx->announce_next_send_ts = 0; // Disable announce sends.

        return 0;
    }
""", """    if (announce_due(ctx, current_ts)) {
        process_announce(ctx, current_ts);
        return 0;
    }
"""),
  (T, """int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
""", """static uint8_t announce_due(rmc_pub_context_t* ctx, usec_timestamp_t now)
{
    if (!ctx->announce_send_interval || !ctx->announce_next_send_ts)
        return 0;
    return ctx->announce_next_send_ts <= now;
}

static void process_announce(rmc_pub_context_t* ctx, usec_timestamp_t now)
{
    char buffer[RMC_MAX_PAYLOAD];
    payload_len_t len = 0;

    if (!ctx->announce_cb || ctx->announce_cb(ctx, buffer, sizeof(buffer), &len)) {
        if (len > sizeof(buffer))
            len = sizeof(buffer);
        rmc_pub_queue_announcement(ctx, buffer, len);
    }
    ctx->announce_next_send_ts = ctx->announce_send_interval ? now + ctx->announce_send_interval : 0;
}

int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
"""),
  (T, """    while((pnode = pub_packet_list_head(&packets))) {

        // Outbound circular buffer may be full.
        RMC_LOG_INDEX_DEBUG(conn->connection_index,
                            "Timed out packet pid: %lu", pnode->data->pid);
        if ((res = process_sent_packet_timeout(ctx, sub, pnode->data)) != 0)  {
            pub_packet_list_empty(&packets);
            RMC_LOG_INDEX_DEBUG(conn->connection_index,
                                "process sent packet: %d/%s", res, strerror(res));
            return res;
        }


        // We were successful in queuing the packet transmission.
        pub_packet_list_pop_head(&packets, &pack);
    }

    return 0;""", """    (void) pnode; (void) conn;
    while(!res && pub_packet_list_pop_head(&packets, &pack))
        res = process_sent_packet_timeout(ctx, sub, pack);

    pub_packet_list_empty(&packets);
    return res;"""),
  (T, """    if (!conn || conn->mode != RMC_CONNECTION_MODE_CONNECTED)
        return EINVAL;

    res = rmc_pub_resend""", """    res = rmc_pub_resend"""),
  ]),
 ("pub3", [
  (W, """    pack_hdr->node_id = ctx->node_id;
    pack_hdr->payload_len = pack->payload_len;
    pack_hdr->pid = pack->pid;

    // If listen_ip == 0 then receiver will use source address of packet as tcp
    // address to connect to.
    pack_hdr->listen_ip = ctx->control_listen_if_addr;
    pack_hdr->listen_port = ctx->control_listen_port;""", """    *pack_hdr = (packet_header_t) {
        .pid = pack->pid,
        .node_id = ctx->node_id,
        .payload_len = pack->payload_len,
        .listen_ip = ctx->control_listen_if_addr,
        .listen_port = ctx->control_listen_port
    };"""),
  (W, """    io_vec[0] = (struct iovec) {
        .iov_base = (void*) &pack_hdr,
        .iov_len = sizeof(pack_hdr)
    };

    io_vec[1] = (struct iovec) {
        .iov_base = (void*) pack->payload,
        .iov_len = pack->payload_len
    };

    // Setup message header.
    msg_hdr = (struct msghdr) {
        .msg_name = (void*) &sock_addr,
        .msg_namelen = sizeof(sock_addr),
        .msg_iov = io_vec,
        .msg_iovlen = sizeof(io_vec) / sizeof(io_vec[0]),
        .msg_control = 0,
        .msg_controllen = 0,
        .msg_flags = 0
    };
""", """    memset(&msg_hdr, 0, sizeof(msg_hdr));
    msg_hdr.msg_iov = io_vec;
    msg_hdr.msg_iovlen = 2;
    msg_hdr.msg_name = &sock_addr;
    msg_hdr.msg_namelen = sizeof(struct sockaddr_in);
    io_vec[0].iov_base = &pack_hdr;
    io_vec[0].iov_len = sizeof(packet_header_t);
    io_vec[1].iov_len = pack->payload_len;
    io_vec[1].iov_base = pack->payload;
"""),
  (W, """    if (res == -1) {
        if ( errno != EAGAIN && errno != EWOULDBLOCK) {
            RMC_LOG_INDEX_WARNING(RMC_MULTICAST_INDEX,
                                  "sendmsg(): %d/%s", errno, strerror(errno));
            return errno;
        }

        // We are ok with an EAGAIN error since we can retry later to
        // send the packet.

        res = EAGAIN;
        goto rearm;
    }

    pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());

    // Announcements, and data sent without any subscribers, will not be acknowledged.
    if (!pack->ref_count)
        rmc_pub_packet_release(ctx, pack);

    res = 0;
rearm:
    if (ctx->conn_vec""", """    if (res == -1 && errno != EAGAIN)
        return errno;

    if (res != -1) {
        pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
        if (pack->ref_count == 0)
            rmc_pub_packet_release(ctx, pack);
        res = 0;
    } else
        res = EAGAIN;

    if (ctx->conn_vec"""),
  (W, """    pub_packet_t* pack = pub_next_queued_packet(pctx);
    int res = 0;
    int count = 0;

    while(pack) {
        if ((res = send_single_multicast_packet(ctx, pack)))
            break;

        ++count;
        pack = pub_next_queued_packet(pctx);
    }

    return res;""", """    pub_packet_t* pack = 0;
    int res = 0;

    do {
        if (!(pack = pub_next_queued_packet(pctx)))
            return 0;
        res = send_single_multicast_packet(ctx, pack);
    } while(res == 0);

    return res;"""),
  (W, """int rmc_pub_resend_packet(rmc_pub_context_t* ctx,""", """static void ring_append(rmc_connection_t* conn, const void* data, uint32_t len)
{
    uint8_t* seg[2] = { 0, 0 };
    uint32_t n[2] = { 0, 0 };

    if (circ_buf_alloc(&conn->write_buf, len, &seg[0], &n[0], &seg[1], &n[1])) {
        RMC_LOG_INDEX_FATAL(conn->connection_index, "Could not allocate %d bytes", len);
        exit(255);
    }
    memcpy(seg[0], data, n[0]);
    if (n[1])
        memcpy(seg[1], ((const uint8_t*) data) + n[0], n[1]);
}

int rmc_pub_resend_packet(rmc_pub_context_t* ctx,"""),
  (W, """    // Allocate memory for command
    res = circ_buf_alloc(&conn->write_buf, 1,
                         &seg1, &seg1_len,
                         &seg2, &seg2_len);

    // We checked above that we have memory, so an error here is final
    if (res) {
        RMC_LOG_INDEX_FATAL(conn->connection_index,
                            "Could not allocate one byte: %s\\n", strerror(errno));
        exit(255);
    }
    *seg1 = RMC_CMD_PACKET;

    setup_packet_header(ctx, pack, &pack_hdr);

    // Allocate memory for packet header
    res = circ_buf_alloc(&conn->write_buf, sizeof(packet_header_t),
                         &seg1, &seg1_len,
                         &seg2, &seg2_len);

    if (res) {
        RMC_LOG_INDEX_FATAL(conn->connection_index,
                            "Could not allocate %lu header bytes: %s\\n", sizeof(pack_hdr), strerror(errno));
        exit(255);
    }

    // Copy in packet header
    memcpy(seg1, (uint8_t*) &pack_hdr, seg1_len);
    if (seg2_len)
        memcpy(seg2, ((uint8_t*) &pack_hdr) + seg1_len, seg2_len);

    // Allocate packet payload
    res = circ_buf_alloc(&conn->write_buf, pack->payload_len,
                         &seg1, &seg1_len,
                         &seg2, &seg2_len);

    if (res) {
        RMC_LOG_INDEX_FATAL(conn->connection_index,
                      "Could not allocate %d payload bytes: %s\\n", pack->payload_len, strerror(errno));
        exit(255);
    }

    // Copy in packet payload
    memcpy(seg1, pack->payload, seg1_len);
    if (seg2_len)
        memcpy(seg2, ((uint8_t*) pack->payload) + seg1_len, seg2_len);
""", """    uint8_t cmd = RMC_CMD_PACKET;

    setup_packet_header(ctx, pack, &pack_hdr);
    ring_append(conn, &cmd, sizeof(cmd));
    ring_append(conn, &pack_hdr, sizeof(pack_hdr));
    ring_append(conn, pack->payload, pack->payload_len);
    (void) seg1; (void) seg2; (void) seg1_len; (void) seg2_len;
"""),
  (W, """    // Setup the poll write action
    if (!(conn->action & RMC_POLLWRITE)) {
        rmc_poll_action_t old_action = conn->action;

        conn->action |= RMC_POLLWRITE;
        if (ctx->conn_vec.poll_modify)
            (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                         conn->descriptor,
                                         conn->connection_index,
                                         old_action,
                                         conn->action);
    }
""", """    rmc_poll_action_t before = conn->action;

    conn->action |= RMC_POLLWRITE;
    if (before != conn->action && ctx->conn_vec.poll_modify)
        (*ctx->conn_vec.poll_modify)(ctx->user_data, conn->descriptor, conn->connection_index, before, conn->action);
"""),
  (W, """    if (bytes_left_after == 0)
        conn->action &= ~RMC_POLLWRITE;
    else
        conn->action |= RMC_POLLWRITE;

    if (ctx->conn_vec.poll_modify)""", """    conn->action = (conn->action & ~RMC_POLLWRITE) | (bytes_left_after ? RMC_POLLWRITE : 0);

    if (ctx->conn_vec.poll_modify)"""),
  (W, """    for(ind = 0; ind <= max_ind; ++ind) {
        rmc_connection_t* conn = 0;
        pub_subscriber_t *sub = 0;
        payload_len_t len = 0;

        conn = rmc_conn_find_by_index(&ctx->conn_vec, ind);

        if (!conn)
            continue;

        sub = &ctx->subscribers[conn->connection_index];

        count = pub_packet_list_size(&sub->inflight);
        if (count != 0) {
            busy = 1;

            if (ack_count)
                *ack_count += count;
        }


        rmc_conn_get_pending_send_length(conn, &len);

        if (len != 0) {
            busy = 1;

            if (send_buf_len)
                *send_buf_len += len;
        }
    }
""", """    uint32_t acks = 0, bytes = 0;

    for(ind = 0; ind <= max_ind; ++ind) {
        rmc_connection_t* conn = rmc_conn_find_by_index(&ctx->conn_vec, ind);

        if (conn) {
            acks += pub_packet_list_size(&ctx->subscribers[ind].inflight);
            bytes += circ_buf_in_use(&conn->write_buf);
        }
    }

    (void) count;
    if (ack_count) *ack_count = acks;
    if (send_buf_len) *send_buf_len = bytes;
    busy = busy || acks || bytes;
"""),
  ]),
 ("pub4", [
  (K, """    if (!ctx || !payload)
        return EINVAL;


    if (payload_len > RMC_MAX_PAYLOAD) {
        RMC_LOG_ERROR("Oversized packet [%d] bytes. Max size[%d]", payload_len, RMC_MAX_PAYLOAD);
        return EMSGSIZE;
    }

    // Is outbound traffic suspended due to too many packets being in
    // flight toward subscribers?
    if (rmc_pub_traffic_suspended(ctx) == EBUSY)
        return EBUSY;

    ctx->traffic_suspended = 0;
    pack = pub_next_queued_packet(&ctx->pub_ctx);
""", """    int err = may_queue(ctx, payload, payload_len);

    if (err)
        return err;

    pack = pub_next_queued_packet(&ctx->pub_ctx);
"""),
  (K, """static int _queue_packet(rmc_pub_context_t* ctx,""", """static int may_queue(rmc_pub_context_t* ctx, void* payload, payload_len_t payload_len)
{
    if (!payload || !ctx)
        return EINVAL;

    if (payload_len > RMC_MAX_PAYLOAD)
        return EMSGSIZE;

    return ctx->traffic_suspended ? EBUSY : 0;
}

static int _queue_packet(rmc_pub_context_t* ctx,"""),
  (K, """    if (ctx->conn_vec.poll_modify)  {
        // Did we already have a packet pending for send prior
        // to queueing the lastest packet? If so, old action
        // was POLLWRITE, if not, it was 0.
        (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                     ctx->mcast_send_descriptor,
                                     RMC_MULTICAST_INDEX,
                                     (pack?RMC_POLLWRITE:0),
                                     RMC_POLLWRITE);
    }


    // Is it time to suspend traffic?
    if (ctx->traffic_suspend_threshold > 0 &&
        pub_get_unacknowledged_packet_count(&ctx->pub_ctx) >= ctx->traffic_suspend_threshold) {
        RMC_LOG_INFO("Suspending traffic");
        ctx->traffic_suspended = 1;
    }
""", """    if (ctx->traffic_suspend_threshold)
        ctx->traffic_suspended = pub_get_unacknowledged_packet_count(&ctx->pub_ctx) >= ctx->traffic_suspend_threshold;

    if (!ctx->conn_vec.poll_modify)
        return 0;

    (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                 ctx->mcast_send_descriptor,
                                 RMC_MULTICAST_INDEX,
                                 pack ? RMC_POLLWRITE : 0,
                                 RMC_POLLWRITE);
"""),
  (R, """    for (pid = ack.first_pid; pid <= ack.last_pid; ++pid)
        rmc_pub_packet_ack(ctx, conn, pid) ;
    return 0;""", """    pid = ack.first_pid;
    while(pid <= ack.last_pid) {
        rmc_pub_packet_ack(ctx, conn, pid);
        ++pid;
    }
    return 0;"""),
  (R, """    // Do we have enough data?
    if (circ_buf_in_use(&conn->read_buf) < sizeof(msg) + 1)
        return EAGAIN;

    // Read message header
    circ_buf_read_offset(&conn->read_buf, 1, (uint8_t*) &msg, sizeof(msg), 0);

    // Do we have enough data for payload?
    if (circ_buf_in_use(&conn->read_buf) < sizeof(msg) + 1 + msg.payload_len)
        return EAGAIN;
""", """    uint32_t have = circ_buf_in_use(&conn->read_buf);
    uint32_t total = 1 + sizeof(msg);

    if (have < total)
        return EAGAIN;

    circ_buf_read_offset(&conn->read_buf, 1, (uint8_t*) &msg, sizeof(msg), 0);
    total += msg.payload_len;
    if (total > have)
        return EAGAIN;
"""),
  (R, """    // Disconnect callback, if specified through
    // rmc_pub_set_subscriber_connect_callback().
    if (ctx->subscriber_disconnect_cb) {
        (*ctx->subscriber_disconnect_cb)(ctx, conn->remote_address, conn->remote_port);
    }

    rmc_conn_close_connection(&ctx->conn_vec, s_ind);
""", """    uint32_t addr = conn->remote_address;
    uint16_t port = conn->remote_port;

    if (ctx->subscriber_disconnect_cb)
        ctx->subscriber_disconnect_cb(ctx, addr, port);

    rmc_conn_close_connection(&ctx->conn_vec, s_ind);
"""),
  (R, """int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
{""", """static int accept_subscriber(rmc_pub_context_t* ctx, uint8_t* op_res)
{
    rmc_index_t ind = RMC_NIL_INDEX;
    rmc_connection_t* conn = 0;
    int res = rmc_conn_process_accept(ctx->listen_descriptor, &ctx->conn_vec, &ind);

    *op_res = res ? RMC_ERROR : RMC_READ_ACCEPT;
    if (res)
        return res;

    conn = rmc_conn_find_by_index(&ctx->conn_vec, ind);
    assert(conn);
    pub_init_subscriber(&ctx->subscribers[ind], &ctx->pub_ctx, user_data_ptr(conn));

    if (ctx->subscriber_connect_cb &&
        !(*ctx->subscriber_connect_cb)(ctx, conn->remote_address, conn->remote_port))
        rmc_pub_close_connection(ctx, ind);
    return 0;
}

int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
{"""),
  (R, """        rmc_connection_t* conn = 0;
        res = rmc_conn_process_accept(ctx->listen_descriptor, &ctx->conn_vec, &s_ind);


        if (res) {
            *op_res = RMC_ERROR;
            return res;
        }

        // Setup the subscriber struct
        conn = rmc_conn_find_by_index(&ctx->conn_vec, s_ind);


        assert(conn);
        pub_init_subscriber(&ctx->subscribers[s_ind], &ctx->pub_ctx, user_data_ptr(conn));
        *op_res = RMC_READ_ACCEPT;
        // Check if we should accept subscriber
        if (ctx->subscriber_connect_cb) {
            RMC_LOG_COMMENT("Invoking callback for new subscriber connection");
            if (!(*ctx->subscriber_connect_cb)(ctx, conn->remote_address, conn->remote_port))
                rmc_pub_close_connection(ctx, s_ind);
        }

        return 0;
    }
""", """        return accept_subscriber(ctx, op_res);
    }
"""),
  (R, """    old_action = conn->action;
    rmc_conn_get_pending_send_length(conn, &write_buf_sz);

    conn->action = RMC_POLLREAD | ((write_buf_sz > 0)?RMC_POLLWRITE:0);
""", """    old_action = conn->action;
    conn->action = RMC_POLLREAD;
    (void) write_buf_sz;
    if (circ_buf_in_use(&conn->write_buf))
        conn->action |= RMC_POLLWRITE;
"""),
  ]),
 ("pub5", [
  (X, """    ctx->subscriber_connect_cb = 0;
    ctx->subscriber_disconnect_cb = 0;

    ctx->subscriber_connect_cb = 0;
    ctx->subscriber_control_message_cb = 0;

    ctx->announce_cb = 0;
    ctx->announce_send_interval = 0;
    ctx->announce_next_send_ts = 0;

    ctx->traffic_suspend_threshold = 0;
    ctx->traffic_resume_threshold = 0;
    ctx->traffic_suspended = 0;
""", ""),
  (X, """    *context_res = ctx;

    conn_vec""", """    memset(ctx, 0, sizeof(rmc_pub_context_t));
    *context_res = ctx;

    conn_vec"""),
  (X, """    ctx->mcast_group_addr = ntohl(addr.s_addr);

    if (!inet_aton(control_listen_if_addr, &addr)) {
        RMC_LOG_WARNING("Could not resolve tcp listen address %s to IP address\\n",
                control_listen_if_addr);
        goto error;
    }
    ctx->control_listen_if_addr = ntohl(addr.s_addr);
""", """    ctx->mcast_group_addr = ntohl(addr.s_addr);

    if (parse_addr(control_listen_if_addr, &ctx->control_listen_if_addr))
        goto error;
"""),
  (X, """// =============
// CONTEXT MANAGEMENT""", """static int parse_addr(const char* text, uint32_t* result)
{
    struct in_addr addr;

    if (!inet_aton(text, &addr))
        return EINVAL;
    *result = ntohl(addr.s_addr);
    return 0;
}

// =============
// CONTEXT MANAGEMENT"""),
  (X, """    if (max != RMC_NIL_INDEX) {
        for(ind = 0; ind <= max; ++ind) {
            rmc_connection_t* conn = rmc_conn_find_by_index(&ctx->conn_vec,
                                                            ind);
            // Don't opereate on closed connections.
            if (!conn)
                continue;

            rmc_pub_close_connection(ctx, ind);
        }
    }

    if (ctx->mcast_send_descriptor != -1)
        close(ctx->mcast_send_descriptor);

    if (ctx->listen_descriptor != -1)
        close(ctx->listen_descriptor);

    ctx->mcast_send_descriptor = -1;
    ctx->listen_descriptor = -1;
""", """    for(ind = 0; max != RMC_NIL_INDEX && ind <= max; ++ind)
        if (rmc_conn_find_by_index(&ctx->conn_vec, ind))
            rmc_pub_close_connection(ctx, ind);

    if (ctx->listen_descriptor != -1) {
        close(ctx->listen_descriptor);
        ctx->listen_descriptor = -1;
    }

    if (ctx->mcast_send_descriptor != -1) {
        close(ctx->mcast_send_descriptor);
        ctx->mcast_send_descriptor = -1;
    }
"""),
  (X, """    if (send_interval_usec && !ctx->announce_next_send_ts)
        ctx->announce_next_send_ts = rmc_usec_monotonic_timestamp() + send_interval_usec;

    ctx->announce_send_interval = send_interval_usec;

    // Wipe any pending announce we are waiting for.
    if (!send_interval_usec)
        ctx->announce_next_send_ts = 0;
    return 0;""", """    ctx->announce_send_interval = send_interval_usec;

    if (!send_interval_usec)
        ctx->announce_next_send_ts = 0;
    else if (ctx->announce_next_send_ts == 0)
        ctx->announce_next_send_ts = send_interval_usec + rmc_usec_monotonic_timestamp();

    return 0;"""),
  (X, """    while((pack = pub_next_queued_packet(&ctx->pub_ctx)))
        rmc_pub_packet_release(ctx, pack);

    free(ctx->subscribers);
    free(ctx->conn_vec.connections);
    free(ctx);
    return 0;""", """    for (pack = pub_next_queued_packet(&ctx->pub_ctx); pack; pack = pub_next_queued_packet(&ctx->pub_ctx))
        rmc_pub_packet_release(ctx, pack);

    free(ctx->conn_vec.connections);
    ctx->conn_vec.connections = 0;
    free(ctx->subscribers);
    ctx->subscribers = 0;
    free(ctx);
    return 0;"""),
  (X, """    return rmc_pub_get_subscriber_count(ctx) +
        ((ctx->mcast_send_descriptor != -1)?1:0) +
        ((ctx->listen_descriptor != -1 )?1:0);""", """    uint32_t res = rmc_pub_get_subscriber_count(ctx);

    if (ctx->mcast_send_descriptor != -1)
        ++res;
    if (ctx->listen_descriptor != -1)
        ++res;
    return res;"""),
  ]),
]

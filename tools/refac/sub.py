S="sub.c"; K="rmc_sub_packet.c"; T="rmc_sub_timeout.c"; W="rmc_sub_write.c"; R="rmc_sub_read.c"; X="rmc_sub_context.c"; O="rmc_protocol.c"
REFACS=[
 ("sub1", [
  (S, """    sub_packet_t cmp_pack = { .pid = pid };
    int is_duplicate = 0;

    // If this is the first packet to be received,
    // then we are not a duplicate.
    if (!pub->max_pid_ready)
        return 0;

    // Is packet duplicate?
    // FIXME: Setup hash table for pub->received so that we
    // can find dups faster
    //
    if (pid <= pub->max_pid_ready) {
        return 1;
    }

    sub_packet_list_find_node_rev(&pub->received_pid,
                                  &cmp_pack,
                                  _is_duplicate, &is_duplicate);

    if (is_duplicate == 1) {
        return 1;
    }
    return 0;""", """    sub_packet_node_t* node = 0;

    if (pub->max_pid_ready == 0)
        return 0;

    if (pub->max_pid_ready >= pid)
        return 1;

    for (node = sub_packet_list_tail(&pub->received_pid); node; node = sub_packet_list_prev(node))
        if (node->data->pid <= pid)
            return node->data->pid == pid;

    return 0;"""),
  (S, """    return (n_dt->pid < o_dt->pid)?-1:
        ((n_dt->pid > o_dt->pid)?1:
         0);""", """    if (n_dt->pid == o_dt->pid)
        return 0;
    return (n_dt->pid > o_dt->pid)?1:-1;"""),
  (S, """    pack = _alloc_pending_packet();
    pack->pid = pid;
    pack->payload = payload;
    pack->payload_len = payload_len;
    pack->publisher = pub;
    pack->pkg_user_data = pkg_user_data;

    if (pub->max_pid_received < pid)
        pub->max_pid_received = pid;

    // Insert""", """    pack = new_packet(pub, pid, payload, payload_len, pkg_user_data);

    if (store_receive_interval_data)
        sub_packet_add_to_received_interval(pub, pid);

    if (pid > pub->max_pid_received)
        pub->max_pid_received = pid;

    // Insert"""),
  (S, """                                      _compare_pid, 0);

    if (store_receive_interval_data)
        sub_packet_add_to_received_interval(pub, pid);
    return 1;""", """                                      _compare_pid, 0);

    return 1;"""),
  (S, """int sub_packet_received(sub_publisher_t* pub, packet_id_t pid,""", """static sub_packet_t* new_packet(sub_publisher_t* pub, packet_id_t pid, void* payload, payload_len_t len, user_data_t ud)
{
    sub_packet_t* pack = _alloc_pending_packet();

    memset(pack, 0, sizeof(*pack));
    pack->publisher = pub;
    pack->payload = payload;
    pack->payload_len = len;
    pack->pid = pid;
    pack->pkg_user_data = ud;
    return pack;
}

int sub_packet_received(sub_publisher_t* pub, packet_id_t pid,"""),
  (S, """    while(node) {
        if (pub->max_pid_ready &&
            node->data->pid != pub->max_pid_ready + 1)
            break;

        // Drop the packet in at the tail of provide dispatch_ready list.
        // Since the pub->received() queue we get the packts from is pre-sorted on pid,
        // we will guarantee that packets in dispatch_ready will be sorted on an ascending pid.
        sub_packet_list_unlink(node);

        sub_packet_list_push_tail_node(dispatch_ready, node);
        node = sub_packet_list_head(&pub->received_pid);
        pub->max_pid_ready++;
    }""", """    for (; node && node->data->pid == pub->max_pid_ready + 1; node = sub_packet_list_head(&pub->received_pid)) {
        pub->max_pid_ready = node->data->pid;
        sub_packet_list_push_tail_node(dispatch_ready, sub_packet_list_unlink(node));
    }"""),
  (S, """    while(sub_packet_list_pop_head(&pub->received_pid, &pack)) {
        if (payload_free_cb)
            (*payload_free_cb)(pack->payload, pack->payload_len, pack->pkg_user_data);
        _free_pending_packet(pack);
    }
""", """    while(sub_packet_list_size(&pub->received_pid)) {
        pack = sub_packet_list_head(&pub->received_pid)->data;
        sub_packet_list_delete(sub_packet_list_head(&pub->received_pid));
        if (payload_free_cb)
            payload_free_cb(pack->payload, pack->payload_len, pack->pkg_user_data);
        free(pack);
    }
"""),
  (S, """    inode = sub_pid_interval_list_head(&pub->received_interval);
    oldest = inode->data.receive_ts;
    while((inode = sub_pid_interval_list_next(inode)))
        if (inode->data.receive_ts < oldest)
            oldest = inode->data.receive_ts;
""", """    for (inode = sub_pid_interval_list_tail(&pub->received_interval); inode; inode = inode->prev)
        if (!oldest || oldest > inode->data.receive_ts)
            oldest = inode->data.receive_ts;
"""),
  (S, """                inode->data.receive_ts =
                    (inode->data.receive_ts < inext->data.receive_ts)?
                    inode->data.receive_ts:
                    inext->data.receive_ts;

                sub_pid_interval_list_delete(inext);""", """                if (inext->data.receive_ts < inode->data.receive_ts)
                    inode->data.receive_ts = inext->data.receive_ts;

                sub_pid_interval_list_delete(inext);"""),
  (S, """            iprev = sub_pid_interval_list_prev(inode);
            if (iprev && iprev->data.last_pid + 1 == pid) {
                inode->data.first_pid = iprev->data.first_pid;

                // Copy the oldest timestamp of the two merged
                // intervals.
                inode->data.receive_ts =
                    (inode->data.receive_ts < iprev->data.receive_ts)?
                    inode->data.receive_ts:
                    iprev->data.receive_ts;

                sub_pid_interval_list_delete(iprev);
                return -1;
            }
            return 0;""", """            iprev = sub_pid_interval_list_prev(inode);
            if (!iprev || iprev->data.last_pid != pid - 1)
                return 0;
            iprev->data.last_pid = inode->data.last_pid;
            if (inode->data.receive_ts < iprev->data.receive_ts)
                iprev->data.receive_ts = inode->data.receive_ts;
            sub_pid_interval_list_delete(inode);
            return -1;"""),
  ]),
 ("sub2", [
  (R, """    if (ctx->payload_alloc)
        payload_copy = (*ctx->payload_alloc)(pack_hdr->payload_len, ctx->user_data);
    else
        payload_copy = malloc(pack_hdr->payload_len);

    if (!payload_copy) {
        RMC_LOG_INDEX_FATAL(RMC_MULTICAST_INDEX,
                            "malloc(%d): %s", pack_hdr->payload_len, strerror(errno));
        exit(255);
    }
""", """    payload_copy = get_payload(ctx, pack_hdr->payload_len);
"""),
  (R, """    if (ctx->payload_alloc)
        payload = (*ctx->payload_alloc)(pack_hdr.payload_len, ctx->user_data);
    else
        payload = malloc(pack_hdr.payload_len);

    if (!payload) {
        RMC_LOG_INDEX_FATAL(conn->connection_index,
                            "memory allocation failed");
        exit(255);
    }
""", """    payload = get_payload(ctx, pack_hdr.payload_len);
"""),
  (R, """static int decode_unsubscribed_multicast(rmc_sub_context_t* ctx,
""", """static uint8_t* get_payload(rmc_sub_context_t* ctx, payload_len_t len)
{
    uint8_t* res = ctx->payload_alloc ? (*ctx->payload_alloc)(len, ctx->user_data) : malloc(len);

    if (!res)
        exit(255);
    return res;
}

static void make_ready(rmc_sub_context_t* ctx, sub_publisher_t* pub)
{
    uint32_t before = sub_packet_list_size(&ctx->dispatch_ready);

    sub_process_received_packets(pub, &ctx->dispatch_ready);
    if (sub_packet_list_size(&ctx->dispatch_ready) > before && ctx->packet_ready_cb)
        ctx->packet_ready_cb(ctx);
}

static int decode_unsubscribed_multicast(rmc_sub_context_t* ctx,
"""),
  (R, """    packet_ready_sz = sub_packet_list_size(&ctx->dispatch_ready);
    sub_process_received_packets(pub, &ctx->dispatch_ready);

    RMC_LOG_INDEX_COMMENT(conn->connection_index,
                        "Multicast receive - len[%d] pid[%lu]", pack_hdr->payload_len, pack_hdr->pid);

    // Check if we have a packet ready callback and packets are available.
    // If that is the case, loop over the packet ready callback until they have
    if (ctx->packet_ready_cb && sub_packet_list_size(&ctx->dispatch_ready) != packet_ready_sz)
        (*ctx->packet_ready_cb)(ctx);
""", """    (void) packet_ready_sz;
    make_ready(ctx, pub);
"""),
  (R, """    packet_ready_sz = sub_packet_list_size(&ctx->dispatch_ready);
    sub_process_received_packets(&ctx->publishers[conn->connection_index], &ctx->dispatch_ready);

    // Check if we have a packet ready callback and packets are available.
    // If that is the case, loop over the packet ready callback until they have
    if (ctx->packet_ready_cb && sub_packet_list_size(&ctx->dispatch_ready) != packet_ready_sz)
        (*ctx->packet_ready_cb)(ctx);
""", """    (void) packet_ready_sz;
    make_ready(ctx, &ctx->publishers[conn->connection_index]);
"""),
  (R, """    circ_buf_free(&conn->read_buf, 1 + sizeof(packet_header_t), 0);

    // Is the packet a duplicate?
    if (sub_packet_is_duplicate(&ctx->publishers[conn->connection_index], pack_hdr.pid)) {
        RMC_LOG_INDEX_DEBUG(conn->connection_index,
                            "Duplicate: %lu", pack_hdr.pid);

        // Free payload
        circ_buf_free(&conn->read_buf, pack_hdr.payload_len, 0);
        return 0;
    }
""", """    if (sub_packet_is_duplicate(ctx->publishers + conn->connection_index, pack_hdr.pid)) {
        circ_buf_free(&conn->read_buf, 1 + sizeof(pack_hdr) + pack_hdr.payload_len, 0);
        return 0;
    }
"""),
  (R, """    circ_buf_read(&conn->read_buf, payload, pack_hdr.payload_len, 0);
    circ_buf_free(&conn->read_buf, pack_hdr.payload_len, 0);
""", """    circ_buf_read_offset(&conn->read_buf, 1 + sizeof(pack_hdr), payload, pack_hdr.payload_len, 0);
    circ_buf_free(&conn->read_buf, 1 + sizeof(pack_hdr) + pack_hdr.payload_len, 0);
"""),
  (R, """    while(!res) {
        len = recvfrom(ctx->mcast_recv_descriptor,
                       buffer, sizeof(buffer),
                       MSG_DONTWAIT,
                       (struct sockaddr*) &src_addr, &addr_len);

        if (len == 0 || (len == -1 && errno == EAGAIN)) {
            res = EAGAIN;
            goto rearm;
        }

        if (len == -1 ) {
            RMC_LOG_WARNING("recvfrom(): %d: %s ", errno, strerror(errno));
            res = errno;
            goto rearm;
        }

        res = process_multicast_read(ctx, read_res, ntohl(src_addr.sin_addr.s_addr), buffer, len);
    }

rearm:
""", """    do {
        len = recvfrom(ctx->mcast_recv_descriptor,
                       buffer, RMC_MAX_PACKET,
                       MSG_DONTWAIT,
                       (struct sockaddr*) &src_addr, &addr_len);

        if (len > 0)
            res = process_multicast_read(ctx, read_res, ntohl(src_addr.sin_addr.s_addr), buffer, len);
        else if (len == 0)
            res = EAGAIN;
        else
            res = errno;
    } while(res == 0);

"""),
  (R, """    if (!conn || conn->mode == RMC_CONNECTION_MODE_CONNECTING) {
        RMC_LOG_INDEX_DEBUG(conn?conn->connection_index:RMC_NIL_INDEX, "mode[%d]", conn?conn->mode:-1);
        // Nothing to do if we are already connecting to the publisher.
        if (!conn)
            res = decode_unsubscribed_multicast(ctx,
                                                pack_hdr,
                                                data);

        if (read_res)
            *read_res = RMC_READ_MULTICAST_NOT_READY;

        return res;
    }
""", """    if (!conn) {
        res = decode_unsubscribed_multicast(ctx, pack_hdr, data);
        *read_res = RMC_READ_MULTICAST_NOT_READY;
        return res;
    }

    if (conn->mode == RMC_CONNECTION_MODE_CONNECTING) {
        *read_res = RMC_READ_MULTICAST_NOT_READY;
        return 0;
    }
"""),
  (R, """    if (pack_hdr->pid) {
        RMC_LOG_DEBUG("Len[%d] Pid[%lu] - Ignoring data packet since we are not yet subscribed",
                        pack_hdr->payload_len,
                        pack_hdr->pid);

        return 0;
    }
""", """    if (pack_hdr->pid != 0)
        return 0;
"""),
  (R, """    if (res)
        rmc_conn_connect_tcp_by_address(&ctx->conn_vec,
                                        pack_hdr->listen_ip, pack_hdr->listen_port,
                                        pack_hdr->node_id, &sock_ind);

    return 0;""", """    if (!res)
        return 0;

    rmc_conn_connect_tcp_by_address(&ctx->conn_vec, pack_hdr->listen_ip, pack_hdr->listen_port, pack_hdr->node_id, 0);
    (void) sock_ind;
    return 0;"""),
  (R, """        do {
            res = multicast_read(ctx, op_res);
        } while(!res);

        return (res == EAGAIN)?0:res;""", """        for (res = 0; res == 0;)
            res = multicast_read(ctx, op_res);

        if (res != EAGAIN)
            return res;
        return 0;"""),
  (R, """    for (pnode = sub_packet_list_head(&ctx->publishers[s_ind].received_pid);
         pnode;
         pnode = sub_packet_list_next(pnode))
        pnode->data->pkg_user_data = ctx->user_data;
""", """    pnode = sub_packet_list_tail(&ctx->publishers[s_ind].received_pid);
    while(pnode) {
        pnode->data->pkg_user_data = ctx->user_data;
        pnode = sub_packet_list_prev(pnode);
    }
"""),
  ]),
 ("sub3", [
  (K, """    pub = &ctx->publishers[index];
    first_pending = !sub_oldest_unacknowledged_packet(pub);

    sub_packet_received(&ctx->publishers[index],
                        pid,
                        payload,
                        payload_len,
                        1, // We want to add this packet to receive interval so that we can ack it.
                        rmc_usec_monotonic_timestamp(),
                        user_data_u32(index));
""", """    pub = ctx->publishers + index;
    first_pending = (sub_pid_interval_list_size(&pub->received_interval) == 0);

    sub_packet_received(pub, pid, payload, payload_len, 1, current_ts, user_data_u32(index));
"""),
  (K, """    if (rmc_sub_get_dispatch_ready_count(ctx))
        return sub_packet_list_head(&ctx->dispatch_ready)->data;

    return 0;""", """    sub_packet_node_t* node = sub_packet_list_head(&ctx->dispatch_ready);

    return node ? node->data : 0;"""),
  (K, """    node = sub_packet_list_find_node(&ctx->dispatch_ready,
                                     pack,
                                     _compare_packet, 0);
    if (!node)
        return ENOENT;
""", """    for (node = sub_packet_list_head(&ctx->dispatch_ready); node && node->data != pack; node = sub_packet_list_next(node))
        ;
    if (!node)
        return ENOENT;
"""),
  (K, """    int res = rmc_sub_packet_dispatched_keep_payload(ctx, pack);

    // ENOENT means that pack is not ours to touch.
    if (res)
        return res;

    if (ctx->payload_free)
        (*ctx->payload_free)(pack->payload, pack->payload_len, ctx->user_data);
    else
        free(pack->payload);

    free(pack);

    return 0;""", """    void* payload = 0;
    int res = rmc_sub_packet_dispatched_keep_payload(ctx, pack);

    if (res != 0)
        return res;

    payload = pack->payload;
    if (!ctx->payload_free)
        free(payload);
    else
        ctx->payload_free(payload, pack->payload_len, ctx->user_data);

    free(pack);
    return res;"""),
  (K, """    conn = &ctx->conn_vec.connections[index];

    if (!conn || conn->mode != RMC_CONNECTION_MODE_CONNECTED)
        return EINVAL;
""", """    conn = rmc_conn_find_by_index(&ctx->conn_vec, index);
    if (!conn)
        return EINVAL;
    if (conn->mode != RMC_CONNECTION_MODE_CONNECTED)
        return EINVAL;
"""),
  (K, """    return (n_oldest < o_oldest)?-1:
        ((n_oldest > o_oldest)?1:0);
""", """    if (n_oldest < o_oldest)
        return -1;
    return n_oldest > o_oldest;
"""),
  (T, """        if (!pub_res || progress) {
            rmc_index_t index = inode->data;

            rmc_index_list_delete(inode);
            if (pub_res)
                rmc_sub_schedule_acks(ctx, index);
        }
""", """        if (!pub_res)
            rmc_index_list_delete(inode);
        else if (progress) {
            rmc_index_t index = inode->data;

            rmc_index_list_delete(inode);
            rmc_sub_schedule_acks(ctx, index);
        }
"""),
  (T, """        while((pid_intv = sub_pid_interval_list_head(&pub->received_interval))) {
            pub_res = rmc_sub_packet_interval_acknowledged(ctx, inode->data, &pid_intv->data);
            if (pub_res) {
                RMC_LOG_INDEX_INFO(inode->data,"Failed to send packet ack: %s", strerror(pub_res));
                break;
            }
            sub_pid_interval_list_delete(pid_intv);
            progress = 1;
        }
""", """        (void) pid_intv;
        pub_res = send_acks(ctx, inode->data, pub, &progress);
"""),
  (T, """// Send all pending acknowledgements that we need to get going.""", """static int send_acks(rmc_sub_context_t* ctx, rmc_index_t index, sub_publisher_t* pub, uint8_t* progress)
{
    for (;;) {
        sub_pid_interval_node_t* node = sub_pid_interval_list_head(&pub->received_interval);
        int res = 0;

        if (!node)
            return 0;
        res = rmc_sub_packet_interval_acknowledged(ctx, index, &node->data);
        if (res)
            return res;
        *progress = 1;
        sub_pid_interval_list_delete(node);
    }
}

// Send all pending acknowledgements that we need to get going."""),
  (T, """    if (!rmc_index_list_size(&ctx->pub_ack_list)) {
        RMC_LOG_DEBUG("No publishers found with pending timeouts");
        *result = -1;
        return 0;
    }

    pub = &ctx->publishers[rmc_index_list_head(&ctx->pub_ack_list)->data];

    *result = sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout;
    return 0;""", """    rmc_index_node_t* first = rmc_index_list_head(&ctx->pub_ack_list);

    *result = -1;
    if (first) {
        pub = ctx->publishers + first->data;
        *result = ctx->ack_timeout + sub_oldest_unacknowledged_packet(pub);
    }
    return 0;"""),
  (W, """        old_action = conn->action;

        // Allocate memory for command
        res = circ_buf_alloc(&conn->write_buf, 1,
                             &seg1, &seg1_len,
                             &seg2, &seg2_len);

        if (res) {
            RMC_LOG_INDEX_ERROR(conn->connection_index,
                          "Out of circ buf memory setting up ctl message cmd command");
            return ENOMEM;
        }


        *seg1 = RMC_CMD_CONTROL_MESSAGE;

        // Allocate memory for packet header
        res = circ_buf_alloc(&conn->write_buf, sizeof(msg) ,
                             &seg1, &seg1_len,
                             &seg2, &seg2_len);


        if (res) {
            RMC_LOG_INDEX_ERROR(conn->connection_index,
                                "Out of circ buf memory setting up ctl message cmd header");
            return ENOMEM;
        }


        // Copy in packet header
        memcpy(seg1, (uint8_t*) &msg, seg1_len);
        if (seg2_len)
            memcpy(seg2, ((uint8_t*) &msg) + seg1_len, seg2_len);
""", """        old_action = conn->action;

        uint8_t head[1 + sizeof(msg)];
        head[0] = RMC_CMD_CONTROL_MESSAGE;
        memcpy(head + 1, &msg, sizeof(msg));

        res = circ_buf_alloc(&conn->write_buf, sizeof(head),
                             &seg1, &seg1_len,
                             &seg2, &seg2_len);
        if (res)
            return ENOMEM;

        memcpy(seg1, head, seg1_len);
        if (seg2_len)
            memcpy(seg2, head + seg1_len, seg2_len);
"""),
  (W, """    if (!ctx  || !payload || !payload_len)
        return EINVAL;

    conn = rmc_conn_find_by_address(&ctx->conn_vec, remote_address, remote_port);


    if (!conn || conn->mode != RMC_CONNECTION_MODE_CONNECTED)
        return ENOTCONN;

    return rmc_sub_write_control_message(ctx, conn, payload, payload_len);""", """    if (!ctx  || !payload || !payload_len)
        return EINVAL;

    conn = rmc_conn_find_by_address(&ctx->conn_vec, remote_address, remote_port);
    return conn ? rmc_sub_write_control_message(ctx, conn, payload, payload_len) : ENOTCONN;"""),
  (W, """        sub_init_publisher(&ctx->publishers[s_ind]);
        res = rmc_conn_complete_connection(&ctx->conn_vec, conn);
        if (res) {
            RMC_LOG_INDEX_INFO(s_ind, "Failed to complete connection: %s", strerror(errno));
            rmc_conn_close_connection(&ctx->conn_vec, conn->connection_index);
            return res;
        }
""", """        res = rmc_conn_complete_connection(&ctx->conn_vec, conn);
        if (res)
            return res;
        sub_init_publisher(&ctx->publishers[s_ind]);
"""),
  ]),
 ("sub4", [
  (X, """    for(ind = 0; ind <= max; ++ind) {
        rmc_connection_t* conn = rmc_conn_find_by_index(&ctx->conn_vec,
                                                        ind);
        // Don't opereate on closed connections.
        if (!conn)
            continue;

        rmc_sub_close_connection(ctx, ind);
    }
""", """    for(ind = 0; ind < ctx->conn_vec.size; ++ind)
        if (ctx->conn_vec.connections[ind].mode != RMC_CONNECTION_MODE_CLOSED)
            rmc_sub_close_connection(ctx, ind);
"""),
  (X, """    // Empty all packets that are dispatch ready.
    while((pack = rmc_sub_get_next_dispatch_ready(ctx)))
        rmc_sub_packet_dispatched(ctx, pack);

    // Empty ack list
    rmc_index_list_empty(&ctx->pub_ack_list);
""", """    rmc_index_list_empty(&ctx->pub_ack_list);

    for (pack = rmc_sub_get_next_dispatch_ready(ctx); pack != 0; pack = rmc_sub_get_next_dispatch_ready(ctx))
        rmc_sub_packet_dispatched(ctx, pack);
"""),
  (X, """    for (ind = 0; ind < max_publishers; ++ind)
        sub_init_publisher(&ctx->publishers[ind]);
""", """    sub_publisher_t* pub = ctx->publishers;
    sub_publisher_t* end = pub + max_publishers;
    while(pub != end)
        sub_init_publisher(pub++);
    (void) ind;
"""),
  (X, """error:
    if (ctx->mcast_recv_descriptor != -1) {
        close(ctx->mcast_recv_descriptor);
        ctx->mcast_recv_descriptor = -1;
    }


    return errno;""", """error:
    if (ctx->mcast_recv_descriptor == -1)
        return errno;

    close(ctx->mcast_recv_descriptor);
    ctx->mcast_recv_descriptor = -1;
    return errno;"""),
  (O, """    if (!seg1_len) {
        *bytes_left = 0;
        return ENODATA;
    }


    // Setup a zero-copy scattered socket write
    iov[0].iov_base = seg1;
    iov[0].iov_len = seg1_len;
    iov[1].iov_base = seg2;
    iov[1].iov_len = seg2_len;

    errno = 0;
    res = writev(conn->descriptor, iov, seg2_len?2:1);

    // How did that write go?
    if (res == -1) {
        *bytes_left = circ_buf_in_use(&conn->write_buf);
        RMC_LOG_INDEX_INFO(conn->connection_index, "writev");
        return errno;
    }

    if (res == 0) {
        *bytes_left = circ_buf_in_use(&conn->write_buf);
        RMC_LOG_INDEX_INFO(conn->connection_index, "Failed to send data");
        return 0;
    }

    // We wrote a specific number of bytes, free those
    // bytes from the circular buffer.
    // At the same time grab number of bytes left to
    // send from the buffer.,
    circ_buf_free(&conn->write_buf, res, bytes_left);
""", """    *bytes_left = circ_buf_in_use(&conn->write_buf);
    if (*bytes_left == 0)
        return ENODATA;

    iov[0] = (struct iovec) { .iov_base = seg1, .iov_len = seg1_len };
    iov[1] = (struct iovec) { .iov_base = seg2, .iov_len = seg2_len };

    res = writev(conn->descriptor, iov, seg2_len?2:1);
    if (res < 0)
        return errno;

    if (res > 0)
        circ_buf_free(&conn->write_buf, res, bytes_left);
"""),
  (O, """    if (res == -1 || res == 0) {
        *op_res = RMC_READ_DISCONNECT;

        // Give back the memory.
        circ_buf_trim(&conn->read_buf, orig_in_use);
        return EPIPE;
    }

    // Trim the tail end of the allocated data to match the number of
    // bytes read.

    // Trim the end of read_buf so that we ony have our original read_buf data plus
    // the bytes we actually read.
    circ_buf_trim(&conn->read_buf, res + orig_in_use);
    ret =""", """    circ_buf_trim(&conn->read_buf, orig_in_use + ((res > 0)?res:0));
    if (res <= 0) {
        *op_res = RMC_READ_DISCONNECT;
        return EPIPE;
    }

    ret ="""),
  (O, """        rmc_conn_command_dispatch_t* current = dispatch_table;

        // Traverse dispatch table to find matching command byte.
        while(current->dispatch) {
            if (command != current->command) {
                ++current;
                continue;
            }

            // The called function will free any additional circular buffer
            // space beyond the command byte.

            // conn->read_buf will still have the command byte as its first byte.
            // It is up to the dispatch function to either return EAGAIN with the buffer
            // untouched, or circ_buf_free the command byte and all of the payload for
            // the command.
            res = (*current->dispatch)(conn, user_data);

            // Not enough data?
            // Roll back the command
            if (res != 0) {
                if (res != EAGAIN) {
                    RMC_LOG_INDEX_ERROR(s_ind, "Dispatch failed: %s", strerror(errno));
                    *op_res = RMC_ERROR;
                } else
                    RMC_LOG_INDEX_DEBUG(s_ind, "Dispatch needs more data");

                // We either have a protocol error, or not enough data
                // to process the current packet.
                // In both cases we need to return.
                return res;
            }
            break;
        }

        // No hit in the dispatch table?
        if (!current->dispatch) {
            *op_res = RMC_ERROR;
            RMC_LOG_INDEX_ERROR(s_ind, "Unknown command byte: %d", command);
            return EPROTO;
        }

        // Read next command byte.
        in_use = circ_buf_in_use(&conn->read_buf);

        // If no data is left, then we are done.
        if (!in_use) {
            return 0;
        }
""", """        rmc_conn_command_dispatch_t* current = lookup(dispatch_table, command);

        if (!current) {
            *op_res = RMC_ERROR;
            return EPROTO;
        }

        res = current->dispatch(conn, user_data);
        if (res == EAGAIN)
            return EAGAIN;

        if (res) {
            *op_res = RMC_ERROR;
            return res;
        }

        in_use = circ_buf_in_use(&conn->read_buf);
        if (in_use == 0)
            break;
"""),
  (O, """int rmc_conn_process_tcp_read(""", """static rmc_conn_command_dispatch_t* lookup(rmc_conn_command_dispatch_t* table, uint8_t command)
{
    for (; table->dispatch; ++table)
        if (table->command == command)
            return table;
    return 0;
}

int rmc_conn_process_tcp_read("""),
  ]),
]

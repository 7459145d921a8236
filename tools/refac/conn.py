F="rmc_connection.c"
REFACS=[
 ("conn1", [
  (F, """static rmc_index_t _get_free_slot(rmc_connection_vector_t* conn_vec)
{
    rmc_index_t ind = 0;

    while(ind < conn_vec->size) {
        if (conn_vec->connections[ind].descriptor == -1) {
            if (conn_vec->max_connection_ind < ind ||
                conn_vec->max_connection_ind == RMC_NIL_INDEX)
                conn_vec->max_connection_ind = ind;

            RMC_LOG_DEBUG("Allocating slot %d. max is %d", ind, conn_vec->max_connection_ind);
            return ind;
        }
        ++ind;
    }

    return RMC_NIL_INDEX;
}""", """static void _raise_max(rmc_connection_vector_t* conn_vec, rmc_index_t ind)
{
    if (conn_vec->max_connection_ind == RMC_NIL_INDEX || ind > conn_vec->max_connection_ind)
        conn_vec->max_connection_ind = ind;
}

static rmc_index_t find_slot(rmc_connection_vector_t* conn_vec)
{
    rmc_index_t ind;

    for (ind = 0; ind < conn_vec->size; ind++) {
        rmc_connection_t* conn = &conn_vec->connections[ind];

        if (conn->descriptor != -1)
            continue;

        _raise_max(conn_vec, ind);
        return ind;
    }

    return RMC_NIL_INDEX;
}"""),
  (F, "    c_ind = _get_free_slot(conn_vec);\n    if (c_ind", "    c_ind = find_slot(conn_vec);\n    if (c_ind"),
  (F, "    c_ind = _get_free_slot(conn_vec);\n", "    c_ind = find_slot(conn_vec);\n"),
  (F, """    rmc_index_t ind = conn_vec->size;

    while(ind--) {
        if (conn_vec->connections[ind].descriptor != -1) {
            conn_vec->max_connection_ind = ind;
            return;
        }
    }
    // No connections left.
    conn_vec->max_connection_ind = RMC_NIL_INDEX;
    return;""", """    rmc_index_t ind;
    rmc_index_t best = RMC_NIL_INDEX;

    for (ind = 0; ind < conn_vec->size; ++ind)
        if (conn_vec->connections[ind].descriptor != -1)
            best = ind;
    conn_vec->max_connection_ind = best;"""),
  (F, """    while(ind <= conn_vec->max_connection_ind) {
//        strcpy(have_addr_str, inet_ntoa( (struct in_addr) { .s_addr = htonl(conn_vec->connections[ind].remote_address)}));
//        RMC_LOG_DEBUG("  Want[%s:%d] Have[%s:%d]",
//                      want_addr_str, remote_port,
//                      have_addr_str, conn_vec->connections[ind].remote_port);

        if (conn_vec->connections[ind].descriptor != -1 &&
            remote_address == conn_vec->connections[ind].remote_address &&
            remote_port == conn_vec->connections[ind].remote_port)
            return &conn_vec->connections[ind];

        ++ind;
    }
    return 0;""", """    rmc_connection_t* conn = conn_vec->connections;
    rmc_connection_t* last = conn + conn_vec->max_connection_ind;
    for (; conn <= last; ++conn) {
        if (conn->descriptor == -1 || conn->remote_port != remote_port)
            continue;
        if (conn->remote_address == remote_address)
            return conn;
    }
    (void) ind;
    return 0;"""),
  (F, """    while(ind <= conn_vec->max_connection_ind) {
        if (conn_vec->connections[ind].descriptor != -1 &&
            conn_vec->connections[ind].node_id == node_id)
            return &conn_vec->connections[ind];

        ++ind;
    }
    return 0;""", """    rmc_connection_t* found = 0;
    for (ind = 0; !found && ind <= conn_vec->max_connection_ind; ++ind) {
        rmc_connection_t* conn = &conn_vec->connections[ind];
        if (conn->node_id == node_id && conn->descriptor != -1)
            found = conn;
    }
    return found;"""),
  (F, """    if (index >= conn_vec->size)
        return 0;

    if (conn_vec->connections[index].mode == RMC_CONNECTION_MODE_CLOSED)
        return 0;

    return &conn_vec->connections[index];""", """    if (index < conn_vec->size && conn_vec->connections[index].mode != RMC_CONNECTION_MODE_CLOSED)
        return conn_vec->connections + index;

    return 0;"""),
  ]),
 ("conn2", [
  (F, """// Complete async connect. Called from rmc_sub_write().""", """static int fail_connection(rmc_connection_vector_t* conn_vec, rmc_connection_t* conn, int err)
{
    rmc_conn_close_connection(conn_vec, conn->connection_index);
    return err;
}

static void set_action(rmc_connection_vector_t* conn_vec, rmc_connection_t* conn, rmc_poll_action_t action)
{
    rmc_poll_action_t old = conn->action;

    conn->action = action;
    if (!conn_vec->poll_modify)
        return;
    conn_vec->poll_modify(conn_vec->user_data, conn->descriptor, conn->connection_index, old, action);
}

// Complete async connect. Called from rmc_sub_write()."""),
  (F, """        rmc_conn_close_connection(conn_vec, conn->connection_index);

        return sock_err;
    }
""", """        return fail_connection(conn_vec, conn, sock_err);
    }
"""),
  (F, """                              strerror(sock_err));

        rmc_conn_close_connection(conn_vec, conn->connection_index);
        return sock_err;
    }
""", """                              strerror(sock_err));
        return fail_connection(conn_vec, conn, sock_err);
    }
"""),
  (F, """    old_action = conn->action;
    conn->action = RMC_POLLREAD;

    // We start off in reading mode
    if (conn_vec->poll_modify)
        (*conn_vec->poll_modify)(conn_vec->user_data,
                                 conn->descriptor,
                                 conn->connection_index,
                                 old_action,
                                 conn->action);
""", """    (void) old_action;
    set_action(conn_vec, conn, RMC_POLLREAD);
"""),
  (F, """    conn_vec->connections[c_ind].descriptor = socket(AF_INET, SOCK_STREAM, 0);
    if (conn_vec->connections[c_ind].descriptor == -1)
        return errno;

    // Set nonblocking mode on the socket.
    desc_flags = fcntl(conn_vec->connections[c_ind].descriptor, F_GETFL, 0);
    fcntl(conn_vec->connections[c_ind].descriptor, F_SETFL, desc_flags | O_NONBLOCK);
""", """    int fd = socket(AF_INET, SOCK_STREAM, 0);
    if (fd == -1)
        return errno;
    rmc_connection_t* conn = &conn_vec->connections[c_ind];
    conn->descriptor = fd;

    // Set nonblocking mode on the socket.
    desc_flags = fcntl(fd, F_GETFL, 0);
    fcntl(fd, F_SETFL, desc_flags | O_NONBLOCK);
"""),
  (F, """    conn_vec->connections[c_ind].remote_address = address;
    conn_vec->connections[c_ind].node_id = node_id;
    if (res == -1 && errno != EINPROGRESS) {
        RMC_LOG_INFO("Failed to connect: %s", strerror(errno));
        close(conn_vec->connections[c_ind].descriptor);
        conn_vec->connections[c_ind].descriptor = -1;
        _reset_max_connection_ind(conn_vec);
        return 0; // This is not an error, just a failed subscriber setup.
    }

    // Nil out the in progress error.
    res = 0;


    conn_vec->connections[c_ind].remote_address = address;
    conn_vec->connections[c_ind].remote_port = port;

    // We are subscribing to data from the publisher, which
    // will resend failed multicast packets via tcp
    conn_vec->connections[c_ind].mode = RMC_CONNECTION_MODE_CONNECTING;

    // We will get write-ready when connection has been connected.
    conn_vec->connections[c_ind].action = RMC_POLLWRITE;

    // Do callback if defined
    if (conn_vec->poll_add)
        (*conn_vec->poll_add)(conn_vec->user_data,
                              conn_vec->connections[c_ind].descriptor,
                              c_ind,
                              conn_vec->connections[c_ind].action);

    if (result_index)
        *result_index = c_ind;

    conn_vec->active_connection_count++;
    return res;""", """    if (res != 0 && errno != EINPROGRESS) {
        close(fd);
        conn->descriptor = -1;
        _reset_max_connection_ind(conn_vec);
        return 0; // This is not an error, just a failed subscriber setup.
    }

    conn->action = RMC_POLLWRITE;
    conn->mode = RMC_CONNECTION_MODE_CONNECTING;
    conn->remote_port = port;
    conn->remote_address = address;
    conn->node_id = node_id;
    conn_vec->active_connection_count++;

    if (result_index)
        *result_index = c_ind;

    // Do callback if defined
    if (conn_vec->poll_add)
        (*conn_vec->poll_add)(conn_vec->user_data, fd, c_ind, RMC_POLLWRITE);

    return 0;"""),
  (F, """    conn_vec->connections[c_ind].mode = RMC_CONNECTION_MODE_CONNECTED;
    conn_vec->connections[c_ind].remote_address = ntohl(src_addr.sin_addr.s_addr);
    conn_vec->connections[c_ind].remote_port = ntohs(src_addr.sin_port);

    conn_vec->connections[c_ind].action = RMC_POLLREAD;
    if (conn_vec->poll_add)
        (*conn_vec->poll_add)(conn_vec->user_data,
                              conn_vec->connections[c_ind].descriptor,
                              c_ind,
                              conn_vec->connections[c_ind].action);
""", """    rmc_connection_t* conn = conn_vec->connections + c_ind;
    conn->action = RMC_POLLREAD;
    conn->remote_port = ntohs(src_addr.sin_port);
    conn->remote_address = ntohl(src_addr.sin_addr.s_addr);
    conn->mode = RMC_CONNECTION_MODE_CONNECTED;
    if (conn_vec->poll_add)
        (*conn_vec->poll_add)(conn_vec->user_data, conn->descriptor, c_ind, RMC_POLLREAD);
"""),
  (F, """    conn->mode = RMC_CONNECTION_MODE_CLOSED;
    // If we are still connecting then just terminate the conneciton.
""", ""),
  (F, """    if (close(conn->descriptor) != 0)
        RMC_LOG_WARNING("Could not close descriptor %d: %s", conn->descriptor, strerror(errno));

    rmc_conn_reset_connection(conn, s_ind);

    if (s_ind == conn_vec->max_connection_ind)
        _reset_max_connection_ind(conn_vec);

    conn_vec->active_connection_count--;
""", """    {
        int fd = conn->descriptor;
        conn_vec->active_connection_count -= 1;
        rmc_conn_reset_connection(conn, s_ind);
        _reset_max_connection_ind(conn_vec);
        if (close(fd) == -1)
            RMC_LOG_WARNING("Could not close descriptor %d: %s", fd, strerror(errno));
    }
"""),
  ]),
 ("conn3", [
  (F, """    conn->action = 0;
    conn->connection_index = index;
    conn->descriptor = -1;
    conn->node_id = 0;
    conn->mode = RMC_CONNECTION_MODE_CLOSED;
    circ_buf_init(&conn->read_buf, conn->read_buf_data, sizeof(conn->read_buf_data));
    circ_buf_init(&conn->write_buf, conn->write_buf_data, sizeof(conn->write_buf_data));
    memset(&conn->remote_address, 0, sizeof(conn->remote_address));
    conn->remote_port = 0;""", """    circ_buf_init(&conn->write_buf, conn->write_buf_data, RMC_MAX_PACKET);
    circ_buf_init(&conn->read_buf, conn->read_buf_data, RMC_MAX_PACKET);
    conn->remote_address = 0;
    conn->remote_port = 0;
    conn->node_id = 0;
    conn->action = 0;
    conn->descriptor = -1;
    conn->mode = RMC_CONNECTION_MODE_CLOSED;
    conn->connection_index = index;"""),
  (F, """    if (s_ind >= conn_vec->size)
        return EINVAL;

    conn = &conn_vec->connections[s_ind];

    // Are we connected
    if (conn->mode == RMC_CONNECTION_MODE_CLOSED)
        return ENOTCONN;
""", """    if (s_ind >= conn_vec->size)
        return EINVAL;

    conn = rmc_conn_find_by_index(conn_vec, s_ind);

    // Are we connected
    if (!conn)
        return ENOTCONN;
"""),
  (F, """    if (setsockopt( conn->descriptor, IPPROTO_TCP, TCP_NODELAY, (void *)&tr, sizeof(tr))) {
        sock_err = errno;
""", """    res = setsockopt(conn->descriptor, IPPROTO_TCP, TCP_NODELAY, &tr, sizeof(int));
    if (res == -1) {
        sock_err = errno;
"""),
  (F, """    int tr = 1;
    if (!conn_vec || !conn)
        return EINVAL;
""", """    int tr = 1;
    int res = 0;

    if (!(conn_vec && conn))
        return EINVAL;
"""),
  (F, """    sock_addr = (struct sockaddr_in) {
        .sin_family = AF_INET,
        .sin_port = htons(port),
        .sin_addr = (struct in_addr) { .s_addr = htonl(address) }
    };
""", """    memset(&sock_addr, 0, sizeof(sock_addr));
    sock_addr.sin_family = AF_INET;
    sock_addr.sin_addr.s_addr = htonl(address);
    sock_addr.sin_port = htons(port);
"""),
  ]),
]

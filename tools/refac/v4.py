REFACS = []
# ---- rmc_log.c: tables, snprintf, helper
REFACS.append(("log4", [
("rmc_log.c", '''    switch(index) {
    case -1:
        return rmc_log_color_faint();

    case 0:
        return rmc_log_color_dark_blue();

    case 1:
        return rmc_log_color_dark_green();

    case 2:
        return rmc_log_color_light_blue();

    case 3:
        return rmc_log_color_light_green();

    case 4:
        return rmc_log_color_light_red();

    case 5:
        return rmc_log_color_green();

    case 6:
        return rmc_log_color_blue();

    case 7:
        return rmc_log_color_dark_red();

    case 8:
        return rmc_log_color_red();

    default:
        return rmc_log_color_none();
    }
''', '''    static const char* (*const colors[])() = {
        rmc_log_color_dark_blue,
        rmc_log_color_dark_green,
        rmc_log_color_light_blue,
        rmc_log_color_light_green,
        rmc_log_color_light_red,
        rmc_log_color_green,
        rmc_log_color_blue,
        rmc_log_color_dark_red,
        rmc_log_color_red
    };

    if (index == -1)
        return rmc_log_color_faint();

    if (index < 0 || index >= (int) (sizeof(colors) / sizeof(colors[0])))
        return rmc_log_color_none();

    return (*colors[index])();
'''),
("rmc_log.c", '''    switch(index) {
    case RMC_NIL_INDEX:
        strcpy(index_str, "     ");
        break;

    case RMC_MULTICAST_INDEX:
        sprintf(index_str, "%s[UDP]%s", rmc_log_color_orange(), rmc_log_color_none());
        break;

    case RMC_LISTEN_INDEX:
        sprintf(index_str, "%s[CTL]%s", rmc_log_color_yellow(), rmc_log_color_none());
        break;

    default:
        sprintf(index_str, "%s[%.3d]%s", rmc_index_color(index), index, rmc_log_color_none());
    }
''', '''    if (index == RMC_NIL_INDEX)
        snprintf(index_str, sizeof(index_str), "     ");
    else if (index == RMC_MULTICAST_INDEX)
        snprintf(index_str, sizeof(index_str), "%s[UDP]%s", rmc_log_color_orange(), rmc_log_color_none());
    else if (index == RMC_LISTEN_INDEX)
        snprintf(index_str, sizeof(index_str), "%s[CTL]%s", rmc_log_color_yellow(), rmc_log_color_none());
    else
        snprintf(index_str, sizeof(index_str), "%s[%.3d]%s", rmc_index_color(index), index, rmc_log_color_none());
'''),
("rmc_log.c", '''    return _rmc_log_use_color?"\\033[38;2;255;128;0m":"";''', '''    return _color("\\033[38;2;255;128;0m");'''),
("rmc_log.c", '''    return _rmc_log_use_color?"\\033[0m":"";''', '''    return _color("\\033[0m");'''),
("rmc_log.c", '''    return _rmc_log_use_color?"\\033[38;2;255;255;0m":"";''', '''    return _color("\\033[38;2;255;255;0m");'''),
("rmc_log.c", '''const char* rmc_log_color_flashing_red()''', '''static const char* _color(const char* code)
{
    if (!_rmc_log_use_color)
        return "";

    return code;
}

const char* rmc_log_color_flashing_red()'''),
("rmc_log.c", '''void rmc_log(int log_level, const char* func, const char* file, int line, uint16_t index, const char* fmt, ...)
{''', '''// Pick the output, and find out if it can show colors.
static FILE* _setup_output(void)
{
    if (_rmc_log_file == 0)
        _rmc_log_file = stdout;

    if (_rmc_log_use_color == -1) {
        _rmc_log_use_color_calculated = 1;
        _rmc_log_use_color = isatty(fileno(_rmc_log_file))?1:0;
    }

    return _rmc_log_file;
}

static void _log_level_attributes(int log_level, const char** color, const char** tag)
{
    *color = rmc_log_color_none();
    *tag = "[?]";

    if (log_level == RMC_LOG_LEVEL_DEBUG) {
        *tag = "[D]";
        return;
    }

    if (log_level == RMC_LOG_LEVEL_COMMENT) {
        *color = rmc_log_color_green();
        *tag = "[C]";
        return;
    }

    if (log_level == RMC_LOG_LEVEL_INFO) {
        *color = rmc_log_color_blue();
        *tag = "[I]";
    } else if (log_level == RMC_LOG_LEVEL_WARNING) {
        *color = rmc_log_color_orange();
        *tag = "[W]";
    } else if (log_level == RMC_LOG_LEVEL_ERROR) {
        *color = rmc_log_color_red();
        *tag = "[E]";
    } else if (log_level == RMC_LOG_LEVEL_FATAL) {
        *color = rmc_log_color_flashing_red();
        *tag = "[F]";
    }
}

void rmc_log(int log_level, const char* func, const char* file, int line, uint16_t index, const char* fmt, ...)
{
    FILE* out = 0;'''),
("rmc_log.c", '''    // Default rmc_log_file, if not set.
    if (!_rmc_log_file)
        _rmc_log_file = stdout;

    // If use color is -1, then check if we are on a tty or not
    if (_rmc_log_use_color == -1) {
        _rmc_log_use_color_calculated = 1;

        if (isatty(fileno(_rmc_log_file)))
            _rmc_log_use_color = 1;
        else
            _rmc_log_use_color = 0;
    }
''', '''    out = _setup_output();
'''),
("rmc_log.c", '''    switch(log_level) {
    case RMC_LOG_LEVEL_DEBUG:
        color = rmc_log_color_none();
        tag = "[D]";
        break;

    case RMC_LOG_LEVEL_COMMENT:
        color = rmc_log_color_green();
        tag = "[C]";
        break;

    case RMC_LOG_LEVEL_INFO:
        color = rmc_log_color_blue();
        tag = "[I]";
        break;

    case RMC_LOG_LEVEL_WARNING:
        color = rmc_log_color_orange();
        tag = "[W]";
        break;

    case RMC_LOG_LEVEL_ERROR:
        color = rmc_log_color_red();
        tag = "[E]";
        break;

    case RMC_LOG_LEVEL_FATAL:
        color = rmc_log_color_flashing_red();
        tag = "[F]";
        break;

    default:
        color = rmc_log_color_none();
        tag = "[?]";
        break;
    }


    fprintf(_rmc_log_file, "%s''', '''    _log_level_attributes(log_level, &color, &tag);

    fprintf(out, "%s'''),
("rmc_log.c", '''    vfprintf(_rmc_log_file, fmt, ap);
    va_end(ap);
    fputc('\\n', _rmc_log_file);''', '''    vfprintf(out, fmt, ap);
    va_end(ap);
    fprintf(out, "\\n");'''),
("rmc_log.c", '''    if (log_level < RMC_LOG_LEVEL_NONE || log_level > RMC_LOG_LEVEL_DEBUG) {

        rmc_log(RMC_LOG_LEVEL_WARNING, __FUNCTION__, __FILE__, __LINE__, -1,
                "Illegal log level: %d. Legal values [%d-%d]", log_level, RMC_LOG_LEVEL_NONE, RMC_LOG_LEVEL_DEBUG);
        return 1;
    }

    _rmc_log_level = log_level;
    return 0;''', '''    int legal = (log_level >= RMC_LOG_LEVEL_NONE && log_level <= RMC_LOG_LEVEL_DEBUG);

    if (legal) {
        _rmc_log_level = log_level;
        return 0;
    }

    rmc_log(RMC_LOG_LEVEL_WARNING, __FUNCTION__, __FILE__, __LINE__, -1,
            "Illegal log level: %d. Legal values [%d-%d]", log_level, RMC_LOG_LEVEL_NONE, RMC_LOG_LEVEL_DEBUG);
    return 1;'''),
]))
# ---- rmc_log.h: do { } while (0)-less rewrite, level macro
REFACS.append(("logmac4", [("rmc_log.h", l, n) for l, n in [
 ('#define RMC_LOG_%s(fmt, ...) { if (_rmc_log_level >= RMC_LOG_LEVEL_%s) rmc_log(RMC_LOG_LEVEL_%s, __FUNCTION__, __FILE__, __LINE__, RMC_NIL_INDEX, fmt, ##__VA_ARGS__%s); }' % (x, x, x, " " if x in ("DEBUG", "COMMENT") else ""),
  '#define RMC_LOG_%s(fmt, ...) RMC_LOG_AT(RMC_LOG_LEVEL_%s, RMC_NIL_INDEX, fmt, ##__VA_ARGS__)' % (x, x)) for x in ("DEBUG", "COMMENT", "INFO", "WARNING", "ERROR", "FATAL")] + [
 ('#define RMC_LOG_INDEX_%s(index, fmt, ...) { if (_rmc_log_level >= RMC_LOG_LEVEL_%s) rmc_log(RMC_LOG_LEVEL_%s, __FUNCTION__, __FILE__, __LINE__, index, fmt, ##__VA_ARGS__%s); }' % (x, x, x, " " if x in ("DEBUG", "COMMENT") else ""),
  '#define RMC_LOG_INDEX_%s(index, fmt, ...) RMC_LOG_AT(RMC_LOG_LEVEL_%s, index, fmt, ##__VA_ARGS__)' % (x, x)) for x in ("DEBUG", "COMMENT", "INFO", "WARNING", "ERROR", "FATAL")]] + [
 ("rmc_log.h", "#define RMC_LOG_DEBUG(fmt", '''static inline int rmc_log_enabled(int level)
{
    return !(level > _rmc_log_level);
}

#define RMC_LOG_AT(level, index, fmt, ...) { if (rmc_log_enabled(level)) rmc_log(level, __FUNCTION__, __FILE__, __LINE__, (index), fmt, ##__VA_ARGS__); }

#define RMC_LOG_DEBUG(fmt'''),
]))
# ---- sub.c
REFACS.append(("subc4", [
("sub.c", '''    sub_packet_t cmp_pack = { .pid = pid };
    int is_duplicate = 0;

    // If this is the first packet to be received,
    // then we are not a duplicate.
    if (!pub->max_pid_ready)
        return 0;

    // Is packet duplicate?
    // FIXME: Setup hash table for pub->received so that we
    // can find dups faster
    //
    if (pid <= pub->max_pid_ready) {
        return 1;
    }

    sub_packet_list_find_node_rev(&pub->received_pid,
                                  &cmp_pack,
                                  _is_duplicate, &is_duplicate);

    if (is_duplicate == 1) {
        return 1;
    }
    return 0;''', '''    sub_packet_node_t* node = 0;

    if (pub->max_pid_ready != 0) {
        if (pub->max_pid_ready >= pid)
            return 1;

        for (node = sub_packet_list_tail(&pub->received_pid);
             node && node->data->pid >= pid;
             node = sub_packet_list_prev(node)) {
            if (node->data->pid == pid)
                return 1;
        }
    }

    return 0;'''),
("sub.c", '''static int _is_duplicate(sub_packet_t* needle,
                         sub_packet_t* haystack,
                         void* user_data)
{
    int *is_duplicate = (int*) user_data;
    // We found an actual duplicate!
    if (needle->pid == haystack->pid) {
        *is_duplicate = 1;
        return 1;
    }

    // Since received_pid is sorted, we will know when
    // we will never find pid in the list
    if (needle->pid > haystack->pid) {
        *is_duplicate = 0;
        return -1;
    }
    return 0;
}

''', ''),
("sub.c", '''    while(node) {
        if (pub->max_pid_ready &&
            node->data->pid != pub->max_pid_ready + 1)
            break;

        // Drop the packet in at the tail of provide dispatch_ready list.
        // Since the pub->received() queue we get the packts from is pre-sorted on pid,
        // we will guarantee that packets in dispatch_ready will be sorted on an ascending pid.
        sub_packet_list_unlink(node);

        sub_packet_list_push_tail_node(dispatch_ready, node);
        node = sub_packet_list_head(&pub->received_pid);
        pub->max_pid_ready++;
    }
''', '''    for (; node && (!pub->max_pid_ready || node->data->pid == pub->max_pid_ready + 1);
         node = sub_packet_list_head(&pub->received_pid)) {
        sub_packet_list_unlink(node);
        ++pub->max_pid_ready;
        sub_packet_list_push_tail_node(dispatch_ready, node);
    }
'''),
("sub.c", '''    while(sub_packet_list_pop_head(&pub->received_pid, &pack)) {
        if (payload_free_cb)
            (*payload_free_cb)(pack->payload, pack->payload_len, pack->pkg_user_data);
        _free_pending_packet(pack);
    }
''', '''    for (;;) {
        if (!sub_packet_list_pop_head(&pub->received_pid, &pack))
            break;

        if (payload_free_cb != 0)
            payload_free_cb(pack->payload, pack->payload_len, pack->pkg_user_data);

        _free_pending_packet(pack);
    }
'''),
("sub.c", '''    inode = sub_pid_interval_list_head(&pub->received_interval);
    oldest = inode->data.receive_ts;
    while((inode = sub_pid_interval_list_next(inode)))
        if (inode->data.receive_ts < oldest)
            oldest = inode->data.receive_ts;
''', '''    for (inode = sub_pid_interval_list_head(&pub->received_interval);
         inode;
         inode = sub_pid_interval_list_next(inode)) {
        if (first || inode->data.receive_ts < oldest)
            oldest = inode->data.receive_ts;
        first = 0;
    }
'''),
("sub.c", '''    usec_timestamp_t oldest = 0;

    if (!pub ||''', '''    usec_timestamp_t oldest = 0;
    int first = 1;

    if (!pub ||'''),
("sub.c", '''            if (inext && inext->data.first_pid - 1 == pid) {
                inode->data.last_pid = inext->data.last_pid;

                // Copy the oldest timestamp of the two merged
                // intervals.
                inode->data.receive_ts =
                    (inode->data.receive_ts < inext->data.receive_ts)?
                    inode->data.receive_ts:
                    inext->data.receive_ts;

                sub_pid_interval_list_delete(inext);
                return -1; // We manged to delete one interval
            }
            return 0; // We manged to tack onto the existing intercal.''', '''            if (!inext || inext->data.first_pid - 1 != pid)
                return 0; // We manged to tack onto the existing intercal.

            _merge(inode, inext);
            return -1; // We manged to delete one interval'''),
("sub.c", '''            if (iprev && iprev->data.last_pid + 1 == pid) {
                inode->data.first_pid = iprev->data.first_pid;

                // Copy the oldest timestamp of the two merged
                // intervals.
                inode->data.receive_ts =
                    (inode->data.receive_ts < iprev->data.receive_ts)?
                    inode->data.receive_ts:
                    iprev->data.receive_ts;

                sub_pid_interval_list_delete(iprev);
                return -1;
            }
            return 0;''', '''            if (!iprev || iprev->data.last_pid + 1 != pid)
                return 0;

            _merge(inode, iprev);
            return -1;'''),
("sub.c", '''// Add the pid of a received packet to the number of
// received packets.''', '''// Have inode cover the adjacent interval of other as well, and drop other.
static void _merge(sub_pid_interval_node_t* inode, sub_pid_interval_node_t* other)
{
    if (other->data.first_pid < inode->data.first_pid)
        inode->data.first_pid = other->data.first_pid;

    if (other->data.last_pid > inode->data.last_pid)
        inode->data.last_pid = other->data.last_pid;

    // The oldest timestamp counts.
    if (other->data.receive_ts < inode->data.receive_ts)
        inode->data.receive_ts = other->data.receive_ts;

    sub_pid_interval_list_delete(other);
}

// Add the pid of a received packet to the number of
// received packets.'''),
]))
# ---- pub.c
REFACS.append(("pubc4", [
("pub.c", '''    ppack = _alloc_pending_packet();
    ppack->pid = pid;
    ppack->payload = payload;
    ppack->payload_len = payload_len;
    ppack->ref_count = 0;
    ppack->send_ts = 0; // Will be set by pub_packet_sent()
    ppack->pkg_user_data = pkg_user_data; // Handed to (*payload_free)()
    ppack->parent_node = 0;
''', '''    ppack = _alloc_pending_packet();
    *ppack = (pub_packet_t) {
        .pid = pid,
        .payload = payload,
        .payload_len = payload_len,
        .pkg_user_data = pkg_user_data
    };
'''),
("pub.c", '''    return ppack->pid;
}''', '''    return pid;
}'''),
("pub.c", '''    node = pub_packet_list_tail(&sub->inflight);

    while(node) {
        if (node->data->pid == pid)
            break;

        node = pub_packet_list_prev(node);
    }
''', '''    for (node = pub_packet_list_tail(&sub->inflight);
         node && node->data->pid != pid;
         node = pub_packet_list_prev(node))
        ;
'''),
("pub.c", '''    pub_packet_list_delete(node);

    pack->ref_count--;
''', '''    --pack->ref_count;
    pub_packet_list_delete(node);
'''),
("pub.c", '''    if (!pack->ref_count) {
        pub_packet_list_delete(pack->parent_node);

        // Free data using function provided with this call.
        if (pub_payload_free)
            (*pub_payload_free)(pack->payload,
                                pack->payload_len,
                                pack->pkg_user_data);

        // Delete the pack.
        _free_pending_packet(pack);
    }
}''', '''    if (pack->ref_count > 0)
        return;

    pub_packet_release(pack, pub_payload_free);
}'''),
("pub.c", '''    sub_node = pub_sub_list_head(&ctx->subscribers);
    while(sub_node) {
        pub_subscriber_t* sub = sub_node->data;

        // Insert the new pub_packet_t in the descending
        // packet_id sorted list of the subscriber's inflight packets.
        pub_packet_list_insert_sorted(&sub->inflight,
                                      pack,
                                      _compare_pid, 0);
        pack->ref_count++;
        sub_node = pub_sub_list_next(sub_node);
    }''', '''    for (sub_node = pub_sub_list_head(&ctx->subscribers);
         sub_node;
         sub_node = pub_sub_list_next(sub_node)) {
        pack->ref_count += 1;
        pub_packet_list_insert_sorted(&sub_node->data->inflight,
                                      pack,
                                      _compare_pid, 0);
    }'''),
("pub.c", '''        if (pub_packet_list_size(&sub_node->data->inflight) &&
            pub_packet_list_tail(&sub_node->data->inflight)->data->send_ts + timeout_period <= current_ts)
            pub_sub_list_push_tail(result, sub_node->data);
        sub_node = pub_sub_list_next(sub_node);''', '''        pub_packet_node_t* oldest = pub_packet_list_tail(&sub_node->data->inflight);

        if (oldest && !(current_ts < oldest->data->send_ts + timeout_period))
            pub_sub_list_push_tail(result, sub_node->data);

        sub_node = pub_sub_list_next(sub_node);'''),
("pub.c", '''        pub_packet_list_t* lst = &sub_node->data->inflight;
        pub_packet_t* pack = 0;
        if (!pub_packet_list_size(lst)) {
            sub_node = pub_sub_list_next(sub_node);
            continue;
        }
        pack = pub_packet_list_tail(lst)->data;
        if (oldest == -1 || pack->send_ts < oldest) {
            oldest = pack->send_ts;
        }
        sub_node = pub_sub_list_next(sub_node);''', '''        pub_packet_node_t* node = pub_packet_list_tail(&sub_node->data->inflight);

        if (node) {
            usec_timestamp_t ts = node->data->send_ts;

            if (oldest == -1 || oldest > ts)
                oldest = ts;
        }
        sub_node = pub_sub_list_next(sub_node);'''),
]))
# ---- contexts: calloc and struct assignment
REFACS.append(("init4", [
("rmc_pub_context.c", '''    ctx = (rmc_pub_context_t*) malloc(sizeof(rmc_pub_context_t));''', '''    ctx = (rmc_pub_context_t*) calloc(1, sizeof(rmc_pub_context_t));'''),
("rmc_pub_context.c", '''    ctx->subscriber_connect_cb = 0;
    ctx->subscriber_disconnect_cb = 0;

    ctx->subscriber_connect_cb = 0;
    ctx->subscriber_control_message_cb = 0;

    ctx->announce_cb = 0;
    ctx->announce_send_interval = 0;
    ctx->announce_next_send_ts = 0;

    ctx->traffic_suspend_threshold = 0;
    ctx->traffic_resume_threshold = 0;
    ctx->traffic_suspended = 0;
''', ''),
("rmc_pub_context.c", '''    ctx->user_data = user_data;
    ctx->conn_vec.poll_add = poll_add;
    ctx->conn_vec.poll_modify = poll_modify;
    ctx->conn_vec.poll_remove = poll_remove;
''', ''),
("rmc_pub_context.c", '''    if (!inet_aton(mcast_group_addr, &addr)) {
        RMC_LOG_WARNING("Could not resolve multicast address %s to IP address\\n",
                mcast_group_addr);
        goto error;
    }
    ctx->mcast_group_addr = ntohl(addr.s_addr);
''', '''    if (!_resolve(mcast_group_addr, &ctx->mcast_group_addr)) {
        RMC_LOG_WARNING("Could not resolve multicast address %s to IP address\\n",
                mcast_group_addr);
        goto error;
    }
'''),
("rmc_pub_context.c", '''    if (!inet_aton(control_listen_if_addr, &addr)) {
        RMC_LOG_WARNING("Could not resolve tcp listen address %s to IP address\\n",
                control_listen_if_addr);
        goto error;
    }
    ctx->control_listen_if_addr = ntohl(addr.s_addr);

    if (!inet_aton(mcast_if_addr, &addr)) {
        fprintf(stderr, "rmc_activate_context(multicast_interface_addr): Could not resolve %s to IP address\\n",
                mcast_if_addr);
        goto error;
    }
    ctx->mcast_if_addr = ntohl(addr.s_addr);
''', '''    if (!_resolve(control_listen_if_addr, &ctx->control_listen_if_addr)) {
        RMC_LOG_WARNING("Could not resolve tcp listen address %s to IP address\\n",
                control_listen_if_addr);
        goto error;
    }

    if (!_resolve(mcast_if_addr, &ctx->mcast_if_addr)) {
        fprintf(stderr, "rmc_activate_context(multicast_interface_addr): Could not resolve %s to IP address\\n",
                mcast_if_addr);
        goto error;
    }
'''),
("rmc_pub_context.c", '''    struct in_addr addr;
    unsigned int seed''', '''    unsigned int seed'''),
("rmc_pub_context.c", '''// =============
// CONTEXT MANAGEMENT
// =============
''', '''// =============
// CONTEXT MANAGEMENT
// =============
static int _resolve(const char* text, uint32_t* result)
{
    struct in_addr addr;

    if (!inet_aton(text, &addr))
        return 0;

    *result = ntohl(addr.s_addr);
    return 1;
}

static void _close_descriptor(int* descriptor)
{
    if (*descriptor == -1)
        return;

    close(*descriptor);
    *descriptor = -1;
}

'''),
("rmc_pub_context.c", '''    if (ctx->mcast_send_descriptor != -1) {
        close(ctx->mcast_send_descriptor);
        ctx->mcast_send_descriptor = -1;
    }

    if (ctx->listen_descriptor != -1) {
        close(ctx->listen_descriptor);
        ctx->listen_descriptor = -1;
    }

    return errno;''', '''    _close_descriptor(&ctx->mcast_send_descriptor);
    _close_descriptor(&ctx->listen_descriptor);

    return errno;'''),
("rmc_pub_context.c", '''    if (ctx->mcast_send_descriptor != -1)
        close(ctx->mcast_send_descriptor);

    if (ctx->listen_descriptor != -1)
        close(ctx->listen_descriptor);

    ctx->mcast_send_descriptor = -1;
    ctx->listen_descriptor = -1;

    return 0;''', '''    _close_descriptor(&ctx->mcast_send_descriptor);
    _close_descriptor(&ctx->listen_descriptor);

    return 0;'''),
("rmc_pub_context.c", '''    ctx->mcast_send_descriptor = socket (AF_INET, SOCK_DGRAM, 0);

    if (ctx->mcast_send_descriptor == -1) {
        RMC_LOG_WARNING("socket(multicast): %s", strerror(errno));
        goto error;
    }

    // Setup multicast group membership
    memset((void*) &in_addr, 0, sizeof(in_addr));

    in_addr.s_addr = htonl(ctx->mcast_if_addr);''', '''    if ((ctx->mcast_send_descriptor = socket (AF_INET, SOCK_DGRAM, 0)) < 0) {
        RMC_LOG_WARNING("socket(multicast): %s", strerror(errno));
        goto error;
    }

    // Setup multicast group membership
    in_addr = (struct in_addr) { .s_addr = htonl(ctx->mcast_if_addr) };'''),
("rmc_pub_context.c", '''    sock_addr.sin_family = AF_INET;
    sock_addr.sin_addr.s_addr = htonl(ctx->control_listen_if_addr);
    sock_addr.sin_port = htons(ctx->control_listen_port);
''', '''    memset(&sock_addr, 0, sizeof(sock_addr));
    sock_addr.sin_port = htons(ctx->control_listen_port);
    sock_addr.sin_addr.s_addr = htonl(ctx->control_listen_if_addr);
    sock_addr.sin_family = AF_INET;
'''),
("rmc_sub_context.c", '''    memset((void*) &sock_addr, 0, sizeof(sock_addr));

    sock_addr.sin_family = AF_INET;
    sock_addr.sin_addr.s_addr = INADDR_ANY; // htonl(ctx->mcast_if_addr);
    sock_addr.sin_port = htons(ctx->mcast_port);
''', '''    sock_addr = (struct sockaddr_in) {
        .sin_family = AF_INET,
        .sin_addr = (struct in_addr) { .s_addr = htonl(INADDR_ANY) },
        .sin_port = htons(ctx->mcast_port)
    };
'''),
("rmc_sub_context.c", '''    mreq.imr_multiaddr.s_addr = htonl(ctx->mcast_group_addr);
    mreq.imr_interface.s_addr = htonl(ctx->mcast_if_addr);
''', '''    mreq = (struct ip_mreq) {
        .imr_multiaddr = { .s_addr = htonl(ctx->mcast_group_addr) },
        .imr_interface = { .s_addr = htonl(ctx->mcast_if_addr) }
    };
'''),
("rmc_sub_context.c", '''    while((pack = rmc_sub_get_next_dispatch_ready(ctx)))
        rmc_sub_packet_dispatched(ctx, pack);
''', '''    for (pack = rmc_sub_get_next_dispatch_ready(ctx); pack; pack = rmc_sub_get_next_dispatch_ready(ctx))
        rmc_sub_packet_dispatched(ctx, pack);
'''),
("rmc_sub_context.c", '''    rmc_conn_get_max_index_in_use(&ctx->conn_vec, &max);
    for(ind = 0; ind <= max; ++ind) {
        rmc_connection_t* conn = rmc_conn_find_by_index(&ctx->conn_vec,
                                                        ind);
        // Don't opereate on closed connections.
        if (!conn)
            continue;

        rmc_sub_close_connection(ctx, ind);
    }''', '''    rmc_conn_get_vector_size(&ctx->conn_vec, &max);
    for(ind = 0; ind < max; ++ind)
        if (rmc_conn_find_by_index(&ctx->conn_vec, ind))
            rmc_sub_close_connection(ctx, ind);'''),
]))
# ---- rmc_connection.c: local connection pointer, set up helper, accept4-free nonblock helper
C = "conn_vec->connections[c_ind]."
REFACS.append(("conn4", [
("rmc_connection.c", '''    desc_flags = fcntl(conn_vec->connections[c_ind].descriptor, F_GETFL, 0);
    fcntl(conn_vec->connections[c_ind].descriptor, F_SETFL, desc_flags | O_NONBLOCK);
''', '''    _set_nonblocking(conn_vec->connections[c_ind].descriptor);
'''),
("rmc_connection.c", '''    desc_flags = fcntl(conn_vec->connections[c_ind].descriptor, F_GETFL, 0);
    fcntl(conn_vec->connections[c_ind].descriptor, F_SETFL, desc_flags | O_NONBLOCK);
''', '''    _set_nonblocking(conn_vec->connections[c_ind].descriptor);
'''),
("rmc_connection.c", '''    int desc_flags = 0;
    assert(conn_vec);
''', '''    assert(conn_vec);
'''),
("rmc_connection.c", '''    int sock_err = 0;
    int desc_flags = 0;

    // Find''', '''    int sock_err = 0;

    // Find'''),
("rmc_connection.c", '''static rmc_index_t _get_free_slot(''', '''static void _set_nonblocking(int descriptor)
{
    fcntl(descriptor, F_SETFL, fcntl(descriptor, F_GETFL, 0) | O_NONBLOCK);
}

static void _release_slot(rmc_connection_vector_t* conn_vec, rmc_index_t ind);

static rmc_index_t _get_free_slot('''),
("rmc_connection.c", '''        close(conn_vec->connections[c_ind].descriptor);
        conn_vec->connections[c_ind].descriptor = -1;
        _reset_max_connection_ind(conn_vec);
        return 0; //''', '''        _release_slot(conn_vec, c_ind);
        return 0; //'''),
("rmc_connection.c", '''        close(conn_vec->connections[c_ind].descriptor);
        conn_vec->connections[c_ind].descriptor = -1;
        _reset_max_connection_ind(conn_vec);
        return sock_err;''', '''        _release_slot(conn_vec, c_ind);
        return sock_err;'''),
("rmc_connection.c", '''static void rmc_conn_reset_connection(''', '''static void _release_slot(rmc_connection_vector_t* conn_vec, rmc_index_t ind)
{
    int descriptor = conn_vec->connections[ind].descriptor;

    conn_vec->connections[ind].descriptor = -1;
    close(descriptor);
    _reset_max_connection_ind(conn_vec);
}

static void rmc_conn_reset_connection('''),
("rmc_connection.c", '''    while(ind--) {
        if (conn_vec->connections[ind].descriptor != -1) {
            conn_vec->max_connection_ind = ind;
            return;
        }
    }
    // No connections left.
    conn_vec->max_connection_ind = RMC_NIL_INDEX;
    return;''', '''    while(ind > 0 && conn_vec->connections[ind - 1].descriptor == -1)
        --ind;

    conn_vec->max_connection_ind = ind?(ind - 1):RMC_NIL_INDEX;'''),
("rmc_connection.c", '''    while(ind < conn_vec->size) {
        if (conn_vec->connections[ind].descriptor == -1) {
            if (conn_vec->max_connection_ind < ind ||
                conn_vec->max_connection_ind == RMC_NIL_INDEX)
                conn_vec->max_connection_ind = ind;

            RMC_LOG_DEBUG("Allocating slot %d. max is %d", ind, conn_vec->max_connection_ind);
            return ind;
        }
        ++ind;
    }

    return RMC_NIL_INDEX;''', '''    while(ind < conn_vec->size && conn_vec->connections[ind].descriptor != -1)
        ++ind;

    if (ind == conn_vec->size)
        return RMC_NIL_INDEX;

    if (conn_vec->max_connection_ind == RMC_NIL_INDEX || ind > conn_vec->max_connection_ind)
        conn_vec->max_connection_ind = ind;

    RMC_LOG_DEBUG("Allocating slot %d. max is %d", ind, conn_vec->max_connection_ind);
    return ind;'''),
("rmc_connection.c", '''    // We are subscribing to data from the publisher, which
    // will resend failed multicast packets via tcp
    conn->mode = RMC_CONNECTION_MODE_CONNECTED;
    old_action = conn->action;
    conn->action = RMC_POLLREAD;
''', '''    old_action = conn->action;
    conn->action = RMC_POLLREAD;
    conn->mode = RMC_CONNECTION_MODE_CONNECTED;
'''),
("rmc_connection.c", '''    memset(&conn->remote_address, 0, sizeof(conn->remote_address));
    conn->remote_port = 0;''', '''    conn->remote_address = conn->remote_port = 0;'''),
]))
# ---- rmc_protocol.c / circular buffer
REFACS.append(("proto4", [
("rmc_protocol.c", '''    if (res == -1) {
        *bytes_left = circ_buf_in_use(&conn->write_buf);
        RMC_LOG_INDEX_INFO(conn->connection_index, "writev");
        return errno;
    }

    if (res == 0) {
        *bytes_left = circ_buf_in_use(&conn->write_buf);
        RMC_LOG_INDEX_INFO(conn->connection_index, "Failed to send data");
        return 0;
    }
''', '''    if (res <= 0) {
        int failure = res?errno:0;

        *bytes_left = circ_buf_in_use(&conn->write_buf);
        RMC_LOG_INDEX_INFO(conn->connection_index, "Failed to send data");
        return failure;
    }
'''),
("rmc_protocol.c", '''    struct iovec iov[2];
    ssize_t res = 0;


    // Grab''', '''    struct iovec iov[2] = { { 0, 0 }, { 0, 0 } };
    int iov_count = 1;
    ssize_t res = 0;

    // Grab'''),
("rmc_protocol.c", '''    iov[1].iov_base = seg2;
    iov[1].iov_len = seg2_len;

    errno = 0;
    res = writev(conn->descriptor, iov, seg2_len?2:1);''', '''    if (seg2_len) {
        iov[1].iov_base = seg2;
        iov[1].iov_len = seg2_len;
        ++iov_count;
    }

    errno = 0;
    res = writev(conn->descriptor, iov, iov_count);'''),
("rmc_protocol.c", '''        rmc_conn_command_dispatch_t* current = dispatch_table;

        // Traverse dispatch table to find matching command byte.
        while(current->dispatch) {
            if (command != current->command) {
                ++current;
                continue;
            }

            // The called function will free any additional circular buffer
            // space beyond the command byte.

            // conn->read_buf will still have the command byte as its first byte.
            // It is up to the dispatch function to either return EAGAIN with the buffer
            // untouched, or circ_buf_free the command byte and all of the payload for
            // the command.
            res = (*current->dispatch)(conn, user_data);

            // Not enough data?
            // Roll back the command
            if (res != 0) {
                if (res != EAGAIN) {
                    RMC_LOG_INDEX_ERROR(s_ind, "Dispatch failed: %s", strerror(errno));
                    *op_res = RMC_ERROR;
                } else
                    RMC_LOG_INDEX_DEBUG(s_ind, "Dispatch needs more data");

                // We either have a protocol error, or not enough data
                // to process the current packet.
                // In both cases we need to return.
                return res;
            }
            break;
        }

        // No hit in the dispatch table?
        if (!current->dispatch) {
            *op_res = RMC_ERROR;
            RMC_LOG_INDEX_ERROR(s_ind, "Unknown command byte: %d", command);
            return EPROTO;
        }
''', '''        rmc_conn_command_dispatch_t* current = _find_dispatch(dispatch_table, command);

        // No hit in the dispatch table?
        if (!current) {
            RMC_LOG_INDEX_ERROR(s_ind, "Unknown command byte: %d", command);
            *op_res = RMC_ERROR;
            return EPROTO;
        }

        res = current->dispatch(conn, user_data);
        if (res == EAGAIN) {
            RMC_LOG_INDEX_DEBUG(s_ind, "Dispatch needs more data");
            return res;
        }

        if (res) {
            RMC_LOG_INDEX_ERROR(s_ind, "Dispatch failed: %s", strerror(errno));
            *op_res = RMC_ERROR;
            return res;
        }
'''),
("rmc_protocol.c", '''// Return EAGAIN if we have a partial command that needs to more data''', '''static rmc_conn_command_dispatch_t* _find_dispatch(rmc_conn_command_dispatch_t* table, uint8_t command)
{
    for (; table->dispatch; ++table)
        if (table->command == command)
            return table;

    return 0;
}

// Return EAGAIN if we have a partial command that needs to more data'''),
("rmc_protocol.c", '''    if (res == -1 || res == 0) {
        *op_res = RMC_READ_DISCONNECT;

        // Give back the memory.
        circ_buf_trim(&conn->read_buf, orig_in_use);
        return EPIPE;
    }

    // Trim the tail end of the allocated data to match the number of
    // bytes read.

    // Trim the end of read_buf so that we ony have our original read_buf data plus
    // the bytes we actually read.
    circ_buf_trim(&conn->read_buf, res + orig_in_use);
    ret = ''', '''    // Keep what was there before plus the bytes we actually read.
    circ_buf_trim(&conn->read_buf, orig_in_use + ((res > 0)?res:0));

    if (res <= 0) {
        *op_res = RMC_READ_DISCONNECT;
        return EPIPE;
    }

    ret = '''),
("circular_buffer.c", '''    int buf_size = circ_buf->size;

    if (circ_buf->stop_ind >= circ_buf->start_ind)
        return circ_buf->stop_ind - circ_buf->start_ind;

    return buf_size - circ_buf->start_ind + circ_buf->stop_ind;''', '''    uint32_t in_use = circ_buf->stop_ind - circ_buf->start_ind;

    // Wrapped?
    if (circ_buf->stop_ind < circ_buf->start_ind)
        in_use += circ_buf->size;

    return in_use;'''),
("circular_buffer.c", '''    circ_buf->start_ind += size;
    circ_buf->start_ind %= circ_buf->size;
''', '''    if (circ_buf->size - circ_buf->start_ind > size)
        circ_buf->start_ind += size;
    else
        circ_buf->start_ind = size - (circ_buf->size - circ_buf->start_ind);
'''),
("circular_buffer.c", '''    circ_buf->stop_ind = (circ_buf->start_ind + target_len) % circ_buf->size;
    return;''', '''    circ_buf->stop_ind = circ_buf->start_ind + target_len;
    if (circ_buf->stop_ind >= circ_buf->size)
        circ_buf->stop_ind -= circ_buf->size;'''),
]))

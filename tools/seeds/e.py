exec(open("/verif/tools/seeds/d.py").read().split('seed("W01-early-header"')[0])
DG = open("/verif/tools/seeds/d.py").read().split("DG = r'''")[1].split("'''")[0]

seed("S04-order", "S04", "two publishers with unacknowledged packets of different age",
 "the publisher with the younger packet is scheduled first, and the other one's acknowledgement waits for it",
 [("rmc_sub_packet.c", "    return (n_oldest < o_oldest)?-1:\n        ((n_oldest > o_oldest)?1:0);", "    return (n_oldest < o_oldest)?1:\n        ((n_oldest > o_oldest)?-1:0);")],
 r'''
int main()
{
    rmc_sub_context_t* c = new_sub(4); usec_timestamp_t t, o;
    up(&c->conn_vec, 0, 0x7F000001, 1000, 9); up(&c->conn_vec, 1, 0x7F000001, 1001, 10);
    rmc_sub_packet_received(c, 0, 1, malloc(1), 1, 0, user_data_nil());
    usleep(2000);
    rmc_sub_packet_received(c, 1, 1, malloc(1), 1, 0, user_data_nil());
    o = sub_oldest_unacknowledged_packet(&c->publishers[0]);
    CHECK(!rmc_sub_timeout_get_next(c, &t) && t == o + c->ack_timeout);
    return 0;
}''')

seed("S01-wide-gap", "S01", "packet ids that lie more than 2^31 apart",
 "held packets are kept out of order and a packet whose predecessors are all there stays held",
 [("sub.c", "    return (n_dt->pid < o_dt->pid)?-1:\n        ((n_dt->pid > o_dt->pid)?1:\n         0);", "    return (int) (n_dt->pid - o_dt->pid);")],
 r'''
int main()
{
    rmc_sub_context_t* c = new_sub(4);
    up(&c->conn_vec, 0, 0x7F000001, 1000, 9);
    rmc_sub_packet_received(c, 0, 1, malloc(1), 1, 0, user_data_nil());
    sub_process_received_packets(&c->publishers[0], &c->dispatch_ready);
    CHECK(rmc_sub_get_dispatch_ready_count(c) == 1);
    rmc_sub_packet_received(c, 0, 0x80000010ULL, malloc(1), 1, 0, user_data_nil());
    rmc_sub_packet_received(c, 0, 2, malloc(1), 1, 0, user_data_nil());
    sub_process_received_packets(&c->publishers[0], &c->dispatch_ready);
    CHECK(rmc_sub_get_dispatch_ready_count(c) == 2);
    return 0;
}''')

seed("P04-wide-gap", "P04", "an announcement queued behind a data packet whose id is beyond 2^31",
 "the announcement is not sent ahead of waiting data",
 [("pub.c", "    if (new_pack->pid > existing_pack->pid)\n        return 1;\n\n    if (new_pack->pid < existing_pack->pid)\n        return -1;\n\n    return 0;", "    return (int) (new_pack->pid - existing_pack->pid);")],
 r'''
int main()
{
    rmc_pub_context_t* c = new_pub(2);
    sub_up(c, 0);
    c->pub_ctx.next_pid = 0x80000001ULL;
    CHECK(!rmc_pub_queue_packet(c, "x", 1, 0));
    CHECK(!rmc_pub_queue_packet(c, "a", 1, 1));
    CHECK(pub_next_queued_packet(&c->pub_ctx)->pid == 0);
    return 0;
}''')

seed("P08-oversize", "P08", "a payload between the payload limit and the packet limit",
 "it is accepted although it can never be sent, and blocks everything behind it",
 [("rmc_pub_packet.c", "    if (payload_len > RMC_MAX_PAYLOAD) {", "    if (payload_len > RMC_MAX_PACKET) {")],
 r'''
static char big[RMC_MAX_PACKET + 10];
int main()
{
    rmc_pub_context_t* c = new_pub(2);
    CHECK(rmc_pub_queue_packet(c, big, RMC_MAX_PAYLOAD + 1, 0) == EMSGSIZE);
    CHECK(rmc_pub_queue_packet(c, big, RMC_MAX_PACKET, 0) == EMSGSIZE);
    CHECK(rmc_pub_queue_length(c) == 0);
    CHECK(!rmc_pub_queue_packet(c, big, RMC_MAX_PAYLOAD, 0));
    return 0;
}''')

seed("P01-shared-counter", "P01", "two publishers in one process",
 "they share one id counter, so neither one's ids are consecutive",
 [("pub.c", "    assert(ctx);\n\n    return ctx->next_pid++;", "    static packet_id_t last = 0;\n\n    assert(ctx);\n\n    // Fresh context?\n    if (ctx->next_pid == 1)\n        last = 0;\n\n    ctx->next_pid = ++last + 1;\n    return last;")],
 r'''
int main()
{
    rmc_pub_context_t *a = new_pub(2), *b = new_pub(2); int i;
    for (i = 1; i < 4; ++i) {
        CHECK(!rmc_pub_queue_packet(a, "x", 1, 0)); CHECK(!rmc_pub_queue_packet(b, "x", 1, 0));
        CHECK(pub_packet_list_head(&a->pub_ctx.queued)->data->pid == i);
        CHECK(pub_packet_list_head(&b->pub_ctx.queued)->data->pid == i);
    }
    return 0;
}''')

seed("L02-stopped-search", "L02", "a search from the tail that its comparison ends early",
 "the element at which the search was stopped is returned as a match",
 [("rmc_list_template.h", "            int res = (*compare_func)(data, node->data, user_data);     \\\n                                                                        \\\n            if (res == -1)                                              \\\n                return 0;                                               \\\n                                                                        \\\n            if (res != 0)                                               \\\n                return node;                                            \\\n                                                                        \\\n            node = node->prev; ", "            int res = (*compare_func)(data, node->data, user_data);     \\\n                                                                        \\\n            if (res != 0)                                               \\\n                return node;                                            \\\n                                                                        \\\n            node = node->prev; ")],
 r'''
static int stop(rmc_index_t n, rmc_index_t h, void* u) { return n == h ? 1 : n > h ? -1 : 0; }
int main()
{
    rmc_index_list_t l;
    rmc_index_list_init(&l, 0, 0, 0);
    rmc_index_list_push_tail(&l, 1); rmc_index_list_push_tail(&l, 3); rmc_index_list_push_tail(&l, 5);
    CHECK(rmc_index_list_find_node_rev(&l, 3, stop, 0)->data == 3);
    CHECK(!rmc_index_list_find_node_rev(&l, 4, stop, 0));
    return 0;
}''')

seed("S01-resend-index", "S01", "a packet resent by a publisher that is not in slot 0",
 "the packet handed to the application names the wrong publisher",
 [("rmc_sub_read.c", "                        0,\n                        rmc_usec_monotonic_timestamp(),\n                        user_data_u32(conn->connection_index));", "                        0,\n                        rmc_usec_monotonic_timestamp(),\n                        user_data_u32(conn->action & RMC_POLLWRITE?conn->connection_index:ctx->publishers[conn->connection_index].max_pid_ready?conn->connection_index:0));")],
 r'''
int main()
{
    rmc_sub_context_t* c = new_sub(4);
    int fd = up(&c->conn_vec, 2, 0x7F000001, 1000, 9);
    uint8_t b[200]; uint8_t r = 0;
    int n = packet_cmd(b, 5, "0123456789", 10);
    CHECK(write(fd, b, n) == n);
    CHECK(!rmc_sub_read(c, 2, &r));
    CHECK(rmc_sub_get_dispatch_ready_count(c) == 1);
    CHECK(rmc_sub_packet_index(rmc_sub_get_next_dispatch_ready(c)) == 2);
    return 0;
}''')

seed("W01-pipelined", "W01", "a control message directly followed by another command in the same read",
 "the following command's first byte is swallowed",
 [("rmc_pub_read.c", "    circ_buf_free(&conn->read_buf, sizeof(msg) + 1 + msg.payload_len, 0);", "    circ_buf_free(&conn->read_buf, sizeof(msg) + 1 + ((msg.payload_len + 1) & ~1), 0);")],
 r'''
static int n; static char got[4][20];
static void ctl(rmc_pub_context_t* c, uint32_t a, uint16_t p, rmc_node_id_t id, void* d, payload_len_t l) { memcpy(got[n], d, l); ++n; }
int main()
{
    rmc_pub_context_t* c = new_pub(2); uint8_t r, b[] = { RMC_CMD_CONTROL_MESSAGE, 3, 0, 'a', 'b', 'c', RMC_CMD_CONTROL_MESSAGE, 2, 0, 'd', 'e' }; int fd = sub_up(c, 0);
    rmc_pub_set_control_message_callback(c, ctl);
    CHECK(write(fd, b, sizeof b) == sizeof b);
    CHECK(!rmc_pub_read(c, 0, &r));
    CHECK(n == 2 && !strcmp(got[0], "abc") && !strcmp(got[1], "de"));
    return 0;
}''')

seed("K01-refused-accept", "K01", "a subscriber the connect callback turns away while the application polls for its descriptor",
 "the refused connection is closed without being taken out of the poll loop",
 [("rmc_pub_read.c", "            if (!(*ctx->subscriber_connect_cb)(ctx, conn->remote_address, conn->remote_port))\n                rmc_pub_close_connection(ctx, s_ind);\n", "            if (!(*ctx->subscriber_connect_cb)(ctx, conn->remote_address, conn->remote_port)) {\n                rmc_poll_remove_cb_t poll_remove = ctx->conn_vec.poll_remove;\n\n                // The application never got to see this one.\n                ctx->conn_vec.poll_remove = 0;\n                rmc_pub_close_connection(ctx, s_ind);\n                ctx->conn_vec.poll_remove = poll_remove;\n            }\n")],
 r'''
static int added, removed; static uint8_t no(rmc_pub_context_t* c, uint32_t a, uint16_t p) { return 0; }
static void add(user_data_t u, int fd, rmc_index_t i, rmc_poll_action_t a) { ++added; }
static void gone(user_data_t u, int fd, rmc_index_t i) { ++removed; }
int main()
{
    rmc_pub_context_t* c = new_pub(2); struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(0x7F000001) }; socklen_t l = sizeof a;
    int ls = socket(AF_INET, SOCK_STREAM, 0), cl = socket(AF_INET, SOCK_STREAM, 0); uint8_t r;
    CHECK(!bind(ls, (struct sockaddr*) &a, sizeof a) && !listen(ls, 5) && !getsockname(ls, (struct sockaddr*) &a, &l));
    CHECK(!connect(cl, (struct sockaddr*) &a, l));
    c->listen_descriptor = ls; c->conn_vec.poll_add = add; c->conn_vec.poll_remove = gone;
    rmc_pub_set_subscriber_connect_callback(c, no);
    CHECK(!rmc_pub_read(c, RMC_LISTEN_INDEX, &r));
    CHECK(added == 1 && removed == 1 && rmc_pub_get_subscriber_count(c) == 0);
    return 0;
}''')
SEEDS = S

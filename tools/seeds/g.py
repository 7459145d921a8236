exec(open("/verif/tools/seeds/d.py").read().split('seed("W01-early-header"')[0])
POLL = r'''
static int armed = -1;
static void p_mod(user_data_t u, int fd, rmc_index_t i, rmc_poll_action_t o, rmc_poll_action_t n) { armed = n; }
'''
seed("A08-stale-rearm", "A08", "a packet-ready callback that answers with a control message",
 "the control channel is re-armed with the interest it had before the callback, and the answer stays in the buffer",
 [("rmc_sub_read.c", "    // Read data from publisher.\n    res = rmc_conn_tcp_read(", "    // Read data from publisher.\n    rmc_poll_action_t armed = conn->action;\n    res = rmc_conn_tcp_read("),
  ("rmc_sub_read.c", "    *op_res = RMC_READ_TCP;\n\nrearm:\n", "    *op_res = RMC_READ_TCP;\n    conn->action = armed;\n\nrearm:\n")],
 POLL + r'''
static void ready(rmc_sub_context_t* c)
{
    sub_packet_t* p;
    while ((p = rmc_sub_get_next_dispatch_ready(c))) CHECK(!rmc_sub_packet_dispatched(c, p));
    CHECK(!rmc_sub_write_control_message_by_address(c, 0x7F000001, 1000, "got it", 6));
}
int main()
{
    rmc_sub_context_t* c = new_sub(2); uint8_t b[64], r; int fd = up(&c->conn_vec, 0, 0x7F000001, 1000, 9);
    c->conn_vec.poll_modify = p_mod;
    sub_init_publisher(&c->publishers[0]);
    rmc_sub_set_packet_ready_callback(c, ready);
    CHECK(write(fd, b, packet_cmd(b, 1, "hello", 5)) > 0);
    CHECK(!rmc_sub_read(c, 0, &r));
    CHECK(circ_buf_in_use(&c->conn_vec.connections[0].write_buf) == 9 && armed >= 0 && (armed & RMC_POLLWRITE));
    return 0;
}''')

LOOP = r'''
/* slot 0 of c waits for its connection to a listening socket to complete */
static int pending(rmc_sub_context_t* c)
{
    struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr = { htonl(0x7F000001) } }; socklen_t n = sizeof a;
    int l = socket(AF_INET, SOCK_STREAM, 0), s = socket(AF_INET, SOCK_STREAM, 0);
    CHECK(!bind(l, (void*)&a, sizeof a) && !listen(l, 4) && !getsockname(l, (void*)&a, &n) && !connect(s, (void*)&a, sizeof a));
    up(&c->conn_vec, 0, 0x7F000001, 1000, 9); close(c->conn_vec.connections[0].descriptor);
    c->conn_vec.connections[0].descriptor = s; c->conn_vec.connections[0].mode = RMC_CONNECTION_MODE_CONNECTING; c->conn_vec.connections[0].action = RMC_POLLWRITE;
    return accept(l, 0, 0);
}
static void complete(rmc_sub_context_t* c, uint32_t a, in_port_t p, rmc_node_id_t n)
{
    CHECK(!rmc_sub_write_control_message_by_address(c, a, p, "hi", 2));
}
'''
seed("A08-fresh-buffer", "A08", "a subscription-complete callback that sends a control message",
 "the buffers are set up anew after the callback, and the message it queued is gone",
 [("rmc_sub_write.c", "            (*ctx->subscription_complete_cb)(ctx, conn->remote_address, conn->remote_port, conn->node_id);\n        }\n", "            (*ctx->subscription_complete_cb)(ctx, conn->remote_address, conn->remote_port, conn->node_id);\n        }\n        // Start out with nothing received and nothing to send.\n        circ_buf_init(&conn->read_buf, conn->read_buf_data, sizeof(conn->read_buf_data));\n        circ_buf_init(&conn->write_buf, conn->write_buf_data, sizeof(conn->write_buf_data));\n")],
 POLL + LOOP + r'''
int main()
{
    rmc_sub_context_t* c = new_sub(2); uint8_t r; int fd = pending(c); char b[16];
    c->conn_vec.poll_modify = p_mod;
    rmc_sub_set_subscription_complete_callback(c, complete);
    CHECK(!rmc_sub_write(c, 0, &r) && r == RMC_COMPLETE_CONNECTION);
    CHECK(!rmc_sub_write(c, 0, &r) && r == RMC_WRITE_TCP);
    CHECK(read(fd, b, sizeof b) == 5);
    return 0;
}''')
seed("A08-late-interest", "A08", "a subscription-complete callback that sends a control message",
 "once the callback returned the channel is only watched for reading",
 [("rmc_sub_write.c", "            (*ctx->subscription_complete_cb)(ctx, conn->remote_address, conn->remote_port, conn->node_id);\n        }\n        return 0;", "            (*ctx->subscription_complete_cb)(ctx, conn->remote_address, conn->remote_port, conn->node_id);\n        }\n        old_action = conn->action;\n        conn->action = RMC_POLLREAD;\n        if (ctx->conn_vec.poll_modify && old_action != RMC_POLLREAD)\n            (*ctx->conn_vec.poll_modify)(ctx->user_data, conn->descriptor, s_ind, old_action, conn->action);\n        return 0;")],
 POLL + LOOP + r'''
int main()
{
    rmc_sub_context_t* c = new_sub(2); uint8_t r; pending(c);
    c->conn_vec.poll_modify = p_mod;
    rmc_sub_set_subscription_complete_callback(c, complete);
    CHECK(!rmc_sub_write(c, 0, &r) && r == RMC_COMPLETE_CONNECTION);
    CHECK(armed & RMC_POLLWRITE);
    return 0;
}''')
seed("A08-resume-cached", "A08", "a payload-release callback that publishes the packet which suspends traffic",
 "the decision whether traffic stays suspended is taken on the state from before the callback",
 [("rmc_pub_packet.c", "    pub_packet_ack(&ctx->subscribers[conn->connection_index],\n                   pid,", "    uint8_t suspended = ctx->traffic_suspended;\n    pub_packet_ack(&ctx->subscribers[conn->connection_index],\n                   pid,"),
  ("rmc_pub_packet.c", "    rmc_pub_check_resume(ctx);\n\n    return 0;", "    if (suspended)\n        rmc_pub_check_resume(ctx);\n    ctx->traffic_suspended = suspended && ctx->traffic_suspended;\n\n    return 0;")],
 r'''
static rmc_pub_context_t* ctx; static int more = 1;
static void publish(void* p, payload_len_t n, user_data_t u) { if (more) { more = 0; CHECK(!rmc_pub_queue_packet(ctx, "news", 4, 0)); } }
int main()
{
    rmc_pub_context_t* c = ctx = new_pub(2);
    c->payload_free = publish;
    sub_up(c, 0);
    sent(c, "one", 3, 1); sent(c, "two", 3, 1); sent(c, "three", 5, 1);
    rmc_pub_throttling(c, 2, 1);
    CHECK(!rmc_pub_packet_ack(c, &c->conn_vec.connections[0], 1));
    CHECK(rmc_pub_traffic_suspended(c) == EBUSY);
    return 0;
}''')
SEEDS = [s for s in S]

exec(open("/verif/tools/seeds/d.py").read().split('seed("W01-early-header"')[0])
DG = open("/verif/tools/seeds/d.py").read().split("DG = r'''")[1].split("'''")[0]
ASAN = dict(flags="-fsanitize=address -fno-omit-frame-pointer", srcs="circular_buffer.c pub.c rmc_connection.c rmc_log.c rmc_protocol.c rmc_pub_context.c rmc_pub_packet.c rmc_pub_read.c rmc_pub_timeout.c rmc_pub_write.c rmc_sub_context.c rmc_sub_packet.c rmc_sub_read.c rmc_sub_timeout.c rmc_sub_write.c sub.c time.c")

seed("L01-middle-insert", "L01", "a sorted insertion in the middle of a list, seen by a walk from the tail",
 "the element after the new one keeps its old back link, so a backward walk skips the new element",
 [("rmc_list_template.h", "        node->owner = prev->owner;                                      \\\n        node->next = prev->next;                                        \\\n                                                                        \\\n        node->next->prev = node;                                        \\\n", "        node->owner = prev->owner;                                      \\\n        node->next = prev->next;                                        \\\n                                                                        \\\n        if (node->next == prev->owner->tail)                            \\\n            node->next->prev = node;                                    \\\n")],
 r'''
static int asc(rmc_index_t n, rmc_index_t h, void* u) { return n < h ? -1 : n > h; }
int main()
{
    rmc_index_list_t l; rmc_index_node_t* n; int i = 4;
    rmc_index_list_init(&l, 0, 0, 0);
    rmc_index_list_push_tail(&l, 1); rmc_index_list_push_tail(&l, 3); rmc_index_list_push_tail(&l, 4);
    rmc_index_list_insert_sorted_rev(&l, 2, asc, 0);
    for (n = rmc_index_list_tail(&l); n; n = rmc_index_list_prev(n)) CHECK(n->data == i--);
    CHECK(i == 0);
    return 0;
}''')

seed("T03-settable", "T03", "the system's date being changed while packets are in flight",
 "deadlines are computed from a clock that can be set back",
 [("time.c", "    clock_gettime(CLOCK_MONOTONIC, &res);", "    clock_gettime(CLOCK_REALTIME, &res);")],
 r'''
#include <time.h>
int main()
{
    struct timespec a, b; usec_timestamp_t t;
    clock_gettime(CLOCK_MONOTONIC, &a); t = rmc_usec_monotonic_timestamp(); clock_gettime(CLOCK_MONOTONIC, &b);
    CHECK(t >= a.tv_sec * 1000000LL + a.tv_nsec / 1000 && t <= b.tv_sec * 1000000LL + b.tv_nsec / 1000);
    return 0;
}''')

seed("G01-filter", "G01", "the log level set to info", "messages of exactly the configured level are lost",
 [("rmc_log.h", "#define RMC_LOG_INDEX_INFO(index, fmt, ...) { if (_rmc_log_level >= RMC_LOG_LEVEL_INFO)", "#define RMC_LOG_INDEX_INFO(index, fmt, ...) { if (_rmc_log_level > RMC_LOG_LEVEL_INFO)")],
 r'''
#include "rmc_log.h"
int main()
{
    rmc_sub_context_t* c = new_sub(4); char* b = 0; size_t n = 0; FILE* f = open_memstream(&b, &n);
    up(&c->conn_vec, 1, 0x7F000001, 1000, 9);
    rmc_set_log_level(RMC_LOG_LEVEL_INFO); rmc_log_set_file(f);
    CHECK(!rmc_sub_close_connection(c, 1));
    fflush(f);
    CHECK(b && strstr(b, "Closing connection"));
    return 0;
}''')

seed("G01-side-effect", "G01", "the log level raised to debug, and a peer that takes only part of what there is",
 "at that level what is left to send is computed from the wrong number, and write interest is dropped",
 [("rmc_protocol.c", "    circ_buf_free(&conn->write_buf, res, bytes_left);\n    RMC_LOG_INDEX_DEBUG(conn->connection_index, \"wrote [%ld] bytes\", res);", "    circ_buf_free(&conn->write_buf, res, bytes_left);\n    RMC_LOG_INDEX_DEBUG(conn->connection_index, \"wrote [%ld] bytes, [%u] to go\", res, *bytes_left = seg1_len - res);")],
 r"""
#include "rmc_log.h"
ssize_t writev(int fd, const struct iovec* v, int n) { return v[0].iov_len; }
int main()
{
    rmc_sub_context_t* c = new_sub(2); rmc_connection_t* q = &c->conn_vec.connections[0]; uint8_t r, *a, *b; uint32_t n, m, k;
    up(&c->conn_vec, 0, 0x7F000001, 1000, 9);
    rmc_log_set_file(fopen("/dev/null", "w")); rmc_set_log_level(RMC_LOG_LEVEL_DEBUG);
    /* have the waiting bytes wrap around the end of the buffer */
    k = circ_buf_available(&q->write_buf) - 4;
    CHECK(!circ_buf_alloc(&q->write_buf, k, &a, &n, &b, &m)); CHECK(!circ_buf_free(&q->write_buf, k - 1, 0));
    CHECK(!rmc_sub_write_control_message(c, q, "0123456789", 10));
    CHECK(!rmc_sub_write(c, 0, &r));
    CHECK(circ_buf_in_use(&q->write_buf) && q->action & RMC_POLLWRITE);
    return 0;
}""")

seed("A05-unknown-command", "A05", "a byte that starts no command, after a valid one",
 "the operation is reported as a successful read together with an error number",
 [("rmc_protocol.c", "            *op_res = RMC_ERROR;\n            RMC_LOG_INDEX_ERROR(s_ind, \"Unknown command byte: %d\", command);", "            RMC_LOG_INDEX_ERROR(s_ind, \"Unknown command byte: %d\", command);")],
 r"""
int main()
{
    rmc_pub_context_t* c = new_pub(2); uint8_t r, b[] = { RMC_CMD_CONTROL_MESSAGE, 1, 0, 'a', 0x77 }; int fd = sub_up(c, 0);
    CHECK(write(fd, b, sizeof b) == sizeof b);
    CHECK(rmc_pub_read(c, 0, &r) && r == RMC_ERROR);
    return 0;
}""")

seed("A06-double-room", "A06", "a resend while the outgoing buffer is more than half full",
 "a packet for which there is room is put off as if the buffer were full",
 [("rmc_pub_write.c", "    if (circ_buf_available(&conn->write_buf) < 1 + sizeof(packet_header_t) + pack->payload_len) {", "    if (circ_buf_available(&conn->write_buf) < 1 + sizeof(packet_header_t) + pack->payload_len ||\n        circ_buf_in_use(&conn->write_buf) + pack->payload_len > RMC_MAX_PAYLOAD - 1024) {")],
 r'''
int main()
{
    rmc_pub_context_t* c = new_pub(2); int fd = sub_up(c, 0); rmc_connection_t* q = &c->conn_vec.connections[0]; static char p[33000];
    pub_packet_t a = { .pid = 1, .payload = p, .payload_len = 32000 }, b = { .pid = 2, .payload = p, .payload_len = 33000 };
    CHECK(!rmc_pub_resend_packet(c, q, &a));
    CHECK(circ_buf_available(&q->write_buf) > 33000 + 21);
    CHECK(!rmc_pub_resend_packet(c, q, &b));
    return 0;
}''')

seed("A07-late-errno", "A07", "a connection whose set-up fails after it was made, and an application whose poll_remove callback makes system calls",
 "the number reported is the callback's errno, possibly 0, and not the cause of the failure",
 [("rmc_connection.c", "                              strerror(sock_err));\n\n        rmc_conn_close_connection(conn_vec, conn->connection_index);\n        return sock_err;\n    }\n\n    // We are subscribing", "                              strerror(sock_err));\n\n        rmc_conn_close_connection(conn_vec, conn->connection_index);\n        return errno;\n    }\n\n    // We are subscribing")],
 r'''
static void gone(user_data_t u, int fd, rmc_index_t i) { errno = 0; }
int main()
{
    rmc_sub_context_t* c = new_sub(2); uint8_t r; 
    up(&c->conn_vec, 0, 0x7F000001, 1000, 9);          // a local stream socket has no TCP_NODELAY
    c->conn_vec.connections[0].mode = RMC_CONNECTION_MODE_CONNECTING;
    c->conn_vec.poll_remove = gone;
    CHECK(rmc_sub_write(c, 0, &r) != 0);
    CHECK(c->conn_vec.connections[0].mode != RMC_CONNECTION_MODE_CONNECTED);
    return 0;
}''')

seed("A07-ignored", "A07", "a multicast interface that does not exist",
 "activation reports success although packets will leave through another interface",
 [("rmc_pub_context.c", "    if (setsockopt(ctx->mcast_send_descriptor,\n                   IPPROTO_IP, IP_MULTICAST_IF, &in_addr, sizeof(in_addr)) < 0) {", "    if (setsockopt(ctx->mcast_send_descriptor,\n                   IPPROTO_IP, IP_MULTICAST_IF, &in_addr, sizeof(in_addr)) > 0) {")],
 r'''
int main()
{
    rmc_pub_context_t* c = 0;
    CHECK(!rmc_pub_init_context(&c, 9, "224.0.0.1", 5555, "192.0.2.77", "127.0.0.1", 0, user_data_nil(), 0, 0, 0, 2, keep_payload));
    CHECK(rmc_pub_activate_context(c) != 0);
    return 0;
}''')

seed("M01-announce-room", "M01", "an application that fills all of the room offered for an announcement's payload",
 "the room offered is larger than the buffer",
 [("rmc_pub_timeout.c", "            send_announce = (*ctx->announce_cb)(ctx, buffer, sizeof(buffer), &len);", "            send_announce = (*ctx->announce_cb)(ctx, buffer, RMC_MAX_PACKET, &len);")],
 r'''
const char* __asan_default_options(void) { return "detect_leaks=0"; }
static uint8_t fill(struct rmc_pub_context* ctx, void* p, payload_len_t max, payload_len_t* n) { memset(p, 1, max); *n = max; return 1; }
int main()
{
    rmc_pub_context_t* c = new_pub(2);
    c->announce_cb = (void*) fill;
    c->announce_send_interval = 1000; c->announce_next_send_ts = 1;
    CHECK(!rmc_pub_timeout_process(c));
    CHECK(rmc_pub_queue_length(c) == 1);
    return 0;
}''', **ASAN)

seed("M02-other-guard", "M02", "an application that sets a control message callback after it has set and removed others",
 "a callback is called through a null pointer: another one's presence is tested",
 [("rmc_pub_read.c", "    if (ctx->subscriber_control_message_cb) {\n        char payload", "    if (ctx->subscriber_control_message_cb || ctx->subscriber_disconnect_cb) {\n        char payload")],
 r'''
static void dis(rmc_pub_context_t* c, uint32_t a, uint16_t p) { }
int main()
{
    rmc_pub_context_t* c = new_pub(2); uint8_t r, b[] = { RMC_CMD_CONTROL_MESSAGE, 1, 0, 'a' }; int fd = sub_up(c, 0);
    c->subscriber_disconnect_cb = (void*) dis;
    CHECK(write(fd, b, sizeof b) == sizeof b);
    CHECK(!rmc_pub_read(c, 0, &r));
    return 0;
}''')

seed("M04-ready-count", "M04", "more than 255 packets ready and not yet dispatched, then one that has to wait for its predecessor",
 "the number of ready packets is remembered in eight bits, and the application is told of a packet that is not there",
 [("rmc_sub_read.c", "    usec_timestamp_t start = 0;\n    uint8_t* payload_copy = 0;\n    uint32_t packet_ready_sz = 0;", "    usec_timestamp_t start = 0;\n    uint8_t* payload_copy = 0;\n    uint8_t packet_ready_sz = 0;")],
 DG + r"""
static int told; static void ready(rmc_sub_context_t* c) { ++told; }
int main()
{
    int i, k; rmc_sub_context_t* c = new_sub(4); int out = mcast(c); uint8_t r;
    up(&c->conn_vec, 0, 0x7F000001, 1000, 9);
    c->packet_ready_cb = ready;
    dgram(out, 1, 0x7F000001, 1000, 4, "abcd", 4);
    CHECK(!rmc_sub_read(c, RMC_MULTICAST_INDEX, &r) && told == 1);
    for (i = 2; i < 300; ++i) rmc_sub_packet_received(c, 0, i, malloc(1), 1, 0, user_data_nil());
    sub_process_received_packets(&c->publishers[0], &c->dispatch_ready);
    CHECK(rmc_sub_get_dispatch_ready_count(c) == 299);
    dgram(out, 305, 0x7F000001, 1000, 4, "abcd", 4);
    CHECK(!rmc_sub_read(c, RMC_MULTICAST_INDEX, &r) && rmc_sub_get_dispatch_ready_count(c) == 299);
    CHECK(told == 1);
    return 0;
}""")

seed("A02-picked-port", "A02", "a publisher that lets the system pick its control port",
 "the port announced to subscribers has its bytes swapped",
 [("rmc_pub_context.c", "        ctx->control_listen_port = ntohs(sock_addr.sin_port);", "        ctx->control_listen_port = sock_addr.sin_port;")],
 r"""
int main()
{
    rmc_pub_context_t* c = new_pub(2); struct sockaddr_in a; socklen_t l = sizeof a; int i = 0;
    do {
        CHECK(!rmc_pub_activate_context(c) && !getsockname(c->listen_descriptor, (struct sockaddr*) &a, &l));
        CHECK(c->control_listen_port == ntohs(a.sin_port));
        CHECK(!rmc_pub_deactivate_context(c));
        c->control_listen_port = 0;
    } while (++i < 4);
    return 0;
}""")

seed("K02-far-slot", "K02", "a table of more than 256 connections, and the last one closing",
 "the highest slot in use is computed in eight bits, so connections in far slots are no longer found",
 [("rmc_connection.c", "    rmc_index_t ind = conn_vec->size;\n\n    while(ind--) {\n        if (conn_vec->connections[ind].descriptor != -1) {", "    uint8_t ind = conn_vec->size;\n\n    while(ind--) {\n        if (conn_vec->connections[ind].descriptor != -1) {")],
 r'''
int main()
{
    rmc_sub_context_t* c = new_sub(300);
    up(&c->conn_vec, 1, 0x7F000001, 1001, 8); up(&c->conn_vec, 270, 0x7F000001, 1000, 9); up(&c->conn_vec, 271, 0x7F000001, 1002, 10);
    CHECK(!rmc_sub_close_connection(c, 271));
    CHECK(rmc_conn_find_by_address(&c->conn_vec, 0x7F000001, 1000) == &c->conn_vec.connections[270]);
    return 0;
}''')

seed("K04-idle-rearm", "K04", "a peer that takes all but the last few bytes",
 "write interest is dropped while bytes are still waiting, and they stay there until something else is written",
 [("rmc_sub_write.c", "    if (bytes_left_after == 0)\n        conn->action &= ~RMC_POLLWRITE;\n    else", "    if (bytes_left_after < sizeof(cmd_ack_interval_t))\n        conn->action &= ~RMC_POLLWRITE;\n    else")],
 r"""
ssize_t writev(int fd, const struct iovec* v, int n) { return v[0].iov_len - 3; }
int main()
{
    rmc_sub_context_t* c = new_sub(2); rmc_connection_t* q = &c->conn_vec.connections[0]; uint8_t r;
    up(&c->conn_vec, 0, 0x7F000001, 1000, 9);
    CHECK(!rmc_sub_write_control_message(c, q, "0123456789", 10));
    CHECK(!rmc_sub_write(c, 0, &r));
    CHECK(circ_buf_in_use(&q->write_buf) == 3 && q->action & RMC_POLLWRITE);
    return 0;
}""")

seed("W04-failed-receive", "W04", "a receive that fails for another reason than an empty socket",
 "the failed receive is taken for a packet made of stale bytes",
 [("rmc_sub_read.c", "        if (len == -1 ) {\n", "        if (len == -1 && errno != ENOTSOCK && errno != EINTR) {\n"), ],
 r'''
int main()
{
    rmc_sub_context_t* c = new_sub(4); int p[2]; uint8_t r;
    CHECK(!pipe(p));
    c->mcast_recv_descriptor = p[0];
    CHECK(rmc_sub_read(c, RMC_MULTICAST_INDEX, &r) == ENOTSOCK);
    return 0;
}''')

VG = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -g -w -D_GNU_SOURCE -I. "$here/demo.c" _build/librmc.a -o "$t/demo" || exit 2
cd "$t" && timeout 120 valgrind -q --error-exitcode=9 "$t/demo"
"""
seed("M03-failed-write", "M03", "a control channel write that fails because the peer does not read",
 "whether write interest is kept depends on an uninitialised local",
 [("rmc_sub_write.c", "    int res = 0;\n    uint32_t bytes_left_after = 0;", "    int res = 0;\n    uint32_t bytes_left_after;"),
  ("rmc_protocol.c", "    if (res == -1) {\n        *bytes_left = circ_buf_in_use(&conn->write_buf);\n", "    if (res == -1) {\n")],
 r"""
int main()
{
    rmc_sub_context_t* c = new_sub(2); rmc_connection_t* q = &c->conn_vec.connections[0]; uint8_t r; static char b[3000];
    up(&c->conn_vec, 0, 0x7F000001, 1000, 9);
    while (write(q->descriptor, b, sizeof b) > 0) ;
    CHECK(!rmc_sub_write_control_message(c, q, "0123456789", 10));
    CHECK(rmc_sub_write(c, 0, &r) == EAGAIN);
    CHECK(q->action & RMC_POLLWRITE);
    return 0;
}""", sh=VG)

SEEDS = [s for s in S if not any("PLACEHOLDER" in e[1] for e in s["edits"])]

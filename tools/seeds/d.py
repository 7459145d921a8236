H = r'''
#include "rmc_internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED (line %d): %s\n", __LINE__, #c); exit(1); } } while (0)

/* Make slot i an open, connected control channel; returns the peer's end. */
static int up(rmc_connection_vector_t* v, int i, uint32_t addr, uint16_t port, uint32_t node)
{
    int sv[2];
    rmc_connection_t* c = &v->connections[i];
    CHECK(!socketpair(AF_UNIX, SOCK_STREAM, 0, sv));
    fcntl(sv[0], F_SETFL, fcntl(sv[0], F_GETFL, 0) | O_NONBLOCK);
    fcntl(sv[1], F_SETFL, fcntl(sv[1], F_GETFL, 0) | O_NONBLOCK);
    c->descriptor = sv[0];
    c->mode = RMC_CONNECTION_MODE_CONNECTED;
    c->action = RMC_POLLREAD;
    c->remote_address = addr; c->remote_port = port; c->node_id = node;
    v->active_connection_count++;
    if (v->max_connection_ind == RMC_NIL_INDEX || v->max_connection_ind < i) v->max_connection_ind = i;
    return sv[1];
}
static void* heap_alloc(payload_len_t n, user_data_t u) { return malloc(n ? n : 1); }
static int freed;
static void heap_free(void* p, payload_len_t n, user_data_t u) { ++freed; free(p); }
static rmc_sub_context_t* new_sub(int n)
{
    rmc_sub_context_t* c = 0;
    CHECK(!rmc_sub_init_context(&c, 7, "224.0.0.1", 5555, "127.0.0.1", user_data_nil(), 0, 0, 0, n, heap_alloc, heap_free));
    return c;
}
static void keep_payload(void* p, payload_len_t n, user_data_t u) { ++freed; }
static rmc_pub_context_t* new_pub(int n)
{
    rmc_pub_context_t* c = 0;
    CHECK(!rmc_pub_init_context(&c, 9, "224.0.0.1", 5555, "127.0.0.1", "127.0.0.1", 0, user_data_nil(), 0, 0, 0, n, keep_payload));
    return c;
}
/* a connected subscriber in slot i of a publisher */
static int sub_up(rmc_pub_context_t* c, int i)
{
    int fd = up(&c->conn_vec, i, 0x7F000001, 1000 + i, 0);
    pub_init_subscriber(&c->subscribers[i], &c->pub_ctx, user_data_ptr(&c->conn_vec.connections[i]));
    return fd;
}
/* queue a packet and record it as sent at time ts */
static void sent(rmc_pub_context_t* c, void* p, int n, usec_timestamp_t ts)
{
    CHECK(!rmc_pub_queue_packet(c, p, n, 0));
    pub_packet_sent(&c->pub_ctx, pub_next_queued_packet(&c->pub_ctx), ts);
}
static int packet_cmd(uint8_t* b, uint64_t pid, const char* s, int n)
{
    packet_header_t h = { .pid = pid, .node_id = 9, .payload_len = n, .listen_ip = 0x7F000001, .listen_port = 1000 };
    b[0] = RMC_CMD_PACKET; memcpy(b + 1, &h, sizeof h); memcpy(b + 1 + sizeof h, s, n);
    return 1 + sizeof h + n;
}
'''
S = []
def seed(id, prop, needs, breaks, edits, demo, **k): S.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=H + demo, **k))

seed("W01-early-header", "W01", "a resent packet whose header and payload arrive in two separate reads",
 "the header of a command is consumed before the payload is complete, so the rest of the payload is taken for commands",
 [("rmc_sub_read.c", "    // We have enough data to process the entire packet\n    // Free command byte and packet header from read buffer.\n    circ_buf_free(&conn->read_buf, 1 + sizeof(packet_header_t), 0);\n", ""),
  ("rmc_sub_read.c", "    circ_buf_read_offset(&conn->read_buf, 1, (uint8_t*) &pack_hdr, sizeof(pack_hdr), 0);\n\n    // Now we know how big the payload is. Check if we have enough memory for an atomic\n    // process or reject.\n    if (circ_buf_in_use(&conn->read_buf) < 1 + sizeof(packet_header_t) + pack_hdr.payload_len) {",
   "    circ_buf_read_offset(&conn->read_buf, 1, (uint8_t*) &pack_hdr, sizeof(pack_hdr), 0);\n    circ_buf_free(&conn->read_buf, 1 + sizeof(packet_header_t), 0);\n\n    // Now we know how big the payload is.\n    if (circ_buf_in_use(&conn->read_buf) < pack_hdr.payload_len) {")],
 r'''
int main()
{
    rmc_sub_context_t* c = new_sub(4);
    int fd = up(&c->conn_vec, 0, 0x7F000001, 1000, 9);
    uint8_t b[200]; uint8_t r = 0;
    int n = packet_cmd(b, 5, "0123456789", 10);
    CHECK(write(fd, b, n - 4) == n - 4);
    rmc_sub_read(c, 0, &r);
    CHECK(rmc_sub_get_dispatch_ready_count(c) == 0);
    CHECK(write(fd, b + n - 4, 4) == 4);
    rmc_sub_read(c, 0, &r);
    CHECK(rmc_sub_get_dispatch_ready_count(c) == 1);
    CHECK(!memcmp(rmc_sub_packet_payload(rmc_sub_get_next_dispatch_ready(c)), "0123456789", 10));
    return 0;
}''')

seed("W02-split-header", "W02", "a resend whose packet header straddles the end of the write ring",
 "the part of the header behind the wrap repeats the header's first bytes",
 [("rmc_pub_write.c", "        memcpy(seg2, ((uint8_t*) &pack_hdr) + seg1_len, seg2_len);", "        memcpy(seg2, (uint8_t*) &pack_hdr, seg2_len);")],
 r'''
int main()
{
    int off;
    for (off = 1; off < 40; ++off) {
        rmc_pub_context_t* c = new_pub(2);
        rmc_connection_t* k = &c->conn_vec.connections[0];
        uint8_t *s1, *s2, out[200]; uint32_t l1, l2, got = 0;
        packet_header_t h;
        int fd = sub_up(c, 0);
        sent(c, "payload", 7, 1);
        CHECK(!circ_buf_alloc(&k->write_buf, sizeof(k->write_buf_data) - off, &s1, &l1, &s2, &l2));
        circ_buf_free(&k->write_buf, sizeof(k->write_buf_data) - off - 1, 0);
        CHECK(!rmc_pub_resend_packet(c, k, pub_packet_list_head(&c->pub_ctx.inflight)->data));
        CHECK(!circ_buf_read(&k->write_buf, out, sizeof out, &got));
        CHECK(got == 2 + sizeof h + 7);
        memmove(out, out + 1, got);
        memcpy(&h, out + 1, sizeof h);
        CHECK(out[0] == RMC_CMD_PACKET && h.pid == 1 && h.node_id == 9 && h.payload_len == 7 && h.listen_ip == 0x7F000001);
        CHECK(!memcmp(out + 1 + sizeof h, "payload", 7));
        close(fd);
    }
    return 0;
}''')

seed("W03-short-write", "W03", "a write accepted only in part, ending inside the part of the output behind the ring's end",
 "everything behind the ring's end is dropped although the socket took only some of it",
 [("rmc_protocol.c", "    circ_buf_free(&conn->write_buf, res, bytes_left);", "    circ_buf_free(&conn->write_buf, (res <= seg1_len)?res:(seg1_len + seg2_len), bytes_left);")],
 r'''
static ssize_t limit = -1; static uint8_t wire[200000]; static int on_wire;
ssize_t writev(int fd, const struct iovec* v, int n)
{
    int i; ssize_t t = 0;
    for (i = 0; i < n; ++i) {
        size_t l = v[i].iov_len;
        if (limit >= 0 && t + l > limit) l = limit - t;
        memcpy(wire + on_wire, v[i].iov_base, l); on_wire += l; t += l;
    }
    return t;
}
int main()
{
    rmc_sub_context_t* c = new_sub(1);
    rmc_connection_t* k = &c->conn_vec.connections[0];
    int fd = up(&c->conn_vec, 0, 0x7F000001, 1000, 9), i; uint8_t r, *s1, *s2, exp[40]; uint32_t l1, l2;
    CHECK(!circ_buf_alloc(&k->write_buf, sizeof(k->write_buf_data) - 10, &s1, &l1, &s2, &l2));
    circ_buf_free(&k->write_buf, sizeof(k->write_buf_data) - 10 - 1, 0);
    *s1 = 0;
    ((uint8_t*) k->write_buf_data)[sizeof(k->write_buf_data) - 11] = exp[0] = 7;
    for (i = 1; i < 40; ++i) {
        CHECK(!circ_buf_alloc(&k->write_buf, 1, &s1, &l1, &s2, &l2));
        *s1 = exp[i] = 100 + i;
    }
    limit = 17;
    while (circ_buf_in_use(&k->write_buf)) CHECK(!rmc_sub_write(c, 0, &r));
    CHECK(on_wire == 40 && !memcmp(wire, exp, 40));
    return 0;
}''')

DG = r'''
static int mcast(rmc_sub_context_t* c)
{
    struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(0x7F000001) }; socklen_t l = sizeof a;
    int in = socket(AF_INET, SOCK_DGRAM, 0), out = socket(AF_INET, SOCK_DGRAM, 0);
    CHECK(!bind(in, (struct sockaddr*) &a, sizeof a) && !getsockname(in, (struct sockaddr*) &a, &l) && !connect(out, (struct sockaddr*) &a, l));
    c->mcast_recv_descriptor = in;
    return out;
}
static void dgram(int fd, uint64_t pid, uint32_t ip, int port, int plen, const char* s, int n)
{
    uint8_t b[70000];
    packet_header_t h = { .pid = pid, .node_id = 9, .payload_len = plen, .listen_ip = ip, .listen_port = port };
    memcpy(b, &h, sizeof h); memcpy(b + sizeof h, s, n);
    CHECK(send(fd, b, sizeof h + n, 0) == sizeof h + n);
    usleep(20000);
}
'''
seed("W04-length", "W04", "a datagram that announces up to a header's length more payload than it carries",
 "stale bytes of the receive buffer are delivered as payload",
 [("rmc_sub_read.c", "    if (len < sizeof(packet_header_t) + pack_hdr->payload_len) {", "    if (len < pack_hdr->payload_len) {")],
 DG + r'''
int main()
{
    rmc_sub_context_t* c = new_sub(2); uint8_t r;
    int fd = mcast(c);
    up(&c->conn_vec, 0, 0x7F000001, 1000, 9);
    dgram(fd, 1, 0x7F000001, 1000, 3, "abc", 3);
    CHECK(!rmc_sub_read(c, RMC_MULTICAST_INDEX, &r));
    CHECK(rmc_sub_get_dispatch_ready_count(c) == 1);
    dgram(fd, 2, 0x7F000001, 1000, 12, "abc", 3);
    CHECK(rmc_sub_read(c, RMC_MULTICAST_INDEX, &r) == EPROTO);
    CHECK(rmc_sub_get_dispatch_ready_count(c) == 1);
    return 0;
}''')

seed("W05-cached-endpoint", "W05", "two publishers with different control endpoints in one process",
 "the second publisher's packets announce the first one's control endpoint",
 [("rmc_pub_write.c", "    pack_hdr->listen_ip = ctx->control_listen_if_addr;\n    pack_hdr->listen_port = ctx->control_listen_port;", "    // The endpoint does not change once the publisher is up.\n    static uint32_t listen_ip = 0;\n    static uint16_t listen_port = 0;\n\n    if (!listen_port) {\n        listen_ip = ctx->control_listen_if_addr;\n        listen_port = ctx->control_listen_port;\n    }\n    pack_hdr->listen_ip = listen_ip;\n    pack_hdr->listen_port = listen_port;")],
 r'''
int main()
{
    int i;
    for (i = 0; i < 3; ++i) {
        rmc_pub_context_t* c = new_pub(2); packet_header_t h; uint8_t b[100]; uint32_t n;
        c->control_listen_port = 4000 + i;
        sub_up(c, 0);
        sent(c, "x", 1, 1);
        CHECK(!rmc_pub_resend_packet(c, &c->conn_vec.connections[0], pub_packet_list_head(&c->pub_ctx.inflight)->data));
        CHECK(!circ_buf_read(&c->conn_vec.connections[0].write_buf, b, sizeof b, &n));
        memcpy(&h, b + 1, sizeof h);
        CHECK(h.listen_port == 4000 + i);
    }
    return 0;
}''')

seed("S02-highest-held", "S02", "the packet with the highest id received so far, held because of a gap, received once more",
 "it is not recognised as a duplicate and later delivered twice",
 [("sub.c", "    sub_packet_list_find_node_rev(&pub->received_pid,\n                                  &cmp_pack,", "    // Nothing that high has been received.\n    if (pid >= pub->max_pid_received)\n        return 0;\n\n    sub_packet_list_find_node_rev(&pub->received_pid,\n                                  &cmp_pack,")],
 DG + r'''
int main()
{
    rmc_sub_context_t* c = new_sub(2); uint8_t r; int n = 0; sub_packet_t* p;
    int fd = mcast(c);
    up(&c->conn_vec, 0, 0x7F000001, 1000, 9);
    dgram(fd, 1, 0x7F000001, 1000, 1, "a", 1);
    dgram(fd, 3, 0x7F000001, 1000, 1, "c", 1);
    dgram(fd, 3, 0x7F000001, 1000, 1, "c", 1);
    dgram(fd, 2, 0x7F000001, 1000, 1, "b", 1);
    CHECK(!rmc_sub_read(c, RMC_MULTICAST_INDEX, &r));
    while ((p = rmc_sub_get_next_dispatch_ready(c))) {
        CHECK(*(char*) rmc_sub_packet_payload(p) == "abc"[n]); ++n;
        CHECK(!rmc_sub_packet_dispatched(c, p));
    }
    CHECK(n == 3);
    CHECK(!sub_packet_list_size(&c->publishers[0].received_pid));
    return 0;
}''')

seed("S03-merge-time", "S03", "a packet that closes the gap between two pending intervals, the later one being older",
 "the merged interval forgets the older receive time and is acknowledged late",
 [("sub.c", "                    (inode->data.receive_ts < iprev->data.receive_ts)?\n                    inode->data.receive_ts:\n                    iprev->data.receive_ts;", "                    iprev->data.receive_ts;"),
  ("sub.c", "                    (inode->data.receive_ts < inext->data.receive_ts)?\n                    inode->data.receive_ts:\n                    inext->data.receive_ts;", "                    inode->data.receive_ts;")],
 r'''
int main()
{
    sub_publisher_t p; usec_timestamp_t t;
    sub_init_publisher(&p);
    sub_packet_add_to_received_interval(&p, 12);
    t = sub_oldest_unacknowledged_packet(&p);
    usleep(3000);
    sub_packet_add_to_received_interval(&p, 10);
    usleep(3000);
    sub_packet_add_to_received_interval(&p, 11);
    CHECK(sub_pid_interval_list_size(&p.received_interval) == 1);
    CHECK(sub_oldest_unacknowledged_packet(&p) == t);
    return 0;
}''')

seed("S05-shutdown-keep", "S05", "packets still waiting in the ready queue when the subscriber shuts down",
 "their payloads and records are never released",
 [("rmc_sub_context.c", "        rmc_sub_packet_dispatched(ctx, pack);", "        rmc_sub_packet_dispatched_keep_payload(ctx, pack);")],
 DG + r'''
int main()
{
    rmc_sub_context_t* c = new_sub(2); uint8_t r;
    int fd = mcast(c);
    up(&c->conn_vec, 0, 0x7F000001, 1000, 9);
    dgram(fd, 1, 0x7F000001, 1000, 1, "a", 1);
    dgram(fd, 2, 0x7F000001, 1000, 1, "b", 1);
    CHECK(!rmc_sub_read(c, RMC_MULTICAST_INDEX, &r));
    CHECK(rmc_sub_get_dispatch_ready_count(c) == 2);
    CHECK(!rmc_sub_delete_context(c));
    CHECK(freed == 2);
    return 0;
}''')

seed("S06-any-address", "S06", "a publisher that announces no address (bound to all interfaces) and repeats its announcement",
 "each announcement opens one more connection to the same publisher, and its data is ignored",
 [("rmc_sub_read.c", "    if (pack_hdr->listen_ip == 0)\n        pack_hdr->listen_ip = src_addr;\n\n    data += sizeof(packet_header_t);\n", "    data += sizeof(packet_header_t);\n"),
  ("rmc_sub_read.c", "        if (!conn)\n            res = decode_unsubscribed_multicast(ctx,", "        if (!pack_hdr->listen_ip)\n            pack_hdr->listen_ip = src_addr;\n        if (!conn)\n            res = decode_unsubscribed_multicast(ctx,")],
 DG + r'''
int main()
{
    rmc_sub_context_t* c = new_sub(4); uint8_t r;
    struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(0x7F000001) }; socklen_t l = sizeof a;
    int ls = socket(AF_INET, SOCK_STREAM, 0);
    int fd = mcast(c);
    CHECK(!bind(ls, (struct sockaddr*) &a, sizeof a) && !listen(ls, 5) && !getsockname(ls, (struct sockaddr*) &a, &l));
    dgram(fd, 0, 0, ntohs(a.sin_port), 0, "", 0);
    dgram(fd, 0, 0, ntohs(a.sin_port), 0, "", 0);
    dgram(fd, 0, 0, ntohs(a.sin_port), 0, "", 0);
    CHECK(!rmc_sub_read(c, RMC_MULTICAST_INDEX, &r));
    CHECK(rmc_sub_get_publisher_count(c) == 1);
    CHECK(c->conn_vec.connections[0].remote_address == 0x7F000001);
    return 0;
}''')

seed("S07-edge", "S07", "an application that leaves packets in the ready queue when it is told about them",
 "it is never told about the following packets",
 [("rmc_sub_read.c", "    if (ctx->packet_ready_cb && sub_packet_list_size(&ctx->dispatch_ready) != packet_ready_sz)\n        (*ctx->packet_ready_cb)(ctx);\n\n    return 0;\n}\n\n\nstatic int process_multicast_read", "    if (ctx->packet_ready_cb && !packet_ready_sz && sub_packet_list_size(&ctx->dispatch_ready))\n        (*ctx->packet_ready_cb)(ctx);\n\n    return 0;\n}\n\n\nstatic int process_multicast_read")],
 DG + r'''
static int told; static void ready(rmc_sub_context_t* c) { ++told; }
int main()
{
    rmc_sub_context_t* c = new_sub(2); uint8_t r;
    int fd = mcast(c);
    rmc_sub_set_packet_ready_callback(c, ready);
    up(&c->conn_vec, 0, 0x7F000001, 1000, 9);
    dgram(fd, 1, 0x7F000001, 1000, 1, "a", 1);
    CHECK(!rmc_sub_read(c, RMC_MULTICAST_INDEX, &r));
    CHECK(told == 1);
    dgram(fd, 2, 0x7F000001, 1000, 1, "b", 1);
    CHECK(!rmc_sub_read(c, RMC_MULTICAST_INDEX, &r));
    CHECK(told == 2);
    return 0;
}''')

seed("P02-empty-payload", "P02", "a published packet with an empty payload",
 "the payload the application handed over is never released",
 [("pub.c", "        pub_packet_list_delete(pack->parent_node);\n\n        // Free data using function provided with this call.\n        if (pub_payload_free)\n", "        pub_packet_list_delete(pack->parent_node);\n\n        // Free data using function provided with this call.\n        if (pub_payload_free && pack->payload_len)\n")],
 r'''
int main()
{
    rmc_pub_context_t* c = new_pub(2);
    sub_up(c, 0);
    sent(c, "x", 0, 1); sent(c, "x", 1, 2);
    rmc_pub_packet_ack(c, &c->conn_vec.connections[0], 2);
    CHECK(freed == 1);
    rmc_pub_packet_ack(c, &c->conn_vec.connections[0], 1);
    CHECK(freed == 2);
    return 0;
}''')

seed("P03-failed-resend", "P03", "a subscriber whose control channel has no room left for a resend",
 "the packet is taken for acknowledged although nothing was resent",
 [("rmc_pub_timeout.c", "    if (!res)\n        rmc_pub_packet_ack(ctx, conn, pack->pid) ;\n\n    return res;", "    if (!res || res == EAGAIN)\n        rmc_pub_packet_ack(ctx, conn, pack->pid) ;\n\n    return res;")],
 r'''
int main()
{
    rmc_pub_context_t* c = new_pub(2); rmc_connection_t* k = &c->conn_vec.connections[0];
    uint8_t *s1, *s2; uint32_t l1, l2;
    sub_up(c, 0);
    CHECK(!circ_buf_alloc(&k->write_buf, circ_buf_available(&k->write_buf) - 10, &s1, &l1, &s2, &l2));
    sent(c, "x", 1, rmc_usec_monotonic_timestamp() - 10000000);
    rmc_pub_timeout_process(c);
    CHECK(pub_packet_list_size(&c->subscribers[0].inflight) == 1);
    return 0;
}''')

seed("P04-dropped-send", "P04", "the network refuses a datagram for lack of buffers",
 "the packet leaves the queue as if it had been sent",
 [("rmc_pub_write.c", "    if (res == -1) {\n        if ( errno != EAGAIN && errno != EWOULDBLOCK) {", "    // Lost on the way out is as good as lost on the network.\n    if (res == -1 && errno != ENOBUFS) {\n        if ( errno != EAGAIN && errno != EWOULDBLOCK) {")],
 r'''
static int fail; static int calls;
ssize_t sendmsg(int fd, const struct msghdr* m, int f) { ++calls; if (fail) { errno = fail; return -1; } return 1; }
int main()
{
    int e[] = { EAGAIN, ENOBUFS, ENETUNREACH, EPERM }, i;
    for (i = 0; i < 4; ++i) {
        rmc_pub_context_t* c = new_pub(2);
        sub_up(c, 0);
        c->mcast_send_descriptor = socket(AF_INET, SOCK_DGRAM, 0);
        CHECK(!rmc_pub_queue_packet(c, "a", 1, 0)); CHECK(!rmc_pub_queue_packet(c, "b", 1, 0));
        fail = e[i];
        rmc_pub_write(c, RMC_MULTICAST_INDEX, 0);
        CHECK(rmc_pub_queue_length(c) == 2);
        fail = 0;
        CHECK(!rmc_pub_write(c, RMC_MULTICAST_INDEX, 0));
        CHECK(rmc_pub_queue_length(c) == 0 && pub_packet_list_size(&c->subscribers[0].inflight) == 2);
    }
    return 0;
}''')

seed("P05-rejected-pair", "P05", "a throttling request with a suspend mark below its resume mark",
 "the rejected request changes the resume mark",
 [("rmc_pub_context.c", "    if (suspend_threshold < resume_threshold) {", "    ctx->traffic_resume_threshold = resume_threshold;\n    if (suspend_threshold < resume_threshold) {"),
  ("rmc_pub_context.c", "    ctx->traffic_suspend_threshold = suspend_threshold;\n    ctx->traffic_resume_threshold = resume_threshold;\n", "    ctx->traffic_suspend_threshold = suspend_threshold;\n")],
 r'''
int main()
{
    rmc_pub_context_t* c = new_pub(2);
    sub_up(c, 0);
    CHECK(!rmc_pub_throttling(c, 2, 0));
    CHECK(rmc_pub_throttling(c, 3, 8) == EINVAL);
    sent(c, "a", 1, 1); sent(c, "b", 1, 2);
    CHECK(!rmc_pub_queue_packet(c, "c", 1, 0));
    CHECK(rmc_pub_traffic_suspended(c) == EBUSY);
    rmc_pub_packet_ack(c, &c->conn_vec.connections[0], 1);
    CHECK(rmc_pub_traffic_suspended(c) == EBUSY);
    rmc_pub_packet_ack(c, &c->conn_vec.connections[0], 2);
    CHECK(!rmc_pub_traffic_suspended(c));
    return 0;
}''')

seed("P06-late-report", "P06", "a disconnect callback that looks at the peer it is told about",
 "the disconnect is reported after the peer's address has been wiped",
 [("rmc_pub_read.c", "    if (ctx->subscriber_disconnect_cb) {\n        (*ctx->subscriber_disconnect_cb)(ctx, conn->remote_address, conn->remote_port);\n    }\n\n    rmc_conn_close_connection(&ctx->conn_vec, s_ind);\n", "    rmc_conn_close_connection(&ctx->conn_vec, s_ind);\n\n    if (ctx->subscriber_disconnect_cb) {\n        (*ctx->subscriber_disconnect_cb)(ctx, conn->remote_address, conn->remote_port);\n    }\n")],
 r'''
static uint32_t ip; static int port, n;
static void gone(rmc_pub_context_t* c, uint32_t a, uint16_t p) { ++n; ip = a; port = p; }
int main()
{
    rmc_pub_context_t* c = new_pub(2); uint8_t r; int fd = sub_up(c, 1);
    rmc_pub_set_subscriber_disconnect_callback(c, gone);
    close(fd);
    CHECK(!rmc_pub_read(c, 1, &r));
    CHECK(n == 1 && ip == 0x7F000001 && port == 1001);
    return 0;
}''')

seed("P07-disable", "P07", "announcements switched off while one is scheduled",
 "the announce deadline stays pending although announcements are disabled",
 [("rmc_pub_context.c", "    // Wipe any pending announce we are waiting for.\n    if (!send_interval_usec)\n        ctx->announce_next_send_ts = 0;\n    return 0;", "    return 0;")],
 r'''
int main()
{
    rmc_pub_context_t* c = new_pub(2); usec_timestamp_t t = 0;
    CHECK(!rmc_pub_set_announce_interval(c, 100000));
    CHECK(!rmc_pub_timeout_get_next(c, &t) && t != -1);
    CHECK(!rmc_pub_set_announce_interval(c, 0));
    CHECK(!rmc_pub_timeout_get_next(c, &t) && t == -1);
    return 0;
}''')

seed("P09-narrow-id", "P09", "acknowledgements for packet ids beyond 32 bits",
 "packets beyond the first 2^32 are never acknowledged",
 [("rmc_pub_read.c", "    packet_id_t pid = 0;\n    // Do we have enough data?", "    uint32_t pid = 0;\n    // Do we have enough data?"),
  ("rmc_pub_read.c", "    for (pid = ack.first_pid; pid <= ack.last_pid; ++pid)\n        rmc_pub_packet_ack(ctx, conn, pid) ;", "    for (pid = 0; pid + ack.first_pid <= ack.last_pid; ++pid)\n        rmc_pub_packet_ack(ctx, conn, (uint32_t) (ack.first_pid + pid));")],
 r'''
int main()
{
    rmc_pub_context_t* c = new_pub(2); uint8_t r, b[17]; int fd = sub_up(c, 0);
    cmd_ack_interval_t a = { 0x100000000ULL, 0x100000001ULL };
    c->pub_ctx.next_pid = 0x100000000ULL;
    sent(c, "a", 1, 1); sent(c, "b", 1, 2); sent(c, "c", 1, 3);
    b[0] = RMC_CMD_ACK_INTERVAL; memcpy(b + 1, &a, 16);
    CHECK(write(fd, b, 17) == 17);
    CHECK(!rmc_pub_read(c, 0, &r));
    CHECK(pub_packet_list_size(&c->subscribers[0].inflight) == 1 && freed == 2);
    return 0;
}''')

seed("K01-remove-late", "K01", "a disconnect in an application that hands descriptors to its poll loop",
 "the poll loop is told to forget a descriptor that has already been closed",
 [("rmc_connection.c", "    if (conn_vec->poll_remove)\n        (*conn_vec->poll_remove)(conn_vec->user_data,\n                                 conn->descriptor,\n                                 s_ind);\n\n    if (close(conn->descriptor) != 0)\n        RMC_LOG_WARNING(\"Could not close descriptor %d: %s\", conn->descriptor, strerror(errno));\n", "    if (close(conn->descriptor) != 0)\n        RMC_LOG_WARNING(\"Could not close descriptor %d: %s\", conn->descriptor, strerror(errno));\n\n    if (conn_vec->poll_remove)\n        (*conn_vec->poll_remove)(conn_vec->user_data,\n                                 conn->descriptor,\n                                 s_ind);\n")],
 r'''
static int bad, n;
static void gone(user_data_t u, int fd, rmc_index_t i) { ++n; if (fcntl(fd, F_GETFD) == -1) bad = 1; }
int main()
{
    rmc_pub_context_t* c = new_pub(2);
    sub_up(c, 0);
    c->conn_vec.poll_remove = gone;
    CHECK(!rmc_pub_close_connection(c, 0));
    CHECK(n == 1 && !bad);
    return 0;
}''')

seed("K02-max-shrinks", "K02", "a failing connection attempt into a low slot while a higher slot is open",
 "the highest index in use drops below the open slot, which can no longer be looked up",
 [("rmc_connection.c", "    rmc_index_t ind = conn_vec->size;\n\n    while(ind--) {\n        if", "    rmc_index_t ind = (conn_vec->max_connection_ind == RMC_NIL_INDEX)?0:conn_vec->max_connection_ind;\n\n    // Called when the highest slot has become free.\n    while(ind--) {\n        if")],
 r'''
int connect(int fd, const struct sockaddr* a, socklen_t l) { errno = ECONNREFUSED; return -1; }
int main()
{
    rmc_sub_context_t* c = new_sub(4); rmc_index_t i;
    up(&c->conn_vec, 1, 0x0A000001, 1001, 21);
    CHECK(rmc_conn_find_by_address(&c->conn_vec, 0x0A000001, 1001));
    rmc_conn_connect_tcp_by_address(&c->conn_vec, 0x7F000001, 1, 5, &i);
    CHECK(rmc_conn_find_by_address(&c->conn_vec, 0x0A000001, 1001) == &c->conn_vec.connections[1]);
    CHECK(rmc_conn_find_by_node_id(&c->conn_vec, 21) == &c->conn_vec.connections[1]);
    return 0;
}''')

seed("K03-stale-output", "K03", "a connection closed with output pending whose slot is used again",
 "the previous peer's pending bytes are sent to the slot's next user",
 [("rmc_connection.c", "    rmc_conn_reset_connection(conn, s_ind);\n\n    if (s_ind == conn_vec->max_connection_ind)", "    // Keep the buffers as they are set up.\n    conn->action = 0;\n    conn->descriptor = -1;\n    conn->node_id = 0;\n    conn->remote_address = 0;\n    conn->remote_port = 0;\n    circ_buf_init(&conn->read_buf, conn->read_buf_data, sizeof(conn->read_buf_data));\n\n    if (s_ind == conn_vec->max_connection_ind)")],
 r'''
int main()
{
    rmc_pub_context_t* c = new_pub(2); uint8_t r; uint8_t *s1, *s2; uint32_t l1, l2;
    sub_up(c, 0);
    CHECK(!circ_buf_alloc(&c->conn_vec.connections[0].write_buf, 30, &s1, &l1, &s2, &l2));
    CHECK(!rmc_pub_close_connection(c, 0));
    sub_up(c, 0);
    CHECK(rmc_pub_write(c, 0, &r) == ENODATA);
    return 0;
}''')

seed("K04-read-drops-write", "K04", "input arriving on a control channel while output is pending",
 "the request for write readiness is withdrawn and the output is stuck",
 [("rmc_pub_read.c", "    conn->action = RMC_POLLREAD | ((write_buf_sz > 0)?RMC_POLLWRITE:0);", "    conn->action = RMC_POLLREAD | ((write_buf_sz > sizeof(cmd_control_message_t))?(conn->action & RMC_POLLWRITE):0);")],
 r'''
int main()
{
    rmc_pub_context_t* c = new_pub(2); uint8_t r, b[17] = { RMC_CMD_ACK_INTERVAL }; int fd = sub_up(c, 0);
    uint8_t *s1, *s2; uint32_t l1, l2;
    CHECK(!circ_buf_alloc(&c->conn_vec.connections[0].write_buf, 2, &s1, &l1, &s2, &l2));
    c->conn_vec.connections[0].action |= RMC_POLLWRITE;
    CHECK(write(fd, b, 17) == 17);
    CHECK(!rmc_pub_read(c, 0, &r));
    CHECK(c->conn_vec.connections[0].action & RMC_POLLWRITE);
    return 0;
}''')

seed("A01-index-bound", "A01", "an index equal to the configured number of connections",
 "the slot behind the connection table is read",
 [("rmc_connection.c", "    if (index >= conn_vec->size)\n        return 0;\n", "    if (index > conn_vec->size)\n        return 0;\n")],
 r'''
int main()
{
    rmc_connection_vector_t v; uint8_t* b = malloc(3 * sizeof(rmc_connection_t));
    memset(b, 1, 3 * sizeof(rmc_connection_t));
    rmc_conn_init_connection_vector(&v, b, 2, user_data_nil(), 0, 0, 0);
    CHECK(!rmc_conn_find_by_index(&v, 2));
    CHECK(!rmc_conn_find_by_index(&v, 3));
    return 0;
}''')

seed("A02-membership", "A02", "a subscriber told to listen on one particular interface",
 "the interface address reaches the socket layer in host order and the group is joined on no or another interface",
 [("rmc_sub_context.c", "    mreq.imr_interface.s_addr = htonl(ctx->mcast_if_addr);", "    mreq.imr_interface.s_addr = ctx->mcast_if_addr;")],
 r'''
static struct ip_mreq seen; static int n;
int setsockopt(int fd, int level, int name, const void* v, socklen_t l)
{
    if (level == IPPROTO_IP && name == IP_ADD_MEMBERSHIP) { ++n; memcpy(&seen, v, sizeof seen); }
    return 0;
}
int main()
{
    rmc_sub_context_t* c = 0;
    CHECK(!rmc_sub_init_context(&c, 7, "224.1.2.3", 0, "127.0.0.2", user_data_nil(), 0, 0, 0, 2, 0, 0));
    CHECK(!rmc_sub_activate_context(c));
    CHECK(n == 1 && seen.imr_interface.s_addr == inet_addr("127.0.0.2") && seen.imr_multiaddr.s_addr == inet_addr("224.1.2.3"));
    return 0;
}''')

seed("A03-garbage-callback", "A03", "a context placed in memory that was used before",
 "the subscription-complete callback is whatever the memory held",
 [("rmc_sub_context.c", "    ctx->subscription_complete_cb = 0;\n    ctx->packet_ready_cb = 0;", "    ctx->packet_ready_cb = 0;")],
 r'''
int main()
{
    int i; rmc_sub_context_t* c; void* p[40];
    for (i = 0; i < 40; ++i) { p[i] = malloc(sizeof(rmc_sub_context_t)); memset(p[i], 0x5A, sizeof(rmc_sub_context_t)); }
    for (i = 0; i < 40; ++i) free(p[i]);
    c = new_sub(2);
    CHECK(!c->subscription_complete_cb && !c->announce_cb && !c->packet_ready_cb);
    return 0;
}''')

seed("A04-last-slot", "A04", "a publisher shut down with a subscriber in its highest slot in use",
 "that subscriber's connection is neither closed nor reported",
 [("rmc_pub_context.c", "        for(ind = 0; ind <= max; ++ind) {", "        for(ind = 0; ind < max; ++ind) {")],
 r'''
static int n; static void gone(rmc_pub_context_t* c, uint32_t a, uint16_t p) { ++n; }
int main()
{
    rmc_pub_context_t* c = new_pub(4); int f0 = sub_up(c, 0), f2 = sub_up(c, 2); char b;
    rmc_pub_set_subscriber_disconnect_callback(c, gone);
    CHECK(!rmc_pub_deactivate_context(c));
    CHECK(n == 2 && rmc_pub_get_subscriber_count(c) == 0);
    CHECK(read(f0, &b, 1) == 0 && read(f2, &b, 1) == 0);
    return 0;
}''')

seed("T01-nothing-pending", "T01", "an announcement scheduled while no packet is outstanding",
 "a bogus deadline in the distant past hides the announcement",
 [("rmc_pub_timeout.c", "    if (ack_timeout_ts != -1)\n        ack_timeout_ts += ctx->resend_timeout;\n", "    ack_timeout_ts += ctx->resend_timeout;\n"),
  ("rmc_pub_timeout.c", "    if (announce_timeout_ts == -1 && ack_timeout_ts == -1) {\n        *result_ts = -1;\n        return 0;\n    }\n", "    if (announce_timeout_ts == -1 && ack_timeout_ts == ctx->resend_timeout - 1) {\n        *result_ts = -1;\n        return 0;\n    }\n")],
 r'''
int main()
{
    rmc_pub_context_t* c = new_pub(2); usec_timestamp_t t = 0;
    CHECK(!rmc_pub_timeout_get_next(c, &t) && t == -1);
    CHECK(!rmc_pub_set_announce_interval(c, 100000));
    CHECK(!rmc_pub_timeout_get_next(c, &t) && t == c->announce_next_send_ts);
    return 0;
}''')

seed("T02-last-subscriber", "T02", "several subscribers with packets outstanding",
 "only the last subscriber's outstanding acknowledgements are reported",
 [("rmc_pub_write.c", "                *ack_count += count;", "                *ack_count = count;")],
 r'''
int main()
{
    rmc_pub_context_t* c = new_pub(4); uint32_t q, s, a;
    sub_up(c, 0); sub_up(c, 2);
    sent(c, "a", 1, 1); sent(c, "b", 1, 2);
    rmc_pub_packet_ack(c, &c->conn_vec.connections[2], 1);
    CHECK(rmc_pub_context_get_pending(c, &q, &s, &a) == EBUSY);
    CHECK(a == 3 && q == 0 && s == 0);
    return 0;
}''')
SEEDS = S

"""Source of /verif/properties.jsonl (run this file to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

prop("C01", "Byte ring reservations grant only free, in-range, contiguous-in-stream space",
 "Whatever operations preceded it, reserving n bytes in a connection's byte ring is refused exactly when fewer than n bytes are free (the ring then being unchanged), and otherwise grants one or two segments that lie inside the backing store, total exactly n bytes, start right behind the last stored byte (wrapping to the start of the store), and never cover bytes that have not been consumed. A non-empty grant has a non-empty first segment, the fill level grows by exactly n, and reported free space plus fill level is always capacity minus one.",
 ["inputs", "histories"], "every ring size, every reachable read/write position (including positions at the end of the store and wrapped ones), every request length",
 "circular_buffer_test drives a few hand-picked sequences on tiny rings; it never lands a reservation exactly on the end of the store and cannot cover every position and length.",
 ["circular_buffer.c", "circular_buffer.h"],
 [("reservation", "circular_buffer.c:circ_buf_alloc"), ("fill level", "circular_buffer.c:circ_buf_in_use, circ_buf_available")],
 [("start_ind/stop_ind", "read and write positions, both always below size", "circular_buffer.h")])

prop("C02", "Byte ring reads return exactly the stored bytes, in order",
 "Reading up to n bytes at offset k of a connection's byte ring yields exactly min(n, fill level - k) bytes, byte i being the stored byte number k+i in arrival order irrespective of wrapping, and reports that count. A read whose offset exceeds the fill level is refused, a read never touches memory outside the store or changes what is stored, and the zero-copy segment view exposes exactly the same bytes in the same order.",
 ["inputs", "histories"], "every ring position, wrap state, offset and length",
 "The tests read short strings from a handful of positions; a read whose offset lies beyond the wrap point is never made.",
 ["circular_buffer.c"],
 [("copying reads", "circular_buffer.c:circ_buf_read_offset, circ_buf_read"), ("segment view", "circular_buffer.c:circ_buf_read_segment")])

prop("C03", "Byte ring discards exactly the bytes it is told to discard",
 "Releasing n bytes of a connection's byte ring drops exactly the min(n, fill level) oldest bytes and leaves the rest readable in order, and trimming to a target length keeps exactly the oldest min(target, fill level) bytes. Both leave the positions inside the store and report the true remaining fill level.",
 ["inputs", "histories"], "every ring position, wrap state, length and target",
 "Trimming while the stored bytes wrap around the end of the store is sampled at a few positions only.",
 ["circular_buffer.c"],
 [("release", "circular_buffer.c:circ_buf_free"), ("trim", "circular_buffer.c:circ_buf_trim")])

prop("L01", "Linked lists stay structurally sound under every operation",
 "After any push, pop, insert, unlink, delete or empty on any of the library's lists, the forward chain from the head and the backward chain from the tail are the same elements in mirror order, the stored element count is their number, every element names the list it is on, and no element is lost, duplicated or touched after it was released. An empty list has neither head nor tail.",
 ["histories", "inputs"], "every list content and every position of the element operated on (empty, only, first, middle, last)",
 "list_test checks sample sequences through one traversal direction; a broken back link, owner or count in one position survives it.",
 ["rmc_list.h", "rmc_list_template.h"],
 [("list template", "rmc_list_template.h:RMC_LIST_IMPL")])

prop("L02", "Lists place, find and visit elements in the documented order",
 "Head operations act on the first and tail operations on the last element; inserting relative to an element lands directly next to it; sorted insertion from either end keeps a list sorted by its comparison sorted and keeps equal elements deterministic; searches return the first element (in search direction) the comparison accepts and nothing when it stops the search; iteration visits every element once, in order, until told to stop.",
 ["inputs", "histories"], "every list content, position and comparison outcome",
 "Tests insert small fixed sets of integers; they cannot cover every relative position in both search directions.",
 ["rmc_list_template.h"],
 [("sorted insertion, search, iteration", "rmc_list_template.h:RMC_LIST_IMPL")])

prop("W01", "A TCP control command is consumed whole or not at all",
 "A command arriving on a control channel takes effect only once all of its bytes have arrived; until then nothing is consumed and nothing happens, however the bytes are split across reads. A complete command is consumed exactly (command byte, header and payload, no more and no less), commands are handled in stream order until fewer than one is left, and an unknown command byte is a protocol error that handles nothing.",
 ["inputs", "schedules"], "every byte stream and every way TCP may fragment it",
 "The protocol tests run over loopback where commands arrive whole; fragmentation at each byte boundary is not exercised.",
 ["rmc_protocol.c", "rmc_sub_read.c", "rmc_pub_read.c"],
 [("dispatch loop", "rmc_protocol.c:rmc_conn_process_tcp_read"), ("resend command", "rmc_sub_read.c:process_cmd_packet"), ("ack and control message commands", "rmc_pub_read.c:process_cmd_ack_interval, process_control_message")])

prop("W02", "A TCP control command is queued whole and byte-exact, or not at all",
 "Queueing a resent packet, an acknowledgement interval or a control message on a control channel either appends the complete command - the right command byte, the header fields of that very message and then its payload bytes in order, wherever the ring wraps - or reports failure and appends nothing. It never writes outside the granted ring space and is refused on a channel that is not connected.",
 ["inputs", "histories"], "every amount of pending data, every wrap position and every payload length",
 "Tests never fill the write ring or place a payload across its end, so split copies and the out-of-space path are not run.",
 ["rmc_pub_write.c", "rmc_sub_write.c"],
 [("resend", "rmc_pub_write.c:rmc_pub_resend_packet"), ("ack", "rmc_sub_write.c:rmc_sub_write_interval_acknowledgement"), ("control message", "rmc_sub_write.c:rmc_sub_write_control_message")])

prop("W03", "Control channel byte streams neither lose, duplicate nor invent bytes",
 "Bytes the socket delivers on a control channel are appended to the pending input exactly and in order, and bytes the socket accepts - and only those - are removed from the pending output, in order; the reported remainder is what is still pending. End of stream or a socket error on reading leaves pending data as it was and is reported as a disconnect, and a failed or empty write removes nothing.",
 ["schedules", "fault_sequences"], "every short read, short write and socket error at every fill level",
 "Loopback sockets in the tests accept and deliver everything at once; short transfers and errors are not injected.",
 ["rmc_protocol.c"],
 [("stream read", "rmc_protocol.c:rmc_conn_tcp_read"), ("stream write", "rmc_protocol.c:rmc_conn_process_tcp_write")])

prop("W04", "Malformed multicast datagrams are rejected without effect",
 "A non-empty multicast datagram shorter than its fixed header, or shorter than the header plus the payload length it announces, is reported as a protocol error and changes no subscription, queue or connection state. Nothing beyond the bytes actually received is ever interpreted or copied, and the payload handed on is exactly the announced number of bytes following the header.",
 ["inputs"], "every datagram any host on the network may send",
 "Tests only ever receive datagrams produced by the library itself.",
 ["rmc_sub_read.c"],
 [("datagram validation", "rmc_sub_read.c:process_multicast_read, multicast_read")])

prop("W05", "Packets on the wire carry the publisher's identity and the packet unchanged",
 "Every packet a publisher sends, by multicast or resent over a control channel, carries that packet's id, exact payload length and payload bytes together with the publisher's node id and control endpoint; multicast goes to the configured group and port. A packet that cannot fit the size limit is refused rather than sent truncated, and both ends agree on command codes and message layouts.",
 ["inputs", "configurations"], "every packet, payload length and context configuration",
 "Tests inspect only the received payload on one configuration.",
 ["rmc_pub_write.c", "rmc_protocol.h", "reliable_multicast.h"],
 [("header and datagram assembly", "rmc_pub_write.c:setup_packet_header, send_single_multicast_packet")])

prop("P01", "Published packets get unique, consecutive, ascending ids starting at one",
 "Each accepted packet gets an id exactly one higher than the previously accepted packet, starting at 1, and every accepted packet is queued once with the payload and length given. Announcements never consume an id and always carry id 0.",
 ["histories"], "every sequence of publish and announce calls",
 "Tests publish short runs without interleaved announcements and cannot cover every history.",
 ["pub.c", "rmc_pub_packet.c"],
 [("id assignment", "pub.c:pub_queue_packet, pub_queue_no_acknowledge_packet"), ("publish", "rmc_pub_packet.c:rmc_pub_queue_packet")])

prop("P02", "A packet is retained until every subscriber that must get it has acknowledged",
 "A multicast data packet is tracked for exactly the subscribers present when it was sent, and is kept until each of them has acknowledged it or disconnected; only then, and exactly once, is its payload released (with the callback and arguments configured) and the packet forgotten. Acknowledging an id that is not outstanding for that subscriber has no effect, and a packet no subscriber has to acknowledge - an announcement, or data sent while nobody is subscribed - is released once sent.",
 ["histories", "schedules"], "every interleaving of sends, acknowledgements, duplicates and disconnects, any number of subscribers",
 "pub_test acknowledges a few packets from three subscribers in fixed order.",
 ["pub.c", "rmc_pub_packet.c"],
 [("sent", "pub.c:pub_packet_sent"), ("acknowledged", "pub.c:pub_packet_ack"), ("subscriber removal", "pub.c:pub_reset_subscriber")],
 [("reference count", "number of subscribers still to acknowledge", "rmc_pub.h:pub_packet_t")])

prop("P03", "Unacknowledged packets are resent to the subscriber that lacks them",
 "On timeout processing (an announcement that is due may be dealt with first, in a call of its own), each subscriber's packets that have gone unacknowledged for the resend timeout or longer - and no others - are resent to that subscriber over its control channel, oldest id first, regardless of newer packets still within their timeout. A packet stops being outstanding through a resend only when its resend was queued in full (or the subscriber is no longer connected), and a subscriber that cannot take more data right now does not keep the others from getting theirs.",
 ["schedules", "histories", "fault_sequences"], "every pattern of loss, timing of sends relative to the timeout and fullness of control channels",
 "The tests never lose a packet while newer ones are in flight and never fill a control channel.",
 ["rmc_pub_timeout.c", "pub.c"],
 [("selection", "pub.c:pub_get_timed_out_subscribers, pub_get_timed_out_packets"), ("resend and internal ack", "rmc_pub_timeout.c:rmc_pub_timeout_process")])

prop("P04", "Queued packets are multicast in id order and only leave the queue when sent",
 "Multicast transmission always takes the waiting packet with the lowest id, an announcement before any data, and a packet moves from waiting to sent (stamped with its send time) only if the network accepted it. If the network is momentarily unavailable or fails, that packet and everything behind it stay queued unchanged and are tried again in the same order.",
 ["schedules", "fault_sequences"], "every queue content and every send outcome",
 "Socket send failures are not injected by the tests.",
 ["rmc_pub_write.c", "pub.c"],
 [("multicast write", "rmc_pub_write.c:process_multicast_write, send_single_multicast_packet"), ("queue order", "pub.c:pub_next_queued_packet, pub_packet_sent")])

prop("P05", "Traffic throttling suspends at the high mark and resumes at the low mark",
 "With throttling configured, once a packet is accepted while the number of unacknowledged packets is at or above the suspend threshold, further packets are refused as busy until that number is at or below the resume threshold, and then accepted again whatever made it drop - acknowledgement, resend or disconnect. Without a suspend threshold traffic does not become suspended, and a threshold pair whose suspend mark is below its resume mark is rejected and changes nothing.",
 ["histories", "schedules"], "every history of publishes, acknowledgements and disconnects",
 "The tests do not combine throttling with disconnects or resends.",
 ["rmc_pub_packet.c", "rmc_pub_context.c", "rmc_pub_read.c"],
 [("suspend/resume", "rmc_pub_packet.c:rmc_pub_queue_packet, rmc_pub_packet_ack"), ("configuration", "rmc_pub_context.c:rmc_pub_throttling")])

prop("P06", "Subscriber join and leave are processed completely and reported once",
 "An accepted control connection becomes a tracked subscriber before its connect callback runs, a refused one is closed and no longer tracked, and the callbacks get the peer's address and port in host order. Closing a subscriber reports the disconnect exactly once while its address is still known, closes the connection, drops it from the subscriber set and gives up everything outstanding for it; closing an unknown or already closed subscriber is an error with no effect.",
 ["histories", "fault_sequences"], "every connect/refuse/disconnect history",
 "Tests accept well-behaved peers only and ignore the reported address.",
 ["rmc_pub_read.c", "pub.c", "rmc_connection.c"],
 [("accept", "rmc_pub_read.c:rmc_pub_read, rmc_connection.c:rmc_conn_process_accept"), ("close", "rmc_pub_read.c:rmc_pub_close_connection")])

prop("P07", "Announcements go out on schedule and only as configured",
 "When announcements are enabled and due, timeout processing asks the announce callback (if any) for at most the maximum payload, queues exactly one announcement with exactly the bytes it supplied unless it declines or traffic is suspended, and schedules the next one a full interval later. The announcement's content stays valid until it has been sent; with announcements disabled none is queued and no announce deadline is pending.",
 ["schedules", "configurations", "histories"], "every interval setting, callback answer and delay between queueing and sending",
 "Tests use one fixed interval with immediate sends.",
 ["rmc_pub_timeout.c", "rmc_pub_context.c"],
 [("schedule", "rmc_pub_timeout.c:rmc_pub_timeout_process"), ("interval", "rmc_pub_context.c:rmc_pub_set_announce_interval")])

prop("P08", "Publishing is refused cleanly or takes effect completely",
 "Publishing with a missing payload or context, a payload above the maximum size, or while traffic is suspended reports the respective error and changes nothing. An accepted packet is queued and write readiness of the multicast channel is requested (on a publisher that is not active, once it is activated), so it is sent at the next opportunity.",
 ["inputs", "histories"], "every argument and every throttling state",
 "Error paths of publishing are not exercised by the tests.",
 ["rmc_pub_packet.c"],
 [("publish", "rmc_pub_packet.c:rmc_pub_queue_packet")])

prop("P09", "Acknowledgements release exactly the packets they name",
 "An acknowledgement interval received from a subscriber acknowledges, for that subscriber only, every outstanding packet whose id lies between its first and last id inclusive and no other, and processing it terminates whatever values it carries. A malformed or empty interval acknowledges nothing.",
 ["inputs"], "every pair of ids a peer may send",
 "Tests acknowledge only well-formed, small intervals.",
 ["rmc_pub_read.c", "rmc_pub_packet.c"],
 [("interval processing", "rmc_pub_read.c:process_cmd_ack_interval")])

prop("S01", "Packets are handed to the application in order and without gaps",
 "From the first packet received after a subscription is set up, packets of each publisher become ready for the application strictly by consecutive ascending ids: a packet is ready as soon as all its predecessors are, never earlier, and stays held otherwise. Each ready packet is delivered once with the payload, length and publisher it arrived with, and the ready queue is served first in, first out.",
 ["schedules", "histories"], "every arrival order, loss pattern and mix of multicast and resent packets",
 "sub_test feeds a few permutations of small id sets.",
 ["sub.c", "rmc_sub_packet.c", "rmc_sub_read.c"],
 [("reordering", "sub.c:sub_packet_received, sub_process_received_packets"), ("dispatch", "rmc_sub_packet.c:rmc_sub_get_next_dispatch_ready")])

prop("S02", "A packet received more than once is delivered at most once",
 "A packet whose id was already made ready, or is already held waiting for predecessors, is recognised as a duplicate on both the multicast and the control channel path and discarded without any other effect: no payload memory is taken, nothing is queued or acknowledged again. A packet that was not received before is never mistaken for a duplicate once a baseline is established.",
 ["schedules", "histories"], "every arrival order and duplication pattern over both channels",
 "Tests duplicate packets only at sampled positions and never across the two channels.",
 ["sub.c", "rmc_sub_read.c"],
 [("duplicate detection", "sub.c:sub_packet_is_duplicate"), ("use", "rmc_sub_read.c:decode_subscribed_multicast, process_cmd_packet")])

prop("S03", "Pending acknowledgement intervals cover exactly the received packet ids",
 "Recording a received id extends the set of ids covered by the pending acknowledgement intervals by exactly that id: intervals stay sorted, disjoint and merged when adjacent, and a merged interval keeps the earlier receive time. Ids received by multicast are recorded exactly once; ids resent over the control channel are not recorded for acknowledgement.",
 ["inputs", "histories"], "every set of pending intervals and every new id",
 "sub_interval_test covers selected insertion patterns.",
 ["sub.c", "rmc_sub_packet.c", "rmc_sub_read.c"],
 [("interval set", "sub.c:sub_packet_add_to_received_interval")])

prop("S04", "Every received packet is acknowledged in time, and only once queued",
 "A publisher with unacknowledged received packets is always scheduled for acknowledgement, in order of its oldest unacknowledged packet, exactly once; when the ack timeout has elapsed all its pending intervals are queued to that publisher over its own control channel and it is unscheduled. An interval ceases to be pending only once it was queued (or its connection is gone), a refusal to queue one is reported to the caller, and publishers not yet due are left alone.",
 ["schedules", "fault_sequences", "histories"], "every arrival timing, number of publishers and fullness of control channels",
 "Tests have one publisher and never a full control channel.",
 ["rmc_sub_timeout.c", "rmc_sub_packet.c"],
 [("schedule", "rmc_sub_packet.c:rmc_sub_packet_received"), ("sending", "rmc_sub_timeout.c:rmc_sub_timeout_process")])

prop("S05", "Subscriber payload memory is owned by exactly one party at every moment",
 "Payload memory is obtained per received packet with the configured allocator and exact length, and released exactly once with the matching release function: by the library when the packet is dispatched normally or discarded at close or shutdown, by the application when it keeps the payload. Neither payloads nor the library's own packet records leak, are released twice or are used after release, and a packet that is not in the ready queue cannot be marked dispatched.",
 ["histories", "fault_sequences"], "every history of receive, dispatch, close and shutdown",
 "The test programs exit without accounting for memory.",
 ["rmc_sub_packet.c", "rmc_sub_read.c", "rmc_sub_context.c", "sub.c"],
 [("dispatch", "rmc_sub_packet.c:rmc_sub_packet_dispatched, rmc_sub_packet_dispatched_keep_payload"), ("close", "rmc_sub_read.c:rmc_sub_close_connection, sub.c:sub_reset_publisher"), ("shutdown", "rmc_sub_context.c:rmc_sub_deactivate_context")])

prop("S06", "Subscriptions are set up once per publisher, only through announcements",
 "A subscriber connects to a publisher exactly when it receives an announcement from a publisher it neither is connected nor connecting to and the announce callback (if any) agrees; the connection goes to the announced control endpoint, or the datagram's source when no address is announced. Data from a publisher without an established subscription is ignored, announcements from established ones have no effect, and completion of the connection makes the subscription start empty and is reported once.",
 ["histories", "schedules"], "every order of announcements, data and connection progress",
 "Tests see a single announcement followed by a fast local connect.",
 ["rmc_sub_read.c", "rmc_sub_write.c", "rmc_connection.c"],
 [("announce handling", "rmc_sub_read.c:process_multicast_read, decode_unsubscribed_multicast"), ("completion", "rmc_sub_write.c:rmc_sub_write")])

prop("S07", "The application is told about every batch of newly ready packets",
 "Whenever processing input makes at least one packet newly ready, the packet-ready callback (if set) is invoked after the packets are queued, and it is not invoked when nothing became ready. Reading the multicast channel drains every pending datagram (up to a malformed one, which is reported) and reports an exhausted socket as success.",
 ["schedules", "inputs"], "every batch of input on either channel",
 "Tests count delivered packets, not callbacks per batch.",
 ["rmc_sub_read.c"],
 [("multicast and resend handling", "rmc_sub_read.c:decode_subscribed_multicast, process_cmd_packet, rmc_sub_read")])

prop("K01", "Descriptors are closed exactly once and poll registrations always match",
 "Every socket the library opens is closed exactly once - on disconnect, shutdown, or any failure during its set-up - and never used or closed after that. Every descriptor registered with the application's poll loop is removed once, before it is closed, with the descriptor and index it was registered under, and a descriptor that was never registered is never removed.",
 ["fault_sequences", "histories"], "every failure point of set-up and every order of close, disconnect and shutdown",
 "Socket failures are not injected and descriptor accounting is not checked by the tests.",
 ["rmc_connection.c", "rmc_pub_context.c", "rmc_sub_context.c"],
 [("connection set-up and close", "rmc_connection.c:rmc_conn_connect_tcp_by_address, rmc_conn_process_accept, rmc_conn_close_connection, rmc_conn_complete_connection"), ("context activation", "rmc_pub_context.c, rmc_sub_context.c: *_activate_context, *_deactivate_context")])

prop("K02", "Connection slots are tracked exactly",
 "A slot is handed out only while free and only below the configured maximum, and a full table refuses further connections; the active connection count is the number of open slots and the highest index in use covers every open slot. Looking a connection up by index, endpoint or node id returns it exactly while it is open.",
 ["histories", "fault_sequences"], "every history of connects, failures and closes",
 "Tests connect one or two peers and never reuse or exhaust slots.",
 ["rmc_connection.c"],
 [("slot allocation", "rmc_connection.c:_get_free_slot, _reset_max_connection_ind"), ("lookup", "rmc_connection.c:rmc_conn_find_by_index, rmc_conn_find_by_address, rmc_conn_find_by_node_id")])

prop("K03", "Connections move only through closed, connecting, connected",
 "An outbound connection is connecting until the socket reports success and connected from then on; an accepted one is connected at once; a failed or closed one is closed, with empty buffers, and the slot's next user starts with its own identity. Control traffic is sent and handled only on connected connections, and a connection attempt that fails in any way leaves the slot closed.",
 ["histories", "fault_sequences"], "every event order and failure on a connection",
 "Failure transitions are not exercised by the tests.",
 ["rmc_connection.c", "rmc_sub_write.c", "rmc_sub_read.c", "rmc_pub_read.c"],
 [("state machine", "rmc_connection.c:rmc_conn_complete_connection, rmc_conn_close_connection")])

prop("K04", "Write readiness is requested while, and only while, output is pending",
 "After any operation that queues bytes on a control channel the application has been asked for write readiness, after a write the request is kept exactly if bytes are still pending, and handling input never drops a request that is still needed. Every poll update of a control channel carries the descriptor, index, previous and new interest of that very channel, and read interest of an established channel, the listening socket or the subscriber's multicast channel is never withdrawn. The publisher's multicast channel asks for write readiness while packets wait for it, across handling its input and being activated, and a channel that was read or written successfully and stays open is re-armed with a poll update, as one-shot polling needs.",
 ["schedules", "histories"], "every interleaving of reads, writes and queued output",
 "With one-shot polling a lost request only shows as a stall under particular timing.",
 ["rmc_pub_write.c", "rmc_sub_write.c", "rmc_pub_read.c", "rmc_sub_read.c"],
 [("poll interest", "rmc_pub_write.c, rmc_sub_write.c, rmc_pub_read.c, rmc_sub_read.c: poll_modify calls")])

prop("A01", "Invalid handles are rejected by every public call",
 "Every public call given no context (or a missing mandatory argument) reports an error or a neutral value, or stops on an assertion, without reading or writing through it. A connection index that is out of range or not open is likewise rejected before anything is read, written or freed through it.",
 ["inputs"], "every public entry point, every argument combination",
 "Tests pass valid handles only.",
 ["rmc_pub_context.c", "rmc_sub_context.c", "rmc_pub_read.c", "rmc_pub_write.c", "rmc_sub_read.c", "rmc_sub_write.c", "rmc_connection.c", "rmc_sub_packet.c"],
 [("argument checks", "all exported rmc_pub_* and rmc_sub_* functions")])

prop("A02", "Addresses and ports keep the documented byte order everywhere",
 "Addresses and ports kept in contexts and connections, passed to callbacks or compared with each other are in host order, those handed to or obtained from the socket layer are in network order, and each crossing converts exactly once. Addresses given as text are converted the same way.",
 ["inputs", "configurations"], "every address, port and code path that carries one",
 "A missing or doubled conversion is invisible for symmetric test addresses or for values nobody compares.",
 ["rmc_connection.c", "rmc_pub_context.c", "rmc_sub_context.c", "rmc_sub_read.c", "rmc_pub_write.c"],
 [("conversions", "htonl/htons/ntohl/ntohs at socket calls")])

prop("A03", "A new context starts fully defined and configuration lands where it should",
 "After successful initialisation every part of a context and of its connection table has a defined value reflecting the arguments and documented defaults, with no callback set that was not supplied and all descriptors closed. Each configuration call changes exactly the setting it is named for, each query returns exactly that setting, and an initialisation that fails leaves nothing allocated.",
 ["configurations", "inputs"], "every argument combination and every later use of any setting",
 "Uninitialised memory from a fresh heap is often zero, so tests pass by luck.",
 ["rmc_pub_context.c", "rmc_sub_context.c", "rmc_connection.c", "pub.c", "sub.c"],
 [("initialisation", "rmc_pub_init_context, rmc_sub_init_context, rmc_conn_init_connection_vector"), ("setters and getters", "rmc_pub_context.c, rmc_sub_context.c")])

prop("A04", "Shutting down a context releases everything it holds",
 "Deactivating a context closes every connection and its own sockets, and leaves it ready to be activated again; doing so twice is harmless. Deleting a context additionally releases the context, its connection table, its per-peer table and every packet and payload still held, each exactly once.",
 ["histories"], "every state in which a context may be shut down",
 "Test programs exit right after deletion and account for nothing.",
 ["rmc_pub_context.c", "rmc_sub_context.c"],
 [("shutdown", "rmc_pub_context.c:rmc_pub_deactivate_context, rmc_pub_delete_context; rmc_sub_context.c:rmc_sub_deactivate_context, rmc_sub_delete_context")])

prop("A05", "Reads and writes report which operation took place",
 "A read or write call that succeeds reports, when asked, what took place: a connection accepted, completed or lost, control data read or written, a multicast packet sent or received, a loopback message discarded, or a multicast packet from a publisher whose subscription is not established. A call refused because its channel is not open or has nothing to write, a control channel write that fails, and a control channel read that ends in a protocol error report the error code, and the end of pending multicast input leaves the last packet's report standing.",
 ["inputs", "histories"], "every channel state and every outcome of the socket calls",
 "The test programs only log the reported code.",
 ["rmc_pub_read.c", "rmc_pub_write.c", "rmc_sub_read.c", "rmc_sub_write.c", "rmc_protocol.c", "reliable_multicast.h"],
 [("codes", "reliable_multicast.h:RMC_ERROR .. RMC_WRITE_TCP"), ("reported by", "rmc_pub_read.c:rmc_pub_read; rmc_sub_read.c:rmc_sub_read, process_multicast_read; rmc_pub_write.c:rmc_pub_write; rmc_sub_write.c:rmc_sub_write; rmc_protocol.c:rmc_conn_tcp_read")])

prop("A06", "Valid requests are carried out, not refused",
 "An operation whose arguments are valid, whose channel is in the state it needs and has room, and whose system calls all succeed, reports success: initialising, activating, deactivating and deleting a context, establishing, accepting and closing connections, reading and writing channels, queueing control messages, acknowledgements and resends, and processing timeouts. Asking for a channel that a context does not have open is refused without touching any descriptor.",
 ["inputs", "configurations", "histories"], "every valid argument combination, table shape and fill level of the pending output",
 "Tests make each request under one configuration with empty buffers and seldom look at what is returned.",
 ["rmc_pub_context.c", "rmc_sub_context.c", "rmc_pub_read.c", "rmc_sub_read.c", "rmc_pub_write.c", "rmc_sub_write.c", "rmc_connection.c", "rmc_pub_timeout.c"],
 [("status of the public calls", "reliable_multicast.h"), ("argument and room checks", "rmc_sub_write.c, rmc_pub_write.c, rmc_connection.c, rmc_pub_context.c, rmc_sub_context.c")])

prop("T01", "The reported next timeout is the earliest pending deadline",
 "The publisher's next timeout is the earlier of the next announcement and the oldest unacknowledged packet's send time plus the resend timeout over all subscribers; the subscriber's is its oldest unacknowledged packet's receive time plus the ack timeout. With nothing pending both report the documented no-timeout value.",
 ["histories", "schedules"], "every combination of pending announcements, packets and subscribers",
 "Tests query it in a few states and never compare it with the true minimum.",
 ["rmc_pub_timeout.c", "rmc_sub_timeout.c", "pub.c", "sub.c"],
 [("deadline", "rmc_pub_timeout.c:rmc_pub_timeout_get_next, rmc_sub_timeout.c:rmc_sub_timeout_get_next, pub.c:pub_get_oldest_unackowledged_packet")])

prop("T02", "Pending-work queries report exactly what is pending",
 "The publisher's pending report gives the number of packets waiting to be multicast, the total bytes waiting in control channels and the total outstanding acknowledgements over all open subscribers, and says busy exactly if any of them is non-zero; the per-connection and queue-length queries agree with it. Callers may omit any part of the report.",
 ["histories"], "every state of queue, channels and acknowledgements",
 "Tests only poll it for zero at the end of a run.",
 ["rmc_pub_write.c", "rmc_pub_read.c", "rmc_pub_packet.c"],
 [("pending report", "rmc_pub_write.c:rmc_pub_context_get_pending, rmc_pub_read.c:rmc_pub_context_has_pending_send, rmc_pub_packet.c:rmc_pub_queue_length")])

prop("T03", "Time stamps come from a clock that never runs backwards, in microseconds",
 "Every time the library compares or records - when a packet was sent or received, when the next announcement or acknowledgement is due - is the reading of a clock that cannot be set back, expressed in microseconds, exact to the microsecond over the clock's whole range.",
 ["inputs", "schedules"], "every clock reading, including the seconds boundary, and an administrator or time daemon setting the wall clock",
 "Tests run for seconds on a machine whose clock nobody sets; a wrong unit or clock shifts timeouts without failing any test.",
 ["time.c", "rmc_common.h"],
 [("clock", "time.c:rmc_usec_monotonic_timestamp")])

prop("G01", "Diagnostics observe and never disturb",
 "The logging level decides only which messages are written: at every level the library changes the same state, makes the same system calls and callbacks and returns the same results, errno included. A message is written exactly when its level is at or below the one set, once, to the file that was set; its format matches the values it is given, its text fits the buffers it passes through, and evaluating its values never touches memory the library does not own. Legal levels (0 to 6) are accepted and set, others are refused and change nothing.",
 ["configurations", "inputs", "fault_sequences"], "every logging level, every message on every path, every connection index, terminal or not",
 "Tests run with logging off, so that no argument of any message is ever evaluated.",
 ["rmc_log.c", "rmc_log.h", "rmc_sub_read.c", "rmc_pub_read.c", "rmc_pub_write.c", "rmc_sub_write.c", "rmc_protocol.c", "rmc_connection.c", "rmc_pub_timeout.c", "rmc_sub_timeout.c", "rmc_pub_context.c", "rmc_sub_context.c", "rmc_pub_packet.c", "rmc_sub_packet.c"],
 [("messages", "rmc_log.h:RMC_LOG_*, RMC_LOG_INDEX_*"), ("writing", "rmc_log.c:rmc_log"), ("level", "rmc_log.c:rmc_set_log_level")])

prop("A07", "A failed system call is reported with its cause",
 "When opening, configuring, binding or listening on a socket, accepting or completing a connection, receiving, multicasting or writing to a control channel fails, the public call that attempted it returns that failure's error number - whatever clean-up, callbacks or messages come in between - except that an empty receive queue or a full send buffer may count as success. An address that cannot be parsed is refused. A call in which nothing of the kind failed never returns an error number left over from something else: losing a control connection and clean-up that fails are not errors.",
 ["fault_sequences", "configurations"], "every system call of every public call failing, with every error number, and with callbacks that change errno",
 "Tests never make a system call fail.",
 ["rmc_pub_context.c", "rmc_sub_context.c", "rmc_connection.c", "rmc_protocol.c", "rmc_pub_read.c", "rmc_pub_write.c", "rmc_sub_read.c", "rmc_sub_write.c"],
 [("set-up", "rmc_pub_context.c:rmc_pub_activate_context, rmc_sub_context.c:rmc_sub_activate_context"), ("connections", "rmc_connection.c:rmc_conn_process_accept, rmc_conn_complete_connection"), ("data", "rmc_pub_write.c:rmc_pub_write, rmc_sub_read.c:rmc_sub_read, rmc_protocol.c:rmc_conn_tcp_write")])

prop("A08", "Callbacks may use the context they are given",
 "An application may use the library from inside its callbacks: publish from the connect, disconnect, control-message, announce or payload-release callback, dispatch ready packets and send control messages from the packet-ready callback, send control messages from the subscription-complete callback. Each such call has the effect it would have outside - a packet published is accepted unless traffic is suspended, gets the next id and is delivered once; a message accepted stays queued and write readiness is asked for; a packet dispatched is released once and is ready no longer - and the operation that invoked the callback still completes as specified: it touches nothing the callback released, and undoes, loses or repeats nothing the callback did.",
 ["histories", "inputs", "fault_sequences"], "every operation that invokes a callback, in every reachable context, with every number of calls the callback makes",
 "The tests' callbacks dispatch or count; none sends or publishes, and a stale local that survives a callback shows only when one does.",
 ["rmc_sub_read.c", "rmc_sub_write.c", "rmc_pub_read.c", "rmc_pub_write.c", "rmc_pub_packet.c", "rmc_pub_timeout.c", "pub.c", "rmc_connection.c"],
 [("callbacks", "rmc_sub_read.c:decode_subscribed_multicast, process_cmd_packet; rmc_sub_write.c:rmc_sub_write; rmc_pub_read.c:rmc_pub_close_connection, process_control_message; pub.c:pub_packet_ack, pub_packet_release; rmc_pub_timeout.c")])

prop("M01", "Memory is only accessed inside live objects",
 "Every access the library makes to a context, a connection, a table, a message, a packet record or a payload it obtained stays inside that object while the object exists: no read or write reaches past its end, before its start, into memory already released or through a null pointer, and no system call is told that a buffer has more room than it has. This holds for every input the library can receive and every configuration it accepts.",
 ["inputs", "histories", "fault_sequences"], "every message, length, index and state, including those no peer of the same version sends",
 "A stray access rarely fails on the run that makes it; tests run without instrumentation and with well-formed peers.",
 ["rmc_sub_read.c", "rmc_pub_read.c", "rmc_pub_write.c", "rmc_sub_write.c", "rmc_protocol.c", "rmc_connection.c", "rmc_pub_context.c", "rmc_sub_context.c", "pub.c", "sub.c", "circular_buffer.c", "rmc_list_template.h"],
 [("buffers and tables", "rmc_internal.h, rmc_protocol.h"), ("received lengths", "rmc_sub_read.c:process_multicast_read, process_cmd_packet; rmc_protocol.c:rmc_conn_process_tcp_read"), ("tables", "rmc_connection.c")])

prop("M02", "Callbacks are invoked only when set, with the context they belong to",
 "Each callback an application may leave out is invoked only if it was supplied, and the connect, disconnect, subscription, control-message, packet and allocation callbacks are given the context they were registered with.",
 ["configurations", "inputs", "histories"], "every combination of supplied and omitted callbacks in every situation that reports something",
 "The test programs supply the callbacks their scenario needs and no test runs every scenario without them.",
 ["rmc_sub_read.c", "rmc_pub_read.c", "rmc_pub_write.c", "rmc_sub_write.c", "rmc_connection.c", "rmc_protocol.c", "rmc_pub_context.c", "rmc_sub_context.c", "rmc_sub_packet.c", "reliable_multicast.h"],
 [("callback members", "rmc_internal.h, reliable_multicast.h"), ("invocations", "rmc_sub_read.c, rmc_pub_read.c, rmc_connection.c, rmc_pub_context.c")])

prop("M03", "Nothing the library does depends on memory that was never written",
 "No decision, system call argument, callback argument, transmitted byte or returned result depends on a local variable, a fresh allocation or a part of a received message that was never given a value.",
 ["inputs", "histories", "fault_sequences"], "every path, including those where a call fails before filling its results",
 "Unwritten memory usually holds a plausible value, so a test that reaches the path still passes.",
 ["rmc_sub_read.c", "rmc_pub_read.c", "rmc_pub_write.c", "rmc_sub_write.c", "rmc_protocol.c", "rmc_connection.c", "rmc_pub_context.c", "rmc_sub_context.c", "rmc_pub_timeout.c", "rmc_sub_timeout.c", "pub.c", "sub.c"],
 [("results filled by failing calls", "rmc_protocol.c:rmc_conn_tcp_read, rmc_sub_read.c:rmc_sub_read, rmc_connection.c"), ("fresh records", "pub.c, sub.c, rmc_pub_context.c, rmc_sub_context.c")])

prop("M04", "Identifiers, lengths, times and indices keep their full value",
 "Packet identifiers, timestamps, payload lengths, connection indices, descriptors and queue counts are never cut to fewer bits than they need or reinterpreted with a different sign on their way between the places that hold, compare, transmit or return them.",
 ["inputs", "histories"], "the whole range of every quantity, long past what a test run produces",
 "Narrowing shows only with identifiers past 2^31, times past an hour, payloads past 32 KB or hundreds of connections.",
 ["rmc_sub_read.c", "rmc_pub_read.c", "rmc_pub_write.c", "rmc_sub_write.c", "rmc_protocol.c", "rmc_connection.c", "rmc_pub_timeout.c", "rmc_sub_timeout.c", "pub.c", "sub.c", "circular_buffer.c"],
 [("quantities", "rmc_common.h:packet_id_t, payload_len_t, usec_timestamp_t, rmc_index_t"), ("conversions", "pub.c, sub.c, rmc_protocol.h, rmc_connection.c")])

# ---- not applicable
prop("N01", "Every published packet eventually reaches every connected subscriber",
 "As long as a subscriber stays connected and the network eventually delivers, each packet published while it is subscribed is eventually delivered to its application, and acknowledged to the publisher.",
 ["schedules", "fault_sequences"], "all fair executions of publisher, subscriber, network and poll loops",
 "A liveness claim over unbounded executions of several processes.",
 ["rmc_pub_timeout.c", "rmc_sub_read.c"], [("multicast, ack, resend cycle", "whole library")])

prop("N02", "Publisher and subscriber histories are linearizable end to end",
 "For every execution, what all subscribers' applications observe is explained by a single publication order, each subscriber seeing a gap-free run of it starting at its first packet.",
 ["histories", "schedules"], "all joint executions of a publisher and its subscribers over a lossy network",
 "Tests run one schedule on loopback.",
 ["rmc_pub_write.c", "rmc_sub_read.c"], [("protocol", "PROTOCOL.md")])

prop("N03", "Retransmission and ack delays meet their configured bounds in real time",
 "A lost packet is resent within the resend timeout and an ack leaves within the ack timeout, plus the application's poll latency.",
 ["schedules"], "all timings",
 "Real-time behaviour depends on the application's event loop and the network.",
 ["rmc_pub_timeout.c", "rmc_sub_timeout.c"], [("timeouts", "rmc_pub_timeout_process, rmc_sub_timeout_process")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")

"""writes the "fixed" list of known_findings.json: property, commit, what failed"""
import json, subprocess
F = """729f595 C01 a reservation that ended exactly on the end of the store left the write position outside the store
1d95d9f C03 trimming while the stored bytes wrap kept the wrong end, so later reads returned other bytes
29aa7f8 C02 a read whose offset lies beyond the wrap point returned bytes from before the start of the data
ddfa3ef W02 a control message whose ring space wraps was sent with the wrong second part
527217c A03 the control message callback of a new publisher context was whatever the memory held
bdf45ca A02 accepted connections kept, compared and reported the peer address in network order
558f119 K01 a failing setsockopt() after accept() left descriptor and slot behind
fdf928f S06 an announcement from a publisher being connected to started a second connection
20f8137 P03 a newer packet still within its timeout kept older, timed-out packets from being resent
91bcba5 K01 a failing bind() left the multicast socket open
18a355b K01 a failed connection was removed from the poll loop twice
a41df78 A01 pending queries read through a missing context
b0430d0 A01 rmc_pub_set_multicast_ttl() wrote through a missing context
5c86219 A01 rmc_sub_packet_received() used a missing context and an index out of range
53e6765 K03 a connect() that succeeded at once was judged by a stale errno
12471ce W03 a read that delivered nothing left its reservation in the pending input
996d827 K04 handling input dropped the request for write readiness while output was pending
535c9f3 P05 traffic stayed suspended after a disconnect freed the packets
b36167a S05 packets ready for dispatch were leaked at shutdown
4058bb0 K01 rmc_sub_deactivate_context() closed before removing from the poll loop, and closed what was not open
5ffdf9b K01 rmc_pub_deactivate_context() removed and closed descriptors that were not open
c9ed1f5 A01 rmc_sub_close_connection() used a missing context and an index that is not open
fb394db A03 publisher entries of a new subscriber context were undefined
84d1ce1 S04 a closed publisher stayed on the acknowledgement list
19e6414 S05 payload_free() got something else than the context's user data on close
708d509 P02 packets nobody has to acknowledge were kept forever
a5225f6 P07 an announcement pointed to stack memory of the timeout function by the time it was sent
7048cce S05 the record of a dispatched packet was leaked
4bad819 A04 deleting a publisher leaked queued packets and the subscriber table
ff75c75 A04 deleting a subscriber leaked the publisher table
213c1d0 S04 a publisher was entered into the acknowledgement list before the packet that decides its place
8f99c15 T01 only the first pending interval was considered for the oldest unacknowledged packet
317555d P03 one subscriber with a full control channel kept the others from getting their packets
b829ef6 P09 an acknowledgement interval with an unused last id ran the publisher through up to 2^64 ids
3580238 S04 an acknowledgement that could not be queued was forgotten
251fc35 A03 a failing rmc_pub_init_context() left allocations behind
34b6317 A03 a failing rmc_sub_init_context() left allocations behind
6ac367c K01 activating an active publisher context again lost both of its descriptors
3b492b7 K04 handling input on the publisher's multicast channel dropped the request for write readiness while packets waited
ab90928 P08 packets published while the publisher was not active were not sent once it was, and updated a poll registration of descriptor -1
ebb5dbb A05 a discarded multicast loopback message left the operation code as it was
76555cc G01 writing a log message changed errno, so that calls failing with logging turned on returned another error"""
p = "/verif/known_findings.json"; j = json.load(open(p))
j["fixed"] = ["fixed: property=%s %s %s" % tuple([l.split(" ", 2)[1], l.split(" ", 2)[0], l.split(" ", 2)[2]]) for l in F.splitlines()]
h = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "ffba7f1..HEAD"], capture_output=True, text=True).stdout.split()
print(set(h) ^ {l.split()[0] for l in F.splitlines()})
json.dump(j, open(p, "w"), indent=1); open(p, "a").write("\n")

"""A05: the operation code a read or write call reports."""
from rules.shapes import *
from rules.conns import Host, op_res, FAR
from rules.subio import SC
from rules.pubq import PC, ends
from rules.chan import op_code
from rules.dgram import Dgram
from rules.cmds import tables

class Plain:
    def __init__(s, ip): s.ip = ip

def A05(chk):
    R = "A05"; M = chk.M; total = 0
    chk.need("rmc_pub_read", "rmc_pub_write", "rmc_sub_read", "rmc_sub_write")
    chk.assume += [ASSUME_CB, ASSUME_SHAPE + " (one connection)", ASSUME_RING, "the code a failing multicast read or write, or a failed connection attempt, leaves behind is not specified"]
    def oc(n): return op_code(M, n)
    ERR = oc("RMC_ERROR")
    def parsed():
        """the command loop: done, more bytes needed, or a protocol error it reports itself"""
        def eff(ip, st, name, args, r):
            if r is not None and r.e.c not in (0, 11) and len(args) > 2: ip.store(st, args[2].e, VC(8, ERR), 1)
        return opq([0, 11, 71], effect=eff)
    def code(H, s, p, fn, want, what, key, line=None):
        for q, c in evals(s, lambda z: z.norm(H.ip.view(z, H.ip.load(z, p.e, 1, mem=z.mem, peek=True), "u"))):
            if c.t and not (SYMS[c.t[0][0]].name or "").startswith("before"):
                chk.unsure(R, fn, "operation code", "not a definite code", line); continue
            chk.fact(R + "." + key, q, not c.t and c.c in want, fn=fn, line=line, what=what, key=key + "-" + fn)
    def go(H, fn, ind):
        p = op_res(); put(H.ip, H.st, p.e, V(8, S(new_sym("before_code", 0, 255)), "u"), 1)
        base = len(H.st.events())
        for s, x in ends(chk, R, fn, chk.run(H.ip, fn, [V(64, H.ctx), VC(16, ind), p], H.st.fork())):
            ev = s.events()[base:]
            for q, r in evals(s, lambda z: H.ip.view(z, x, "s")): yield q, p, r, ev
    def sysd(ev, *names): return [e for e in ev if e.kind == "sys" and e.name in names]
    for role in ("pub", "sub"):
        rd, wr = "rmc_%s_read" % role, "rmc_%s_write" % role
        for m in (CLOSED, CONNECTED) if role == "pub" else (CLOSED, CONNECTING, CONNECTED):
            for pend in (False, True) if m == CONNECTED else (False,):
                def host(): return Host(chk, role, [m, CLOSED], pend=[pend, False], opaque={"rmc_conn_process_tcp_read": parsed()})
                for ind in (0, 7):
                    H = host(); open_ = ind == 0 and m == CONNECTED
                    for q, p, r, ev in go(H, rd, ind):
                        total += 1
                        io = sysd(ev, "readv", "read", "recv", "recvmsg")
                        if not io:
                            for q1, z in splits(q, EQ(r, 0)):
                                if not z: code(H, q1, p, rd, [ERR], "a refused read does not report the error code", "refused")
                            continue
                        e = io[-1]; got = H.ip.view(q, e.ret, "s")
                        for q1, some in splits(q, GE(got, 1)):
                            if not some: code(H, q1, p, rd, [oc("RMC_READ_DISCONNECT")], "a lost connection is not reported as a disconnect", "disconnect", e.line); continue
                            for q2, ok in [(a, b or c) for a0, b in splits(q1, EQ(r, 0)) for a, c in splits(a0, EQ(r, 11))]:
                                if ok: code(H, q2, p, rd, [oc("RMC_READ_TCP")], "control data that was read is not reported as such", "read", e.line)
                    H = host()
                    for q, p, r, ev in go(H, wr, ind):
                        total += 1
                        for q1, z in splits(q, EQ(r, 0)):
                            if open_ and z: code(H, q1, p, wr, [oc("RMC_WRITE_TCP")], "control data that was written is not reported as such", "written")
                            elif z and ind == 0 and m == CONNECTING: code(H, q1, p, wr, [oc("RMC_COMPLETE_CONNECTION")], "a completed connection is not reported as such", "complete")
                            elif not z and (m != CONNECTING or ind): code(H, q1, p, wr, [ERR], "a refused or failed write does not report the error code", "refused")
    # with the real command loop, over handlers that end in every way
    tabs = tables(chk); proto = 0
    for role in ("pub", "sub"):
        rd = "rmc_%s_read" % role; H = Host(chk, role, [CONNECTED, CLOSED], pend=[False, False], opaque={n: opq([0, 11, 71]) for c, n in tabs[role] or []})
        H.ip.unroll = {n for n, F in M.funcs.items() if not any("rmc_conn_command_dispatch" in str(d) for d in F.di)}      # the command loop is summarised
        for q, p, r, ev in go(H, rd, 0):
            io = sysd(ev, "readv", "read", "recv", "recvmsg")
            if not io: continue
            for q1, some in splits(q, GE(H.ip.view(q, io[-1].ret, "s"), 1)):
                if not some: continue
                for q2, z in [(a, b or c) for a0, b in splits(q1, EQ(r, 0)) for a, c in splits(a0, EQ(r, 11))]:
                    total += 1; proto += not z
                    if z: code(H, q2, p, rd, [oc("RMC_READ_TCP")], "control data that was read is not reported as such", "read", io[-1].line)
                    else: code(H, q2, p, rd, [ERR], "a protocol error is not reported as an error", "protocol", io[-1].line)
    chk.fact(R + ".present.protocol", State(), proto > 3, fn="rmc_pub_read", what="no protocol error could be followed", key="present-protocol")
    for n in (0, 1):
        H = Host(chk, "pub", [CONNECTED, CLOSED], queued=n, held=[frozenset([0])])
        for q, p, r, ev in go(H, "rmc_pub_read", MCAST):
            for q1, z in splits(q, EQ(r, 0)):
                total += 1
                if z: code(H, q1, p, "rmc_pub_read", [oc("RMC_READ_MULTICAST_LOOPBACK")], "a discarded loopback message is not reported as such", "loopback")
                else: code(H, q1, p, "rmc_pub_read", [ERR], "a failed read does not report the error code", "refused")
        H = Host(chk, "pub", [CONNECTED, CLOSED], queued=n)
        for q, p, r, ev in go(H, "rmc_pub_write", MCAST):
            for q1, z in splits(q, EQ(r, 0)):
                total += 1
                if z and sysd(ev, "sendmsg", "sendto"): code(H, q1, p, "rmc_pub_write", [oc("RMC_WRITE_MULTICAST")], "a multicast packet that was sent is not reported as such", "multicast")
    for act in (True, False):
        H = Host(chk, "pub", [CLOSED, CLOSED], active=act)
        for ind in (MCAST, LISTEN):
            for q, p, r, ev in go(H, "rmc_pub_read", ind):
                if ind == MCAST and act: continue
                for q1, z in splits(q, EQ(r, 0)):
                    total += 1
                    if not z: code(H, q1, p, "rmc_pub_read", [ERR], "a failed read does not report the error code", "refused")
                    elif act: code(H, q1, p, "rmc_pub_read", [oc("RMC_READ_ACCEPT")], "an accepted connection is not reported as such", "accept")
    # the multicast channel of a subscriber: each datagram reports itself, and the end of input leaves that standing
    fn = "rmc_sub_read"; D = Dgram(chk); seen = 0; H0 = Plain(D.ip)
    quiet = [oc("RMC_READ_MULTICAST_NOT_READY"), oc("RMC_READ_MULTICAST_NEW"), oc("RMC_READ_MULTICAST_LOOPBACK")]
    for k, s, x in D.outs:
        if k not in ("ret", "back"): continue
        ev = s.events(); rc = [i for i, e in enumerate(ev) if e.kind == "sys" and e.name == "recvfrom"]
        if not rc: continue
        e = ev[rc[-1]]; late = [q for q in ev[rc[-1] + 1:] if q.kind == "store" and s.norm(q.args[0].e) == D.opr]
        if not e.x["ok"]:
            chk.fact(R + ".standing", s, not late, fn=fn, line=late[0].line if late else None, what="the end of input replaces the code of the last datagram", key="standing"); continue
        got = D.got(s, e); done = [q for q in ev[rc[-1]:] if q.kind == "opq" and q.name in ("rmc_sub_packet_received", "sub_packet_received", "sub_packet_is_duplicate")]
        for s1, whole in splits(s, GE(got, D.H)):
            if not whole: continue
            for s2, ok in splits(s1, GE(got, D.H + D.field(s1, e, "payload_len"))):
                if not ok: continue
                if k == "ret" and any(z and not q.norm(D.ip.view(q, x, "s")) == C(0) for q, z in splits(s2, NE(D.ip.view(s2, x, "s"), 0))): continue
                seen += 1
                if done: code(H0, s2, V(64, D.opr), fn, [oc("RMC_READ_MULTICAST")], "a received multicast packet is not reported as such", "multicast", e.line)
                elif any(q.kind == "opq" and q.name == "rmc_conn_connect_tcp_by_address" for q in ev[rc[-1]:]) or not any(q.kind == "opq" and q.name == "rmc_conn_find_by_address" and q.ret.e.t for q in ev[rc[-1]:]):
                    code(H0, s2, V(64, D.opr), fn, quiet, "a multicast packet from a publisher without an established subscription is not reported as such", "not-ready", e.line)
    chk.fact(R + ".present.multicast", State(), seen > 3, fn=fn, what="no datagram's code could be followed", key="present-multicast")
    chk.fact(R + ".present", State(), total > 30, fn="rmc_sub_read", what="no reported code could be followed", key="present")

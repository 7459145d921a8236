"""A06: a request that is valid and that nothing in the environment prevents reports success."""
from rules.conns import *
from rules.order import inits

SPARE = 64                      # room a writer may keep for itself
def A06(chk):
    R = "A06"; M = chk.M; met = {}
    CAP = models.CAP
    chk.need("rmc_sub_write_control_message", "rmc_sub_write_interval_acknowledgement", "rmc_pub_resend_packet", "rmc_pub_read", "rmc_sub_read", "rmc_pub_write", "rmc_sub_write")
    chk.assume += [ASSUME_CB, ASSUME_SHAPE + " (2 connection slots, 3 in thorough)", ASSUME_RING, "a command fits when the pending output has room for it and %d bytes more" % SPARE]
    def good(s, t, fn, what):
        for q, r in evals(s, lambda z: t.H.ip.view(z, t.x, "s")):
            met[fn] = met.get(fn, 0) + 1
            chk.ob(R + ".met", q, EQ(r, 0), fn=fn, what="%s although %s" % ("%s reports an error" % fn, what), key="met-" + fn)
    def under(s, cs):
        """the part of the paths where all of the conditions hold"""
        cur = [s]
        for c in cs: cur = [b for a in cur for b, yes in splits(a, c) if yes]
        return cur
    def room(t, i, n): return LE(t.H.use(t.s0, i) + n, CAP - SPARE)
    def env(t): return all(e.x["ok"] for e in t.new() if e.kind == "sys")
    TCP = ("readv", "read", "recv", "recvmsg")
    for t in traces(chk, R):
        H = t.H; s = t.st; fn = t.fn; i = t.slot; ev = t.new()
        if t.x is None or t.x.e is None: continue
        conn = isinstance(i, int) and i < H.n(); mode = H.modes[i] if conn else None
        sysn = [e.name for e in ev if e.kind == "sys"]
        ok = env(t)
        if fn == "rmc_sub_write_control_message" and mode == CONNECTED:
            n = t.args[3].e
            for q in under(s, [GE(n, 1), room(t, i, 3 + n)]): good(q, t, fn, "the connection is established and has room for the message")
        elif fn in ("rmc_sub_write_control_message_by_address", "rmc_sub_write_control_message_by_node_id"):
            n = t.args[-1].e; keys = [("remote_address", 1), ("remote_port", 2)] if "address" in fn else [("node_id", 1)]
            mine = [j for j in range(H.n()) if H.modes[j]]
            for j in mine if len(mine) == 1 else []:
                if H.modes[j] != CONNECTED: continue
                for q in under(s, [EQ(t.args[k].e, H.cf(t.s0, j, f)) for f, k in keys] + [GE(n, 1), room(t, j, 3 + n)]): good(q, t, fn, "the publisher named is connected and has room for the message")
        elif fn == "rmc_sub_write_interval_acknowledgement" and mode == CONNECTED:
            for q in under(s, [room(t, i, 1 + M.size("cmd_ack_interval"))]): good(q, t, fn, "the connection is established and has room for the acknowledgement")
        elif fn == "rmc_pub_resend_packet" and mode == CONNECTED:
            off, m = M.member("pub_packet", "payload_len")
            n = H.ip.view(t.s0, H.ip.load(t.s0, t.args[2].e + off, m["size"], mem=t.s0.mem, peek=True), "u")
            for q in under(s, [room(t, i, 1 + M.size(HDR) + n)]): good(q, t, fn, "the connection has room for the packet")
        elif fn.endswith("_close_connection") and (conn or i == 7):
            if mode: good(s, t, fn, "the connection is open")
        elif fn in ("rmc_pub_write", "rmc_sub_write") and conn and mode:
            if not ok or mode == CONNECTED and not H.pend[i]: continue
            if mode == CONNECTED: good(s, t, fn, "pending output was written")
            else:
                for e in [e for e in ev if e.kind == "sys" and e.name == "getsockopt"]:
                    for q, v in evals(s, lambda z: z.norm(e.x["value"]) if e.x.get("value") is not None else C(1)):
                        for q1 in under(q, [EQ(v, 0)]): good(q1, t, fn, "the connection was established")
        elif fn in ("rmc_pub_read", "rmc_sub_read") and conn and mode == CONNECTED:
            rs = [e for e in ev if e.kind == "opq" and e.name == "rmc_conn_tcp_read"]
            for e in rs[:1]:
                if ok and s.norm(e.ret.e) == C(0): good(s, t, fn, "control data was read and understood")
        elif fn == "rmc_pub_read" and i == LISTEN:
            if ok and any(n in ("accept", "accept4") for n in sysn) and not all(H.modes): good(s, t, fn, "a connection could be accepted")
        elif fn == "rmc_pub_read" and i == MCAST:
            if ok and H.active and sysn: good(s, t, fn, "the loopback message was read")
        elif fn == "rmc_pub_write" and i == MCAST:
            if ok and any(n in ("sendmsg", "sendto") for n in sysn): good(s, t, fn, "the packet was sent")
        elif fn in ("rmc_conn_connect_tcp_by_address", "rmc_conn_process_accept"):
            if not all(H.modes):
                cn = [e for e in ev if e.kind == "sys" and e.name == "connect"]
                fine = [s] if sysn else []
                for e in ev:
                    if e.kind == "sys" and not e.x["ok"]: fine = [b for a in fine for b in under(a, [EQ(e.x["errno"], INPROGRESS)])] if cn and e is cn[-1] else []
                for q in fine: good(q, t, fn, "there is a free slot and no system call failed")
        elif fn.endswith("_activate_context"):
            if ok and not H.active and sysn: good(s, t, fn, "no system call failed")
        elif fn.endswith(("_deactivate_context", "_delete_context")): good(s, t, fn, "the context is valid")
        elif fn == "rmc_pub_timeout_process":
            if ok: good(s, t, fn, "no system call failed")
    # initialising
    for role in ("pub", "sub"):
        cbs = ("poll_add", "poll_modify", "poll_remove", "payload_free") + (("payload_alloc",) if role == "sub" else ("control_listen_port",)) + ("node_id",)
        for omit, zero in (((), ()), (("mcast_if_addr",), ()), (("mcast_if_addr",) + (("control_listen_if_addr",) if role == "pub" else ()), cbs), ((), cbs)):
            for q, t, I in inits(chk, R, role, omit=omit, zero=zero, failing=True):
                if all(e.x["ok"] for e in t["ev"] if e.kind == "sys"): chk.fact(R + ".met", q, False, fn=t["fn"], what="initialisation fails although every argument is valid", key="met-init")
            k = sum(1 for _ in inits(chk, R, role, omit=omit, zero=zero)); fn = "rmc_%s_init_context" % role
            met[fn] = met.get(fn, 0) + k; chk.fact(R + ".met", State(), k > 0, fn=fn, what="initialisation never succeeds", key="met-init-never")
    # channels an inactive context does not have: the kernel answers EBADF, if it is asked at all
    for role, fn, ind, n in (("pub", "rmc_pub_read", MCAST, 0), ("pub", "rmc_pub_read", LISTEN, 0), ("pub", "rmc_pub_write", MCAST, 1), ("sub", "rmc_sub_read", MCAST, 0), ("pub", "rmc_pub_set_multicast_ttl", None, 0)):
        if not M.defined(fn): continue
        for cb in (True, False):
            H = Host(chk, role, [CLOSED] * 2, active=False, cbs=cb, **(dict(queued=n) if role == "pub" else {})); H.ip.callback_hook = None; s0 = H.st.fork(); base = len(s0.events())
            args = [V(64, H.ctx), V(32, S(new_sym("hops", 1, 255))) if ind is None else VC(16, ind)] + ([op_res()] if ind is not None else [])
            for s, x in ends(chk, R, fn, chk.run(H.ip, fn, args, s0.fork())):
                q = s.fork(); feas = True
                for e in s.events()[base:]:
                    if e.kind != "sys" or e.name in ("socket", "close"): continue
                    if not q.entails(EQ(H.ip.view(q, e.args[0], "s"), -1)): chk.fact(R + ".inactive", q, False, fn=e.fn, line=e.line, what="%s is called for a channel that is not open" % e.name, key="inactive-" + e.name); continue
                    if e.x["ok"]: feas = False; break
                    er = e.x.get("errno")
                    if er is None: continue
                    w = under(q, [EQ(er, 9)])
                    if not w: feas = False; break
                    q = w[0]
                if not feas: continue
                for q1, r in evals(q, lambda z: H.ip.view(z, x, "s")):
                    met[fn + " (inactive)"] = met.get(fn + " (inactive)", 0) + 1
                    chk.ob(R + ".inactive", q1, NE(r, 0), fn=fn, what="%s succeeds on a channel that is not open" % fn, key="inactive-" + fn)
    chk.notes.append("requests that were met: " + ", ".join("%s (%d)" % x for x in sorted(met.items())))
    for fn in ("rmc_sub_write_control_message", "rmc_sub_write_control_message_by_address", "rmc_sub_write_control_message_by_node_id", "rmc_sub_write_interval_acknowledgement", "rmc_pub_resend_packet", "rmc_pub_close_connection", "rmc_sub_close_connection", "rmc_pub_write", "rmc_sub_write", "rmc_pub_read", "rmc_sub_read",
               "rmc_conn_connect_tcp_by_address", "rmc_conn_process_accept", "rmc_pub_activate_context", "rmc_sub_activate_context", "rmc_pub_deactivate_context", "rmc_sub_deactivate_context", "rmc_pub_delete_context", "rmc_sub_delete_context", "rmc_pub_timeout_process"):
        if M.defined(fn): chk.fact(R + ".present", State(), met.get(fn, 0) > 0, fn=fn, what="no request that could be met was found for %s" % fn, key="present-" + fn)

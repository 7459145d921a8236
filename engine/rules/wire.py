"""W02, W05: what the library puts on the wire."""
from rules.ctx import *

def header_fields(M, base, g):
    out = []
    for f in ("pid", "node_id", "payload_len", "listen_ip", "listen_port"):
        o, m = M.member(HDR, f)
        out.append((base + o, m["size"], g[f], "header field " + f))
    return out

def low(ip, st, e, bits):
    """value of e stored in an unsigned field of that many bits"""
    lo, hi = st.facts.range(st.norm(e))
    if lo is not None and lo >= 0 and hi is not None and hi < (1 << bits): return e
    v = V(bits, e, "m")
    return ip.view(st, v, "u")

def resend_scn(chk, rc=None):
    M = chk.M; ip = chk.interp(field_inv=inv()); st = State()
    ctx, conn, pack = fresh_obj("ctx", "rmc_pub_context"), fresh_obj("conn", "rmc_connection"), fresh_obj("pack", "pub_packet")
    g = dict(pid=val(ip, st, pack, "pub_packet", "pid").e, node_id=val(ip, st, ctx, "rmc_pub_context", "node_id").e,
             payload_len=val(ip, st, pack, "pub_packet", "payload_len").e, listen_ip=val(ip, st, ctx, "rmc_pub_context", "control_listen_if_addr").e,
             payload=val(ip, st, pack, "pub_packet", "payload").e)
    port = val(ip, st, ctx, "rmc_pub_context", "control_listen_port").e
    st.assume(GE(port, 0)); st.assume(LE(port, 65535)); g["listen_port"] = port
    wb = conn + M.member("rmc_connection", "write_buf")[0]
    u0, p0 = models.cb_get(ip, st, wb)
    return ip, st, ctx, conn, pack, g, wb, u0, p0

def appends_whole(chk, R, ip, st, wb, u0, p0, ok, total, fields, payload, fn, what):
    u1, p1 = models.cb_get(ip, st, wb)
    if not ok:
        chk.ob(R + ".refused", st, [EQ(u1, u0), EQ(p1, p0)], fn=fn, what="%s: a refused command leaves bytes in the pending output" % what, key="refused")
        return
    chk.ob(R + ".length", st, [EQ(u1, u0 + total), EQ(p1, p0)], fn=fn, what="%s: the pending output does not grow by exactly the command's length" % what, key="length")
    appended(chk, R, ip, st, wb, p0 + u0, total, fields, payload, fn, what)

def W02(chk):
    M = chk.M
    chk.need("rmc_pub_resend_packet", "rmc_sub_write_interval_acknowledgement", "rmc_sub_write_control_message", "rmc_pub_timeout_process",
             "rmc_sub_write_control_message_by_address", "rmc_sub_write_control_message_by_node_id")
    chk.assume += [ASSUME_CB, ASSUME_RING, "the control port of a publisher is between 0 and 65535, payload pointers are valid for the stated length"]
    H = M.size(HDR)
    # resend
    fn = "rmc_pub_resend_packet"
    ip, st, ctx, conn, pack, g, wb, u0, p0 = resend_scn(chk)
    for k, s, x in chk.run(ip, fn, [V(64, ctx), V(64, conn), V(64, pack)], st):
        if k == "abort": chk.fact("W02.abort", s, False, what="queueing a resend can stop the process half way", key="abort"); continue
        if k == "fault": chk.fact("W02.fault", s, False, what="queueing a resend can fault: %s" % x, key="fault"); continue
        if k != "ret": continue
        for s2, ok, e in ret_split(ip, chk, [(k, s, x)]):
            f = [(0, 1, C(CMD["packet"]), "command byte")] + header_fields(M, 1, g)
            appends_whole(chk, "W02.resend", ip, s2, wb, u0, p0, ok, 1 + H + g["payload_len"], f, (1 + H, g["payload"], g["payload_len"]), fn, "resent packet")
    # acknowledgement
    fn = "rmc_sub_write_interval_acknowledgement"
    ip = chk.interp(field_inv=inv()); st = State()
    ctx, conn, iv = fresh_obj("ctx", "rmc_sub_context"), fresh_obj("conn", "rmc_connection"), fresh_obj("interval", "sub_pid_interval")
    a, b = val(ip, st, iv, "sub_pid_interval", "first_pid").e, val(ip, st, iv, "sub_pid_interval", "last_pid").e
    mode = val(ip, st, conn, "rmc_connection", "mode").e
    wb = conn + M.member("rmc_connection", "write_buf")[0]; u0, p0 = models.cb_get(ip, st, wb)
    A = M.size("cmd_ack_interval")
    for k, s, x in chk.run(ip, fn, [V(64, ctx), V(64, conn), V(64, iv)], st):
        if k in ("abort", "fault"): chk.fact("W02." + k, s, False, what="queueing an acknowledgement can stop the process: %s" % x, key=k); continue
        if k != "ret": continue
        for s2, ok, e in ret_split(ip, chk, [(k, s, x)]):
            if ok: chk.ob("W02.ack.connected", s2, EQ(mode, CONNECTED), fn=fn, what="an acknowledgement is queued on a channel that is not connected", key="connected")
            f = [(0, 1, C(CMD["ack"]), "command byte")] + [(1 + M.member("cmd_ack_interval", n)[0], 8, v, n) for n, v in (("first_pid", a), ("last_pid", b))]
            appends_whole(chk, "W02.ack", ip, s2, wb, u0, p0, ok, C(1 + A), f, None, fn, "acknowledgement")
    # control message, directly and through the two public calls
    fn = "rmc_sub_write_control_message"
    ip = chk.interp(field_inv=inv()); st = State()
    ctx, conn = fresh_obj("ctx", "rmc_sub_context"), fresh_obj("conn", "rmc_connection")
    mode = val(ip, st, conn, "rmc_connection", "mode").e
    wb = conn + M.member("rmc_connection", "write_buf")[0]; u0, p0 = models.cb_get(ip, st, wb)
    args, by = chk.arg_syms(fn, ctx=V(64, ctx), conn=V(64, conn))
    pl, n = args[2].e, args[3].e
    L = M.size("cmd_control_message")
    for k, s, x in chk.run(ip, fn, args, st):
        if k in ("abort", "fault"): chk.fact("W02." + k, s, False, what="queueing a control message can stop the process: %s" % x, key=k); continue
        if k != "ret": continue
        for s2, ok, e in ret_split(ip, chk, [(k, s, x)]):
            if ok: chk.ob("W02.ctl.connected", s2, [EQ(mode, CONNECTED), GE(pl, 1), GE(n, 1)], fn=fn, what="a control message is queued on a channel that is not connected or without content", key="connected")
            f = [(0, 1, C(CMD["ctl"]), "command byte"), (1 + M.member("cmd_control_message", "payload_len")[0], 2, n, "payload length")]
            appends_whole(chk, "W02.ctl", ip, s2, wb, u0, p0, ok, 1 + L + n, f, (1 + L, pl, n), fn, "control message")
    for fn, find in (("rmc_sub_write_control_message_by_address", "rmc_conn_find_by_address"), ("rmc_sub_write_control_message_by_node_id", "rmc_conn_find_by_node_id")):
        st = State(); ctx, conn = fresh_obj("ctx", "rmc_sub_context"), fresh_obj("found", "rmc_connection")
        ip = chk.interp(field_inv=inv(), opaque={find: opq([0, lambda ip, s: V(64, conn)])}); args, by = chk.arg_syms(fn, ctx=V(64, ctx))
        mode = val(ip, st, conn, "rmc_connection", "mode").e
        wb = conn + M.member("rmc_connection", "write_buf")[0]; u0, p0 = models.cb_get(ip, st, wb)
        pl, n = args[-2].e, args[-1].e
        for k, s, x in chk.run(ip, fn, args, st):
            if k in ("abort", "fault"): chk.fact("W02." + k, s, False, what="queueing a control message can stop the process: %s" % x, key=k); continue
            if k != "ret": continue
            q = calls(s, find); none = bool(q) and all(s.norm(c.ret.e).is_const() for c in q)
            for s2, ok, e in ret_split(ip, chk, [(k, s, x)]):
                if ok and not q: chk.unsure("W02.by.target", fn, "target", "the connection is not looked up with " + find); continue
                if ok: chk.fact("W02.by.found", s2, not none, fn=fn, what="success is reported although no such connection was found", key="found")
                if ok: chk.ob("W02.by.connected", s2, [EQ(mode, CONNECTED), GE(pl, 1), GE(n, 1)], fn=fn, what="a control message is queued on a channel that is not connected or without content", key="connected")
                f = [(0, 1, C(CMD["ctl"]), "command byte"), (1 + M.member("cmd_control_message", "payload_len")[0], 2, n, "payload length")]
                appends_whole(chk, "W02.by", ip, s2, wb, u0, p0, ok, 1 + L + n, f, (1 + L, pl, n), fn, "control message")
                for c in q:
                    chk.ob("W02.by.lookup", s2, [EQ(c.args[0].e, ctx + M.member("rmc_sub_context", "conn_vec")[0])] + [EQ(c.args[i].e, args[i].e) for i in range(1, len(c.args))], fn=fn, line=c.line, what="the connection is looked up by something else than asked for", key="lookup")
    # a resend is only queued on a connected channel
    resend_only_connected(chk, "W02")

def resend_only_connected(chk, R):
    M = chk.M; fn = "rmc_pub_timeout_process"
    op = {"rmc_pub_resend_packet": opq([0, anyerr]), "pub_packet_ack": opq([None]), "rmc_pub_packet_ack": opq([0])}
    ip = chk.interp(field_inv=inv(), opaque=op); ctx = fresh_obj("ctx", "rmc_pub_context"); st = State()
    n = 0
    seen = set()
    for k, s, x in chk.run(ip, fn, [V(64, ctx)], st):
        for e in s.events():
            if e.kind == "opq" and e.name == "rmc_pub_resend_packet":
                n += 1
                conn = s.norm(e.args[1].e)
                for s2, m in evals(s, lambda q: at(ip, q, e, conn, "rmc_connection", "mode")):
                    chk.ob(R + ".resend.connected", s2, EQ(m, CONNECTED), fn=e.fn, line=e.line, what="a packet is resent over a channel that is not connected", key="resend-connected")
    chk.fact(R + ".resend.present", State(), n > 0, fn=fn, what="timeout processing never resends a packet", key="resend-present")

# --------------------------------------------------------------------------- W05
class Mcast:
    """rmc_pub_write on the multicast index; what happens to a packet once sent is recorded, not followed"""
    def __init__(s, chk, **more):
        M = chk.M; s.chk = chk; s.M = M
        op = {"pub_packet_sent": opq([None]), "rmc_pub_packet_release": opq([0]), "pub_packet_release": opq([None])}
        op.update(more)
        s.ip = chk.interp(field_inv=inv(), opaque=op); s.st = State(); s.ctx = fresh_obj("ctx", "rmc_pub_context")
        s.fd = val(s.ip, s.st, s.ctx, "rmc_pub_context", "mcast_send_descriptor").e
        s.gport = val(s.ip, s.st, s.ctx, "rmc_pub_context", "mcast_port").e
        s.gaddr = s.ip.view(s.st, val(s.ip, s.st, s.ctx, "rmc_pub_context", "mcast_group_addr"), "u")
        s.cport = val(s.ip, s.st, s.ctx, "rmc_pub_context", "control_listen_port").e
        for p in (s.gport, s.cport): s.st.assume(GE(p, 0)); s.st.assume(LE(p, 65535))
        s.queued = s.ctx + M.member("rmc_pub_context", "pub_ctx.queued")[0]
        args, by = chk.arg_syms("rmc_pub_write", ctx=V(64, s.ctx), s_ind=VC(16, MCAST))
        s.outs = chk.run(s.ip, "rmc_pub_write", args, s.st)
    def packet(s, st, e):
        """the packet a send is about: the one then marked as sent, else the one whose id or payload is on the wire"""
        ev = st.events()
        for c in ev[ev.index(e):]:
            if c.kind == "opq" and c.name == "pub_packet_sent": return st.norm(c.args[1].e)
        v = e.x.get("iov") or []
        for b, off, size in ([(v[0][0], 0, 8)] if v else []) + [(q[0], None, 8) for q in v[1:]]:
            if off is None: val_ = st.norm(b)
            else: val_ = st.norm(s.ip.load(st, st.norm(b) + off, size, mem=e.mem, peek=True).e)
            kb = keybase(val_.t) if val_.t else None
            o = IP.ORIGIN.get(kb)
            if o is not None:
                ob_ = keybase(o[0])
                if ob_ is not None and o[0] == ((ob_, 1),) and IP.PTYPE.get(ob_) == "pub_packet": return S(ob_)
        return None

def iov_content(chk, R, ip, s, e, fields, payload, total, fn, what):
    """the segments of a vectored send, in order, are the given fields and payload and nothing else"""
    v = e.x.get("iov")
    if v is None:
        chk.unsure(R, fn, "segments", "the number of segments is not a constant", e.line); return
    po, psrc, plen = payload
    todo = [(s, 0, C(0), [])]
    while todo:
        q, i, cur, got = todo.pop()
        if i < len(v):
            b, n = q.norm(v[i][0]), q.norm(v[i][1])
            for q2, some in splits(q, GE(n, 1)):
                todo.append((q2, i + 1, q2.norm(cur + n) if some else cur, got + ([(cur, b, n)] if some else [])))
            continue
        chk.ob(R + ".length", q, EQ(cur, total), fn=fn, line=e.line, what="%s: not exactly header and payload are sent" % what, key="length")
        for fo, size, exp, nm in fields:
            hit = [p for p in got if q.entails(LE(p[0], fo)) and q.entails(GE(p[0] + p[2], fo + size))]
            if not hit:
                if any(overlaps(q, p[0], p[2], fo, size) for p in got): chk.unsure(R + ".field", fn, nm, "the field straddles segments", e.line)
                else: chk.fact(R + ".field", q, False, fn=fn, line=e.line, what="%s: %s is not sent" % (what, nm), key=nm)
                continue
            off, b, n = hit[0]
            for q2, x in evals(q, lambda y: ip.view(y, ip.load(y, y.norm(b - off + fo), size, mem=e.mem, peek=True), "u")):
                chk.ob(R + ".field", q2, EQ(x, exp), fn=fn, line=e.line, what="%s: wrong %s" % (what, nm), key=nm)
        for q2, some in splits(q, GE(plen, 1)):
            if not some: continue
            for off, b, n in got:
                if not overlaps(q2, off, n, po, plen): continue
                if b == q2.norm(psrc) or keybase(b.t) == keybase(q2.norm(psrc).t):
                    chk.ob(R + ".payload", q2, EQ(b - off + po, psrc), fn=fn, line=e.line, what="%s: the payload bytes are not those of the packet, in order" % what, key="payload"); continue
                kb = keybase(b.t)
                if kb is None or SYMS[kb].kind not in ("alloca", "heap"):
                    chk.fact(R + ".payload", q2, False, fn=fn, line=e.line, what="%s: the payload bytes are not those of the packet" % what, key="payload"); continue
                if q2.entails(LE(off + n, po)): continue
                for q3, r in evals(q2, lambda y: staged(ip, y, e, b - off + po)):
                    if r is None: chk.unsure(R + ".payload", fn, "payload", "payload staged through a buffer", e.line)
                    elif r == "no": chk.fact(R + ".payload", q3, False, fn=fn, line=e.line, what="%s: the payload bytes are not those of the packet" % what, key="payload")
                    else: chk.ob(R + ".payload", q3, EQ(r, psrc), fn=fn, line=e.line, what="%s: the payload bytes are not those of the packet" % what, key="payload")

def W05(chk):
    M = chk.M; H = M.size(HDR)
    chk.need("rmc_pub_write", "rmc_pub_resend_packet", "rmc_pub_read", "rmc_sub_read")
    chk.assume += [ASSUME_CB, ASSUME_RING, ASSUME_LIST, "ports configured for a publisher are between 0 and 65535; payload pointers are valid for the stated length; sendmsg sends a datagram whole or fails"]
    # ---- by multicast
    D = Mcast(chk); n = 0; seen = set(); fn = "rmc_pub_write"
    for k, s, x in D.outs:
        if k == "fault": chk.fact("W05.fault", s, False, what="multicasting can fault: %s" % x, key="fault"); continue
        snd = [e for e in s.events() if e.kind == "sys" and e.name in ("sendmsg", "sendto", "send", "write", "writev")]
        for e in snd:
            n += 1
            if e.name != "sendmsg": chk.unsure("W05.mcast", e.fn, "sendmsg", "packets are sent with another call", e.line); continue
            pack = D.packet(s, e)
            if pack is None: chk.unsure("W05.mcast.which", e.fn, "the packet being sent", "no packet is related to the datagram", e.line); continue
            chk.ob("W05.mcast.fd", s, [EQ(D.ip.view(s, e.args[0], "s"), D.fd), NE(D.fd, -1)], fn=e.fn, line=e.line, what="a packet is not sent through the multicast descriptor", key="fd")
            d = e.x["dst"]
            if d is None: chk.fact("W05.mcast.dest", s, False, fn=e.fn, line=e.line, what="a packet is sent without a destination", key="dest")
            else:
                for s2, (a, p) in evals(s, lambda q: (models.bswap(q, D.gaddr, 32), models.bswap(q, D.gport, 16))):
                    chk.ob("W05.mcast.dest", s2, [EQ(d["addr"], a), EQ(d["port"], p)], fn=e.fn, line=e.line, what="a packet is not sent to the configured group and port", key="dest")
            g = dict(pid=at(D.ip, s, e, pack, "pub_packet", "pid"), payload_len=at(D.ip, s, e, pack, "pub_packet", "payload_len"),
                     node_id=at(D.ip, s, e, D.ctx, "rmc_pub_context", "node_id"), listen_ip=at(D.ip, s, e, D.ctx, "rmc_pub_context", "control_listen_if_addr"), listen_port=D.cport)
            pl = at(D.ip, s, e, pack, "pub_packet", "payload")
            for f in ("pid", "payload_len", "payload"):
                o, m = M.member("pub_packet", f); z = D.ip.load(s, pack + o, m["size"], mem={}, peek=True, hint="p" if m["kind"] == "ptr" else None)
                chk.ob("W05.mcast.unaltered", s, EQ(at(D.ip, s, e, pack, "pub_packet", f), D.ip.view(s, z, "u")), fn=e.fn, line=e.line, what="the packet is altered before it is sent", key="unaltered")
            chk.ob("W05.mcast.fits", s, LE(g["payload_len"] + H, 0xFF78), fn=e.fn, line=e.line, what="a packet above the size limit is sent", key="fits")
            iov_content(chk, "W05.mcast", D.ip, s, e, header_fields(M, 0, g), (H, pl, g["payload_len"]), g["payload_len"] + H, e.fn, "multicast packet")
    # a packet that can be queued is never refused as too large (explicit queues, real bookkeeping)
    import rules.pubq as pubq
    for nq in (1, 2):
        X = pubq.Pubc(chk, queued=nq)
        for k, s, x in pubq.run_write(chk, X):
            if k != "ret": continue
            sd = [e for e in s.events() if e.kind == "sys" and e.name == "sendmsg"]
            if sd and not sd[-1].x["ok"]: continue                             # what the kernel says is handed on
            for s1, r in evals(s, lambda q: X.ip.view(q, x, "s")):
                chk.ob("W05.mcast.only-large", s1, NE(r, 90), fn=fn, what="a packet that fits is refused as too large", key="only-large")
    chk.fact("W05.mcast.present", State(), n > 0, fn=fn, what="nothing is ever multicast", key="present")
    # ---- resent over a control channel
    fn = "rmc_pub_resend_packet"
    ip, st, ctx, conn, pack, g, wb, u0, p0 = resend_scn(chk)
    for k, s, x in chk.run(ip, fn, [V(64, ctx), V(64, conn), V(64, pack)], st):
        if k != "ret": continue
        for s2, ok, e in ret_split(ip, chk, [(k, s, x)]):
            if not ok: continue
            f = [(0, 1, C(CMD["packet"]), "command byte")] + header_fields(M, 1, g)
            appends_whole(chk, "W05.resend", ip, s2, wb, u0, p0, ok, 1 + H + g["payload_len"], f, (1 + H, g["payload"], g["payload_len"]), fn, "resent packet")
    # ---- both ends agree on codes and layouts: what one queues is what the other takes for it
    import rules.cmds as cmds
    tabs = cmds.tables(chk)
    for role, want in (("pub", [CMD["ack"], CMD["ctl"]]), ("sub", [CMD["packet"]])):
        if not tabs[role]: chk.unsure("W05.codes", "rmc_%s_read" % role, "dispatch table", "no constant dispatch table is handed to rmc_conn_tcp_read"); continue
        chk.fact("W05.codes", State(), sorted(c for c, _ in tabs[role]) == want, fn="rmc_%s_read" % role, what="the commands understood are not those the peer sends", key="codes")
    for role, code, h, kind in cmds.handlers(chk, tabs): cmds.content(chk, "W05", role, h, kind)
    for fn, struct, kind, codes in (("rmc_sub_write_interval_acknowledgement", "cmd_ack_interval", "ack", 2), ("rmc_sub_write_control_message", "cmd_control_message", "ctl", 3)):
        ip = chk.interp(field_inv=inv()); st = State(); conn = fresh_obj("conn", "rmc_connection")
        wb = conn + M.member("rmc_connection", "write_buf")[0]; u0, p0 = models.cb_get(ip, st, wb)
        over = dict(ctx=V(64, fresh_obj("ctx", "rmc_sub_context")), conn=V(64, conn))
        args, by = chk.arg_syms(fn, **over)
        if kind == "ack":
            iv = fresh_obj("interval", "sub_pid_interval"); args[2] = V(64, iv)
            f = [(1 + M.member(struct, n)[0], 8, val(ip, st, iv, "sub_pid_interval", n).e, n) for n in ("first_pid", "last_pid")]; pay = None; tot = C(1 + M.size(struct))
        else:
            f = [(1 + M.member(struct, "payload_len")[0], 2, args[3].e, "payload length")]; L = M.size(struct); pay = (1 + L, args[2].e, args[3].e); tot = 1 + L + args[3].e
        for k, s, x in chk.run(ip, fn, args, st):
            if k != "ret": continue
            for s2, ok, e in ret_split(ip, chk, [(k, s, x)]):
                if ok: appends_whole(chk, "W05." + kind, ip, s2, wb, u0, p0, ok, tot, [(0, 1, C(codes), "command byte")] + f, pay, fn, "acknowledgement" if kind == "ack" else "control message")
